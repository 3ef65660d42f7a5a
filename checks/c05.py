"""C05: recorded forest samples are append-only and independent"""
from samplerlib import *
from c08 import container_session
from forestlib import project


def main():
    ck = Check("C05")
    rng = random.Random(SEED)
    sampler_models(ck)
    r = model_check("ContainerMC", cfg("ContainerMC"))
    ck.add_model("ContainerMC: sample ownership in a collection", r)
    scripts = [session(rng, adjust=False, pred=True, iters=rng.randint(6, 16)) for _ in range(900 if THOROUGH else 130)]
    res = run_sessions(scripts)
    v = Validation("SamplerTrace", consts(CheckAppend=True)).run([("run%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("sampling runs", v)
    # collections edited by hand: every sample is its own copy
    beh, _ = behaviours("ContainerMC", cfg("ContainerMC", Emit="TRUE"))
    drop = set(json.dumps(b[:-1]) for b in beh)
    beh = [b for b in beh if json.dumps(b) not in drop]
    rng.shuffle(beh)
    cs = [container_session(b, rng) for b in beh[:2000 if THOROUGH else 300]]
    ck.cov["spec_behaviours_replayed"] = len(cs)
    cres = run_sessions(cs)
    v = Validation("ForestTrace").run([("coll%d" % i, project(s, r)) for i, (s, r) in enumerate(zip(cs, cres))])
    ck.add_validation("collection edits", v)
    ck.sample({"session": [c for c in scripts[0] if c["op"] != "data"][:12]})
    ck.sample({"collection": cs[0]})
    return ck.finish()

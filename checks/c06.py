"""C06: trees made by a grow-from-root iteration contain only admissible splits"""
from samplerlib import *


def main():
    ck = Check("C06")
    rng = random.Random(SEED)
    sampler_models(ck)
    scripts = []
    for i in range(1500 if THOROUGH else 200):
        scripts.append(session(rng, kinds=("gfr",) if i % 3 else ("gfr", "gfr", "mcmc"), adjust=False, deep=i % 2 == 0, ml=rng.choice([0, 1, 1, 2, 3, 5, 8])))
    res = run_sessions(scripts)
    v = Validation("SamplerTrace", consts(CheckGfr=True)).run([("run%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("sampling runs", v)
    ck.cov["gfr_iterations"] = sum(1 for s in scripts for c in s if c["op"] == "gfr")
    ck.cov["splits_seen"] = sum(not n["isleaf"] for rs in res for r in rs if r.get("op") == "gfr" for t in r.get("cur", []) for n in t["nodes"])
    ck.sample({"session": [c for c in scripts[0] if c["op"] != "data"][:12]})
    return ck.finish()

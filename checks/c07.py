"""C07: an MCMC iteration changes each tree by at most one grow or prune"""
from samplerlib import *


def main():
    ck = Check("C07")
    rng = random.Random(SEED)
    sampler_models(ck)
    scripts = []
    for i in range(1500 if THOROUGH else 200):
        scripts.append(session(rng, kinds=("mcmc",) if i % 3 else ("gfr", "mcmc", "mcmc"), adjust=i % 5 == 0, deep=i % 2 == 0, ml=rng.choice([0, 1, 1, 2, 3]), iters=rng.randint(6, 18)))
    res = run_sessions(scripts)
    v = Validation("SamplerTrace", consts(CheckMcmc=True)).run([("run%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("sampling runs", v)
    ck.cov["mcmc_iterations"] = sum(1 for s in scripts for c in s if c["op"] == "mcmc")
    ck.sample({"session": [c for c in scripts[0] if c["op"] != "data"][:12]})
    return ck.finish()

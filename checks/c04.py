"""C04: residual plus the fit of every active forest is the outcome, after any mix of iterations"""
from samplerlib import *


def main():
    ck = Check("C04")
    rng = random.Random(SEED)
    sampler_models(ck)
    scripts = [session(rng) for _ in range(1500 if THOROUGH else 170)]
    res = run_sessions(scripts)
    v = Validation("SamplerTrace", consts(CheckResid=True)).run([("run%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("sampling runs", v)
    ck.assumptions += ["residuals and fits are compared in fixed point (2^14 per unit) with a tolerance of one unit per added term", "bases are held fixed during a run"]
    ck.sample({"session": [c for c in scripts[0] if c["op"] != "data"][:12]})
    return ck.finish()

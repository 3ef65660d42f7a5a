"""C12: recorded random effects: storage, prediction, documents"""
from rfxlib import *


def main():
    ck = Check("C12")
    rng = random.Random(SEED)
    N = 6 if THOROUGH else 1
    models(ck, [("Rfx: flat arrays hold every recorded sample at its place, one basis column", "RfxMC", cfg("RfxMC", MaxOps=4 if THOROUGH else 3), ["Store", "Reload"]),
                ("Rfx: flat arrays, two basis columns", "RfxMC", cfg("RfxMC", MaxOps=3 if THOROUGH else 2).replace("Bases <- BasesOne", "Bases <- BasesTwo"), ["Store", "Reload"])])
    beh, r = behaviours("RfxEmit", cfg("RfxEmit", MaxOps=6 if THOROUGH else 5))
    longest = max(len(b) for b in beh)
    beh = [b for b in beh if len(b) == longest]
    rng.shuffle(beh)
    beh = beh[:6000 if THOROUGH else 500]
    ck.add_model("Rfx: record, change and reload behaviours replayed on the code", r)
    sc = [storage_session(rng, b) for b in beh] + [storage_session(rng) for _ in range(400 * N)]
    res = run_sessions([s for s, _ in sc])
    v = Validation("RfxTrace").run([("store%d" % i, events(s, r, c)) for i, ((s, c), r) in enumerate(zip(sc, res))])
    ck.add_validation("recorded samples", v)
    ck.cov["behaviours replayed"] = len(beh)
    ck.sample({"session": sc[-1][0]})
    return ck.finish()

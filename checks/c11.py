"""C11: random effects and the shared residual"""
from rfxlib import *


def main():
    ck = Check("C11")
    rng = random.Random(SEED)
    acts = ["AddBack", "DrawGroup", "DrawWorking", "DrawVar", "TakeOut", "Forest", "SetParams"]
    models(ck, [("Rfx: residual conserved over every order of iterations and parameter changes, one basis column", "RfxMC", cfg("RfxMC", MaxOps=5 if THOROUGH else 3), acts),
                ("Rfx: two basis columns, unordered labels", "RfxMC", cfg("RfxMC", MaxOps=3 if THOROUGH else 2).replace("LabelSets <- LabelsMC", "LabelSets <- LabelsMC").replace("Bases <- BasesOne", "Bases <- BasesTwo"), acts)])
    N = 6 if THOROUGH else 1
    for name, sc in (("residual", [residual_session(rng) for _ in range(400 * N)]), ("noiseless", [noiseless_session(rng) for _ in range(250 * N)]), ("groups", [groups_session(rng) for _ in range(100 * N)])):
        res = run_sessions([s for s, _ in sc])
        v = Validation("RfxTrace").run([("%s%d" % (name, i), events(s, r, c)) for i, ((s, c), r) in enumerate(zip(sc, res))])
        ck.add_validation("random effects: " + name, v)
    sc = [post_session(rng) for _ in range(200 * N)]
    res = run_sessions([s for s, _ in sc])
    v = Validation("RfxTrace").run([("post%d" % i, events(s, r, c)) for i, ((s, c), r) in enumerate(zip(sc, res))])
    ck.add_validation("centres and spreads of the draws", v)
    ck.assumptions += ["reals are compared in units of 1/512", "outcomes and bases are integers, 1 to 16 rows, 1 to 8 groups, 1 to 3 basis columns"]
    ck.sample({"session": sc[0][0]})
    return ck.finish()

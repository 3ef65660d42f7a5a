"""C10: leaf indices and forest kernels (ForestOps LeafIdxOK / KernelOf) against the real code"""
from common import *
from forestlib import *


def session(rng):
    d = ForestDriver(rng, p=rng.randint(1, 3), cat_feats=rng.choice([(), (0,)]), maxh=31)
    for f in range(rng.randint(1, 2)):
        c = d.forest(f, nt=rng.randint(1, 4), ns=rng.choice([1, 2]))
    for dd in range(3):
        d.data(dd, n=rng.randint(1, 6))
    for _ in range(rng.randint(1, 4)):
        c = d.F[rng.choice(list(d.F))]
        for _ in range(rng.randint(0, 10)):
            d.edit(c)
        k = rng.randrange(len(c.s))
        d.script.append({"op": "leafidx", "f": c.f, "k": k, "d": rng.randrange(3)})
        for _ in range(2):
            q = {"op": "kernel", "f": c.f, "k": rng.randrange(len(c.s)), "d": rng.randrange(3), "kernel": rng.randrange(2), "external": rng.random() < 0.4, "mapped": rng.random() < 0.5}
            if rng.random() < 0.7:
                q["d2"] = rng.randrange(3)
            d.script.append(q)
    return d.script


def main():
    ck = Check("C10")
    rng = random.Random(SEED)
    r = model_check("LeafIdxMC", cfg("LeafIdxMC", MaxTrees=3 if THOROUGH else 2), workers="8", expect_actions=["Grow", "Stop"])
    ck.add_model("LeafIdxMC: numbering of leaves and kernel laws over enumerated forests", r)
    beh, _ = behaviours("LeafIdxMC", cfg("LeafIdxMC", Emit="TRUE"))
    rng.shuffle(beh)
    S = []
    grid = [[a] for a in (-1, 0, 0.5, 1, 2)]
    for b in beh[:400 if THOROUGH else 150]:
        s = [{"op": "begin", "seed": 1}, {"op": "forest", "f": 0, "trees": len(b), "samples": 1}, {"op": "data", "d": 0, "X": grid}, {"op": "data", "d": 1, "X": [[2], [-1], [0]]}]
        for j, t in enumerate(b):
            for h, n in sorted(t):
                if n["k"] != "leaf":
                    s.append({"op": "expand", "f": 0, "k": 0, "j": j, "node": h, "feat": n["f"], "thr": n["t"] / SC, "lv": [h], "rv": [h]})
        s += [{"op": "leafidx", "f": 0, "k": 0, "d": 0}, {"op": "kernel", "f": 0, "k": 0, "d": 0, "d2": 1}]
        S.append(s)
    ck.cov["spec_behaviours_replayed"] = len(S)
    S += [session(rng) for _ in range(2000 if THOROUGH else 350)]
    E, R = run_fine(rng, S)
    ck.cov["relabelled_sessions"] = sum(1 for a, b in zip(S, R) if a is not b)
    v = Validation("ForestTrace").run([("k%d" % i, e) for i, e in enumerate(E)])
    ck.add_validation("leaf indices and kernels", v)
    ck.sample({"session": S[-1][:8]})
    return ck.finish()

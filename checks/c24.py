"""C24: tree moves are made with the probabilities the model prescribes"""
from moveslib import *


def settings(rows="Rows2", w="W2", **kw):
    return cfg("MovesMC", **kw).replace("Rows <- Rows2", "Rows <- " + rows).replace("Weights <- W2", "Weights <- " + w)


def main():
    ck = Check("C24")
    rng = random.Random(SEED)
    N = 4 if THOROUGH else 1
    iters = 30000 if THOROUGH else 10000
    acts = ["Grow", "Prune"]
    models(ck, [("Moves: reversible (5 rows, 2 features)", "MovesMC", settings(), acts),
                ("Moves: reversible (steeper prior)", "MovesMC", settings("Rows4", Beta=2, MinLeaf=2), acts),
                ("Moves: reversible (6 rows, 3 features, one of no weight)", "MovesMC", settings("Rows3", "W3"), acts),
                ("Moves: leaves of two rows at least", "MovesMC", settings("Rows4", MinLeaf=2), acts),
                ("Moves: leaves of three rows at least", "MovesMC", settings("Rows4", MinLeaf=3), acts)])
    for variant, inv in (("inverted", "InvBalanced"), ("twigs", "InvBalanced"), ("strict", "InvFree")):
        try:
            model_check("MovesMC", settings(Variant='"%s"' % variant), workers="1")
        except CheckError as e:
            if "Invariant %s is violated" % inv not in str(e):
                raise
        else:
            raise CheckError("the model does not notice the variant %s" % variant)
    for gfr, n in ((False, 40 * N), (True, 20 * N)):
        cs = [setting(rng, gfr) for _ in range(n)]
        res = run_sessions([script(rng, c, gfr, iters) for c in cs])
        traces = []
        for i, (c, r) in enumerate(zip(cs, res)):
            x = r[-1]
            traces.append(("run%d" % i, [err_event(x)] if "trees" not in x else (fresh_events if gfr else move_events)(c, x)))
            ck.cov["iterations"] = ck.cov.get("iterations", 0) + iters
            ck.cov["different_trees"] = ck.cov.get("different_trees", 0) + len(x.get("trees", []))
        v = Validation("MovesTrace").run(traces)
        ck.add_validation("fresh trees" if gfr else "chains", v)
        ck.sample({"settings": {k: cs[0][k] for k in ("X", "w", "alpha", "beta", "ml")}, "event": traces[0][1][1] if len(traces[0][1]) > 1 else None})
    for lang in ("py", "r"):
        cs, res = api_runs(rng, lang, 16 * N, iters // 4)
        traces = []
        for i, (c, r) in enumerate(zip(cs, res)):
            traces.append(("%s%d" % (lang, i), [err_event(r)] if "text" not in r else (fresh_events if c["gfr"] else move_events)(c, parts(r["text"], c))))
        ck.add_validation("runs through the objects (%s)" % lang, Validation("MovesTrace").run(traces))
    ck.assumptions += ["frequencies are judged at six standard deviations plus 2/3 of a percent", "forests of one tree, up to ten rows; features with up to four values in a node"]
    return ck.finish()

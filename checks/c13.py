"""C13: equal seeds and inputs give equal results"""
from seedslib import *
import rfxlib


def main():
    ck = Check("C13")
    rng = random.Random(SEED)
    N = 6 if THOROUGH else 1
    acts = ["Start", "Step", "Drop", "Overwrite"]
    models(ck, [("Seeds: runs next to one another agree with their keys", "SeedsMC", cfg("SeedsMC", MaxOps=9 if THOROUGH else 7), acts),
                ("Seeds: three runs", "SeedsMC", cfg("SeedsMC", Runs="{1, 2, 3}", MaxOps=8 if THOROUGH else 6), acts)])
    # the designs that would not do are told apart
    for k in ("Shared", "Borrow"):
        try:
            model_check("SeedsMC", cfg("SeedsMC", **{k: "TRUE"}))
        except CheckError as e:
            if "InvSame" not in str(e) and "InvKnown" not in str(e):
                raise
        else:
            raise CheckError("the model does not notice %s" % k)
    beh, r = behaviours("SeedsMC", cfg("SeedsMC", Emit="TRUE"))
    ck.add_model("Seeds: interleavings replayed on the code", r)
    beh = [b for b in beh if len(b) == 7 and sum(o["op"] == "step" for o in b) >= 3]
    for lang, name, n in (("py", "seeds.py", 60), ("r", "seeds.R", 50)):
        g = groups(rng, beh, lang, n * N, 8)
        order = list(range(len(g)))
        rng.shuffle(order)
        res = run_driver(lang, name, [g[i][1] for i in order], lambda s: {"out": ["crash"] * len(s["ops"])})
        v = Validation("SeedsTrace").run(low_events([g[i] for i in order], res))
        ck.add_validation("interleaved runs (%s)" % lang, v)
    ck.sample({"session": g[0][1]})
    # the core library on its own, whole sessions again in another process
    cx = [cxx_session(rng) for _ in range(150 * N)] + [rfxlib.residual_session(rng)[0] for _ in range(60 * N)]
    order = doubled(rng, cx)
    res = run_sessions([s for _, s in order])
    ev = {}
    for j, ((i, s), r) in enumerate(zip(order, res)):
        ev.setdefault(i, []).extend(part_events("c%d" % j, str(i), [dig(x) for x in r]))
    v = Validation("SeedsTrace").run([("core%d" % i, t) for i, t in sorted(ev.items())])
    ck.add_validation("core samplers again", v)
    # whole fits
    for lang, kind, nf, n in (("py", "bart", 1, 30), ("py", "bcf", 2, 30), ("r", "bart", 1, 24), ("r", "bcf", 2, 30)):
        S = settings(nf)
        sc = [bart_session(rng, lang, rng.choice(S)) if kind == "bart" else bcf_session(rng, lang, rng.choice(S), rng.random() < .12) for _ in range(n * N)]
        for s in sc:
            if rng.random() < .15:
                s["args"]["random_seed"] = 0
        order = doubled(rng, sc)
        res = run_driver(lang, "model.py" if lang == "py" else "model.R", [s for _, s in order], lambda s: {"error": "crash"})
        v = Validation("SeedsTrace").run(fit_events(order, res))
        ck.add_validation("%s of %s models, twice" % (kind, lang), v)
    ck.assumptions += ["runs on one machine with one build", "R: the session's own generator (set.seed) is seeded too: the adaptive treatment coding draws from it"]
    return ck.finish()

"""C25: the working residual while models are fitted"""
from modellib import *


def main():
    ck = Check("C25")
    rng = random.Random(SEED)
    models(ck, [("FitLoop: every order of steps, recodings and effects with small values", "FitLoopMC", cfg("FitLoopMC"), ["StepMu", "StepTau", "Recode", "Effects"])])
    S1, S2 = settings(1), settings(2)
    kept = []
    for lang, kind, n in (("py", "bart", 90), ("py", "bcf", 200), ("r", "bart", 90), ("r", "bcf", 200)):
        S = S1 if kind == "bart" else S2
        picked = [rng.choice(S) for _ in range(n * 10 if THOROUGH else n)]
        sc = [bart_session(rng, lang, st) if kind == "bart" else bcf_session(rng, lang, st, rng.random() < .05) for st in picked]
        for s in sc:   # only fitting matters here
            s["reload"], s["Xl"], s["zl"], s["pil"] = None, [], [], []
            if s.get("rfx"):
                s["rfx"]["l"] = []
        res = run_driver(lang + "x" if lang == "py" else "rx", "model.py" if lang == "py" else "model.R", sc, lambda s: {"error": "crash"})
        evs = [(s, resid_events(s, r)) for s, r in zip(sc, res)]
        ok = [(s, e) for s, e in evs if e]
        if len(ok) * 2 < len(sc):
            raise CheckError("%s %s: only %d of %d sessions could be fitted: %s" % (lang, kind, len(ok), len(sc), [r["error"] for r in res if "error" in r][:1]))
        ck.cov["%s %s sessions" % (lang, kind)] = len(ok)
        kept += [("%s-%s%d" % (lang, kind, i), e) for i, (s, e) in enumerate(ok)]
    v = Validation("ResidTrace").run(kept)
    ck.add_validation("residual at every forest update", v)
    ck.sample({"session": sc[-1]})
    return ck.finish()

"""C26: variances, random effects and codings are drawn from the law their prior and the current state imply"""
from drawslib import *


def main():
    ck = Check("C26")
    rng = random.Random(SEED)
    N = 6 if THOROUGH else 1
    acts = ["See", "SeeMany", "SeeRow"]
    models(ck, [("Conj: variances and codings updated by values in any grouping and order", "ConjMC", cfg("ConjMC", MaxSeen=3 if THOROUGH else 2), acts)])
    for sub, inv in (({"HalfOfPrior": "TRUE", "HalfOfData": 2, "Shape2": 4, "Scale2": 4}, "InvLaw"), ({"Treatments": "{1, 2}"}, "InvApart")):
        try:
            model_check("ConjMC", cfg("ConjMC", **sub), workers="1")
        except CheckError as e:
            if "Invariant %s is violated" % inv not in str(e):
                raise
        else:
            raise CheckError("the model does not notice %s" % sub)
    sc = [variance_session(rng, 60) for _ in range(48 * N)]
    res = run_sessions(sc)
    traces = []
    for b in range(0, len(sc), 8):
        traces.append(("variances%d" % (b // 8), sum((variance_events(s, r) for s, r in zip(sc[b:b + 8], res[b:b + 8])), []) + [{"ev": "verdict"}]))
    v = Validation("DrawTrace").run(traces)
    ck.add_validation("variances and leaf scales", v)
    sc = [effects_session(rng, 60, [.1, 1, 8][i // 8 % 3]) for i in range(48 * N)]   # traces of one error variance each: what is off shows in one direction
    res = run_sessions([s for s, _ in sc])
    traces = []
    for b in range(0, len(sc), 8):
        traces.append(("effects%d" % (b // 8), sum((effects_events(s, r, c) for (s, c), r in zip(sc[b:b + 8], res[b:b + 8])), []) + [{"ev": "verdict"}]))
    v = Validation("DrawTrace").run(traces)
    ck.add_validation("random effects", v)
    traces = []
    for lang, kind in (("py", "bart"), ("py", "bcf"), ("r", "bart"), ("r", "bcf")):
        sc = [model_session(rng, lang, kind, 100 if kind == "bcf" else 60, i * 2 // (36 * N), i % 2 == 1) for i in range(36 * N)]
        res = run_driver(lang + "x" if lang == "py" else "rx", "model.py" if lang == "py" else "model.R", [s for s, _ in sc], lambda s: {"error": "crash"})
        evs = [e for e in (resid_events(s, r, law) for (s, law), r in zip(sc, res)) if e]
        if len(evs) * 2 < len(sc):
            raise CheckError("%s %s: only %d of %d sessions could be fitted: %s" % (lang, kind, len(evs), len(sc), [r["error"] for r in res if "error" in r][:1]))
        ck.cov["%s %s sessions" % (lang, kind)] = len(evs)
        want = ["sigma", "leaf1"] + (["leaf2", "coding0", "coding1"] if kind == "bcf" else [])
        q, t = max(1, len(evs) // 2), []
        for b in range(0, len(evs), q):   # the halves on their own, then both together
            t += sum(evs[b:b + q], []) + [{"ev": "verdict", "want": want if len(evs[b:b + q]) == q else []}]
        traces.append(("%s-%s" % (lang, kind), t + [{"ev": "total"}]))
    v = Validation("ResidTrace").run(traces, nbatch=len(traces))
    ck.add_validation("draws while fitting models", v)
    ck.assumptions += ["averages of standardised draws are judged at five and a half standard errors, mean squares at seven", "fits of at most 21 rows; prior parameters given explicitly"]
    return ck.finish()

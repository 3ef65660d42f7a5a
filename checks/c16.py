"""C16: Python covariate preprocessing"""
from prelib import *


def main():
    ck = Check("C16")
    rng = random.Random(SEED)
    models(ck, [("Preproc: every table of two columns, refits and later rows with any categories", "PreprocMC", cfg("PreprocMC", Langs='{"py"}', MaxOps=4 if THOROUGH else 3), ["Fit", "Apply"]),
                ("Preproc: one column, longer histories", "PreprocMC", cfg("PreprocMC", Langs='{"py"}', NCols=1, MaxOps=6 if THOROUGH else 5), ["Fit", "Apply"])])
    beh, r = behaviours("PreprocMC", cfg("PreprocMC", Langs='{"py"}', NCols=1, MaxOps=4, Emit="TRUE"))
    b2, _ = behaviours("PreprocMC", cfg("PreprocMC", Langs='{"py"}', NCols=2, MaxOps=2, Emit="TRUE"))
    rng.shuffle(b2)
    sc = [x for x in (from_behaviour(b, "py", rng) for b in [b for b in beh if len(b) == 4] + [b for b in b2 if len(b) == 2][:3000 if THOROUGH else 300]) if x]
    ck.cov["behaviours replayed"] = len(sc)
    sc += [py_session(rng) for _ in range(6000 if THOROUGH else 800)]
    res = run_driver("py", "pre.py", sc, pre_crashed)
    v = Validation("PreprocTrace").run([("py%d" % i, py_events(s, r)) for i, (s, r) in enumerate(zip(sc, res))])
    ck.add_validation("CovariateTransformer", v)
    ck.assumptions += ["no missing values", "unsupported column types are left out (documented)"]
    ck.sample({"session": sc[-1]})
    return ck.finish()

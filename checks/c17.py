"""C17: R covariate preprocessing"""
from prelib import *


def main():
    ck = Check("C17")
    rng = random.Random(SEED)
    sub = dict(Langs='{"r"}', Kinds='{"num","ord","cat"}')
    models(ck, [("Preproc: every table of two columns, refits and later rows with any categories", "PreprocMC", cfg("PreprocMC", MaxOps=4 if THOROUGH else 3, **sub), ["Fit", "Apply"]),
                ("Preproc: one column, longer histories", "PreprocMC", cfg("PreprocMC", NCols=1, MaxOps=6 if THOROUGH else 5, **sub), ["Fit", "Apply"])])
    beh, r = behaviours("PreprocMC", cfg("PreprocMC", NCols=1, MaxOps=4, Emit="TRUE", **sub))
    b2, _ = behaviours("PreprocMC", cfg("PreprocMC", NCols=2, MaxOps=2, Emit="TRUE", **sub))
    rng.shuffle(b2)
    sc = [r_from_behaviour(b, rng) for b in [b for b in beh if len(b) == 4] + [b for b in b2 if len(b) == 2][:3000 if THOROUGH else 300]]
    ck.cov["behaviours replayed"] = len(sc)
    sc += [r_session(rng) for _ in range(6000 if THOROUGH else 800)]
    res = run_driver("r", "pre.R", sc, pre_crashed)
    v = Validation("PreprocTrace").run([("r%d" % i, r_events(s, x)) for i, (s, x) in enumerate(zip(sc, res))])
    ck.add_validation("preprocessTrainData, preprocessPredictionData, createForestCovariates(FromMetadata)", v)
    ck.assumptions += ["no missing values", "character categories compared in a locale that sorts a..f alphabetically"]
    ck.sample({"session": sc[-1]})
    return ck.finish()

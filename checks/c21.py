"""C21: datasets hold the caller's values whatever the memory layout"""
from dsetlib import *


def main():
    ck = Check("C21")
    rng = random.Random(SEED)
    models(ck, [("DataMC: every view of five cells, two fields, writes in between", "DataMC", cfg("DataMC", MaxOps=4 if THOROUGH else 3), ["Put", "Write"])])
    b1, _ = behaviours("DataMC", cfg("DataMC", MaxOps=2, Emit="TRUE"))
    b2, _ = behaviours("DataMC", cfg("DataMC", MaxOps=3, Cells=4, Fields='{"X"}', Emit="TRUE"))
    beh = [b for b in b1 + b2 if any(o["op"] == "put" for o in b)]
    rng.shuffle(beh)
    ck.cov["behaviours replayed"] = 0
    for lang in ("cpp", "py", "r"):
        sc = [x for x in (from_behaviour(b, lang, rng) for b in beh[:20000 if THOROUGH else 4000 if lang == "cpp" else 1200]) if x]
        ck.cov["behaviours replayed"] += len(sc)
        sc += [session(rng, lang) for _ in range(8000 if THOROUGH else 600)]
        if lang == "cpp":
            res = [from_harness(s, r) for s, r in zip(sc, run_sessions([script(s) for s in sc]))]
        else:
            res = run_driver({"py": "pyx", "r": "rx"}[lang], {"py": "dset.py", "r": "dset.R"}[lang], sc, dset_crashed)
        v = Validation("DataTrace").run([("%s%d" % (lang, i), dset_events(s, r)) for i, (s, r) in enumerate(zip(sc, res))])
        ck.add_validation({"cpp": "ForestDataset, RandomEffectsDataset, ColumnVector, ColumnMatrix", "py": "Dataset, Residual", "r": "ForestDataset, Outcome, RandomEffectsDataset"}[lang], v)
        ck.sample({"session": sc[-1]})
    ck.assumptions += ["a replacing basis has as many rows as the dataset", "R matrices of type double (others are refused)", "arrays are writable (read-only numpy arrays are refused)"]
    return ck.finish()

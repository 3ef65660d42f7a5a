"""C18: the JSON model document"""
from doclib import *


def main():
    ck = Check("C18")
    rng = random.Random(SEED)
    models(ck, [("Doc: two documents and a file, values of two types under two keys, forests", "DocMC", cfg("DocMC", MaxOps=6 if THOROUGH else 5), ["Store", "AddForest", "Save", "Load"])])
    beh, _ = behaviours("DocMC", cfg("DocMC", Docs="{0}", Types='{"num", "bool", "str", "vec", "svec"}', Forests="{1}", MaxOps=3, Emit="TRUE"))
    b2, _ = behaviours("DocMC", cfg("DocMC", Types='{"num", "svec"}', MaxOps=4, Emit="TRUE"))
    rng.shuffle(b2)
    beh = [b for b in beh if len(b) == 3] + [b for b in b2 if len(b) == 4][:4000 if THOROUGH else 250]
    ck.cov["behaviours replayed"] = len(beh)
    for lang, drv in (("py", "doc.py"), ("r", "doc.R")):
        sc = [from_behaviour(b, lang, rng) for b in beh] + [session(rng, lang) for _ in range(4000 if THOROUGH else 300)]
        res = run_driver(lang, drv, sc, doc_crashed)
        v = Validation("DocTrace").run([("%s%d" % (lang, i), doc_events(s, r)) for i, (s, r) in enumerate(zip(sc, res))])
        ck.add_validation({"py": "JSONSerializer", "r": "CppJson"}[lang], v)
        ck.sample({"session": sc[-1]})
    ck.assumptions += ["finite numbers, valid UTF-8 strings", "a name is not used both for a value and for a folder; names the document itself uses (forests, num_forests, ...) are not reused"]
    return ck.finish()

"""Repeated runs: sessions that interleave runs of the sampling objects and whole fits done twice; projection to SeedsTrace."""
from modellib import *
from samplerlib import column, session as cxx_session
import hashlib


def dig(x):
    return hashlib.sha1((x if isinstance(x, str) else json.dumps(x, sort_keys=True)).encode()).hexdigest()[:16]


def conf(rng, lang):
    n, p = rng.choice([8, 15, 30]), rng.randint(1, 3)
    ft = [rng.choice([0, 0, 1, 2]) for _ in range(p)]
    X = [list(map(float, r)) for r in zip(*[column(rng, n, t) for t in ft])]
    model = rng.choice([0, 0, 1, 2])
    dim = 1 if model < 2 else 2
    y = [rng.gauss(0, 2) for _ in range(n)]
    m = sum(y) / n
    c = {"X": X, "y": [v - m for v in y], "ft": ft, "model": model, "B": [[float(rng.randint(-2, 2)) for _ in range(dim)] for _ in range(n)] if model else [], "W": [rng.choice([.5, 1., 2.]) for _ in range(n)] if rng.random() < .3 else [],
         "trees": rng.choice([1, 3, 6]), "alpha": .95, "beta": rng.choice([.5, 2.]), "ml": rng.choice([1, 2]), "grid": rng.choice([3, 100]), "w": [1. / p] * p, "tau": rng.choice([.5, 2.]),
         "sched": rng.choice([["mcmc"], ["gfr"], ["gfr", "mcmc"], ["gfr", "gfr", "mcmc", "mcmc"]]), "sig": rng.random() < .7, "leaf": rng.random() < .6}
    if lang == "r" and rng.random() < .6:
        labs = rng.choice([[1, 2, 3], [9, 4], [5, 3, 8, 2]])
        c["g"] = [labs[i % len(labs)] for i in range(n)]
        rng.shuffle(c["g"])
        k = rng.choice([1, 2])
        c["gb"] = [[1. if j == 0 else float(rng.randint(-1, 2)) for j in range(k)] for _ in range(n)]
    return c


def groups(rng, beh, lang, ngroups, per):
    """groups of sessions over the same keys; the sessions of a group are spread over processes"""
    out = []
    for _ in range(ngroups):
        c = conf(rng, lang)
        # two keys that differ in the seed only, or in the settings too
        seeds = rng.sample([0, 1, 2, 7, 1234, 99991, 2 ** 31 - 1], 2)
        keys = [{"conf": c, "seed": seeds[0]}, {"conf": c if rng.random() < .5 else conf(rng, lang), "seed": rng.choice(seeds)}]
        for _ in range(per):
            b = beh[rng.randrange(len(beh))]
            ops = [dict(o, k=o["k"] - 1) if "k" in o else dict(o) for o in b]
            for _ in range(rng.choice([0, 0, 1, 2])):
                ops.insert(rng.randrange(len(ops)), {"op": "noise", "i": rng.randint(1, 99)})
            out.append((len(out) // per, {"keys": keys, "ops": ops, "share": rng.random() < .4, "order": rng.choice("CF")}))
    return out


def low_events(sessions, results):
    """per group one trace; key k of a group means the same in all its sessions"""
    ev = {}
    for j, ((g, s), r) in enumerate(zip(sessions, results)):
        t = ev.setdefault(g, [])
        outs = r.get("out") or ["crash"] * len(s["ops"])
        # sessions in which both keys are literally equal
        for o, x in zip(s["ops"], outs):
            if o["op"] == "start":
                t.append({"ev": "start", "r": "%d.%d" % (j, o["r"]), "k": key_id(s["keys"][o["k"]])})
            if isinstance(x, str) and (o["op"] != "step" or x.startswith("error") or x == "crash"):
                t.append({"ev": "broken", "op": o, "says": x})
            elif o["op"] == "step":
                t.append({"ev": "step", "r": "%d.%d" % (j, o["r"]), "out": dig(x)})
    return [("group%d" % g, t) for g, t in sorted(ev.items())]


def key_id(k):
    return dig(k)


def part_events(name, key, parts, same=None):
    t = [{"ev": "start", "r": name, "k": key}] + [{"ev": "step", "r": name, "out": p} for p in parts]
    if same is not None:
        t.append({"ev": "data", "r": name, "same": same})
    return t


def doubled(rng, sessions, times=2):
    """every session several times, in another order each time: (index, session)"""
    out = []
    for _ in range(times):
        o = list(enumerate(sessions))
        rng.shuffle(o)
        out += o
    return out


def fit_events(order, results):
    ev = {}
    for j, ((i, s), r) in enumerate(zip(order, results)):
        t = ev.setdefault(i, [])
        same = r.get("same") if "error" not in r else None
        parts = [dig(k + json.dumps(r[k], sort_keys=True)) for k in sorted(r) if k != "same"]
        t += part_events("fit%d" % j, str(i), parts, same)
    return [("fit%d" % i, t) for i, t in sorted(ev.items())]

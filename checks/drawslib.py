"""Sessions whose draws of variances, leaf scales, random effects and codings are judged against their laws."""
from modellib import *
import rfxlib


# ---------------------------------------------------------------------------------------- core library
def variance_session(rng, iters):
    n, nt = rng.choice([6, 9, 14]), rng.choice([1, 2, 4])
    p = rng.randint(1, 2)
    y = [rng.randint(-4, 4) for _ in range(n)]
    s = [{"op": "begin", "seed": rng.randint(1, 9999)}, {"op": "data", "d": 0, "X": [[rng.randint(0, 8) for _ in range(p)] for _ in range(n)]}, {"op": "resid", "y": y},
         {"op": "forest", "f": 0, "trees": nt, "dim": 1, "constant": True},
         {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": nt, "ft": [0] * p, "model": 0, "tau": rng.choice([.5, 2]), "alpha": .95, "beta": rng.choice([.5, 2]), "minleaf": 1, "grid": 100, "w": [1 / p] * p},
         {"op": "sigma2", "v": rng.choice([.5, 2])}]
    a = {"nu": rng.choice([.5, 2, 3, 10]), "lambda": rng.choice([.1, 1, 4])}
    b = {"a": rng.choice([.5, 3, 8]), "b": rng.choice([.05, 1, 6])}
    for i in range(iters):
        s += [{"op": rng.choice(["gfr", "mcmc", "mcmc"]), "s": 0}, dict(a, op="variance"), dict(b, op="leaf_variance", f=0, k=i)]
    return s


def variance_events(s, res):
    out = [{"ev": "begin"}]
    for q, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        if q["op"] == "variance":
            out.append({"ev": "sigma", "nu": flt(q["nu"]), "lam": flt(q["lambda"]), "r": [flt(v) for v in r["r"]], "v": flt(r["v"])})
        elif q["op"] == "leaf_variance":
            out.append({"ev": "leaf", "a": flt(q["a"]), "b": flt(q["b"]), "mu": [flt(v) for v in r["mu"]], "v": flt(r["v"])})
    return out


def effects_session(rng, iters, s2):
    s, c = rfxlib.base(rng, n=rng.choice([5, 8, 12]))
    s[2].update(shape=rng.choice([1, 2.5, 4]), scale=rng.choice([.5, 2, 6]), gcov=rng.choice([.5, 2]), wcov=rng.choice([.5, 2]))
    s[3]["v"] = s2
    s += [{"op": "rfx_iter", "x": 0, "store": False} for _ in range(iters)]
    return s, c


def effects_events(s, res, c):
    ids = sorted(set(c["lab"]))
    q = s[2]
    par = lambda t: {"alpha": [flt(v) for v in t["alpha"]], "xi": [[flt(v) for v in g] for g in t["xi"]], "sig": [flt(v) for v in t["sig"]]}
    out = []
    for k, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        if k["op"] == "rfx":
            out.append({"ev": "begin", "par": par(r["state"]), "grp": [ids.index(v) + 1 for v in c["lab"]], "B": c["B"], "y": c["y"], "wcov": flt(q["wcov"]), "shape": flt(q["shape"]), "scale": flt(q["scale"]), "s2": flt(s[3]["v"])})
        elif k["op"] == "rfx_iter":
            out.append(dict({"ev": "effects"}, **par(r["state"])))
    return out


# ---------------------------------------------------------------------------------------- fitted models
def model_session(rng, lang, kind, iters, rare, scale):
    """scale: whether treatment leaf scales are drawn; rare: the treatment that few rows have, where treatment effects are coded"""
    st = {"ngfr": rng.choice([0, 3]), "nburn": 0, "nmcmc": iters, "kg": True, "kb": False, "sampS": rng.random() < .8, "sampL": [rng.random() < .7, scale]}
    if kind == "bart":
        s = bart_session(rng, lang, dict(st, sampL=st["sampL"][:1]))
    else:
        s = bcf_session(rng, lang, st, False)
        two = lang == "r" and rng.random() < .5   # random effects of two groups on top
        while not s["coding"] and rng.random() < .8 or two and not (s["coding"] and s.get("rfx") and len(s["rfx"]["levels"]) == 2 and s["rfx"]["nb"] == 0) and rng.random() < .98:
            s = bcf_session(rng, lang, st, False)
    law = {"nu": rng.choice([1, 3, 8]), "lambda": rng.choice([.2, 1, 2]), "a": [rng.choice([1, 3, 6]) for _ in range(2)], "b": [rng.choice([.1, .5, 2]) for _ in range(2)]}
    a = s["args"]
    a["nu"], a["lamb" if lang == "py" else "lambda"] = law["nu"], law["lambda"]
    for f, w in enumerate([""] if kind == "bart" else ["_mu", "_tau"]):
        a["a_leaf" + w], a["b_leaf" + w] = law["a"][f], law["b"][f]
    if kind == "bcf" and s["coding"] and rng.random() < .75:   # fits in which the codings matter
        law.update(nu=8, **{"lambda": .2})
        a["nu"], a["lamb" if lang == "py" else "lambda"] = 8, .2
        n = len(s["y"]["v"])
        z = [1 - rare] * n
        side = [i for i in range(n) if s["y"]["v"][i][0] > s["m"]] if rng.random() < .7 else list(range(n))   # mostly rows of one sign
        for i in rng.sample(side, 3):
            z[i] = rare
        s["z"]["v"] = [[float(v)] for v in z]
        a["sigma_leaf_tau"] = 3.0
        if s.get("rfx") and len(s["rfx"]["levels"]) == 2 and s["rfx"]["nb"] == 0:
            s["rfx"]["g"] = [s["rfx"]["levels"][(v[0] > s["m"]) != (rng.random() < .15)] for v in s["y"]["v"]]
            a["rfx_prior_var"] = [5.0]
    s["reload"], s["Xl"], s["zl"], s["pil"] = None, [], [], []
    if s.get("rfx"):
        s["rfx"]["l"] = []
    return s, law

"""Drivers for sampling runs of the real samplers and their projection to events of SamplerTrace."""
from common import *
from forestlib import enc_rows

S = 2**14
FT = {0: "numeric", 1: "ordered", 2: "unordered"}


def consts(**on):
    return "CONSTANTS\n" + "".join("%s = %s\n" % (k, "TRUE" if on.get(k) else "FALSE") for k in ("CheckResid", "CheckAppend", "CheckGfr", "CheckMcmc"))


class Ids(dict):
    def __call__(self, x):
        return self.setdefault(json.dumps(x), len(self) + 1)


def column(rng, n, t):
    if t == 2:
        return [rng.randint(0, rng.choice([1, 3, 6])) for _ in range(n)]
    if t == 1:
        k = rng.choice([2, 4])
        return [rng.randint(0, k) for _ in range(n)]
    kind = rng.random()
    if kind < .15:
        return [rng.choice([-1.5, 2]) for _ in range(n)]            # binary
    if kind < .25:
        c = rng.randint(-2, 2)
        return [c] * n                                              # constant
    if kind < .6:
        return [rng.randint(-6, 6) / 4 for _ in range(n)]           # ties
    return [rng.randint(-4000, 4000) / 256 for _ in range(n)]


def session(rng, nslots=None, iters=None, kinds=("gfr", "mcmc"), n=None, models=(0, 1, 2), adjust=True, pred=False, deep=False, ml=None):
    n = n or rng.choice([8, 12, 20, 40])
    nslots = nslots or rng.choice([1, 1, 2, 3])
    s = [{"op": "begin", "seed": rng.randint(1, 9999)}]
    y0 = [rng.gauss(0, 2) for _ in range(n)]
    conf = []
    for k in range(nslots):
        p = rng.randint(1, 4)
        ft = [rng.choice([0, 0, 1, 2]) for _ in range(p)]
        X = [list(r) for r in zip(*[column(rng, n, t) for t in ft])]
        model = rng.choice(models)
        d = {"op": "data", "d": k, "X": X, "row_major": rng.random() < .5}
        dim = 1
        if model:
            dim = 1 if model == 1 else rng.choice([2, 3])
            d["B"] = [[rng.randint(-2, 2) for _ in range(dim)] for _ in range(n)]
        if rng.random() < .35:
            d["W"] = [rng.choice([.25, .5, 1, 2, 4]) for _ in range(n)]
        conf.append((d, p, ft, model, dim))
    # all leaf models accept a centred outcome (a multivariate forest refuses a root value away from zero)
    m = sum(y0) / n
    y = [v - m for v in y0]
    s += [c[0] for c in conf] + [{"op": "resid", "y": y}]
    for k, (d, p, ft, model, dim) in enumerate(conf):
        nt = rng.choice([1, 2, 3, 5])
        w = [1.] * p
        if p > 1:
            for j in rng.sample(range(p), rng.choice([0, 0, 1, p - 1])):
                w[j] = 0.
        m_ = rng.choice([0, 1, 1, 2, 4, 6]) if ml is None else ml
        m_ = min(m_, (n - 1) // 2)
        c = {"op": "slot", "s": k, "d": k, "f": k, "trees": nt, "ft": ft, "model": model, "tau": rng.choice([.5, 4]), "alpha": .95 if not deep else .99, "beta": rng.choice([.25, 1, 2]) if not deep else .1,
             "minleaf": m_, "grid": rng.choice([2, 3, 5, 100]), "w": [v / sum(w) for v in w]}
        if model == 2:
            c["Sigma"] = [[2. if a == b else .25 for b in range(dim)] for a in range(dim)]
        s += [{"op": "forest", "f": k, "trees": nt, "dim": dim, "constant": model == 0}, c]
    started = set()
    for k, (d, p, ft, model, dim) in enumerate(conf):
        if model == 2 or rng.random() < .3:
            s.append({"op": "init_slot", "s": k, "v": [rng.choice([0, .25, -.5, 1.25]) for _ in range(dim)], "vector": dim > 1})
    s.append({"op": "sigma2", "v": rng.choice([.05, .5, 2])})
    outs = None
    for _ in range(iters or rng.randint(4, 12)):
        k = rng.randrange(nslots)
        x = rng.random()
        if adjust and x < .12 and k in started:
            # take a fit out, possibly sample another forest meanwhile, put it back
            s.append({"op": "resid_forest", "s": k, "k": -1, "add": True})
            o = rng.randrange(nslots)
            if o != k and rng.random() < .7:
                s.append({"op": rng.choice(kinds), "s": o})
                started.add(o)
            s.append({"op": "resid_forest", "s": k, "k": -1, "add": False})
            continue
        if x < .2:
            p, w = conf[k][1], None
            c = {"op": "slot_set", "s": k, "minleaf": rng.choice([0, 1, 2]), "tau": rng.choice([.5, 4])}
            if rng.random() < .5:
                w = [1.] * p
                if p > 1:
                    w[rng.randrange(p)] = 0.
                c["w"] = [v / sum(w) for v in w]
            s.append(c)
            continue
        s.append({"op": rng.choice(kinds), "s": k})
        started.add(k)
        if rng.random() < .3:
            o = rng.randrange(nslots)
            s.append({"op": "slot_dump", "s": o})
        if pred and rng.random() < .5:
            s.append({"op": "predict", "f": k, "d": k})
    # index of the latest sample
    cnt = [0] * nslots
    for c in s:
        if c["op"] in ("gfr", "mcmc"):
            cnt[c["s"]] += 1
        elif c["op"] == "resid_forest":
            c["k"] = cnt[c["s"]] - 1
    return s


def events(s, res, ids=None):
    ids = ids or Ids()
    fx = lambda v: enc_fix(v, S)
    y = [c for c in s if c["op"] == "resid"][0]["y"]
    data = {c["d"]: c for c in s if c["op"] == "data"}
    out = [{"ev": "begin", "y": [fx(v) for v in y]}]
    forests = {c["f"]: c for c in s if c["op"] == "forest"}
    before = {}
    fed = {}
    state = {}
    for c, r in zip(s, res):
        op = c["op"]
        if "error" in r:
            return out + [err_event(r)]
        if op == "slot":
            d, f = data[c["d"]], forests[c["f"]]
            B = d.get("B")
            conf = {"X": enc_rows(d["X"]), "B": [[enc_exact(v) for v in b] for b in B] if B and c["model"] else [[1]] * len(d["X"]), "nt": c["trees"], "dim": f["dim"], "const": c["model"] == 0, "ft": [FT[t] for t in c["ft"]],
                    "w": [0 if v == 0 else 1 for v in c["w"]], "ml": c["minleaf"], "maxb": max(abs(v) for b in B for v in b) if B and c["model"] else 1}
            state[c["s"]] = conf
            out.append({"ev": "slot", "c": dict(conf), "zero": [ids([0.0] * f["dim"])]})
        elif op == "slot_set":
            conf = state[c["s"]]
            if "w" in c:
                conf["w"] = [0 if v == 0 else 1 for v in c["w"]]
            conf["ml"] = c.get("minleaf", conf["ml"])
            out.append({"ev": "conf", "s": c["s"] + 1, "w": list(conf["w"]), "ml": conf["ml"]})
        elif op in ("gfr", "mcmc", "init_slot"):
            e = {"ev": "iter", "s": c["s"] + 1, "kind": op, "ns": r["ns"], "hist": [ids(h) for h in r["hist"]], "r": [fx(v) for v in r["r"]],
                 "cur": [tree(t, fx, op == "gfr") for t in r["cur"]], "pred": [[fx(v) for v in t["pred"]] for t in r["trk"]],
                 "ids": [[ids(nd["leaf"]) for nd in t["nodes"] if nd["isleaf"]] for t in r["cur"]]}
            if op == "init_slot":
                e["ev"], e["v"] = "init", [fx(v) for v in c["v"]]
            out.append(e)
        elif op == "slot_dump":
            out.append({"ev": "look", "s": c["s"] + 1, "ns": r["ns"], "hist": [ids(h) for h in r["hist"]]})
        elif op == "resid_forest":
            out.append({"ev": "adjust", "s": c["s"] + 1, "add": c["add"], "r": [fx(v) for v in r["r"]], "pred": [[fx(v) for v in t["pred"]] for t in r["trk"]]})
        elif op == "predict":
            now = [ids(v) for v in r["rawk"]]
            if c["f"] in before:
                out.append({"ev": "preds", "before": before[c["f"]], "now": now, "new": len(now) - len(before[c["f"]])})
            before[c["f"]] = now
    return out


def tree(d, fx, exact):
    e = enc_tree(d, leafenc=fx)
    for n in e["nodes"]:
        n["vec"] = []
        if exact and n["ty"] == "num":
            n["thr"] = enc_exact([q for q in d["nodes"] if q["id"] == n["id"]][0]["thr"], SC)
    return {"walk": e["walk"], "nodes": [{k: n[k] for k in ("id", "par", "l", "r", "isleaf", "ty", "feat", "thr", "cats", "leaf")} for n in e["nodes"]]}


ACTIONS = ["Begin", "AddBack", "Keep", "Grow", "GfrReset", "GfrSplit", "GfrDone", "Leaf1", "Subtract"]


def sampler_models(ck):
    jobs = [("SamplerMC: one forest of one tree", dict(MaxIter=3) if THOROUGH else dict(MaxIter=2)), ("SamplerMC: one forest of two trees", dict(NT=2, MaxIter=3 if THOROUGH else 2, MaxH=3)), ("SamplerMC: two forests", dict(Slots="{1, 2}", MaxIter=4 if THOROUGH else 3, MaxH=3))]
    models(ck, [(n, "SamplerMC", cfg("SamplerMC", **sub), [a for a in ACTIONS if sub.get("MaxH") != 3 or a != "Prune"]) for n, sub in jobs])

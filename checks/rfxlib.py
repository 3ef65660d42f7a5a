"""Drivers for random effects and their projection to events of RfxTrace."""
from common import *

A = 2**9


class Ids(dict):
    def __call__(self, x):
        return self.setdefault(json.dumps(x), len(self) + 1)


def labels(rng, n):
    pool = rng.sample(range(-4, 30), rng.choice([1, 2, 3, 5, 8]))
    lab = [rng.choice(pool) for _ in range(n)]
    if rng.random() < .3:
        lab.sort(reverse=rng.random() < .5)
    return lab


def base(rng, n=None, nc=None, integer=False):
    n = n or rng.choice([1, 2, 5, 9, 16])
    nc = nc or rng.choice([1, 1, 2, 3])
    lab = labels(rng, n)
    B = [[rng.choice([-2, -1, 0, 1, 1, 2]) for _ in range(nc)] for _ in range(n)]
    if rng.random() < .3:
        B = [[1] + b[1:] for b in B]
    y = [rng.randint(-6, 6) for _ in range(n)]
    c = {"lab": lab, "B": B, "y": y, "nc": nc, "n": n, "integer": integer}
    s = [{"op": "begin", "seed": rng.randint(1, 9999)}, {"op": "resid", "y": y}, {"op": "rfx", "x": 0, "labels": lab, "B": B, "row_major": rng.random() < .5, "wcov": rng.choice([1, 2]), "gcov": rng.choice([1, 3]), "shape": 3, "scale": 2},
         {"op": "sigma2", "v": rng.choice([.5, 1.5])}]
    return s, c


def queries(rng, c):
    out = []
    for _ in range(2):
        m = rng.choice([1, 3, c["n"] + 1])
        out.append(([rng.choice(c["lab"]) for _ in range(m)], [[rng.randint(-2, 2) for _ in range(c["nc"])] for _ in range(m)]))
    out.append((c["lab"], c["B"]))
    return out


def a_set(rng, c):
    g = len(set(c["lab"]))
    return {"op": "rfx_set", "x": 0, "alpha": [rng.choice([-3, -1, 1, 2, 5]) for _ in range(c["nc"])], "xi": [[rng.randint(-4, 4) for _ in range(c["nc"])] for _ in range(g)], "sig": [rng.randint(1, 9) for _ in range(c["nc"])], "one_by_one": rng.random() < .5}


def a_reload(rng):
    dirty = rng.random() < .5
    return {"op": "rfx_json", "x": 0, "dirty": dirty, "dirty_map": rng.random() < .3, "reset_map": True}


def residual_session(rng, n=None):
    """iterations interleaved with another forest, low-level shifts, parameter changes"""
    s, c = base(rng, n)
    forest = c["n"] >= 5 and rng.random() < .5
    if forest:
        s += [{"op": "data", "d": 0, "X": [[rng.randint(0, 8) / 2] for _ in range(c["n"])]}, {"op": "forest", "f": 0, "trees": 2, "dim": 1, "constant": True}, {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": 2, "ft": [0], "model": 0, "tau": 1., "minleaf": 1}]
    qs = queries(rng, c)
    out = False
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        if out:
            if forest and x < .5:
                s.append({"op": rng.choice(["gfr", "mcmc"]), "s": 0})
            elif x < .6:
                s.append(a_set(rng, c))
            s.append({"op": "rfx_shift", "x": 0, "dir": "sub"})
            out = False
        elif x < .45:
            s.append({"op": "rfx_iter", "x": 0, "store": rng.random() < .8})
        elif x < .6 and forest:
            s.append({"op": rng.choice(["gfr", "mcmc"]), "s": 0})
        elif x < .7:
            s.append({"op": "rfx_shift", "x": 0, "dir": "add"})
            out = True
        elif x < .8:
            s.append(a_set(rng, c))
        elif x < .9:
            q = rng.randrange(len(qs))
            s.append({"op": "rfx_predict", "x": 0, "labels": qs[q][0], "B": qs[q][1], "q": q, "row_major": rng.random() < .5})
        else:
            s.append(a_reload(rng))
    return s, c


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


def identified(c):
    """every group's rows determine its effects"""
    for g in set(c["lab"]):
        rows = [b for l, b in zip(c["lab"], c["B"]) if l == g]
        if det([[sum(r[i] * r[j] for r in rows) for j in range(c["nc"])] for i in range(c["nc"])]) < 1:
            return False
    return True


def noiseless_session(rng):
    while True:
        s, c = base(rng)
        if identified(c):
            break
    s[2]["gcov"] = s[2]["wcov"] = 100
    s.append({"op": "sigma2", "v": 1e-7})
    for _ in range(rng.randint(1, 3)):
        # effects are identified when no working parameter is near zero, so it is set before every iteration
        k = a_set(rng, c)
        s += [k, {"op": "rfx_iter", "x": 0, "noiseless": True}]
    return s, c


def storage_session(rng, ops=None):
    """integer parameters: recorded samples and predictions are exact"""
    s, c = base(rng, integer=True)
    if ops:
        lab, B = ops[0]["lab"], ops[0]["B"]
        c.update(lab=lab, B=B, y=ops[0]["y"], nc=len(B[0]), n=len(lab))
        s[1]["y"] = c["y"]
        s[2].update(labels=lab, B=B)
    qs = queries(rng, c)
    def ask():
        q = rng.randrange(len(qs))
        s.append({"op": "rfx_predict", "x": 0, "labels": qs[q][0], "B": qs[q][1], "q": q, "row_major": rng.random() < .5})
    if ops:
        for o in ops[1:]:
            if o["op"] == "set":
                s.append({"op": "rfx_set", "x": 0, "alpha": o["alpha"], "xi": o["xi"]})
            elif o["op"] == "store":
                s.append({"op": "rfx_add", "x": 0})
                ask()
            elif o["op"] == "reload":
                s.append(a_reload(rng))
                ask()
        return s, c
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        if x < .4:
            s.append(a_set(rng, c))
            if rng.random() < .8:
                s.append({"op": "rfx_add", "x": 0})
        elif x < .55:
            s.append(a_reload(rng))
        elif x < .7 and c["nc"] == 1:
            s += [a_set(rng, c), {"op": "rfx_post", "x": 0}]
        else:
            ask()
    return s, c


def post_session(rng):
    """closed-form centre and spread of the draws, one basis column"""
    s, c = base(rng, nc=1, integer=True)
    for _ in range(rng.randint(1, 4)):
        s += [a_set(rng, c), {"op": "rfx_post", "x": 0}]
    return s, c


def groups_session(rng):
    lab = labels(rng, rng.choice([1, 2, 5, 9, 20]))
    k = {"op": "category", "labels": lab}
    if rng.random() < .5:
        k["set"] = [rng.randrange(len(lab)), rng.choice(lab)]
    return [{"op": "begin", "seed": 1}, k], {"lab": lab}


def events(s, res, c):
    ids = Ids()
    if "n" not in c:
        if "error" in res[1]:
            return [err_event(res[1])]
        e = {"ev": "groups", "lab": c["lab"], "g": {k: v for k, v in res[1].items() if k != "op"}}
        if "set" in s[1]:
            e["set"] = s[1]["set"]
        return [e]
    sc = 1 if c["integer"] else A
    fx = (lambda v: enc_exact(v)) if c["integer"] else (lambda v: enc_fix(v, A))

    def par(st):
        return {"alpha": [fx(v) for v in st["alpha"]], "xi": [[fx(v) for v in g] for g in st["xi"]], "alphai": [ids(v) for v in st["alpha"]], "xii": [[ids(v) for v in g] for g in st["xi"]], "sigi": [ids(v) for v in st["sig"]]}

    def cont(k):
        d = {"ns": k["ns"], "nc": k["nc"], "ng": k["ng"], "sigi": [ids(v) for v in k["sig"]]}
        for f in ("alpha", "xi", "beta"):
            d[f] = [fx(v) for v in k[f]]
            d[f + "i"] = [ids(v) for v in k[f]]
        return d
    out, last, cur = [], None, None
    conf = {"lab": c["lab"], "B": c["B"], "y": [v * sc for v in c["y"]], "A": sc}
    sigma2 = None
    for q, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        op = q["op"]
        if op == "rfx":
            out.append({"ev": "begin", "c": conf, "par": par(r["state"]), "cont": cont(r["cont"]), "lm": r["lm"], "tp": [fx(v) for v in r["state"]["tp"]]})
            last, cur = r["cont"], r["state"]
            # the spread of the group parameters is what the recorded variances are
            gcov, wcov = q["gcov"], q["wcov"]
        elif op == "sigma2":
            sigma2 = q["v"]
        elif op == "rfx_iter":
            e = {"ev": "iter", "par": par(r["state"]), "tp": [fx(v) for v in r["state"]["tp"]], "tpi": [ids(v) for v in r["state"]["tp"]], "mpi": [ids(v) for v in r["mp"]], "r": [fx(v) for v in r["r"]], "cont": cont(r["cont"]), "store": q.get("store", True), "noiseless": q.get("noiseless", False)}
            if q.get("noiseless"):
                # effects (working times group parameter) in units of 1/A
                e["eff"] = [[enc_fix(float(fnum(a)) * float(fnum(x)), A) for a, x in zip(r["state"]["alpha"], g)] for g in r["state"]["xi"]]
            out.append(e)
            last, cur = r["cont"], r["state"]
        elif op in ("gfr", "mcmc"):
            fit = [sum(fnum(t["pred"][i]) for t in r["trk"]) for i in range(c["n"])]
            out.append({"ev": "other", "fit": [fx(v) for v in fit], "r": [fx(v) for v in r["r"]]})
        elif op == "rfx_shift":
            out.append({"ev": "shift", "dir": q["dir"], "r": [fx(v) for v in r["r"]], "tp": [fx(v) for v in r["state"]["tp"]]})
        elif op == "rfx_set":
            want = {"alphai": [ids(float(v)) for v in q["alpha"]], "xii": [[ids(float(v)) for v in g] for g in q["xi"]], "sigi": [ids(float(v)) for v in q.get("sig", cur["sig"])]}
            out.append({"ev": "set", "par": par(r["state"]), "want": want})
            cur = r["state"]
            if "sig" in q:
                gcov = q["sig"][0]
        elif op == "rfx_add":
            out.append({"ev": "add", "cont": cont(r["cont"])})
            last = r["cont"]
        elif op == "rfx_json":
            out.append({"ev": "reload", "resave": r["resave"], "cont": cont(r["cont"]), "lm": r["lm"]})
            last = r["cont"]
        elif op == "rfx_predict":
            out.append({"ev": "predict", "q": q["q"] + 1, "lab": q["labels"], "B": q["B"], "pred": [fx(v) for v in r["pred"]], "predi": [ids(v) for v in r["pred"]], "beta": [fx(v) for v in last["beta"]], "betai": [ids(v) for v in last["beta"]]})
        elif op == "rfx_post":
            from fractions import Fraction
            f = Fraction(sigma2)
            S = 2**8
            out.append({"ev": "post", "sn": f.numerator, "sd": f.denominator, "S": S, "gcov": gcov, "wcov": wcov, "gm": [enc_fix(g["m"][0], S) for g in r["g"]], "gv": [enc_fix(g["v"][0][0], S) for g in r["g"]], "wm": enc_fix(r["wm"][0], S), "wv": enc_fix(r["wv"][0][0], S)})
    return out

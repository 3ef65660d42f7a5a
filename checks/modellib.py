"""BART and BCF models fitted through the language interfaces: sessions and their projection to events of ModelTrace."""
from prelib import *
import math

A, B = 16384, 1024


def fx(x, sc=A):
    return enc_fix(x, sc)


def ln(x):
    return round(2 ** 20 * math.log(x)) if 0 < x < 1e300 else 0


class Ids(dict):
    def __call__(self, x):
        return self.setdefault(x, len(self) + 1)


# ------------------------------------------------------------------------------------------- tables
def mcol(rng, n, lang):
    k = rng.choice(["num", "num", "num", "ord", "cat"] + (["bool", "str", "skip"] if lang == "py" else []))
    if k == "num":
        top = rng.choice([1, 3, 9, 40])
        return {"kind": "num", "dt": rng.choice(["float64", "int64"]) if lang == "py" else rng.choice(["dbl", "dbl", "int"]), "vals": [rng.randint(0, top) for _ in range(n)]}
    if k == "bool":
        return {"kind": "num", "dt": "bool", "vals": [rng.random() < .5 for _ in range(n)]}
    if k == "skip":
        return {"kind": "skip", "dt": "object", "vals": [0] * n}
    p = rng.sample(STRS, rng.randint(2, 3))
    if k == "str":
        return {"kind": "str", "vals": [rng.choice(p) for _ in range(n)]}
    return {"kind": k, "cats": p, "vals": [rng.choice(p) for _ in range(n)]}


def mtable(rng, n, lang):
    p = rng.randint(1, 4)
    if rng.random() < .35:
        top = rng.choice([1, 4, 30])
        rows = [[rng.randint(0, top) for _ in range(p)] for _ in range(n)]
        if lang == "py":
            return {"form": "np", "dt": rng.choice(["float64", "int64"]), "order": rng.choice(["C", "F", "slice"]), "rows": rows}
        return {"form": "matrix", "rows": rows}
    while True:
        cols = [mcol(rng, n, lang) for _ in range(p)]
        if any(c["kind"] != "skip" for c in cols):
            break
    if all(c["kind"] != "num" for c in cols):
        cols[rng.choice([i for i, c in enumerate(cols) if c["kind"] != "skip"])] = {"kind": "num", "dt": "float64" if lang == "py" else "dbl", "vals": [rng.randint(0, 9) for _ in range(n)]}
    d = {"form": "df", "cols": cols}
    if lang == "r":
        d["names"] = ["x%d" % i for i in rng.sample(range(12), p)]   # any order
        for c in cols:   # every level appears
            if "cats" in c:
                c["vals"][:len(c["cats"])] = c["cats"]
    else:
        d["names"] = ["c%d" % i for i in rng.sample(range(12), p)]
        if rng.random() < .2:
            d["index"] = True
    return d


def mlater(rng, d, n, lang):
    """rows for a table of the same columns: training rows, or new values and known categories"""
    if d["form"] in ("np", "matrix"):
        e = dict(d, rows=[[rng.choice([r[j] for r in d["rows"]]) if rng.random() < .7 else rng.randint(0, 45) for j in range(len(d["rows"][0]))] for _ in range(n)])
        return e
    cols = []
    for c in d["cols"]:
        if c["kind"] == "num":
            cols.append(dict(c, vals=[rng.choice(c["vals"]) if rng.random() < .6 or c["dt"] == "bool" else rng.randint(0, 45) for _ in range(n)]))
        elif c["kind"] == "skip":
            cols.append(dict(c, vals=[0] * n))
        else:
            seen = list(dict.fromkeys(c["vals"]))
            v = dict(c, vals=[rng.choice(seen) for _ in range(n)])
            if "cats" in c:
                v["cats"] = list(c["cats"])
                rng.shuffle(v["cats"])
            cols.append(v)
    return {k: v for k, v in dict(d, cols=cols).items() if k != "index"}


def nrows(d):
    return len(d["rows"]) if d["form"] in ("np", "matrix") else len(d["cols"][0]["vals"])


def ncols(d):
    return len(d["rows"][0]) if d["form"] in ("np", "matrix") else len(d["cols"])


# ------------------------------------------------------------------------------------------- sessions
def basis(rng, n, kind):
    if kind == 0:
        return None
    if kind == "bin":
        v = [[float(rng.random() < .5)] for _ in range(n)]
        v[0], v[1] = [0.0], [1.0]
        return v
    if kind == "bin12":
        v = [[float(rng.choice([1, 2]))] for _ in range(n)]
        v[0], v[1] = [1.0], [2.0]
        return v
    if kind == "int":
        v = [[float(rng.randint(-2, 3))] for _ in range(n)]
        v[0], v[1], v[2] = [-1.0], [0.0], [1.0]
        return v
    return [[float(rng.randint(-2, 2)) for _ in range(kind)] for _ in range(n)]


def as_arr(rng, v, lang, whole=True):
    if v is None:
        return None
    d = {"v": v, "flat": len(v[0]) == 1 and rng.random() < .5}
    if lang == "py":
        d["dt"] = "int64" if whole and rng.random() < .3 else "float64"
        d["order"] = rng.choice(["C", "C", "F", "slice"])
    return d


def outcome(rng, X, n, lang):
    u = [1] * (n // 2) + [-1] * (n // 2) + [0] * (n % 2)
    key = [r[0] if isinstance(r[0], (int, float, bool)) else 0 for r in X["rows"]] if "rows" in X else [float(v) if not isinstance(v, str) else ord(v) for v in X["cols"][0]["vals"]]
    order = sorted(range(n), key=lambda i: (key[i], rng.random()))
    v = [0] * n
    for i, x in zip(order, u):
        v[i] = x
    for _ in range(3):
        i, j = rng.randrange(n), rng.randrange(n)
        v[i], v[j] = v[j], v[i]
    return v


def bart_session(rng, lang, st):
    n = rng.choice([14, 16, 20])
    if lang == "r":
        n += 1
    X = mtable(rng, n, lang)
    zk = rng.choice([0, 0, 1, 2]) if lang == "py" or not st["sampL"][0] else rng.choice([0, 0, 1])
    m, sc = rng.choice([0, 5, -7, 40]), rng.choice([1, 2, 3, 8])
    ntest, nlater = rng.choice([0, 3, 5]), [rng.choice([1, 2, 6]) for _ in range(rng.choice([1, 2]))]
    rfx = lang == "r" and rng.random() < .5
    s = {"kind": "bart", "lang": lang, "s": st, "X": X, "m": m, "sc": sc, "zk": zk, "ntrees": [rng.choice([1, 2, 4])]}
    y = [[m + sc * v] for v in outcome(rng, X, n, lang)]
    s["y"] = as_arr(rng, y, lang)
    s["z"] = as_arr(rng, basis(rng, n, zk), lang)
    s["Xt"] = mlater(rng, X, ntest, lang) if ntest else None
    s["zt"] = as_arr(rng, basis(rng, ntest, zk), lang) if ntest else None
    s["Xl"] = [mlater(rng, X, k, lang) for k in nlater]
    s["zl"] = [as_arr(rng, basis(rng, k, zk), lang) for k in nlater]
    s["pil"] = [None] * len(nlater)
    s["reload"] = rng.choice(["direct", "file", "container", None] if lang == "py" else ["direct", "file", None])
    s["vars"] = [list(range(ncols(X)))]
    a = s["args"] = {"num_trees": s["ntrees"][0], "num_gfr": st["ngfr"], "num_burnin": st["nburn"], "num_mcmc": st["nmcmc"], "keep_gfr": st["kg"], "keep_burnin": st["kb"],
                     "min_samples_leaf": rng.choice([1, 2]), "random_seed": rng.randint(1, 10000), "cutpoint_grid_size": rng.choice([3, 100])}
    if lang == "py":
        a["sample_sigma_global"], a["sample_sigma_leaf"] = st["sampS"], st["sampL"][0]
        if zk == 2:
            s["s"] = dict(st, sampL=[False])
        if rng.random() < .2:
            a["sigma2"], a["lamb"] = rng.choice([.3, 1.0]), .5
    else:
        a["sample_sigma"], a["sample_tau"] = st["sampS"], st["sampL"][0]
        if rng.random() < .3:
            a["variable_weights"] = [rng.choice([0, 1, 2]) for _ in range(ncols(X))]
            # a column that can be split on: more than one value
            if sum(a["variable_weights"]) == 0:
                a["variable_weights"][0] = 1
            s["vars"] = [[i for i, w in enumerate(a["variable_weights"]) if w > 0]]
        if rfx:
            add_rfx(rng, s, n, ntest, nlater)
    return s


def add_rfx(rng, s, n, ntest, nlater):
    labs = rng.choice([["b", "a", "c"], ["10", "9"], ["u", "v"]])
    g = [labs[i % len(labs)] for i in range(n)]
    if rng.random() < .25:   # a group seen once
        g = [labs[0] if x == labs[-1] else x for x in g]
        g[0] = labs[-1]
    rng.shuffle(g)
    nb = rng.choice([0, 0, 1, 2])
    s["rfx"] = {"type": rng.choice(["chr", "factor"]) if labs[0] != "10" else rng.choice(["int", "chr"]), "nb": nb, "g": g, "levels": labs}
    def more(k):
        return {"g": [rng.choice(labs) for _ in range(k)], "b": [[rng.randint(-2, 2) for _ in range(nb)] for _ in range(k)]}
    s["rfx"]["b"] = [[1 if j == 0 and rng.random() < .7 else rng.randint(-2, 2) for j in range(nb)] for _ in range(n)]
    s["rfx"]["t"] = more(ntest) if ntest else None
    s["rfx"]["l"] = [more(k) for k in nlater]


def keep_form(rng, X, keep, which, lang, a):
    """how the caller says that forest `which` may use the columns `keep`"""
    p = ncols(X)
    if keep == list(range(p)) and rng.random() < .5:
        return
    drop = rng.random() < .5 and len(keep) < p
    idx = [i for i in range(p) if i not in keep] if drop else list(keep)
    rng.shuffle(idx)
    nm = "%s_vars_%s" % ("drop" if drop else "keep", which)
    if lang == "py":
        names = X["form"] == "df" and rng.random() < .5
        v = [X["names"][i] for i in idx] if names else idx
        a[nm] = {"np": v} if rng.random() < .5 else v
    else:
        a[nm] = [X["names"][i] for i in idx] if X["form"] == "df" and rng.random() < .5 else [i + 1 for i in idx]


def bcf_session(rng, lang, st, internal):
    n = rng.choice([16, 20])
    if lang == "r":
        n += 1
    X = mtable(rng, n, lang)
    zk = rng.choice(["bin", "bin", "bin", "int", "bin12"] + ([2] if lang == "py" else []))
    pc = rng.choice(["mu", "mu", "tau", "both", "none"])
    if zk == 2 and internal:
        internal = False
    m, sc = rng.choice([0, 5, -7, 40]), rng.choice([1, 2, 3, 8])
    ntest, nlater = rng.choice([0, 3, 5]), [rng.choice([3, 4, 6]) for _ in range(rng.choice([1, 2]))]
    s = {"kind": "bcf", "lang": lang, "s": dict(st), "X": X, "m": m, "sc": sc, "zk": zk, "ntrees": [rng.choice([1, 3]), rng.choice([1, 2])]}
    s["y"] = as_arr(rng, [[m + sc * v] for v in outcome(rng, X, n, lang)], lang)
    s["z"] = as_arr(rng, basis(rng, n, zk), lang)
    pi = lambda k: None if internal and pc != "none" or (pc == "none" and rng.random() < .5) else as_arr(rng, [[rng.choice([.1, .2, .25, .5, .7, .9]) if rng.random() < .6 else rng.random()] for _ in range(k)], lang, False)
    s["pi"] = pi(n)
    s["Xt"] = mlater(rng, X, ntest, lang) if ntest else None
    s["zt"] = as_arr(rng, basis(rng, ntest, zk), lang) if ntest else None
    s["pit"] = pi(ntest) if ntest and s["pi"] else None
    if ntest and s["pi"] and not s["pit"]:
        s["pit"] = as_arr(rng, [[.5]] * ntest, lang, False)
    s["Xl"] = [mlater(rng, X, k, lang) for k in nlater]
    s["zl"] = [as_arr(rng, basis(rng, k, zk), lang) for k in nlater]
    s["pil"] = [pi(k) for k in nlater]
    s["reload"] = rng.choice(["direct", "file", "container", None] if lang == "py" else ["direct", "file", None])
    p = ncols(X)
    cand = [i for i in range(p) if "rows" in X or X["cols"][i]["kind"] != "skip"]
    keepv = [sorted(rng.sample(range(p), rng.randint(1, p))) if rng.random() < .5 else list(range(p)) for _ in range(2)]
    for k in keepv:
        if not set(k) & set(cand):
            k.append(cand[0])
            k.sort()
    s["vars"] = keepv
    s["prop"] = [pc in ("mu", "both"), pc in ("tau", "both")]
    a = s["args"] = {"num_trees_mu": s["ntrees"][0], "num_trees_tau": s["ntrees"][1], "num_gfr": st["ngfr"], "num_burnin": st["nburn"], "num_mcmc": st["nmcmc"], "keep_gfr": st["kg"], "keep_burnin": st["kb"],
                     "min_samples_leaf_mu": rng.choice([1, 2]), "min_samples_leaf_tau": rng.choice([1, 2]), "random_seed": rng.randint(1, 10000), "cutpoint_grid_size": rng.choice([3, 100]),
                     "alpha_tau": rng.choice([.25, .95]), "propensity_covariate": pc, "sample_sigma_global": st["sampS"], "sample_sigma_leaf_mu": st["sampL"][0], "sample_sigma_leaf_tau": st["sampL"][1]}
    if lang == "r" and rng.random() < .4:
        add_rfx(rng, s, n, ntest, nlater)
    if lang == "r":
        a["adaptive_coding"] = rng.random() < .6
        s["coding"] = bool(a["adaptive_coding"] and zk == "bin")
    if lang == "py":
        a["adaptive_coding"] = rng.random() < .5
        s["coding"] = bool(a["adaptive_coding"] and zk in ("bin", "bin12"))
        if s["coding"] and zk == "bin12":
            a["adaptive_coding"] = s["coding"] = False
        if zk == 2:
            s["s"]["sampL"] = [st["sampL"][0], False]
            if rng.random() < .3:
                a["sigma_leaf_tau"] = [[.5, .1], [.1, .25]]
        elif rng.random() < .15:
            a["sigma_leaf_tau"] = [[.5]]
    for w, k in zip(("mu", "tau"), keepv):
        keep_form(rng, X, k, w, lang, a)
    if rng.random() < .2:
        w = [rng.choice([0, 1, 2]) for _ in range(p)]
        for k in keepv:
            if not any(w[i] for i in k if i in cand):
                w[[i for i in k if i in cand][0]] = 1
        a["variable_weights"] = [float(x) for x in w]
        s["vars"] = [[i for i in k if w[i] > 0] for k in keepv]
    return s


# ------------------------------------------------------------------------------------------- events
def tree_nodes(t, dim, thr):
    """reachable nodes of a stored tree, root first"""
    out, order = [], []
    cat = t["node_type"]
    def walk(i):
        me = len(out)
        out.append(None)
        leaf = t["left"][i] == -1
        if leaf:
            v = [t["leaf_value"][i]] if dim == 1 and not t["leaf_vector"] else t["leaf_vector"][t["leaf_vector_begin"][i]:t["leaf_vector_end"][i]]
            out[me] = {"f": 0, "t": 0, "l": 0, "r": 0, "v": [fx(q) for q in v]}
        else:
            f = t["split_index"][i]
            th = thr(f, t["threshold"][i]) if cat[i] in ("numeric_split_node", 1, "kNumericalSplitNode") or not is_cat(t, i) else None
            a = walk(t["left"][i])
            b = walk(t["right"][i])
            out[me] = {"f": f if th is not None else 0 - 1, "t": th if th is not None else 0, "l": a + 1, "r": b + 1, "v": []}
        return me
    walk(0)
    return out


def is_cat(t, i):
    return t["category_list_end"][i] > t["category_list_begin"][i]


class Prop:
    """propensities enter by rank; values closer than 1e-9 are one"""

    def __init__(self, vals):
        self.v = []
        for x in sorted(vals):
            if not self.v or x - self.v[-1] > 1e-9:
                self.v.append(x)

    def rank(self, x):
        return min(range(len(self.v)), key=lambda i: abs(self.v[i] - x)) if self.v else 0

    def thr(self, t):
        return sum(1 for x in self.v if x <= t + 1e-9) - 1


def unhex(r):
    """numbers written exactly by R"""
    r = dict(r)
    f = lambda x: float.fromhex(x) if isinstance(x, str) and "x" in x else float("nan") if x in ("nan", "NA", "NaN") else float(x)
    deep = lambda x: [deep(v) for v in x] if isinstance(x, list) else None if x is None or x == {} else f(x)
    for k in ("sig", "sig2", "bd", "b0", "beta"):
        if r.get(k) is not None:
            r[k] = deep(r[k])
    for k in ("lf", "lf2"):
        if k in r:
            r[k] = deep(r[k])
    r.setdefault("sig", None)
    r["log"] = [dict(e, x=f(e["x"])) if "x" in e else e for e in r["log"]]
    r["forests"] = [json.loads(x) for x in r["forests"]]
    ps = []
    for p in r["preds"]:
        p = dict(p, outs={w: deep(v) for w, v in p["outs"].items()})
        p["prop"] = deep(p["prop"]) if p.get("prop") else None
        ps.append(p)
    r["preds"] = ps
    return r


def model_events(s, r):
    try:
        return model_events_(s, r)
    except (KeyError, IndexError, TypeError, ValueError) as e:   # answers of another shape
        return [{"ev": "fit", "lang": s["lang"], "cols": [], "types": [], "s": s["s"]}, {"ev": "error", "what": "%s: %s" % (type(e).__name__, e)}]


def model_events_(s, r):
    if "error" in r:
        return [{"ev": "fit", "lang": s["lang"], "cols": [], "types": [], "s": s["s"]}, {"ev": "error", "what": r["error"][:300]}]
    if not r["same"]:
        return [{"ev": "fit", "lang": s["lang"], "cols": [], "types": [], "s": s["s"]}, {"ev": "error", "what": "the caller's data was changed"}]
    cells, labs, ids = Cells(), Labs(), Ids()
    if s["lang"] == "r":
        r = unhex(r)
    lang, X = s["lang"], s["X"]
    if lang == "py":
        cols = py_decl(X, labs)
        rows = lambda d: rows_of(d, cells, labs)
    else:
        roles = ["num"] * ncols(X) if X["form"] == "matrix" else [c["kind"] for c in X["cols"]]
        cols = [{"kind": "num", "cats": [], "ft": 0} if k == "num" else {"kind": k, "cats": [labs(x) for x in r_cats(X["cols"][i], k)], "ft": 1} for i, k in enumerate(roles)]
        rows = lambda d: r_rows(d, X.get("names"), roles, cells, labs)
    width = sum(0 if c["kind"] == "skip" else 1 if c["kind"] != "cat" else len(c["cats"]) + (lang == "r") for c in cols)
    bcf = s["kind"] == "bcf"
    off = 0 if lang == "py" else 1
    zd = 1 if not s["z"] else len(s["z"]["v"][0])
    rfx = s.get("rfx")
    glabs = sorted(set(rfx["g"])) if rfx else []
    if rfx and rfx["type"] == "int":
        glabs = [str(x) for x in sorted(int(q) for q in glabs)]
    elif rfx and rfx["type"] == "factor":
        glabs = list(rfx["levels"])
    gnum = {g: i + 1 for i, g in enumerate(glabs)}
    fit = {"ev": "fit", "lang": lang, "kind": s["kind"], "cols": cols, "types": r["types"], "s": s["s"], "vars": [[i + off for i in v] for v in s["vars"]], "prop": s.get("prop", [False]), "ntrees": s["ntrees"],
           "dim": [1 if bcf else zd] + ([zd] if bcf else []), "basis": s["z"] is not None, "m": s["m"], "sc": s["sc"], "ls2": ln(s["sc"] ** 2), "coding": bool(s.get("coding")), "rfx": bool(rfx), "labs": [gnum[g] for g in glabs]}
    out = [fit]
    steps = [e for e in r["log"] if e["k"] == "step"]
    if steps:   # (what goes through the samplers can only be seen while the model uses the package's sampler classes)
        for e in r["log"]:
            if e["k"] == "step":
                out.append({"ev": "step", "f": e["f"], "gfr": e["gfr"], "sig": ids(e["sig"]), "leaf": ids(e["leaf"]), "ns": e["ns"], "w": e["w"]})
            elif e["k"] == "sigma":
                out.append({"ev": "sigma", "v": ids(e["v"]), "ln": ln(e["x"])})
            else:
                out.append({"ev": "leaf", "f": e["f"], "num": e["num"], "v": ids(e["v"]), "ln": ln(e["x"])})
        out.append({"ev": "finish", "hassig": r["sig"] is not None, "sig": [ln(x) for x in r["sig"] or []], "hasleaf": [x is not None for x in r["lf"]], "leaf": [[ln(v) for v in x or []] for x in r["lf"]]})
        if "sig2" in r or "lf2" in r:
            g = r.get("sig2")
            out.append({"ev": "finish", "hassig": g is not None, "sig": [ln(x) for x in g or []], "hasleaf": [x is not None for x in r["lf2"]], "leaf": [[ln(v) for v in x or []] for x in r["lf2"]]})
    pr = Prop([v for p in r["preds"] for v in p.get("prop") or []])
    thr = lambda f, t: pr.thr(t) if f == width else max(-1000, min(2000, math.floor(t))) if t == t else None
    trees = []
    for f, j in enumerate(r["forests"]):
        dim = fit["dim"][f]
        trees.append([[tree_nodes(j["forest_%d" % i]["tree_%d" % k], dim, thr) for k in range(j["num_trees"])] for i in range(j["num_samples"])])
    out.append({"ev": "forests", "trees": trees, "bd": [fx(x, B) for x in r.get("bd", [])], "b0": [fx(x, B) for x in r.get("b0", [])], "beta": [[[fx(v) for v in g] for g in q] for q in r.get("beta", [])]})
    for p in r["preds"]:
        tab = p["tab"]
        i = int(tab[5:]) if tab.startswith("later") else None
        d, z = (s["X"], s["z"]) if tab == "train" else (s["Xt"], s["zt"]) if tab == "test" else (s["Xl"][i], s["zl"][i])
        n = nrows(d)
        e = {"ev": "pred", "what": tab, "rows": rows(d), "hasprop": bool(p.get("prop")), "prop": [pr.rank(x) for x in p.get("prop") or []], "all": bool(p.get("all")),
             "z": [[int(v) for v in q] for q in z["v"]] if z else [[1]] * n, "lab": [], "rb": [], "outs": []}
        if rfx:
            q = rfx if tab == "train" else rfx["t"] if tab == "test" else rfx["l"][i]
            e["lab"] = [gnum[g] for g in q["g"]]
            e["rb"] = [[int(v) for v in b] if rfx["nb"] else [1] for b in (q["b"] if rfx["nb"] else [[]] * n)]
        for w, v in p["outs"].items():
            if w == "tau":
                v = [[[fx(q) for q in c] if isinstance(c, list) else [fx(c)] for c in row] for row in v]
            else:
                v = [[fx(float(c)) for c in row] for row in v]
            e["outs"].append({"what": w, "v": v})
        out.append(e)
    return out


def settings(nf, **k):
    """every setting of draw counts and flags, from the specification"""
    b, _ = behaviours("ModelMC", cfg("ModelMC", NF=nf, Emit="TRUE", **k))
    return list({json.dumps(x, sort_keys=True): x for x in b}.values())


def model_check_main(ck, lang, kind, nf, quick):
    """the fitting loop explored, its settings and more sessions run through the package, everything answered validated"""
    rng = random.Random(SEED)
    acts = ["Step", "DrawSigma", "DrawLeaf", "Finish"]
    models(ck, [("Model: every setting of draw counts, keep flags and sampled variances", "ModelMC", cfg("ModelMC", NF=nf), acts)] +
               ([("Model: more draws", "ModelMC", cfg("ModelMC", NF=nf, MaxG=4, MaxB=4, MaxM=4), acts)] if THOROUGH else []))
    S = settings(nf)
    rng.shuffle(S)
    picked = (S * 8 if THOROUGH else S * (1 + quick // len(S)))[:len(S) * 8 if THOROUGH else quick]
    sc = [bart_session(rng, lang, st) if kind == "bart" else bcf_session(rng, lang, st, rng.random() < .12) for st in picked]
    res = run_driver(lang, "model.py" if lang == "py" else "model.R", sc, lambda s: {"error": "crash"})
    v = Validation("ModelTrace").run([("m%d" % i, model_events(s, r)) for i, (s, r) in enumerate(zip(sc, res))])
    ck.cov["settings of the specification replayed"] = min(len(S), len(picked))
    ck.add_validation("%s of %s models" % ("fit, predict, reload", kind), v)
    ck.assumptions += ["outcomes are balanced two- or three-valued, so that their mean and standard deviation are whole numbers", "no missing covariates", "propensities enter by rank, thresholds on them likewise"]
    ck.sample({"session": sc[-1]})
    return ck.finish()


# ------------------------------------------------------------------------------------------- the working residual
def flt(x):
    """<<m, e>> with 2^14 <= |m| < 2^15"""
    x = fnum(x)
    if x == 0:
        return [0, 0]
    if not math.isfinite(x):
        raise ValueError("a draw or residual is not finite")
    m, e = math.frexp(x)
    m = round(m * 2 ** 15)
    return [m // 2, e - 14] if abs(m) == 2 ** 15 else [m, e - 15]


def resid_events(s, r, law=None):
    """events of ResidTrace; None when the session says nothing about the residual; law: the priors of what is drawn"""
    if "error" in r or not r.get("end") or not r.get("log"):
        return None
    if any(e["k"] == "step" and float.fromhex(e["sig"].split()[0]) < 1e-9 for e in r["log"]):
        return None   # a linear fit without error: beyond what the arithmetic can tell apart
    cells, labs = Cells(), Labs()
    if s["lang"] == "r":
        f = lambda x: float.fromhex(x) if isinstance(x, str) and "x" in x else float(x)
        r = unhex(r)
        r["end"] = [f(x) for x in r["end"]]
        r["coding"] = [[f(x) for x in q] for q in r.get("coding") or []]
        for e in r["log"]:
            if "rv" in e:
                e["rv"] = [f(x) for x in e["rv"] or []]
    lang, X, bcf = s["lang"], s["X"], s["kind"] == "bcf"
    if lang == "py":
        cols = py_decl(X, labs)
        rows = rows_of(X, cells, labs)
    else:
        roles = ["num"] * ncols(X) if X["form"] == "matrix" else [c["kind"] for c in X["cols"]]
        cols = [{"kind": "num", "cats": [], "ft": 0} if k == "num" else {"kind": k, "cats": [labs(x) for x in r_cats(X["cols"][i], k)], "ft": 1} for i, k in enumerate(roles)]
        rows = r_rows(X, X.get("names"), roles, cells, labs)
    width = sum(0 if c["kind"] == "skip" else 1 if c["kind"] != "cat" else len(c["cats"]) + (lang == "r") for c in cols)
    p = r["preds"][0]
    pr = Prop(p.get("prop") or [])
    thr = lambda f, t: pr.thr(t) if f == width else max(-1000, min(2000, math.floor(t))) if t == t else None
    zd = 1 if not s["z"] else len(s["z"]["v"][0])
    dim = [1 if bcf else zd] + ([zd] if bcf else [])
    trees = [[[tree_nodes(j["forest_%d" % i]["tree_%d" % k], dim[f], thr) for k in range(j["num_trees"])] for i in range(j["num_samples"])] for f, j in enumerate(r["forests"])]
    coding = [[fx(x, B) for x in q] for q in r.get("coding") or []]
    if any(abs(x) > 16 * B for q in coding for x in q):
        return None
    rfx = s.get("rfx")
    glabs = sorted(set(rfx["g"])) if rfx else []
    if rfx and rfx["type"] == "int":
        glabs = [str(x) for x in sorted(int(q) for q in glabs)]
    elif rfx and rfx["type"] == "factor":
        glabs = list(rfx["levels"])
    gnum = {g: i + 1 for i, g in enumerate(glabs)}
    n = nrows(X)
    out = [{"ev": "fit", "lang": lang, "cols": cols, "rows": rows, "prop": [pr.rank(x) for x in p.get("prop") or []], "y": [round((v[0] - s["m"]) / s["sc"]) for v in s["y"]["v"]], "z": [[int(v) for v in q] for q in s["z"]["v"]] if s["z"] else [[1]] * n, "trees": trees, "dim": dim,
            "basis": [bool(s["z"]) and not bcf] + ([True] if bcf else []), "coding": coding, "ntrees": s["ntrees"], "labs": [gnum[g] for g in glabs] if rfx else [], "lab": [gnum[g] for g in rfx["g"]] if rfx else [],
            "rb": [[int(v) for v in b] if rfx["nb"] else [1] for b in (rfx["b"] if rfx["nb"] else [[]] * n)] if rfx else [],
            "beta": [[[fx(v) for v in g] for g in q] for q in r.get("beta", [])] if rfx else []}]
    due, f_ = [], lambda x: float.fromhex(x) if isinstance(x, str) else float(x)

    def recode():
        """Python draws the coding at the end of an iteration, R after the treatment forest"""
        if due and law:
            out.append({"ev": "coding", "b": [flt(x) for x in r["coding"][due[0] - 1]]})
        due.clear()
    for e in r["log"]:
        if e["k"] == "step":
            if e["f"] == 1:
                recode()
            out.append({"ev": "step", "f": e["f"], "it": e["ns"], "res": [fx(v) for v in e["rv"]], "sig": flt(float.fromhex(e["sig"].split()[0]))})
            if e["f"] == 2 and coding:
                due.append(e["ns"])
            if lang == "r":
                recode()
        elif law and e["k"] == "sigma":
            out.append({"ev": "sigma", "nu": flt(law["nu"]), "lam": flt(law["lambda"]), "res": [fx(v) for v in e["rv"]], "v": flt(f_(e["x"]))})
        elif law and e["k"] == "leaf":
            out.append({"ev": "leaf", "f": e["f"], "it": e["num"] + 1, "a": flt(law["a"][e["f"] - 1]), "b": flt(law["b"][e["f"] - 1]), "v": flt(f_(e["x"]))})
    recode()
    # the stored fit of the last iteration, where it is retained
    y = p["outs"].get("y") if s["args"]["num_mcmc"] > 0 else None
    out.append({"ev": "end", "res": [fx(v) for v in r["end"]], "fit": [fx((q[-1] - s["m"]) / s["sc"]) for q in y] if y else []})
    return out

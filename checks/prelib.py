"""Covariate tables: generation and projection to events of PreprocTrace."""
from common import *
import tempfile
import subprocess

STRS = ["a", "b", "c", "d", "e", "f"]


class Cells(dict):
    def __call__(self, x):
        x = x if isinstance(x, float) else float.fromhex(x) if isinstance(x, str) and x not in ("nan", "NaN", "NA") else float(x) if not isinstance(x, str) else float("nan")
        if x == x and x == int(x) if abs(x) < 1e6 else False:
            if 0 <= x < 1000 and str(x) != "-0.0":
                return int(x)
        return 1000 + self.setdefault(x.hex(), len(self))


class Labs(dict):
    def __call__(self, x):
        return self.setdefault(str(x), len(self) + 1)


def pool(rng):
    return rng.choice([STRS, STRS, [3, 1, 2, 7, 5], [10, 20, 30]])


def py_col(rng, n):
    k = rng.choice(["num", "num", "bool", "ord", "ord", "cat", "cat", "str", "skip"])
    if k == "num":
        dt = rng.choice(["float64", "float64", "float32", "int64", "int8", "uint8", "Float64", "Int64"])
        lo = 0 if dt[0] == "u" else -50
        vals = [rng.randint(lo, 100) if "int" in dt.lower() else rng.randint(-400, 400) / 8 if rng.random() < .8 else rng.choice([1e300, 5e-324, .1]) if dt.endswith("64") else .5 for _ in range(n)]
        return {"kind": "num", "dt": dt, "vals": vals}
    if k == "bool":
        return {"kind": "num", "dt": rng.choice(["bool", "boolean"]), "vals": [rng.random() < .5 for _ in range(n)]}
    if k == "skip":
        return {"kind": "skip", "dt": rng.choice(["object", "datetime"]), "vals": [0] * n}
    p = rng.sample(STRS, rng.randint(1, 4)) if k == "str" else rng.sample(pool(rng), rng.randint(1, 3)) if rng.random() < .8 else [2]
    if k == "str":
        return {"kind": "str", "vals": [rng.choice(p) for _ in range(n)]}
    c = {"kind": k, "cats": p, "vals": [rng.choice(p) for _ in range(n)]}
    return c


def py_later(rng, c, n):
    """another table's column for the same preprocessor"""
    if c["kind"] in ("num", "skip"):
        d = py_col(rng, n)
        while d["kind"] != c["kind"] or (c["kind"] == "num" and (d["dt"] in ("bool", "boolean")) != (c["dt"] in ("bool", "boolean"))):
            d = py_col(rng, n)
        return d
    cats = list(c["cats"]) if "cats" in c else sorted(set(c["vals"]))
    new = [x for x in (STRS if isinstance(cats[0], str) else [1, 2, 3, 4, 5, 7, 10, 20]) if x not in cats]
    use = rng.sample(cats, rng.randint(1, len(cats)))
    x = rng.random()
    if x < .15:
        use = use + rng.sample(new, 1)
    vals = [rng.choice(use) for _ in range(n)]
    if c["kind"] == "str":
        return {"kind": "str", "vals": vals}
    decl = list(dict.fromkeys(use + (cats if rng.random() < .5 else []) + (rng.sample(new, 1) if rng.random() < .2 else [])))
    rng.shuffle(decl)
    d = {"kind": c["kind"], "cats": decl, "vals": vals}
    if rng.random() < .2:
        d["plain"] = "object"
    return d


def rows_of(d, cells, labs):
    if d["form"] in ("np", "matrix"):
        return [[cells(float(v)) for v in r] for r in d["rows"]]
    n = len(d["cols"][0]["vals"])
    def val(c, i):
        if c["kind"] == "skip":
            return 0
        return cells(float(c["vals"][i])) if c["kind"] == "num" else labs(c["vals"][i])
    return [[val(c, i) for c in d["cols"]] for i in range(n)]


def py_decl(d, labs):
    if d["form"] == "np":
        return [{"kind": "num", "cats": [], "ft": 1 if len(set(r[j] for r in d["rows"])) == 2 else 0} for j in range(len(d["rows"][0]))]
    out = []
    for c in d["cols"]:
        k = c["kind"]
        if k == "num":
            out.append({"kind": "num", "cats": [], "ft": 1 if c["dt"] in ("bool", "boolean") else 0})
        elif k == "skip":
            out.append({"kind": "skip", "cats": [], "ft": 0})
        elif k == "str":
            out.append({"kind": "cat", "cats": [labs(x) for x in sorted(set(c["vals"]))], "ft": 1})
        else:
            out.append({"kind": k, "cats": [labs(x) for x in c["cats"]], "ft": 1})
    return out


def supported(d):
    return any(c["kind"] != "skip" for c in d["cols"])


def py_table(rng):
    n = rng.choice([1, 2, 3, 6])
    if rng.random() < .2:
        p = rng.choice([1, 2, 3])
        o = rng.choice(["C", "F", "slice"] + (["flat"] if p == 1 else []))
        dt = rng.choice(["float64", "float32", "int64", "bool", "uint8"])
        vals = [0, 1] if dt == "bool" else list(range(0, 9))
        return {"form": "np", "dt": dt, "order": o, "rows": [[rng.choice(vals[:rng.choice([1, 2, 9])]) for _ in range(p)] for _ in range(n)]}
    while True:
        d = {"form": "df", "cols": [py_col(rng, n) for _ in range(rng.randint(1, 4))], "index": rng.random() < .3}
        if supported(d):
            return d


def py_after(rng, d):
    if d["form"] == "np":
        e = py_table(rng)
        while e["form"] != "np" or len(e["rows"][0]) != len(d["rows"][0]):
            e = py_table(rng)
        return e
    if rng.random() < .2:
        return d
    n = rng.choice([1, 2, 5])
    return {"form": "df", "cols": [py_later(rng, c, n) for c in d["cols"]]}


def py_session(rng):
    s, cur = [], {}
    for _ in range(rng.randint(2, 8)):
        t = rng.choice([1, 2])
        if t not in cur or rng.random() < .3:
            cur[t] = py_table(rng)
            s.append({"op": rng.choice(["fit", "fit_transform"]), "t": t, "d": cur[t]})
        else:
            s.append({"op": "apply", "t": t, "d": py_after(rng, cur[t])})
    return s


def from_behaviour(b, lang, rng):
    """a behaviour of the specification as a session: columns and rows as the specification chose them"""
    s, cur = [], None
    for i, o in enumerate(b):
        if o["op"] == "fit":
            cur = o["cols"]
            # the training table shows every category
            n = max([1] + [len(c["cats"]) for c in cur])
            def col(c):
                if c["kind"] == "num":
                    return {"kind": "num", "dt": "float64", "vals": [float(q) for q in range(n)]}
                if c["kind"] == "skip":
                    return {"kind": "skip", "dt": "object", "vals": [0] * n}
                cats = [STRS[v] for v in c["cats"]]
                return {"kind": c["kind"], "cats": cats, "vals": [cats[q % len(cats)] for q in range(n)]}
            d = {"form": "df", "cols": [col(c) for c in cur]}
            if not supported(d):
                return None
            s.append({"op": "fit", "t": 1, "d": d})
        else:
            def col(c, v):
                if c["kind"] == "num":
                    return {"kind": "num", "dt": "float64", "vals": [float(v)]}
                if c["kind"] == "skip":
                    return {"kind": "skip", "dt": "object", "vals": [0]}
                return {"kind": c["kind"], "cats": [STRS[v]] + ([STRS[q] for q in range(3) if q != v] if (i + v) % 2 else []), "vals": [STRS[v]]}
            s.append({"op": "apply", "t": 1, "d": {"form": "df", "cols": [col(c, v) for c, v in zip(cur, o["row"])]}})
    return s


def pre_crashed(s):
    return [{"error": "crash", "same": True}] * len(s)


def py_events(s, res):
    cells, labs = Cells(), Labs()
    out = [{"ev": "begin"}]
    for o, r in zip(s, res):
        rows = rows_of(o["d"], cells, labs)
        if not r["same"]:
            return out + [{"ev": "error", "what": "the caller's table was changed"}]
        if "error" in r:
            if o["op"] == "apply" and "unknown categories" in r["error"]:
                out.append({"ev": "refuse", "t": o["t"], "rows": rows})
                continue
            return out + [err_event(r)]
        if o["op"] != "apply":
            out.append({"ev": "fit", "t": o["t"], "lang": "py", "cols": py_decl(o["d"], labs), "types": r["types"], "hassource": "source" in r, "source": r.get("source", [])})
        if "m" in r:
            out.append({"ev": "apply", "t": o["t"], "rows": rows, "out": [[cells(v) for v in row] for row in r["m"]], "hassource": True, "source": r["source"]})
    return out


def r_col(rng, n, kinds):
    k = rng.choice(kinds)
    if k == "num":
        dt = rng.choice(["dbl", "dbl", "int"])
        return {"kind": "num", "dt": dt, "vals": [rng.randint(-50, 100) if dt == "int" else rng.randint(-400, 400) / 8 if rng.random() < .8 else rng.choice([1e300, 5e-324, .1]) for _ in range(n)]}
    if k in ("chr", "intcat"):
        p = rng.sample(STRS if k == "chr" else [1, 2, 3, 10, 20, 7], rng.randint(1, 4))
        return {"kind": "chr" if k == "chr" else "num", "dt": "int", "vals": [rng.choice(p) for _ in range(n)], "code": True}
    p = rng.sample(pool(rng), rng.randint(1, 3))
    return {"kind": k, "cats": [str(x) for x in p], "vals": [str(rng.choice(p)) for _ in range(n)]}


def r_cats(c, role):
    """training categories of a column in a categorical role, in order"""
    if c["kind"] in ("chr", "num"):
        return sorted(set(c["vals"]))
    if c["kind"] == "ord" and role == "ord":
        return list(c["cats"])
    return [x for x in c["cats"] if x in c["vals"]]


def r_later(rng, c, role, n):
    if role == "num":
        return r_col(rng, n, ["num"])
    cats = r_cats(c, role)
    new = [x for x in ([1, 2, 3, 7, 10, 20, 30, 5] if not isinstance(cats[0], str) else ["1", "2", "3", "10"] if cats[0].isdigit() else STRS) if x not in cats]
    use = rng.sample(cats, rng.randint(1, len(cats))) + (rng.sample(new, 1) if rng.random() < .3 and new else [])
    vals = [rng.choice(use) for _ in range(n)]
    if not isinstance(cats[0], str):
        return {"kind": "num", "dt": "int", "vals": vals}
    if rng.random() < .3:
        return {"kind": "chr", "vals": vals}
    decl = list(dict.fromkeys(use + (cats if rng.random() < .5 else []) + (rng.sample(new, 1) if rng.random() < .3 and new else [])))
    rng.shuffle(decl)
    return {"kind": rng.choice(["ord", "cat"]) if rng.random() < .3 else "ord" if role == "ord" else "cat", "cats": decl, "vals": vals}


def r_session(rng):
    s, cur = [], {}
    for _ in range(rng.randint(2, 7)):
        t = rng.choice([1, 2])
        if t not in cur or rng.random() < .25:
            api = rng.choice(["pre", "cov"])
            n = rng.choice([1, 2, 3, 6, 9])
            p = rng.randint(1, 4)
            if rng.random() < .2:
                d = {"form": "matrix", "rows": [[rng.choice([0, 1, 2, 3.5, -7]) for _ in range(p)] for _ in range(n)]}
                roles = ["num" if api == "pre" else rng.choice(["num", "ord", "cat"]) for _ in range(p)]
                o = {"ord": [j + 1 for j in range(p) if roles[j] == "ord"], "unord": [j + 1 for j in range(p) if roles[j] == "cat"]}
            else:
                names = ["x%d" % i for i in range(p)]
                rng.shuffle(names)
                if api == "pre":
                    cols = [r_col(rng, n, ["num", "ord", "cat", "chr"]) for _ in range(p)]
                    roles = ["cat" if c["kind"] == "chr" else c["kind"] for c in cols]
                    o = {"ord": [], "unord": []}
                else:
                    roles = [rng.choice(["num", "ord", "cat"]) for _ in range(p)]
                    cols = [r_col(rng, n, ["num"] if r == "num" else ["chr", "intcat", "cat"] + (["ord", "ord"] if r == "ord" else [])) for r in roles]
                    o = {"ord": [names[j] for j in range(p) if roles[j] == "ord"], "unord": [names[j] for j in range(p) if roles[j] == "cat"]}
                    rng.shuffle(o["ord"])
                d = {"form": "df", "names": names, "cols": cols}
            cur[t] = (api, d, roles)
            s.append({"op": "fit", "t": t, "api": api, "d": d, "roles": roles, **o})
            s.append({"op": "apply", "t": t, "api": api, "d": d})
        else:
            api, d, roles = cur[t]
            n = rng.choice([1, 1, 2, 5])
            if d["form"] == "matrix":
                e = {"form": "matrix", "rows": [[rng.choice([0, 1, 2, 3.5, -7, 12]) for _ in d["rows"][0]] for _ in range(n)]}
            elif rng.random() < .3:
                # some rows of the training table
                pick = [rng.randrange(len(d["cols"][0]["vals"])) for _ in range(n)]
                e = {"form": "df", "names": d["names"], "cols": [dict(c, vals=[c["vals"][i] for i in pick]) for c in d["cols"]]}
            else:
                e = {"form": "df", "names": list(d["names"]), "cols": [r_later(rng, c, r, n) for c, r in zip(d["cols"], roles)]}
            if e["form"] == "df" and rng.random() < .4:
                # other column order, further columns
                order = list(range(len(e["names"])))
                rng.shuffle(order)
                e = {"form": "df", "names": [e["names"][i] for i in order], "cols": [e["cols"][i] for i in order]}
                if rng.random() < .5:
                    e["names"] = ["extra"] + e["names"]
                    e["cols"] = [{"kind": "chr", "vals": ["q"] * n}] + e["cols"]
            s.append({"op": "apply", "t": t, "api": api, "d": e})
    return s


def r_from_behaviour(b, rng):
    s = from_behaviour(b, "r", rng)
    names, out = [], []
    for o in s:
        d = dict(o["d"], names=["x%d" % i for i in range(len(o["d"]["cols"]))], cols=[dict(c, dt="dbl") if c["kind"] == "num" else c for c in o["d"]["cols"]])
        out.append({"op": o["op"], "t": o["t"], "api": "pre", "d": d, "ord": [], "unord": [], "roles": [c["kind"] for c in d["cols"]]})
    return out


def r_rows(d, names, roles, cells, labs):
    """rows of a table in the columns of the training table"""
    if d["form"] == "matrix":
        return [[cells(float(v)) if r == "num" else labs(float(v)) for v, r in zip(row, roles)] for row in d["rows"]]
    col = dict(zip(d["names"], d["cols"]))
    n = len(d["cols"][0]["vals"])
    return [[cells(float(col[m]["vals"][i])) if r == "num" else labs(col[m]["vals"][i]) for m, r in zip(names, roles)] for i in range(n)]


def r_events(s, res):
    cells, labs = Cells(), Labs()
    cur, out = {}, [{"ev": "begin"}]
    for o, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        if o["op"] == "fit":
            cur[o["t"]] = (o["d"].get("names"), o["roles"])
        names, roles = cur[o["t"]]
        rows = r_rows(o["d"], names, roles, cells, labs)
        if o["op"] == "fit":
            cols = []
            for j, role in enumerate(roles):
                c = o["d"]["cols"][j] if o["d"]["form"] == "df" else {"kind": "num", "vals": [float(row[j]) for row in o["d"]["rows"]]}
                cols.append({"kind": role, "cats": [] if role == "num" else [labs(x) for x in r_cats(c, role)], "ft": 0})
            out.append({"ev": "fit", "t": o["t"], "lang": "r", "cols": cols, "types": r["types"], "hassource": "source" in r, "source": r.get("source", [])})
        out.append({"ev": "apply", "t": o["t"], "rows": rows, "out": [[cells(v) for v in row] for row in r["m"]], "hassource": False, "source": []})
    return out

"""Dataset sessions: generation and projection to events of DataTrace."""
from common import *

FIELDS = {"py": ["X", "B", "W", "R"], "r": ["X", "B", "W", "R"], "cpp": ["X", "B", "W", "R", "M", "GB", "GW", "GL"]}
VEC = {"W", "R", "GW", "GL"}


def cell(rng, dt):
    if dt in ("float64", ">f8"):
        return rng.choice([float(rng.randint(-50, 50)) / 8, .1, -0.0, 1e300, 5e-324, float("nan"), float("inf"), rng.random()])
    if dt == "float32":
        return rng.randint(-50, 50) / 8
    return float(rng.randint(0 if dt in ("uint8", "bool") else -100, 1 if dt == "bool" else 100))


def hx(x):
    return "nan" if x != x else "inf" if x == float("inf") else "-inf" if x == -float("inf") else x.hex()


def view(rng, cells, lang, vec):
    for _ in range(200):
        n, p = rng.randint(1, 4), 1 if vec else rng.randint(1, 3)
        if lang == "cpp":
            rm = rng.random() < .5
            s0, s1 = (p, 1) if rm else (1, n)
        elif vec and lang == "py":
            s0, s1 = rng.choice([1, 1, 2, 3, -1, -2, 0]), 1
        else:
            s0, s1 = rng.choice([(p, 1), (1, n), (2 * p, 1), (1, 2 * n), (2 * p, 2), (2, 2 * n), (-p, 1), (p, -1), (rng.randint(-3, 4), rng.randint(-3, 4))])
        off = rng.randint(0, cells - 1)
        if all(0 <= off + i * s0 + j * s1 < cells for i in (0, n - 1) for j in (0, p - 1)):
            return {"n": n, "p": p, "off": off, "s0": s0, "s1": s1}
    return {"n": 1, "p": 1, "off": 0, "s0": 1, "s1": 1}


def mem_op(rng, b, lang):
    dt = rng.choice(["float64"] * 4 + ["float32", "int64", "int32", "uint8", "bool", ">f8"]) if lang == "py" else "float64"
    return {"op": "mem", "b": b, "dt": dt, "cells": [hx(cell(rng, dt)) for _ in range(rng.randint(6, 24))]}


def session(rng, lang):
    ops, basis = [], {}
    mems = {b: mem_op(rng, b, lang) for b in range(2)}
    labels = {"op": "mem", "b": 2, "dt": "int64", "cells": [hx(float(rng.randint(-9, 20))) for _ in range(12)]}
    ops = list(mems.values()) + [labels]
    mems[2] = labels
    ncell = {b: len(m["cells"]) for b, m in mems.items()}

    def arg(f, n=None):
        b = 2 if f == "GL" else rng.randint(0, 1)
        vec = f in VEC
        for _ in range(50):
            v = view(rng, ncell[b], lang, vec)
            if n is None or v["n"] == n:
                break
        if n is not None and v["n"] != n:
            v = {"n": n, "p": 1, "off": 0, "s0": 1, "s1": n if lang == "cpp" else 1}
        if lang == "cpp" and v["p"] == 1:
            v["s0"] = 1
        return {"b": b, "view": v, "vec": vec and (lang != "py" or rng.random() < .7)}
    nobj = rng.randint(1, 2)
    for d in range(nobj):
        if lang == "r":
            parts = {"X": arg("X")}
            for f in ("B", "W"):
                if rng.random() < .6:
                    parts[f] = arg(f)
            ops.append({"op": "new", "d": d, "kind": "forest", "parts": parts})
            if "B" in parts:
                basis[d] = parts["B"]["view"]
            if rng.random() < .5:
                n = rng.randint(1, 4)
                parts = {"GL": arg("GL", n), "GB": arg("GB", n)}
                if rng.random() < .5:
                    parts["GW"] = arg("GW", n)
                ops.append({"op": "new", "d": d, "kind": "rfx", "parts": parts})
    for _ in range(rng.randint(2, 8)):
        x, d = rng.random(), rng.randint(0, nobj - 1)
        if x < .35:
            b = rng.randint(0, 1)
            ops.append({"op": "write", "b": b, "i": rng.randint(0, ncell[b] - 1), "v": hx(cell(rng, mems[b]["dt"]))})
        elif x < .6 and (d in basis or rng.random() < .1):
            n = basis[d]["n"] if d in basis else None
            a = arg("B", n)
            if a["view"]["n"] != (n or a["view"]["n"]):
                continue
            ops.append(dict(a, op="replace", d=d, f="B"))
        else:
            f = rng.choice(FIELDS[lang])
            a = arg(f)
            o = dict(a, op="put", d=d, f=f)
            if lang == "cpp":
                o["load"] = rng.random() < .5
            ops.append(o)
            if f == "B":
                basis[d] = a["view"]
    return {"lang": lang, "ops": ops}


def from_behaviour(b, lang, rng):
    dt = rng.choice(["float64"] * 3 + ["int64", "float32"]) if lang == "py" else "float64"
    cs = rng.sample(range(-60, 60), 12)
    ops, has = [{"op": "mem", "b": 0, "dt": dt, "cells": [hx(float(c)) for c in cs[:5]]}], None
    for o in b:
        if o["op"] == "write":
            ops.append({"op": "write", "b": 0, "i": o["i"], "v": hx(float(cs[5 + o["i"]]))})
        else:
            v = {k: o[k] for k in ("n", "p", "off", "s0", "s1")}
            if lang == "cpp" and not ((v["s0"] == v["p"] and v["s1"] == 1) or (v["s0"] == 1 and v["s1"] == v["n"])):
                return None
            x = {"b": 0, "view": v, "d": 0}
            if lang == "r" and len([q for q in ops if q["op"] == "new"]) == 0:
                ops.append({"op": "new", "d": 0, "kind": "forest", "parts": {"X": {"b": 0, "view": v, "vec": False}}})
            f = rng.choice([o["f"], o["f"], "W", "R"]) if v["p"] == 1 else o["f"]
            vec = f in VEC and (lang != "py" or rng.random() < .7)
            if vec and lang == "cpp":
                x["view"]["s0"], x["view"]["s1"] = 1, v["n"]
            if f == "B" and has == (v["n"], v["p"]) and rng.random() < .5:
                ops.append(dict(x, op="replace", f="B", vec=False))
            else:
                ops.append(dict(x, op="put", f=f, vec=vec))
            if f == "B":
                has = (v["n"], v["p"])
    if lang == "cpp" and any(not ok_view(o) for o in ops if "view" in o):
        return None
    return {"lang": lang, "ops": ops}


def ok_view(o):
    v = o["view"]
    return all(0 <= v["off"] + i * v["s0"] + j * v["s1"] < 5 for i in (0, v["n"] - 1) for j in (0, v["p"] - 1))


def dset_crashed(s):
    return [{"error": "crash", "held": {}} for _ in s["ops"]]


def script(s):
    """commands of the C++ harness for a session"""
    sc, seen = [{"op": "begin", "seed": 1}], set()
    for o in s["ops"]:
        if o["op"] == "mem":
            sc.append({"op": "hmem", "b": o["b"], "cells": [cnum(x) for x in o["cells"]]})
        elif o["op"] == "write":
            sc.append({"op": "hwrite", "b": o["b"], "i": o["i"], "v": cnum(o["v"])})
        else:
            seen.add(o["d"])
            v = o["view"]
            sc.append({"op": "hput", "d": o["d"], "f": "UB" if o["op"] == "replace" else o["f"], "b": o["b"], "off": v["off"], "n": v["n"], "p": v["p"], "row_major": v["s0"] == v["p"] and v["s1"] == 1, "load": o.get("load", False)})
        for d in sorted(seen):
            sc.append({"op": "hheld", "d": d})
    return sc


def cnum(x):
    return x if x in ("nan", "inf", "-inf") else float.fromhex(x)


def from_harness(s, res):
    """harness results in the form of the drivers' results"""
    it, out, seen = iter(res), [], set()
    nx = lambda: next(it, {"error": "crash", "crash": True})
    nx()
    for o in s["ops"]:
        r = nx()
        e = {"held": {}}
        if "error" in r:
            e["error"] = r["error"]
        if "d" in o:
            seen.add(o["d"])
        for d in sorted(seen):
            h = nx()
            if "error" in h:
                e["error"] = h["error"]
                continue
            q = {f: [[hx(fnum(x)) for x in row] for row in rows] for f, rows in h["held"].items()}
            if "sizes" in h:
                q["dims"] = [h["sizes"]["n"], h["sizes"]["p"], h["sizes"]["nb"]]
            if "gn" in h:
                q["gn"] = h["gn"]
            e["held"][str(d)] = q
        out.append(e)
    return out


class Ids(dict):
    def __call__(self, x):
        x = x if x in ("nan", "inf", "-inf") else "nan" if x == "NaN" else hx(float.fromhex(x))
        return self.setdefault(x, len(self))


def dset_events(s, res):
    I, ev = Ids(), [{"ev": "begin"}]
    dts = {}
    for o, r in zip(s["ops"], res):
        r = r or {}
        if o["op"] == "mem":
            dts[o["b"]] = o["dt"]
            ev.append({"ev": "mem", "b": o["b"], "cells": [I(x) for x in o["cells"]]})
        elif o["op"] == "write":
            ev.append({"ev": "write", "b": o["b"], "i": o["i"], "v": I(o["v"])})
        elif o["op"] == "new":
            if "error" not in r:
                for f, p in o["parts"].items():
                    ev.append({"ev": "put", "d": o["d"], "f": f, "b": p["b"], "view": p["view"]})
        elif "error" not in r:
            ev.append({"ev": "replace" if o["op"] == "replace" else "put", "d": o["d"], "f": o["f"], "b": o["b"], "view": o["view"]})
        elif o["op"] == "replace":
            ev.append({"ev": "refuse", "d": o["d"], "view": o["view"]})
        if ("error" in r and o["op"] != "replace") or r.get("same") is False or "crash" in str(r.get("error")):
            ev.append({"ev": "error", "what": str(r.get("error", "changed the caller's array"))[:200]})
        for d, h in (r.get("held") or {}).items():
            sizes = []
            if "dims" in h:
                sizes = [{"f": "X", "what": "rows", "k": int(h["dims"][0])}, {"f": "X", "what": "cols", "k": int(h["dims"][1])}, {"f": "B", "what": "cols", "k": int(h["dims"][2])}]
            if "gn" in h:
                sizes.append({"f": "GB", "what": "rows", "k": int(h["gn"])})
            fields = [{"f": f, "rows": [[I(x) for x in row] for row in rows]} for f, rows in h.items() if f not in ("dims", "gn")]
            ev.append({"ev": "held", "d": int(d), "fields": fields, "sizes": sizes})
    return ev

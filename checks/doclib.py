"""Document sessions: generation and projection to events of DocTrace."""
from common import *
import struct

TYPES = ["num", "bool", "str", "vec", "svec"]
NAMES = ["x", "y", "forest_0", "num_samples", "a/b", "b~0", "é☃", " ", "s", "True"]
SUBS = ["params", "p.q", "ü"]
STRINGS = ["", "a", "näïve ☃", 'quo"te', "back\\slash", "new\nline\ttab", "\u0001", "1.0", "true", "null", "[1]", "x" * 300]
RESERVED = {"forests", "num_forests", "random_effects", "num_random_effects"}


def number(rng):
    x = rng.random()
    if x < .3:
        return float(rng.randint(-5, 5))
    if x < .6:
        return rng.choice([.1, -0.0, 1e308, 5e-324, 2.0**53 + 2, 1 / 3, -1e-7, 123456789.123456789, 1e22, 2.2250738585072014e-308, 0.30000000000000004])
    while True:
        v = struct.unpack("d", struct.pack("Q", rng.getrandbits(64)))[0]
        if v == v and abs(v) != float("inf"):
            return v


def value(rng, ty, lang):
    """(value as the drivers read it, shape)"""
    if ty == "num":
        return number(rng).hex(), ""
    if ty == "bool":
        return rng.random() < .5, ""
    if ty == "str":
        return rng.choice(STRINGS), ""
    n = rng.choice([0, 1, 1, 2, 3, 8])
    if ty == "svec":
        return [rng.choice(STRINGS) for _ in range(n)], rng.choice(["", "", "list"])
    sh = rng.choice(["", "", "stride", "col", "rev", "f32", "int", "mat"] if lang == "py" else ["", "", "int", "mat", "list"])
    if sh in ("f32", "int"):
        return [float(rng.randint(-100, 100)).hex() for _ in range(n)], sh
    return [number(rng).hex() for _ in range(n)], sh


def forest_spec(rng):
    return {"seed": rng.randint(1, 6), "trees": rng.choice([1, 3]), "samples": rng.choice([1, 2, 3]), "dim": rng.choice([0, 0, 1, 2]), "types": rng.choice([[0, 0, 0], [1, 2, 0]])}


def rfx_spec(rng):
    return {"seed": rng.randint(1, 5), "comps": rng.choice([1, 2]), "samples": rng.choice([1, 3]), "labels": rng.choice([[1, 2], [9, 10, -3], [5], [20, 3, 100]])}


def finish(ops, lang, rng):
    """reads after every step"""
    keys, ty, out, fty = {}, {}, [], {}
    for o in ops:
        if o["op"] == "store":
            keys[(o.get("sub", ""), o["name"])] = 1
    keys[("", "never")] = keys[("params", "never")] = 1
    docs = sorted({o["d"] for o in ops})
    for o in ops:
        out.append(o)
        d = o["d"]
        t = ty.setdefault(d, {})
        if o["op"] == "store":
            t[(o.get("sub", ""), o["name"])] = o["ty"]
        elif o["op"] == "save":
            fty[o["file"]] = dict(t)
        elif o["op"] == "load":
            ty[d] = dict(fty[o["file"]])
        if o["op"] != "save":
            out.append({"op": "read", "d": d, "alt": rng.random() < .4, "keys": [{"sub": a, "name": b, "ty": ty[d].get((a, b), "")} for a, b in keys]})
    for d in docs:
        out.append({"op": "read", "d": d, "alt": True, "keys": [{"sub": a, "name": b, "ty": ty[d].get((a, b), "")} for a, b in keys]})
        out.append({"op": "text", "d": d})
    return {"lang": lang, "ops": out}


def session(rng, lang):
    ops, saved, n = [], set(), rng.randint(3, 12)
    names, subs = rng.sample(NAMES, 2), rng.sample(SUBS, 1)
    docs = [0, 1] if rng.random() < .3 else [0]
    for _ in range(n):
        d, x = rng.choice(docs), rng.random()
        if x < .55:
            ty = rng.choice(TYPES)
            v, sh = value(rng, ty, lang)
            o = {"op": "store", "d": d, "name": rng.choice(names), "ty": ty, "v": v, "shape": sh}
            if rng.random() < .5:
                o["sub"] = rng.choice(subs)
            ops.append(o)
        elif x < .68:
            ops.append({"op": "forest", "d": d, "f": forest_spec(rng)})
        elif x < .78 and lang == "r":
            ops.append({"op": "rfx", "d": d, "f": rfx_spec(rng)})
        elif x < .88 or not saved:
            f = rng.randint(0, 1)
            saved.add(f)
            ops.append({"op": "save", "d": d, "file": f})
        else:
            ops.append({"op": "load", "d": d, "file": rng.choice(sorted(saved)), "fresh": rng.random() < .5})
    return finish(ops, lang, rng)


def from_behaviour(b, lang, rng):
    fs = {1: forest_spec(rng), 2: forest_spec(rng)}
    ops = []
    for o in b:
        o = dict(o)
        if o["op"] == "store":
            o["v"], o["shape"] = value(rng, o["ty"], lang)
            o["sub"] = {"": "", "s": "params"}[o["sub"]]
        elif o["op"] == "forest":
            o["f"] = fs[o["f"]]
        elif o["op"] == "load":
            o["fresh"] = rng.random() < .5
        ops.append(o)
    return finish(ops, lang, rng)


def doc_crashed(s):
    return [{"error": "crash"} for _ in s["ops"]]


class Interned(dict):
    def __call__(self, x):
        return "v%d" % self.setdefault(json.dumps(x), len(self))


def canon(ty, v):
    f = lambda x: float.fromhex(x).hex()
    return f(v) if ty == "num" else [f(x) for x in v] if ty == "vec" else v


def doc_events(s, res):
    lang, I, seen = s["lang"], Interned(), set()
    ev = [{"ev": "begin"}]
    for o, r in zip(s["ops"], res):
        r = r or {}
        d = o["d"]
        if d not in seen:
            seen.add(d)
            ev.append({"ev": "new", "d": d})
        if "error" in r or r.get("same") is False:
            ev.append({"ev": "error", "what": "%s: %s" % (o["op"], str(r.get("error", "changed the caller's data"))[:200])})
            continue
        if o["op"] == "store":
            ev.append({"ev": "store", "d": d, "sub": o.get("sub", ""), "name": o["name"], "ty": o["ty"], "v": I(canon(o["ty"], o["v"]))})
        elif o["op"] == "forest":
            ev.append({"ev": "forest", "d": d, "f": I(r["f"]), "label": r["label"]})
        elif o["op"] == "rfx":
            ev.append({"ev": "rfx", "d": d, "r": I(r["r"])})
        elif o["op"] in ("save", "load"):
            ev.append({"ev": o["op"], "d": d, "file": o["file"]})
        elif o["op"] == "read":
            vals = []
            for k, e in zip(o["keys"], r["vals"]):
                ty = k["ty"]
                ok = e["has"] and "v" in e and (ty != "bool" or e.get("isbool"))
                vals.append({"sub": k["sub"], "name": k["name"], "has": e["has"], "ty": ty if ok else "", "v": I(canon(ty, e["v"])) if ok else ""})
            x = {"ev": "read", "d": d, "vals": vals, "forests": [I(t) for t in r["forests"]], "rfx": [I(t) for t in r.get("rfx", [])], "hasnf": lang == "r", "nf": 0, "nr": 0, "labels": []}
            if lang == "r":
                x.update(nf=int(r["nf"]), nr=int(r["nr"]), labels=list(r["labels"]))
            ev.append(x)
        elif o["op"] == "text":
            try:
                t = json.loads(r["text"])
            except ValueError as e:
                ev.append({"ev": "error", "what": "text is not JSON: %s" % e})
                continue
            known = {(q["sub"], q["name"]): q["ty"] for p in s["ops"] if p["op"] == "read" and p["d"] == d for q in p["keys"]}   # as of the last read
            vals = []

            def add(sub, name, v):
                if isinstance(v, bool):
                    ty, c = "bool", v
                elif isinstance(v, (int, float)):
                    ty, c = "num", float(v).hex()
                elif isinstance(v, str):
                    ty, c = "str", v
                elif isinstance(v, list):
                    if v:
                        ty = "svec" if isinstance(v[0], str) else "vec"
                    else:
                        ty = known.get((sub, name), "")
                    c = [float(x).hex() for x in v] if ty == "vec" else v
                else:
                    ty, c = "other", ""
                vals.append({"sub": sub, "name": name, "has": True, "ty": ty, "v": I(c)})
            for name, v in t.items():
                if name in RESERVED:
                    continue
                if isinstance(v, dict):
                    for kid, w in v.items():
                        add(name, kid, w)
                else:
                    add("", name, v)
            ev.append({"ev": "text", "d": d, "vals": vals})
    return ev

"""replays document sessions on stochtree.JSONSerializer: doc.py IN OUT"""
import json
import os
import sys
import tempfile
import warnings
warnings.simplefilter("ignore")
import numpy as np
from stochtree import JSONSerializer, ForestContainer, Dataset, Residual, RNG, ForestSampler


def num(x):
    return float.fromhex(x)


def forest(spec):
    """a sampled collection of forests"""
    rng = np.random.default_rng(spec["seed"])
    n, p = 30, 3
    X = rng.integers(0, 6, size=(n, p)).astype(float)
    y = rng.normal(size=n) + X[:, 0]
    y = (y - y.mean()) / y.std()
    d = Dataset()
    d.add_covariates(X)
    dim = spec["dim"]
    if dim:
        B = rng.normal(size=(n, dim))
        d.add_basis(B)
    r = Residual(y)
    ft = np.array(spec["types"], dtype=np.int32)
    s = ForestSampler(d, ft, spec["trees"], n, .95, 1.25, 1)
    c = ForestContainer(spec["trees"], max(dim, 1), dim == 0)
    g = RNG(spec["seed"] + 1)
    for i in range(spec["samples"]):
        s.sample_one_iteration(c, d, r, g, ft, 10, np.eye(max(dim, 1)) / spec["trees"], np.ones(p) / p, 1., 0 if dim == 0 else 1 if dim == 1 else 2, i % 2 == 0, False)
    return c, d


class Ids:
    def __init__(self):
        self.cache = {}

    def of(self, spec):
        k = json.dumps(spec, sort_keys=True)
        if k not in self.cache:
            self.cache[k] = forest(spec)
        return self.cache[k]


def text_of(c, d, tmp):
    p = os.path.join(tmp, "c.json")
    c.save_to_json_file(p)
    t = open(p).read()
    if c.forest_container_cpp.NumSamples() == 0:
        return t
    return t + "|" + ",".join(float(v).hex() for v in np.asarray(c.predict(d)).ravel()) + str(np.asarray(c.predict(d)).shape)


def value(o):
    ty, v = o["ty"], o["v"]
    if ty == "num":
        return num(v)
    if ty == "vec":
        a = np.array([num(x) for x in v], dtype=float)
        sh = o.get("shape", "plain")
        if sh == "stride":
            b = np.zeros(2 * len(a))
            b[::2] = a
            return b[::2]
        if sh == "col":
            return a.reshape(-1, 1)
        if sh == "rev":
            return a[::-1].copy()[::-1]
        if sh == "f32":
            return a.astype(np.float32)
        if sh == "int":
            return a.astype(np.int64)
        if sh == "mat" and len(a) % 2 == 0 and len(a):
            return np.asfortranarray(a.reshape(2, -1))
        return a
    return v


out = open(sys.argv[2], "w")
pool = Ids()
with tempfile.TemporaryDirectory() as tmp:
    for s in json.load(open(sys.argv[1])):
        docs, rs, data = {}, [], {}
        for o in s["ops"]:
            r = {}
            try:
                d = docs.setdefault(o["d"], JSONSerializer())
                data.setdefault(o["d"], [])
                sub = {} if not o.get("sub") else {"subfolder_name": o["sub"]}
                if o["op"] == "store":
                    v = value(o)
                    keep = np.array(v, copy=True) if o["ty"] == "vec" else None
                    {"num": d.add_scalar, "bool": d.add_boolean, "str": d.add_string, "vec": d.add_numeric_vector, "svec": d.add_string_vector}[o["ty"]](o["name"], v, **sub)
                    if keep is not None:
                        r["same"] = bool(np.array_equal(keep, v))
                        if v.size:
                            v[:] = -7
                elif o["op"] == "forest":
                    c, ds = pool.of(o["f"])
                    d.add_forest(c)
                    r["label"] = d.forest_labels[-1]
                    data[o["d"]].append(ds)
                    r["f"] = text_of(c, ds, tmp)
                elif o["op"] == "save":
                    d.json_cpp.SaveFile(os.path.join(tmp, "f%d.json" % o["file"]))
                    data["file%d" % o["file"]] = list(data[o["d"]])
                elif o["op"] == "load":
                    d.json_cpp.LoadFile(os.path.join(tmp, "f%d.json" % o["file"]))
                    data[o["d"]] = list(data["file%d" % o["file"]])
                elif o["op"] == "text":
                    r["text"] = d.json_cpp.DumpJson()
                elif o["op"] == "read":
                    r["vals"] = []
                    for k in o["keys"]:
                        sub = {} if not k["sub"] else {"subfolder_name": k["sub"]}
                        e = {"has": bool(d.json_cpp.ContainsField(k["name"]) if not k["sub"] else d.json_cpp.ContainsFieldSubfolder(k["sub"], k["name"]))}
                        if e["has"] and k["ty"]:
                            v = {"num": d.get_scalar, "bool": d.get_boolean, "str": d.get_string, "vec": d.get_numeric_vector, "svec": d.get_string_vector}[k["ty"]](k["name"], **sub)
                            e["v"] = v.hex() if k["ty"] == "num" else bool(v) if k["ty"] == "bool" else [float(x).hex() for x in v] if k["ty"] == "vec" else list(v) if k["ty"] == "svec" else v
                            if k["ty"] == "bool":
                                e["isbool"] = isinstance(v, bool)
                        r["vals"].append(e)
                    r["forests"] = [text_of(d.get_forest_container("forest_%d" % i), ds, tmp) for i, ds in enumerate(data[o["d"]])]
            except Exception as e:
                r["error"] = "%s: %s" % (type(e).__name__, e)
            rs.append(r)
        out.write(json.dumps(rs) + "\n")
        out.flush()

"""replays dataset sessions on stochtree.Dataset and Residual: dset.py IN OUT"""
import json
import sys
import warnings
warnings.simplefilter("ignore")
import numpy as np
from stochtree import Dataset, Residual
import importlib.machinery
import importlib.util
import stochtree_cpp
_l = importlib.machinery.ExtensionFileLoader("vf_extra", stochtree_cpp.__file__)   # readers for what data objects hold
vf_extra = importlib.util.module_from_spec(importlib.util.spec_from_file_location("vf_extra", stochtree_cpp.__file__, loader=_l))
_l.exec_module(vf_extra)


def num(x):
    return float.fromhex(x) if x not in ("nan", "inf", "-inf") else float(x)


def view(mem, v, vec):
    a = mem[v["off"]:]
    k = mem.itemsize
    if vec:
        return np.lib.stride_tricks.as_strided(a, (v["n"],), (v["s0"] * k,))
    return np.lib.stride_tricks.as_strided(a, (v["n"], v["p"]), (v["s0"] * k, v["s1"] * k))


def hexrows(m):
    return [[float(x).hex() for x in r] for r in m]


out = open(sys.argv[2], "w")
for s in json.load(open(sys.argv[1])):
    mem, ds, rs, res = {}, {}, {}, []
    for o in s["ops"]:
        r = {}
        try:
            if o["op"] == "mem":
                mem[o["b"]] = np.array([num(x) for x in o["cells"]]).astype(o["dt"])
            elif o["op"] == "write":
                mem[o["b"]][o["i"]] = num(o["v"])
            else:
                v = view(mem[o["b"]], o["view"], o["vec"])
                keep = v.copy()
                if o["f"] == "R":
                    rs[o["d"]] = Residual(v)
                else:
                    d = ds.setdefault(o["d"], Dataset())
                    if o["op"] == "replace":
                        d.update_basis(v)
                    else:
                        {"X": d.add_covariates, "B": d.add_basis, "W": d.add_variance_weights}[o["f"]](v)
                r["same"] = bool(np.array_equal(keep, v, equal_nan=keep.dtype.kind == "f"))
        except Exception as e:
            r["error"] = "%s: %s" % (type(e).__name__, e)
        r["held"] = {}
        for k in set(ds) | set(rs):
            h = {}
            if k in ds:
                c = ds[k].dataset_cpp
                has = vf_extra.has(c)
                if has[0]:
                    h["X"] = hexrows(vf_extra.covariates(c))
                if has[1]:
                    h["B"] = hexrows(vf_extra.basis(c))
                if has[2]:
                    h["W"] = [[float(x).hex()] for x in vf_extra.weights(c)]
                h["dims"] = vf_extra.dims(c)
            if k in rs:
                h["R"] = [[float(x).hex()] for x in vf_extra.residual(rs[k].residual_cpp)]
            r["held"][str(k)] = h
        res.append(r)
    out.write(json.dumps(res) + "\n")
    out.flush()

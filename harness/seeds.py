"""runs of the low-level sampling objects, next to one another in one process: seeds.py IN OUT"""
import gc
import json
import os
import sys
import tempfile
import numpy as np
from stochtree.sampler import RNG, ForestSampler, GlobalVarianceModel, LeafVarianceModel
from stochtree.data import Dataset, Residual
from stochtree.forest import ForestContainer

hx = lambda a: " ".join(float(v).hex() for v in np.asarray(a, dtype=float).ravel())


def text(fc):
    f = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
    f.close()
    fc.save_to_json_file(f.name)
    t = open(f.name).read()
    os.unlink(f.name)
    return t


class Run:
    def __init__(self, k, arrays, shared):
        self.k, c, a = k, k["conf"], arrays
        if shared is not None and "ds" in shared:
            self.ds = shared["ds"]
        else:
            self.ds = Dataset()
            self.ds.add_covariates(a["X"])
            if c["B"]:
                self.ds.add_basis(a["B"])
            if c["W"]:
                self.ds.add_variance_weights(a["W"])
            if shared is not None:
                shared["ds"] = self.ds
        self.res = Residual(a["y"])
        n = len(c["X"])
        self.rng = RNG(k["seed"])
        self.ft = np.array(c["ft"], dtype=int)
        self.dim = len(c["B"][0]) if c["B"] else 1
        self.samp = ForestSampler(self.ds, self.ft, c["trees"], n, c["alpha"], c["beta"], c["ml"])
        self.fc = ForestContainer(c["trees"], self.dim, not c["B"])
        self.s2, self.tau = 1.0, np.eye(self.dim) * c["tau"]
        self.gv, self.lv = GlobalVarianceModel(), LeafVarianceModel()
        self.i = 0

    def step(self):
        c = self.k["conf"]
        gfr = c["sched"][self.i % len(c["sched"])] == "gfr"
        self.samp.sample_one_iteration(self.fc, self.ds, self.res, self.rng, self.ft, c["grid"], self.tau, np.array(c["w"]), self.s2, c["model"], gfr, False)
        if c["sig"]:
            self.s2 = self.gv.sample_one_iteration(self.res, self.rng, 3., .5)
        if c["leaf"] and self.dim == 1:
            self.tau = np.array([[self.lv.sample_one_iteration(self.fc, self.rng, 3., .5, self.i)]])
        self.i += 1
        return "|".join([hx(self.s2), hx(self.tau), hx(self.fc.predict(self.ds)), text(self.fc)])


def noise(i):
    """something else going on in the process"""
    np.random.seed(i)
    np.random.random(3)
    X = np.asfortranarray(np.random.normal(size=(9, 2)))
    ds = Dataset()
    ds.add_covariates(X)
    res = Residual(X[:, 0])
    ft = np.zeros(2, dtype=int)
    s, fc = ForestSampler(ds, ft, 2, 9, .9, 1., 1), ForestContainer(2, 1, True)
    for _ in range(2):
        s.sample_one_iteration(fc, ds, res, RNG(-1), ft, 9, np.eye(1), np.ones(2) / 2, 1., 0, i % 2 == 0, False)
    fc.predict(ds)


def play(s):
    out, runs, shared, arrays = [], {}, {}, {}
    for o in s["ops"]:
        try:
            if o["op"] == "start":
                k = s["keys"][o["k"]]
                c = k["conf"]
                a = arrays[o["k"]] = {"X": np.array(c["X"], dtype=float, order=s["order"]), "y": np.array(c["y"], dtype=float)}
                if c["B"]:
                    a["B"] = np.array(c["B"], dtype=float, order=s["order"])
                if c["W"]:
                    a["W"] = np.array(c["W"], dtype=float)
                runs[o["r"]] = Run(k, a, shared.setdefault(o["k"], {}) if s["share"] else None)
                out.append(None)
            elif o["op"] == "step":
                out.append(runs[o["r"]].step())
            elif o["op"] == "drop":
                del runs[o["r"]]
                gc.collect()
                out.append(None)
            elif o["op"] == "overwrite":
                for v in arrays[o["k"]].values():
                    v[...] = -77.
                out.append(None)
            elif o["op"] == "noise":
                noise(o["i"])
                out.append(None)
        except Exception as e:
            out.append("error %s: %s" % (type(e).__name__, e))
    return {"out": out}


f = open(sys.argv[2], "w")
for s in json.load(open(sys.argv[1])):
    f.write(json.dumps(play(s)) + "\n")
    f.flush()

"""a run of the sampler objects on one tree, kept whole: moves.py IN OUT"""
import json
import os
import sys
import tempfile
import numpy as np
from stochtree.sampler import RNG, ForestSampler
from stochtree.data import Dataset, Residual
from stochtree.forest import ForestContainer


def play(c):
    ds = Dataset()
    ds.add_covariates(np.array(c["X"], dtype=float))
    if c["model"]:
        ds.add_basis(np.array(c["B"], dtype=float))
    if c["W"]:
        ds.add_variance_weights(np.array(c["W"], dtype=float))
    res, rng, ft = Residual(np.array(c["y"], dtype=float)), RNG(c["seed"]), np.array(c["ft"], dtype=int)
    samp, fc = ForestSampler(ds, ft, 1, c["n"], c["alpha"], c["beta"], c["ml"]), ForestContainer(1, c["dim"], not c["model"])
    w, S0 = np.array(c["w"]) / sum(c["w"]), np.array(c["S0"])
    for _ in range(c["iters"]):
        samp.sample_one_iteration(fc, ds, res, rng, ft, 100, S0, w, c["s2"], c["model"], c["gfr"], False)
    f = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
    f.close()
    fc.save_to_json_file(f.name)
    t = open(f.name).read()
    os.unlink(f.name)
    return {"text": t}


f = open(sys.argv[2], "w")
for s in json.load(open(sys.argv[1])):
    try:
        r = play(s)
    except Exception as e:
        r = {"error": "%s: %s" % (type(e).__name__, e)}
    f.write(json.dumps(r) + "\n")
    f.flush()

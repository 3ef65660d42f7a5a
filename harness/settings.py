"""fits Python BART / BCF models with the arguments the sessions give and reports what the library was handed: settings.py IN OUT (VF_WIRE: the notes of harness/wire.h)"""
import json
import os
import sys
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from stochtree import BARTModel, BCFModel
from pytables import table

WIRE = os.environ["VF_WIRE"]


def wire(start):
    if not os.path.exists(WIRE):
        return [], 0
    with open(WIRE) as f:
        f.seek(start)
        return [json.loads(x) for x in f.read().splitlines()], f.tell()


def fit(s):
    X = table(s["X"])
    col = lambda v: None if v is None else np.array(v, dtype=float)
    a = dict(s["args"])
    for k, v in a.items():
        if isinstance(v, dict):
            a[k] = np.array(v["np"])
        elif k in ("variable_weights", "sigma_leaf_tau") and isinstance(v, list):
            a[k] = np.array(v, dtype=float)
    if s["kind"] == "bart":
        m = BARTModel()
        m.sample(X_train=X, y_train=col(s["y"]), basis_train=col(s["z"]), **a)
    else:
        m = BCFModel()
        m.sample(X_train=X, Z_train=col(s["z"]), y_train=col(s["y"]), pi_train=col(s["pi"]), **a)


out, at = open(sys.argv[2], "w"), 0
for s in json.load(open(sys.argv[1])):
    r = {}
    try:
        fit(s)
    except Exception as e:
        r["error"] = "%s: %s" % (type(e).__name__, e)
    r["wire"], at = wire(at)
    out.write(json.dumps(r) + "\n")
    out.flush()

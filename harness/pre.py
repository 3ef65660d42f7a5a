"""replays preprocessing sessions on stochtree.CovariateTransformer: pre.py IN OUT"""
import json
import os
import sys
import warnings
warnings.simplefilter("ignore")
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from stochtree import CovariateTransformer
from pytables import table



out = open(sys.argv[2], "w")
for s in json.load(open(sys.argv[1])):
    ts, rs = {}, []
    for o in s:
        t = ts.setdefault(o["t"], CovariateTransformer())
        d = table(o["d"])
        keep = d.copy()
        r = {}
        try:
            if o["op"] == "fit":
                r["self"] = t.fit(d) is t
            elif o["op"] == "apply":
                r["m"] = [[float(v).hex() for v in row] for row in np.asarray(t.transform(d), dtype=float)]
            else:
                r["m"] = [[float(v).hex() for v in row] for row in np.asarray(t.fit_transform(d), dtype=float)]
            if "m" in r:
                r["source"] = [int(v) for v in t.fetch_original_feature_indices()]
            r["types"] = [int(v) for v in t._processed_feature_types]
        except Exception as e:
            r["error"] = "%s: %s" % (type(e).__name__, e)
        r["same"] = bool(keep.equals(d)) if o["d"]["form"] != "np" else bool(np.array_equal(keep, d))
        rs.append(r)
    out.write(json.dumps(rs) + "\n")
    out.flush()

"""fits Python BART / BCF models as the sessions say and reports what went through the samplers and what the model answers: model.py IN OUT"""
import inspect
import json
import os
import sys
import tempfile
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pandas as pd
import stochtree
from stochtree import sampler as S
from stochtree import BARTModel, BCFModel, JSONSerializer
from pytables import table

LOG = []
X = None
if os.environ.get("VF_EXTRA"):   # readers for what data objects hold
    import importlib.machinery
    import importlib.util
    import stochtree_cpp
    l = importlib.machinery.ExtensionFileLoader("vf_extra", stochtree_cpp.__file__)
    X = importlib.util.module_from_spec(importlib.util.spec_from_file_location("vf_extra", stochtree_cpp.__file__, loader=l))
    l.exec_module(X)


def held(res):
    return X.residual(res.residual_cpp) if X else None


def spy(cls, name, record):
    orig = getattr(cls, name)
    sig = inspect.signature(orig)

    def wrapped(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        e = record(b.arguments)
        r = orig(*a, **k)
        e["res"] = r
        if "fc" in e:
            e["ns"] = e["fc"].forest_container_cpp.NumSamples() if e["k"] == "step" else 0
        LOG.append(e)
        return r
    setattr(cls, name, wrapped)


def key(x):
    return " ".join(float(v).hex() for v in np.asarray(x, dtype=float).ravel())


spy(S.ForestSampler, "sample_one_iteration", lambda a: {"k": "step", "fc": a["forest_container"], "res_obj": a["residual"], "rv": held(a["residual"]), "gfr": bool(a["gfr"]), "sig": key(a["global_variance"]), "leaf": key(a["leaf_model_scale_input"]),
                                                        "w": [bool(v > 0) for v in np.asarray(a["variable_weights"]).ravel()]})
spy(S.GlobalVarianceModel, "sample_one_iteration", lambda a: {"k": "sigma", "res_obj": a["residual"], "rv": held(a["residual"])})
spy(S.LeafVarianceModel, "sample_one_iteration", lambda a: {"k": "leaf", "fc": a["forest_container"], "num": int(a["sample_num"])})


def forest(fc):
    f = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
    f.close()
    fc.save_to_json_file(f.name)
    d = json.load(open(f.name))
    os.unlink(f.name)
    return d


def reloaded(fc, how):
    j = JSONSerializer()
    j.add_forest(fc)
    label = j.forest_labels[0]
    if how == "file":
        f = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
        f.close()
        j.json_cpp.SaveFile(f.name)
        k = JSONSerializer()
        k.json_cpp.LoadFile(f.name)
        os.unlink(f.name)
        j = k
    elif how == "container":
        f = tempfile.NamedTemporaryFile(suffix=".json", delete=False)
        f.close()
        fc.save_to_json_file(f.name)
        r = stochtree.ForestContainer(1, 1, True)
        r.load_from_json_file(f.name)
        os.unlink(f.name)
        return r
    return j.get_forest_container(label)


def arr(x, shape=None):
    """a caller's array: possibly integer, possibly one-dimensional"""
    if x is None:
        return None
    a = np.array(x["v"], dtype=x.get("dt", "float64"))
    if x.get("flat") and a.ndim == 2 and a.shape[1] == 1:
        a = a[:, 0]
    if x.get("order") == "F":
        a = np.asfortranarray(a)
    if x.get("order") == "slice":
        b = np.full([2 * d for d in a.shape], 3, dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = b[tuple(slice(None, None, 2) for _ in a.shape)]
    return a


def tolist(x):
    return np.asarray(x, dtype=float).tolist()


def bart(s, m, X, a, r):
    m.sample(X_train=X, y_train=a["y"], basis_train=a["z"], X_test=a["Xt"], basis_test=a["zt"], **s["args"])
    st = s["s"]
    r["fcs"] = [m.forest_container]
    r["sig"] = tolist(m.global_var_samples) if hasattr(m, "global_var_samples") else None
    r["lf"] = [tolist(m.leaf_scale_samples) if hasattr(m, "leaf_scale_samples") else None]
    r["preds"] = [{"tab": "train", "outs": {"y": tolist(m.y_hat_train)}}]
    if a["Xt"] is not None:
        r["preds"].append({"tab": "test", "outs": {"y": tolist(m.y_hat_test)}})
    def ask(tab, X, z):
        r["preds"].append({"tab": tab, "outs": {"y": tolist(m.predict(X, z) if z is not None else m.predict(X))}})
    ask("train", X, a["z"])
    if a["Xt"] is not None:
        ask("test", a["Xt"], a["zt"])
    for i, (x, z) in enumerate(zip(a["Xl"], a["zl"])):
        ask("later%d" % i, x, z)
    if s.get("reload"):
        m.forest_container = reloaded(m.forest_container, s["reload"])
        ask("train", X, a["z"])
        for i, (x, z) in enumerate(zip(a["Xl"], a["zl"])):
            ask("later%d" % i, x, z)


def bcf(s, m, X, a, r):
    ka = dict(s["args"])
    for k in ("keep_vars_mu", "keep_vars_tau", "drop_vars_mu", "drop_vars_tau"):
        if k in ka and isinstance(ka[k], dict):
            ka[k] = np.array(ka[k]["np"])
    for k in ("variable_weights", "sigma_leaf_tau"):
        if isinstance(ka.get(k), list):
            ka[k] = np.array(ka[k], dtype=float)
    a["ka"] = {k: v for k, v in ka.items() if isinstance(v, np.ndarray)}
    a["ka0"] = {k: v.copy() for k, v in a["ka"].items()}
    m.sample(X_train=X, Z_train=a["z"], y_train=a["y"], pi_train=a["pi"], X_test=a["Xt"], Z_test=a["zt"], pi_test=a["pit"], **ka)
    r["fcs"] = [m.forest_container_mu, m.forest_container_tau]
    r["sig"] = tolist(m.global_var_samples) if hasattr(m, "global_var_samples") else None
    r["lf"] = [tolist(m.leaf_scale_mu_samples) if hasattr(m, "leaf_scale_mu_samples") else None, tolist(m.leaf_scale_tau_samples) if hasattr(m, "leaf_scale_tau_samples") else None]
    if m.adaptive_coding:
        r["bd"], r["b0"] = tolist(m.b1_samples - m.b0_samples), tolist(m.b0_samples)
    def prop(X, pi):
        if s["args"].get("propensity_covariate", "mu") == "none":
            return None
        if pi is not None:
            return tolist(np.asarray(pi).reshape(-1))
        t = m._covariate_transformer.transform(X)
        return tolist(np.mean(m.bart_propensity_model.predict(t), axis=1))
    r["preds"] = [{"tab": "train", "prop": prop(X, a["pi"]), "outs": {"y": tolist(m.y_hat_train), "f": tolist(m.mu_hat_train), "tau": tolist(m.tau_hat_train)}}]
    if a["Xt"] is not None:
        r["preds"].append({"tab": "test", "prop": prop(a["Xt"], a["pit"]), "outs": {"y": tolist(m.y_hat_test), "f": tolist(m.mu_hat_test), "tau": tolist(m.tau_hat_test)}})
    def ask(tab, X, z, pi):
        k = {} if pi is None else {"propensity": pi}
        t, f, y = m.predict(X, z, **k)
        r["preds"].append({"tab": tab, "prop": prop(X, pi), "outs": {"y": tolist(y), "f": tolist(f), "tau": tolist(t)}})
        r["preds"].append({"tab": tab, "prop": prop(X, pi), "outs": {"tau": tolist(m.predict_tau(X, z, **k))}})
    ask("train", X, a["z"], a["pi"])
    if a["Xt"] is not None:
        ask("test", a["Xt"], a["zt"], a["pit"])
    for i, (x, z, pi) in enumerate(zip(a["Xl"], a["zl"], a["pil"])):
        ask("later%d" % i, x, z, pi)
    if s.get("reload"):
        m.forest_container_mu = reloaded(m.forest_container_mu, s["reload"])
        m.forest_container_tau = reloaded(m.forest_container_tau, s["reload"])
        ask("train", X, a["z"], a["pi"])


def data_eq(a, b):
    return a.equals(b) if isinstance(a, pd.DataFrame) else np.array_equal(a, b)


def fit(s):
    r = {}
    LOG.clear()
    try:
        X = table(s["X"])
        a = {"y": arr(s["y"]), "z": arr(s.get("z")), "pi": arr(s.get("pi")), "Xt": table(s["Xt"]) if s.get("Xt") else None, "zt": arr(s.get("zt")), "pit": arr(s.get("pit")),
             "Xl": [table(t) for t in s["Xl"]], "zl": [arr(z) for z in s["zl"]], "pil": [arr(p) for p in s["pil"]]}
        keep = {k: v.copy() for k, v in a.items() if v is not None and not isinstance(v, list)}
        Xk = X.copy()
        m = BARTModel() if s["kind"] == "bart" else BCFModel()
        (bart if s["kind"] == "bart" else bcf)(s, m, X, a, r)
        r["same"] = bool(data_eq(Xk, X) and all(data_eq(v, a[k]) for k, v in keep.items()) and all(np.array_equal(a["ka"][k], v) for k, v in a.get("ka0", {}).items()))
        fcs = r.pop("fcs")
        ids = [id(f) for f in fcs]
        steps = [e for e in LOG if e["k"] == "step" and id(e["fc"]) in ids]
        resid = {id(e["res_obj"]) for e in steps}
        r["log"] = []
        for e in LOG:
            if e["k"] == "sigma":
                if id(e["res_obj"]) in resid:
                    r["log"].append({"k": "sigma", "v": key(e["res"]), "x": float(e["res"]), "rv": e["rv"]})
            elif id(e["fc"]) in ids:
                f = ids.index(id(e["fc"])) + 1
                if e["k"] == "step":
                    r["log"].append({"k": "step", "f": f, "gfr": e["gfr"], "sig": e["sig"], "leaf": e["leaf"], "w": e["w"], "ns": e["ns"], "rv": e["rv"]})
                else:
                    r["log"].append({"k": "leaf", "f": f, "num": e["num"], "v": key(e["res"]), "x": float(e["res"])})
        r["end"] = held(steps[-1]["res_obj"]) if steps else None
        r["coding"] = [[float(p), float(q)] for p, q in zip(m.b0_samples, m.b1_samples)] if getattr(m, "adaptive_coding", False) else []
        r["forests"] = [forest(f) for f in fcs]
        r["types"] = [int(v) for v in m._covariate_transformer._processed_feature_types]
    except Exception as e:
        import traceback
        r = {"error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-600:]}
    return r


out = open(sys.argv[2], "w")
for s in json.load(open(sys.argv[1])):
    out.write(json.dumps(fit(s)) + "\n")
    out.flush()

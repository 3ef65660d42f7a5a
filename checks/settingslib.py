"""What the settings of a fit reach (Settings, SettingsTrace): sessions with chosen settings given and left out, and their projection to events."""
from modellib import *

NUS, QS = [1, 2, 3, 4, 5, 10], [50, 75, 90, 95, 99]
COMMON = {"grid": "cutpoint_grid_size", "nu": "nu", "q": "q", "ngfr": "num_gfr", "nburn": "num_burnin", "nmcmc": "num_mcmc"}
BART = {"trees1": "num_trees", "alpha1": "alpha", "beta1": "beta", "minleaf1": "min_samples_leaf", "a1": "a_leaf", "b1": "b_leaf"}
BCF = {p + f: n + w for f, w in (("1", "_mu"), ("2", "_tau")) for p, n in
       (("trees", "num_trees"), ("alpha", "alpha"), ("beta", "beta"), ("minleaf", "min_samples_leaf"), ("a", "a_leaf"), ("b", "b_leaf"), ("scale", "sigma_leaf"), ("sampleaf", "sample_sigma_leaf"))}
NAMES = {("bart", "py"): {**COMMON, **BART, "lambda": "lamb", "sigma2": "sigma2", "sampsig": "sample_sigma_global", "scale1": "sigma_leaf", "sampleaf1": "sample_sigma_leaf"},
         ("bart", "r"): {**COMMON, **BART, "lambda": "lambda", "sigma2": "sigma2_init", "sampsig": "sample_sigma", "scale1": "tau_init", "sampleaf1": "sample_tau"},
         ("bcf", "py"): {**COMMON, **BCF, "lambda": "lamb", "sigma2": "sigma2", "sampsig": "sample_sigma_global", "code0": "b_0", "code1": "b_1"},
         ("bcf", "r"): {**COMMON, **BCF, "lambda": "lambda", "sigma2": "sigma2", "sampsig": "sample_sigma_global", "code0": "b_0", "code1": "b_1"}}


def value(rng, s):
    p = s.rstrip("12") if s not in ("sigma2", "code1") else s
    return {"grid": lambda: rng.choice([2, 5, 37, 500]), "nu": lambda: rng.choice(NUS), "q": lambda: rng.choice(QS) / 100, "lambda": lambda: rng.choice([.01, .3, 1.7]), "sigma2": lambda: rng.choice([.05, .6, 2.5]),
            "ngfr": lambda: rng.choice([0, 1, 3]), "nburn": lambda: rng.choice([0, 1, 2]), "nmcmc": lambda: rng.choice([1, 2, 4]), "sampsig": lambda: rng.random() < .5, "trees": lambda: rng.choice([1, 2, 3, 7]),
            "alpha": lambda: rng.choice([.1, .4, .7, .99]), "beta": lambda: rng.choice([1.0, 1.25, 2.5, 4.0]), "minleaf": lambda: rng.choice([1, 2, 4, 7]), "scale": lambda: rng.choice([.02, .45, 1.5]),
            "a": lambda: rng.choice([1.5, 2.0, 8.0]), "b": lambda: rng.choice([.04, .35, 1.6]), "sampleaf": lambda: rng.random() < .5, "code0": lambda: rng.choice([-1.0, -.25, .75]), "code1": lambda: rng.choice([1.0, .3, -.6])}[p]()


def settings_session(rng, lang, kind, given):
    n = rng.choice([29, 32])
    X = mtable(rng, n, lang)
    p, bcf = ncols(X), kind == "bcf"
    given = set(given)
    # few full-sized fits: most are given small numbers of trees and draws
    if rng.random() < .85:
        given |= {"nmcmc"}
    if rng.random() < .75:
        given |= {"trees1"} | ({"trees2"} if bcf else set())
    val = {s: value(rng, s) for s in sorted(given)}
    if bcf:
        zk = rng.choice(["bin", "bin", "bin", "int"] + (["int", 2] if lang == "py" else []))
    else:
        zk = rng.choice([0, 0, 1, 2])
    z = basis(rng, n, zk)
    d = len(z[0]) if z else 1
    if lang == "r" and not bcf and d > 1:
        val["sampleaf1"] = False
    if val.get("ngfr", 5) + val.get("nburn", 0) + val.get("nmcmc", 100) == 0:
        val["nmcmc"] = 1
    s = {"kind": kind, "lang": lang, "X": X, "z": z, "val": val, "zk": zk, "dims": [1, d] if bcf else [d], "mat": None, "prop": [False, False], "nprop": 0, "wt": None, "rfx": None, "coding": False}
    s["y"] = [[round(rng.gauss(0, 1) + 1.5 * (i % 3) + (X["rows"][i][0] if "rows" in X else 0) * .1, 3)] for i in range(n)]
    a = s["args"] = {NAMES[kind, lang][k]: v for k, v in val.items()}
    a["random_seed"] = rng.randint(1, 10000)
    if rng.random() < .3:
        a["keep_gfr"], a["keep_burnin"] = rng.random() < .5, rng.random() < .5
    cand = [i for i in range(p) if "rows" in X or X["cols"][i]["kind"] != "skip"]
    s["keep"] = [list(range(p)), list(range(p))]
    if lang == "r" and not bcf and d > 1 and rng.random() < .4:
        s["mat"] = a["tau_init"] = [[.5, .1], [.1, .25]]
        val.pop("scale1", None)
    if bcf:
        pc = rng.choice([None, "mu", "tau", "both", "none"])
        if pc:
            a["propensity_covariate"] = pc
        s["nprop"] = 0 if pc == "none" else rng.choice([1, 2]) if zk == 2 else 1
        s["pi"] = None if pc == "none" else [[rng.random() for _ in range(s["nprop"])] for _ in range(n)]
        s["prop"] = [pc in (None, "mu", "both"), pc in ("tau", "both")]
        if rng.random() < .6:
            a["adaptive_coding"] = rng.random() < .5
        s["coding"] = a.get("adaptive_coding", True) and zk == "bin"
        if zk == 2 and rng.random() < .4:
            s["mat"] = a["sigma_leaf_tau"] = [[.5, .1], [.1, .25]]
            val.pop("scale2", None)
        for k, w in enumerate(("mu", "tau")):
            if rng.random() < .5:
                s["keep"][k] = sorted(rng.sample(range(p), rng.randint(1, p)))
                if not set(s["keep"][k]) & set(cand):
                    s["keep"][k] = sorted(s["keep"][k] + cand[:1])
            keep_form(rng, X, s["keep"][k], w, lang, a)
    if rng.random() < .4 and (bcf or lang == "r"):
        w = [rng.choice([0.0, .25, 1.0, 3.0]) for _ in range(p)]
        for k in s["keep"]:
            if not any(w[i] for i in k if i in cand):
                w[[i for i in k if i in cand][0]] = 1.0
        s["wt"] = a["variable_weights"] = w
    if lang == "r" and rng.random() < .35:
        g = [rng.choice(["a", "b", "c"]) for _ in range(n)]
        g[:6] = ["a", "b", "c"] * 2
        nb = rng.choice([0, 1, 2])
        s["rfx"] = {"g": g, "b": [[1.0] + [round(rng.gauss(0, 1), 2) for _ in range(nb - 1)] for _ in range(n)] if nb else None}
        s["rfxvar"] = [1.0] * max(nb, 1)
        if bcf and rng.random() < .6:
            s["rfxvar"] = a["rfx_prior_var"] = [rng.choice([.5, 2.0, 7.0]) for _ in range(max(nb, 1))]
    return s


def residual_variances(s, step):
    """variances of the residuals of least squares fits of the standardised outcome, by design and divisor"""
    y = [v[0] for v in s["y"]]
    n = len(y)
    m = sum(y) / n
    sd = math.sqrt(sum((v - m) ** 2 for v in y) / (n if s["lang"] == "py" else n - 1))
    y = [(v - m) / sd for v in y]
    cov = [[fnum(v) for v in c] for c in zip(*step["cov"])]
    designs = [cov]
    if s["nprop"]:
        designs.append(cov[:-s["nprop"]])
    if s["kind"] == "bart" and s["z"]:
        designs.append([list(c) for c in zip(*s["z"])] + cov)
    out = []
    for d in designs:
        basis = []
        def rest(v):   # what is left of v after the projection on the columns so far
            for _ in range(2):
                for q in basis:
                    k = sum(a * b for a, b in zip(v, q))
                    v = [a - k * b for a, b in zip(v, q)]
            return v
        for c in [[1.0] * n] + d:
            v, size = rest(c), math.sqrt(sum(x * x for x in c))
            left = math.sqrt(sum(x * x for x in v))
            if left > 1e-8 * size:
                basis.append([x / left for x in v])
        ssr = sum(x * x for x in rest(y))
        out += [ssr / n, ssr / (n - len(basis))]
    return [flt(v) for v in out]


def settings_events(s, r):
    if "error" in r:
        return [{"ev": "error", "what": r["error"][:300]}]
    wire = [json.loads(x) if isinstance(x, str) else x for x in r["wire"]]
    steps = [w for w in wire if w["k"] == "step"]
    if not steps:
        return [{"ev": "error", "what": "no iteration was seen"}]
    lang, X, bcf = s["lang"], s["X"], s["kind"] == "bcf"
    labs = Labs()
    if lang == "py":
        cols = py_decl(X, labs)
    else:
        roles = ["num"] * ncols(X) if X["form"] == "matrix" else [c["kind"] for c in X["cols"]]
        cols = [{"kind": "num", "cats": [], "ft": 0} if k == "num" else {"kind": k, "cats": [labs(x) for x in r_cats(X["cols"][i], k)], "ft": 1} for i, k in enumerate(roles)]
    rows = lambda m: [[flt(v) for v in q] for q in m]
    given = {k: flt(float(v)) for k, v in s["val"].items()}
    nu, q = s["val"].get("nu", 3), s["val"].get("q", .9)
    out = [{"ev": "begin", "lang": lang, "kind": s["kind"], "cols": cols, "given": given, "nui": nu, "qi": round(q * 100), "wt": [flt(v) for v in s["wt"] or []], "ncov": ncols(X), "nprop": s["nprop"],
            "prop": s["prop"], "keep": [[i + 1 for i in k] for k in s["keep"]], "cands": residual_variances(s, steps[0]), "coding": bool(s["coding"]), "z": rows(s["z"] or []), "dims": s["dims"],
            "mat": rows(s["mat"] or []), "rfx": bool(s["rfx"]), "rfxvar": [flt(v) for v in s.get("rfxvar", [])]}]
    trackers, owner, last = {}, {}, {}
    for w in wire:
        if w["k"] == "tracker":
            trackers[w["trk"]] = w
        elif w["k"] == "step":
            f = 2 if bcf and w["model"] != 0 else 1
            t = trackers[w["trk"]]
            owner = {e: g for e, g in owner.items() if g != f}
            owner[w["ens"]] = f
            e = {"f": f, "gfr": bool(w["gfr"]), "grid": w["grid"], "trees": t["trees"], "ctrees": w["ctrees"], "dim": w["dim"], "constant": bool(w["const"]), "model": w["model"],
                        "alpha": flt(w["alpha"]), "beta": flt(w["beta"]), "minleaf": w["minleaf"], "w": [flt(v) for v in w["w"]], "ttypes": t["types"],
                        "types": w.get("types", []), "basis": rows(w["basis"]) if f not in last else []}
            again = last.get(f) == dict(e, basis=[])
            last[f] = dict(e, basis=[])
            out.append(dict({"f": f, "gfr": e["gfr"]} if again else e, ev="step", again=again, scale=rows(w["scale"]), sig=flt(w["sig"])))
        elif w["k"] == "sigma":
            out.append({"ev": "sigma", "nu": flt(w["nu"]), "lambda": flt(w["lambda"]), "v": flt(w["v"])})
        elif w["k"] == "leaf":
            out.append({"ev": "leaf", "f": owner.get(w["ens"], 0), "a": flt(w["a"]), "b": flt(w["b"]), "v": flt(w["v"])})
        elif w["k"] == "rfx":
            out.append({"ev": "rfx", "first": bool(w["first"]), "sig": flt(w["sig"]), "gcov": rows(w["gcov"])})
    return out + [{"ev": "end"}]

"""Runs of the tree samplers on one tree, counted move by move."""
from splitlib import *

LS = 1024


def setting(rng, gfr, big=False):
    n = rng.randint(4, 10)
    p = rng.randint(1, 3)
    ft = [rng.choice([0, 0, 1] if gfr else [0, 0, 1, 2]) for _ in range(p)]
    X = [[rng.randint(0, 3) for _ in range(p)] for _ in range(n)]
    for f in range(p):
        if rng.random() < .5:                       # all values occur, some of them far apart
            m = [0, 1, rng.choice([2, 3]), rng.choice([4, 7])]
            for r in X:
                r[f] = m[r[f]] if not ft[f] else r[f]
    ml = rng.choice([0, 1, 1, 1, 2, 2, 3])
    while 2 * ml > n:
        ml -= 1
    if rng.random() < .25 and ml:
        n = 2 * ml if rng.random() < .5 and 2 * ml >= 4 else min(n, 4 * ml)
        X = X[:n] if len(X) >= n else X + [[rng.randint(0, 3) for _ in range(p)] for _ in range(n - len(X))]
    model = rng.choice([0, 0, 1, 2])
    dim = 1 if model < 2 else 2
    B = [[rng.choice([-1, 1, 1, 2]) if model else 1 for _ in range(dim)] for _ in range(n)]
    W = [rng.choice([.5, 1.]) for _ in range(n)] if rng.random() < .4 else None
    K = [WK[v] for v in W] if W else [1] * n
    y = [rng.randint(-2, 2) for _ in range(n)]
    if model == 2:                                  # a multivariate forest refuses a root away from zero
        y[-1] -= sum(y)
    tau = rng.choice([.25, .5, 1.])
    S0 = [[tau]] if model < 2 else [[tau, tau / 4], [tau / 4, tau]]
    w = [rng.choice([1, 1, 2, 3]) for _ in range(p)]
    if p > 1 and rng.random() < .3:
        w[rng.randrange(p)] = 0
    return {"X": X, "B": B, "W": W, "K": K, "y": y, "ft": ft, "w": w, "ml": ml, "S0": S0, "s2": rng.choice([1., 2., 4.]), "dim": dim, "model": model, "alpha": rng.choice([.5, .8, .95]), "beta": rng.choice([1, 2]), "n": n, "p": p, "tau": tau}


def script(rng, c, gfr, iters):
    d = {"op": "data", "d": 0, "X": c["X"]}
    if c["model"]:
        d["B"] = c["B"]
    if c["W"]:
        d["W"] = c["W"]
    slot = {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": 1, "ft": c["ft"], "model": c["model"], "tau": c["tau"], "minleaf": c["ml"], "grid": 100, "w": [v / sum(c["w"]) for v in c["w"]], "alpha": c["alpha"], "beta": c["beta"]}
    if c["model"] == 2:
        slot["Sigma"] = c["S0"]
    return [{"op": "begin", "seed": rng.randint(1, 9999)}, d, {"op": "resid", "y": c["y"]}, {"op": "forest", "f": 0, "trees": 1, "dim": c["dim"], "constant": c["model"] == 0}, slot, {"op": "sigma2", "v": c["s2"]},
            {"op": "chain", "s": 0, "gfr": gfr, "iters": iters}]


def conf_event(c):
    n = c["n"]
    ll = [int(round(LS * logml(stat([r for r in range(n) if m >> r & 1], c["K"], c["y"], c["B"]), c["S0"], c["s2"]))) for m in range(1, 2 ** n)]
    return {"ev": "conf", "c": {"X": c["X"], "w": c["w"], "a": round(100 * c["alpha"]), "A": 100, "b": c["beta"], "ml": c["ml"], "ll": ll}}


def enc(t):
    return [] if t == -1 else [t[0] + 1, t[1], enc(t[2]), enc(t[3])]


def enc_part(t):
    return enc(t)


def move_events(c, r, least=100, cap=30):
    trees, seq = [enc(t) for t in r["trees"]], r["seq"]
    at, to = {}, {}
    for a, b in zip(seq, seq[1:]):
        at[a] = at.get(a, 0) + 1
        if a != b:
            to.setdefault(a, {})
            to[a][b] = to[a].get(b, 0) + 1
    # what is seen often is judged by its frequencies, and of the rest some by what may follow at all
    order = sorted(at, key=lambda a: -at[a])
    return [conf_event(c)] + [{"ev": "moves", "from": trees[a], "n": at[a], "to": [[trees[b], k] for b, k in sorted(to.get(a, {}).items())]} for a in order[:cap]]


def fresh_events(c, r, cap=60):
    X = c["X"]
    n, to, cnt = {}, {}, {}
    for i in r["seq"]:
        cnt[i] = cnt.get(i, 0) + 1

    def walk(t, rows, d, k):
        key = (tuple(rows), d)
        n[key] = n.get(key, 0) + k
        if t != -1:
            q = to.setdefault(key, {})
            q[t[0], t[1]] = q.get((t[0], t[1]), 0) + k
            walk(t[2], [i for i in rows if X[i][t[0]] <= t[1]], d + 1, k)
            walk(t[3], [i for i in rows if X[i][t[0]] > t[1]], d + 1, k)
    for i, k in cnt.items():
        walk(r["trees"][i], list(range(c["n"])), 0, k)
    order = sorted(n, key=lambda a: -n[a])
    return [conf_event(c)] + [{"ev": "fresh", "rows": [i + 1 for i in a[0]], "d": a[1], "n": n[a], "to": [[[f + 1, v], k] for (f, v), k in sorted(to.get(a, {}).items())]} for a in order[:cap]]


def parts(text, c):
    """the trees of a saved container, as partitions"""
    d, X = json.loads(text), c["X"]
    ids, trees, seq = {}, [], []

    def part(t, i, rows):
        if t["left"][i] < 0:
            return -1
        f, thr = t["split_index"][i], t["threshold"][i]
        l = [r for r in rows if X[r][f] <= thr]
        return [f, max([X[r][f] for r in l], default=-99), part(t, t["left"][i], l), part(t, t["right"][i], [r for r in rows if r not in l])]
    for k in range(d["num_samples"]):
        q = part(d["forest_%d" % k]["tree_0"], 0, range(c["n"]))
        key = json.dumps(q)
        if key not in ids:
            ids[key] = len(trees)
            trees.append(q)
        seq.append(ids[key])
    return {"trees": trees, "seq": seq}


def api_runs(rng, lang, n, iters):
    """(settings, results) of runs through the Python or R objects"""
    cs = []
    for i in range(n):
        gfr = i % 3 == 2
        cs.append(dict(setting(rng, gfr), gfr=gfr, iters=iters, seed=rng.randint(1, 9999)))
    res = run_driver(lang, "moves." + ("py" if lang == "py" else "R"), cs, lambda s: {"error": "crash"})
    return cs, res

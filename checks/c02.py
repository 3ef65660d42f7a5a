"""C02: routing and prediction (Forest/ForestOps/RoutingMC) against the real forests"""
from common import *
from forestlib import *


def tree_cmds(f, k, j, nodes, leafv):
    """TLC-enumerated tree -> expand commands"""
    out = []
    T = dict(nodes)
    for h in sorted(T):
        n = T[h]
        if n["k"] == "leaf":
            continue
        c = {"op": "expand", "f": f, "k": k, "j": j, "node": h, "lv": leafv(2 * h), "rv": leafv(2 * h + 1), "feat": n["f"], "via": "split" if h % 2 else "direct"}
        if n["k"] == "num":
            c["thr"] = n["t"] / SC
        else:
            c["cats"] = n["c"]
        out.append(c)
    return out


GRID0 = [-1, 0, 1 / 1024, 1023 / 1024, 1, 1025 / 1024, 3, "nan"]
GRID1 = [-1 / 1024, -1, 0, 0.5, 1, 1.5, 2, 3, "nan"]


def grid_sessions(beh, rng):
    """every enumerated tree on the complete grid of rows; trees grouped into forests of three, constant,
    univariate and two-dimensional leaves in turn"""
    out = []
    X = [[a, b] for a in GRID0 for b in GRID1]
    for g in range(0, len(beh), 6):
        kind = (g // 6) % 3
        dim, const = [(1, True), (1, False), (2, False)][kind]
        trees = beh[g:g + 6]
        s = [{"op": "begin", "seed": 1}, {"op": "forest", "f": 0, "trees": 3, "dim": dim, "constant": const, "samples": 2}]
        for i, t in enumerate(trees):
            s += tree_cmds(0, i // 3, i % 3, t, lambda h: [h * 10 ** (i % 3) if m == 0 else -h for m in range(dim)])
        d = {"op": "data", "d": 0, "X": X, "row_major": bool(g % 2)}
        if not const:
            d["B"] = [[rng.randint(-3, 3) for _ in range(dim)] for _ in X]
        s += [d, {"op": "predict", "f": 0, "d": 0}, {"op": "ens_predict", "f": 0, "k": rng.randrange(2), "d": 0, "begin": 1, "end": rng.choice([1, 2, 3]), "offset": 2},
              {"op": "node_predict", "f": 0, "k": rng.randrange(2), "j": rng.randrange(3), "d": 0}]
        out.append(s)
    return out


def random_session(rng):
    d = ForestDriver(rng, p=rng.randint(1, 4), cat_feats=rng.choice([(), (0,), (0, 1)]))
    d.cat = tuple(c for c in d.cat if c < d.p)
    for f in range(rng.randint(1, 2)):
        c = d.forest(f)
        if rng.random() < 0.9:
            d.add(c)
        for _ in range(rng.randint(0, 14)):
            d.edit(c)
        for dd in range(rng.randint(1, 2)):
            d.data(dd, nb=None if c.const else c.dim)
            d.predict_all(c, dd)
            d.edit(c)
            d.predict_all(c, dd)
    r = gen.rule(rng, d.p, d.cat, THR)
    d.data(9, n=9, na=0)
    d.script.append(dict(r, op="rowsplit", d=9))
    return d.script


def main():
    ck = Check("C02")
    rng = random.Random(SEED)
    beh, r = behaviours("RoutingMC", cfg("RoutingMC", Emit="TRUE"), args=["-coverage", "1"])
    if r.violated or r.rc:
        raise CheckError("RoutingMC fails")
    ck.add_model("RoutingMC: all trees up to depth 2 x all grid rows", r)
    if THOROUGH:
        r3 = model_check("RoutingMC", cfg("RoutingMC", MaxDepth=3), workers="8", timeout=1500)
        ck.add_model("RoutingMC depth 3", r3)
    S = grid_sessions(beh, rng)
    ck.cov["spec_behaviours_replayed"] = len(beh)
    S += [random_session(rng) for _ in range(1200 if THOROUGH else 220)]
    E, R = run_fine(rng, S)
    ck.cov["relabelled_sessions"] = sum(1 for a, b in zip(S, R) if a is not b)
    v = Validation("ForestTrace").run([("p%d" % i, e) for i, e in enumerate(E)])
    ck.add_validation("predictions", v)
    ck.sample({"enumerated_tree": beh[-1]})
    ck.sample({"random_session": S[-1][:8]})
    ck.assumptions = ["the specification compares values by order: half of the sessions run with the values and thresholds relabelled by a strictly increasing map into neighbouring doubles, values equal in single precision, subnormals and huge values; the others use multiples of 1/1024; leaf values and bases are small integers, so sums are exact"]
    return ck.finish()

"""Seeded generation of inputs (histories, data) for the conformance drivers.  Generation only: nothing here
decides whether an observation is right, that is the specifications' job."""
import math
import random


class ShapeTree:
    """just enough of a tree to produce valid edits"""
    def __init__(self, dim=1):
        self.dim = dim
        self.n = {1: None}          # heap -> None (leaf) or rule dict

    def leaves(self, maxh=10**9):
        return [h for h in self.n if self.n[h] is None and 2 * h + 1 <= maxh]

    def splits(self):
        return [h for h in self.n if self.n[h] is not None]

    def leaf_parents(self):
        return [h for h in self.splits() if self.n[2 * h] is None and self.n[2 * h + 1] is None]

    def expand(self, h, rule=True):
        self.n[h] = rule
        self.n[2 * h] = None
        self.n[2 * h + 1] = None

    def collapse(self, h):
        def under(x):
            while x > h:
                x //= 2
            return x == h
        for x in [x for x in self.n if x != h and under(x)]:
            del self.n[x]
        self.n[h] = None

    def copy(self):
        t = ShapeTree(self.dim)
        t.n = dict(self.n)
        return t


def rule(rng, p=3, cat_feats=(), thr=(-2, -0.5, 0, 0.25, 1, 3), maxcat=5):
    f = rng.randrange(p)
    if f in cat_feats:
        return {"feat": f, "cats": sorted(rng.sample(range(maxcat), rng.randint(1, maxcat - 1)), key=lambda _: rng.random())}
    return {"feat": f, "thr": rng.choice(thr)}


def vals(rng, dim, lo=-9, hi=9):
    return [rng.randint(lo, hi) for _ in range(dim)]


def edit_history(rng, nops, maxh=127, ntrees=3, p=3, cat_feats=(1,), dims=(1,), clone=True, reload=True):
    """random edit history over several standalone trees"""
    s = [{"op": "begin", "seed": 1}]
    T = {}
    for t in range(rng.randint(1, ntrees)):
        d = rng.choice(dims)
        T[t] = ShapeTree(d)
        s.append({"op": "tree_new", "t": t, "dim": d})
    bias = rng.random()
    while len(s) < nops:
        t = rng.choice(list(T))
        tr = T[t]
        x = rng.random()
        if x < 0.3 + 0.3 * bias and tr.leaves(maxh):
            h = rng.choice(tr.leaves(maxh))
            c = {"op": "expand", "t": t, "node": h, "lv": vals(rng, tr.dim), "rv": vals(rng, tr.dim), "via": rng.choice(["direct", "split"])}
            c.update(rule(rng, p, cat_feats))
            tr.expand(h)
        elif x < 0.75 and tr.splits():
            if rng.random() < 0.5:
                h = rng.choice(tr.leaf_parents())
                op = rng.choice(["change_to_leaf", "collapse"])
            else:
                h, op = rng.choice(tr.splits()), "collapse"
            c = {"op": op, "t": t, "node": h, "v": vals(rng, tr.dim)}
            tr.collapse(h)
        elif x < 0.85:
            c = {"op": "set_leaf", "t": t, "node": rng.choice(tr.leaves()), "v": vals(rng, tr.dim)}
        elif x < 0.9 and clone:
            dst = rng.randrange(ntrees)
            if dst == t:
                continue
            c = {"op": "clone", "t": dst, "src": t, "into_existing": rng.random() < 0.5}
            T[dst] = tr.copy()
        elif x < 0.96 and reload:
            dst = rng.randrange(ntrees)
            if dst == t:
                continue
            c = {"op": "tree_json", "t": dst, "src": t, "into_existing": rng.random() < 0.5}
            T[dst] = tr.copy()
        elif x > 0.985:
            d = rng.choice(dims)
            c = {"op": rng.choice(["tree_reset_init", "tree_init"]), "t": t, "dim": d}
            T[t] = ShapeTree(d)
        else:
            continue
        s.append(c)
    return s


def fine_map(rng, codes):
    """a strictly increasing map of the given values into doubles that are hard to tell apart: neighbouring doubles,
    values equal in single precision, subnormals around 0, huge and beyond-integer magnitudes"""
    codes = sorted(codes)
    m = len(codes)
    kind = rng.choice(["ulp", "ulp", "near", "single", "tiny", "big", "huge", "rel"])
    x, out = 0.0, []
    if kind in ("ulp", "near", "single", "rel"):
        base = rng.choice([1.0, 0.1, 1000.1, 16777217.0, -1.0, -0.3, 3.0, 1e-9, -1e12, 2.0 ** 53, 1e300])
        x = base
        step = {"ulp": 2.0 ** -52, "near": 1e-15, "single": 1e-9, "rel": 1e-13}[kind] * abs(base)
        for _ in codes:
            y = x if kind == "ulp" else x + step * rng.random()
            out.append(x)
            x = max(math.nextafter(x, math.inf), y)
    elif kind == "tiny":
        z = rng.randrange(m + 1)
        out = [(i - z) * 5e-324 for i in range(m)]
    elif kind == "big":
        z = rng.randrange(m + 1)
        out = [(i - z) * 3.0e9 + rng.random() for i in range(m)]
    else:
        z = rng.randrange(m + 1)
        out = [math.copysign(10.0 ** (abs(i - z) * 300.0 / max(m, 1)), i - z) if i != z else 0.0 for i in range(m)]
    assert all(a < b for a, b in zip(out, out[1:])), (kind, out)
    return dict(zip(codes, out))


def fine(rng, script, cat=()):
    """the same session with every value and threshold of the numeric features relabelled by a strictly increasing map;
    routing depends on order only, so the specification judges the original labels.  -> (script, thresholds back)"""
    cat = set(cat) | set(c["feat"] for c in script if "cats" in c)
    num = lambda v: isinstance(v, (int, float))
    codes = set(c["thr"] for c in script if "thr" in c and c["feat"] not in cat)
    for c in script:
        for row in c.get("X", []):
            codes |= set(v for j, v in enumerate(row) if j not in cat and num(v))
    if not codes:
        return script, None
    M = fine_map(rng, codes)
    out = []
    for c in script:
        c = dict(c)
        if "thr" in c and c["feat"] not in cat:
            c["thr"] = M[c["thr"]]
        if "X" in c:
            c["X"] = [[M[v] if j not in cat and num(v) else v for j, v in enumerate(row)] for row in c["X"]]
        out.append(c)
    inv = {b: a for a, b in M.items()}
    return out, (inv, cat)


def unfine(inv, d):
    """a dumped tree with its thresholds mapped back (an unknown threshold becomes NaN)"""
    if inv is None:
        return d
    I, cat = inv
    return dict(d, nodes=[dict(n, thr=I.get(float(n["thr"]), "nan")) if n["ty"] == "num" and n["feat"] not in cat else n for n in d["nodes"]])

"""C09: candidate cutpoints tile a node's rows"""
from common import *
from forestlib import enc_rows

FT = {0: "numeric", 1: "ordered", 2: "unordered"}


def column(rng, n, t, rich):
    if t:
        k = rng.choice([1, 2, 4, 9])
        return [rng.randint(0, k) for _ in range(n)]
    span = rng.choice([1, 2, 5, 40]) if not rich else 400
    return [rng.randint(-span, span) / rng.choice([4]) for _ in range(n)]


def session(rng, n=None):
    n = n or rng.choice([1, 2, 5, 9, 17, 33])
    p = rng.randint(1, 3)
    ft = [rng.choice([0, 0, 1, 2]) for _ in range(p)]
    X = [list(r) for r in zip(*[column(rng, n, t, rng.random() < .3) for t in ft])]
    y = [rng.randint(-5, 5) for _ in X]
    s = [{"op": "begin", "seed": 1}, {"op": "data", "d": 0, "X": X, "row_major": rng.random() < .5}, {"op": "resid", "y": y}, {"op": "forest", "f": 0, "trees": 1, "dim": 1, "constant": True, "samples": 1},
         {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": 1, "ft": ft, "grid": 7}]
    leaves = {1: list(range(n))}

    def cuts(h):
        for _ in range(rng.randint(1, 3)):
            c = {"op": "cut", "s": 0, "j": 0, "node": h, "feat": rng.randrange(p), "grid": rng.choice([1, 2, 3, 4, 7, 10, 50, n, max(1, n - 1), n + 1])}
            if rng.random() < .4:
                c["warm"] = rng.randrange(p) if rng.random() < .5 else c["feat"]
            s.append(c)
    cuts(1)
    for _ in range(rng.choice([0, 2, 6])):
        h = rng.choice([q for q in leaves if leaves[q]])
        f = rng.randrange(p)
        c = {"op": "trk_split", "s": 0, "k": 0, "j": 0, "node": h, "feat": f, "lv": [0], "rv": [0], "sorted": True}
        vals = [X[i][f] for i in leaves[h]]
        if ft[f] == 2:
            cats = rng.sample(sorted(set(vals)), rng.randint(1, len(set(vals))))
            c["cats"] = cats
            left = [i for i in leaves[h] if X[i][f] in cats]
        else:
            c["thr"] = rng.choice(vals)
            left = [i for i in leaves[h] if X[i][f] <= c["thr"]]
        s.append(c)
        rows = leaves.pop(h)
        leaves[2 * h], leaves[2 * h + 1] = left, [i for i in rows if i not in left]
        if rng.random() < .3:
            s.append({"op": "resid", "y": [rng.randint(-5, 5) for _ in X]})
        for q in (2 * h, 2 * h + 1):
            if leaves[q]:
                cuts(q)
        if max(leaves) > 2**20:
            break
    return s


def small(rows, kind, grid, y):
    """the inputs TLC enumerates, given to the library"""
    return [{"op": "begin", "seed": 1}, {"op": "data", "d": 0, "X": [[v] for v in rows]}, {"op": "resid", "y": y}, {"op": "forest", "f": 0, "trees": 1, "dim": 1, "constant": True, "samples": 1},
            {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": 1, "ft": [kind], "grid": grid}, {"op": "cut", "s": 0, "j": 0, "node": 1, "feat": 0, "grid": grid}]


def events(s, res):
    out = []
    ft = [c for c in s if c["op"] == "slot"][0]["ft"]
    X = enc_rows([c for c in s if c["op"] == "data"][0]["X"])
    first = True
    for c, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        op = c["op"]
        if op == "resid":
            out.append({"ev": "begin", "X": X, "y": c["y"], "ft": [FT[t] for t in ft]} if first else {"ev": "resid", "y": c["y"]})
            first = False
        elif op == "trk_split":
            out.append(dict({"ev": "split", "node": c["node"]}, **ev_rule(c)))
        elif op == "cut":
            out.append({"ev": "cut", "node": c["node"], "feat": c["feat"], "grid": c["grid"], "rows": r["rows"], "bins": [{"b": q["b"], "len": q["len"], "e": q["e"], "v": enc_exact(q["v"], SC), "vec": q["vec"]} for q in r["bins"]]})
    return out


def main():
    ck = Check("C09")
    rng = random.Random(SEED)
    models(ck, [("Cutpoints: the scan, every sorted column up to the bound", "CutpointsMC", cfg("CutpointsMC", **(dict(MaxN=7, Grids="{1, 2, 3, 4, 6}", Outs="{0, 1}") if THOROUGH else {})), ["Take", "TakeClose", "TakeLast", "Finish"])])
    import itertools
    scripts = []
    for n in range(1, 7 if THOROUGH else 6):
        for v in itertools.combinations_with_replacement(range(4), n):
            for kind in (0, 1, 2):
                for grid in ((1, 2, 3, 5) if kind == 0 else (2,)):
                    scripts.append(small(rng.sample(v, n), kind, grid, [rng.choice([0, 1, 3]) for _ in v]))
    ck.cov["spec_inputs_replayed"] = len(scripts)
    if not THOROUGH:
        scripts = rng.sample(scripts, 300)
    scripts += [session(rng) for _ in range(2500 if THOROUGH else 300)]
    scripts += [session(rng, n=150) for _ in range(40 if THOROUGH else 6)]
    res = run_sessions(scripts)
    v = Validation("CutTrace").run([("cut%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("bins of nodes", v)
    ck.assumptions.append("distinct feature values differ by more than the library's equality tolerance; categories are non-negative integers")
    ck.sample({"session": scripts[-1][3:]})
    return ck.finish()

"""Integer data sets with weighted rows, and the exact statistics and closed-form quantities of sets of rows."""
from common import *
from forestlib import enc_rows
from fractions import Fraction as Fr

FS = 2**12
FT = {0: "numeric", 1: "ordered", 2: "unordered"}
WK = {.25: 4, .5: 2, 1.: 1}


def column(rng, n, t):
    if t:
        return [rng.randint(0, rng.choice([1, 2, 4])) for _ in range(n)]
    span = rng.choice([1, 2, 5, 40])
    return [rng.randint(-span, span) / 4 for _ in range(n)]


def stat(rows, K, y, B):
    d = len(B[0])
    return [len(rows)] + [sum(K[r] * B[r][i] * B[r][j] for r in rows) for j in range(d) for i in range(j + 1)] + [sum(K[r] * y[r] * B[r][i] for r in rows) for i in range(d)]


def unpack(st, d):
    m = d * (d + 1) // 2
    W = [[0] * d for _ in range(d)]
    q = 1
    for j in range(d):
        for i in range(j + 1):
            W[i][j] = W[j][i] = st[q]
            q += 1
    return W, st[1 + m:]


def solve(A, b):
    """exact solution and determinant of A over the rationals"""
    n = len(A)
    M = [[Fr(v) for v in r] + [Fr(b[i])] for i, r in enumerate(A)]
    det = Fr(1)
    for i in range(n):
        p = next(k for k in range(i, n) if M[k][i] != 0)
        if p != i:
            M[i], M[p], det = M[p], M[i], -det
        det *= M[i][i]
        M[i] = [v / M[i][i] for v in M[i]]
        for k in range(n):
            if k != i:
                M[k] = [a - M[k][i] * c for a, c in zip(M[k], M[i])]
    return [r[-1] for r in M], det


def posterior(st, S0, s2):
    """exact mean vector and covariance of a leaf parameter, prior covariance S0 (matrix), noise variance s2"""
    d = len(S0)
    W, v = unpack(st, d)
    S0, s2 = [[Fr(x) for x in r] for r in S0], Fr(s2)
    inv0 = list(zip(*[solve(S0, [int(i == k) for i in range(d)])[0] for k in range(d)]))
    P = [[inv0[i][j] + W[i][j] / s2 for j in range(d)] for i in range(d)]
    mean = solve(P, [x / s2 for x in v])[0]
    cov = list(zip(*[solve(P, [int(i == k) for i in range(d)])[0] for k in range(d)]))
    return mean, cov


def logml(st, S0, s2):
    """log marginal likelihood of a leaf up to the terms every split shares"""
    d = len(S0)
    W, v = unpack(st, d)
    m, _ = posterior(st, S0, s2)
    s2 = Fr(s2)
    A = [[int(i == j) + sum(Fr(S0[i][k]) * W[k][j] for k in range(d)) / s2 for j in range(d)] for i in range(d)]
    det = solve(A, [0] * d)[1]
    return -.5 * math.log(det) + .5 * float(sum(a * b / s2 for a, b in zip(v, m)))


def goes_left(rule, v):
    return (v >= 0 and int(v) in rule["cats"]) if "cats" in rule else v <= rule["thr"]


def setup(rng, n=None, model=None, ft=None, s2=None, trees=1, weights=None, minleaf=None, grid=None, tau=None, span=5, p=None):
    n = n or rng.choice([2, 4, 7, 12, 20])
    model = rng.choice([0, 0, 1, 2]) if model is None else model
    p = p or rng.randint(1, 3)
    ft = ft or [rng.choice([0, 0, 1, 2]) for _ in range(p)]
    X = [list(r) for r in zip(*[column(rng, n, t) for t in ft])]
    dim = 1 if model < 2 else rng.choice([2, 2, 3])
    B = [[rng.choice([-2, -1, 1, 2]) if model else 1 for _ in range(dim)] for _ in range(n)]
    wt = rng.random() < .5 if weights is None else weights
    W = [rng.choice([.25, .5, 1.]) for _ in range(n)] if wt else None
    K = [WK[w] for w in W] if wt else [1] * n
    y = [rng.randint(-span, span) for _ in range(n)]
    tau = tau or rng.choice([.25, .5, 2.])
    S0 = [[tau]] if model < 2 else [[tau * (1 if a == b else .25) for b in range(dim)] for a in range(dim)]
    w = [1.] * len(ft)
    if len(ft) > 1 and rng.random() < .3:
        w[rng.randrange(len(ft))] = 0.
    ml = rng.choice([0, 1, 1, 2, 3]) if minleaf is None else minleaf
    s2 = s2 or rng.choice([.5, 1., 2.])
    d = {"op": "data", "d": 0, "X": X, "row_major": rng.random() < .5}
    if model:
        d["B"] = B
    if W:
        d["W"] = W
    slot = {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": trees, "ft": ft, "model": model, "tau": tau, "minleaf": ml, "grid": grid or rng.choice([2, 3, 100, 100]), "w": [v / sum(w) for v in w], "alpha": .95, "beta": 1.}
    if model == 2:
        slot["Sigma"] = S0
    s = [{"op": "begin", "seed": rng.randint(1, 9999)}, d, {"op": "resid", "y": y}, {"op": "forest", "f": 0, "trees": trees, "dim": dim, "constant": model == 0, "samples": 1}, slot, {"op": "sigma2", "v": s2}]
    c = {"X": X, "B": B, "K": K, "y": y, "ft": ft, "w": w, "ml": ml, "S0": S0, "s2": s2, "dim": dim, "model": model, "p": len(ft), "n": n}
    return s, c


def spec_conf(c):
    return {"X": enc_rows(c["X"]), "B": c["B"], "K": c["K"], "y": c["y"], "ft": [FT[t] for t in c["ft"]], "w": [int(v != 0) for v in c["w"]], "ml": c["ml"]}


class Mirror:
    """rows of every node of one tree under splits and prunes (used to prepare the tables of an event)"""
    def __init__(self, c):
        self.c, self.y = c, list(c["y"])
        self.rows = {1: list(range(c["n"]))}
        self.leaves = {1}

    def parts(self, h, rule):
        R = self.rows[h]
        L = [r for r in R if goes_left(rule, self.c["X"][r][rule["feat"]])]
        return L, [r for r in R if r not in L]

    def split(self, h, rule):
        self.rows[2 * h], self.rows[2 * h + 1] = self.parts(h, rule)
        self.leaves.remove(h)
        self.leaves |= {2 * h, 2 * h + 1}

    def prune(self, h):
        self.leaves -= {2 * h, 2 * h + 1}
        self.leaves.add(h)

    def twigs(self):
        return [h // 2 for h in self.leaves if h > 1 and h % 2 == 0 and h + 1 in self.leaves]

    def tab(self, sets):
        out, seen = [], set()
        for R in sets:
            st = stat(R, self.c["K"], self.y, self.c["B"])
            if tuple(st) not in seen:
                seen.add(tuple(st))
                out.append({"st": st, "v": enc_fix(logml(st, self.c["S0"], self.c["s2"]), FS)})
        return out

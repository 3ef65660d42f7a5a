"""Drivers for forest collections: random histories of the operations of ForestOps, and event projection."""
from common import *
from gen import ShapeTree, vals

TRACE_CONSTS = ""


def enc_rows(X):
    return [[enc_val(v) for v in r] for r in X]


def enc_ints(v):
    return [enc_exact(x) for x in v]


def project(script, res, inv=None):
    """harness commands + results -> trace events of ForestTrace"""
    out, sets = [], {}
    for c, r in zip(script, res):
        if "error" in r:
            out.append(err_event(r))
            break
        op = c["op"]
        e = {"ev": op}
        if op == "data":
            e.update(d=c["d"], X=enc_rows(c["X"]), B=[[enc_exact(v) for v in b] for b in c.get("B", [])])
        elif op == "forest":
            e.update(f=c["f"], trees=c["trees"], dim=c.get("dim", 1), constant=c.get("constant", True), samples=c.get("samples", 0))
        elif op in ("add_samples", "take_root", "copy_sample", "reset_tree", "clone_into"):
            e.update({k: v for k, v in c.items() if k != "op"})
        elif op == "init_root":
            e.update(f=c["f"], v=c["v"])
        elif op == "set_leaves":
            e.update(f=c["f"], k=c["k"], v=c["v"])
        elif op in ("expand", "collapse", "change_to_leaf", "set_leaf"):
            e.update({k: c[k] for k in ("f", "k", "j", "node", "lv", "rv", "v") if k in c})
            if op == "expand":
                e.update(ev_rule(c))
        elif op == "forest_json":
            e.update(f=c["f"], f2=c["f2"], resave=r["resave"])
        elif op == "forest_dump":
            e.update(f=c["f"], ns=r["ns"], nt=r["nt"], dim=r["dim"], constant=r["const"], samples=[[enc_tree(gen.unfine(inv, t)) for t in s] for s in r["samples"]], pending=[enc_tree(gen.unfine(inv, t)) for t in r["pending"]],
                     meta=[{"nt": m["nt"], "nl": m["nl"], "dim": m["dim"], "const": m["const"], "allroots": m["allroots"], "sumsq": enc_exact(m["sumsq"])} for m in r["meta"]])
        elif op == "predict":
            e.update(f=c["f"], d=c["d"], pred=enc_ints(r["pred"]), raw=enc_ints(r["raw"]), rawk=[enc_ints(x) for x in r["rawk"]])
        elif op == "ens_predict":
            e.update({k: c[k] for k in ("f", "k", "d", "begin", "end", "offset")})
            e.update({k: enc_ints(r[k]) for k in ("out", "raw", "full", "rawfull", "mat")})
        elif op == "node_predict":
            e.update({k: c[k] for k in ("f", "k", "j", "d")})
            e.update(ids=r["ids"], ids2=r["ids2"], basis=r["basis"], vals=enc_ints(r["vals"]), vals2=enc_ints(r.get("vals2", [])), tree=enc_tree(gen.unfine(inv, r["tree"])))
        elif op == "rowsplit":
            e.update(d=c["d"], left=r["left"])
            e.update(ev_rule(c))
        elif op == "leafidx":
            e.update({k: c[k] for k in ("f", "k", "d")})
            e["idx"] = r["idx"]
        elif op == "kernel":
            e.update({k: c[k] for k in ("f", "k", "d", "d2") if k in c})
            for k in ("tr", "tt", "te"):
                if k in r:
                    e[k] = [enc_ints(x) for x in r[k]]
            for k in ("itr", "ite"):
                if k in r:
                    e[k] = r[k]
        elif op != "begin":
            raise CheckError("no projection for " + op)
        out.append(e)
    return out


THR = (-2, -0.5, 0, 0.25, 1, 3)
XV = (-3, -2, -0.5, -0.375, 0, 0.125, 0.25, 1, 1.125, 2, 3, 4)
CV = (-1, -0.5, 0, 0.5, 1, 1.75, 2, 3, 4, 5, 7)


def rows(rng, n, p, cat_feats, na=0.15):
    return [["nan" if rng.random() < na else rng.choice(CV if j in cat_feats else XV) for j in range(p)] for _ in range(n)]


class Coll:
    """a forest collection being edited (shapes only)"""
    def __init__(self, f, nt, dim, const, ns):
        self.f, self.nt, self.dim, self.const, self.root = f, nt, dim, const, False
        self.s = [[ShapeTree(dim) for _ in range(nt)] for _ in range(ns)]

    def copy(self, f):
        c = Coll(f, self.nt, self.dim, self.const, 0)
        c.s = [[t.copy() for t in smp] for smp in self.s]
        c.root = self.root
        return c


class ForestDriver:
    def __init__(self, rng, p=3, cat_feats=(1,), maxh=63):
        self.rng, self.p, self.cat, self.maxh = rng, p, cat_feats, maxh
        self.script = [{"op": "begin", "seed": 1}]
        self.F, self.D = {}, {}

    def forest(self, f, nt=None, dim=None, const=None, ns=None):
        g = self.rng
        nt = nt or g.randint(1, 4)
        dim = dim or g.choice([1, 1, 2, 3])
        const = (dim == 1 and g.random() < 0.6) if const is None else const
        ns = g.choice([0, 1, 2]) if ns is None else ns
        self.script.append({"op": "forest", "f": f, "trees": nt, "dim": dim, "constant": const, "samples": ns})
        self.F[f] = Coll(f, nt, dim, const, ns)
        return self.F[f]

    def data(self, d, n=None, nb=None, na=0.15):
        g = self.rng
        n = n or g.randint(1, 7)
        c = {"op": "data", "d": d, "X": rows(g, n, self.p, self.cat, na), "row_major": g.random() < 0.5}
        if nb:
            c["B"] = [[g.randint(-3, 3) for _ in range(nb)] for _ in range(n)]
        self.script.append(c)
        self.D[d] = (n, nb)

    def edit(self, c):
        g = self.rng
        if not c.s:
            if not c.root and g.random() < .6:   # a forest to start from
                c.root = True
                self.script.append(dict(op="init_root", f=c.f, v=vals(g, c.dim), vector=c.dim > 1))
                if g.random() < .5:
                    return
            if c.root and g.random() < .7:
                c.root = False
                c.s.append([ShapeTree(c.dim) for _ in range(c.nt)])
                self.script.append({"op": "take_root", "f": c.f})
                return
            return self.add(c)
        k, j = g.randrange(len(c.s)), g.randrange(c.nt)
        t = c.s[k][j]
        x = g.random()
        base = {"f": c.f, "k": k, "j": j}
        if x < 0.6 and t.leaves(self.maxh):
            h = g.choice(t.leaves(self.maxh))
            self.script.append(dict(base, op="expand", node=h, lv=vals(g, c.dim), rv=vals(g, c.dim), via=g.choice(["direct", "split"]), **gen.rule(g, self.p, self.cat, THR)))
            t.expand(h)
        elif x < 0.8 and t.splits():
            h = g.choice(t.splits())
            self.script.append(dict(base, op="collapse", node=h, v=vals(g, c.dim)))
            t.collapse(h)
        elif x < 0.9:
            self.script.append(dict(base, op="set_leaf", node=g.choice(t.leaves()), v=vals(g, c.dim)))
        elif x < 0.93:
            self.script.append(dict(base, op="reset_tree"))
            c.s[k][j] = ShapeTree(c.dim)
        elif x < 0.96 and len(c.s) > 1:
            a, b = g.sample(range(len(c.s)), 2)
            self.script.append({"op": "copy_sample", "f": c.f, "new": a, "prev": b})
            c.s[a] = [t.copy() for t in c.s[b]]
        elif x < 0.98 and all(len(t.n) == 1 for t in c.s[k]):
            self.script.append(dict(op="set_leaves", f=c.f, k=k, v=vals(g, c.dim), vector=c.dim > 1))
        else:
            k2, j2 = g.randrange(len(c.s)), g.randrange(c.nt)
            self.script.append(dict(base, op="clone_into", f2=c.f, k2=k2, j2=j2))
            c.s[k][j] = c.s[k2][j2].copy()

    def add(self, c):
        n = self.rng.choice([1, 1, 2])
        c.root = False
        self.script.append({"op": "add_samples", "f": c.f, "num": n})
        c.s += [[ShapeTree(c.dim) for _ in range(c.nt)] for _ in range(n)]

    def reload(self, c, f2, into=False):
        self.script.append({"op": "forest_json", "f": c.f, "f2": f2, "into_existing": into})
        self.F[f2] = c.copy(f2)

    def dump(self, c):
        self.script.append({"op": "forest_dump", "f": c.f})

    def predict_all(self, c, d, extra=True):
        g = self.rng
        self.script.append({"op": "predict", "f": c.f, "d": d})
        if not extra or not c.s:
            return
        for _ in range(2):
            k = g.randrange(len(c.s))
            b = g.randint(0, c.nt)
            self.script.append({"op": "ens_predict", "f": c.f, "k": k, "d": d, "begin": b, "end": g.randint(b, c.nt), "offset": g.randint(0, 3)})
        self.script.append({"op": "node_predict", "f": c.f, "k": g.randrange(len(c.s)), "j": g.randrange(c.nt), "d": d})


def run_fine(rng, sessions, share=.5):
    """run the sessions, a share of them with the values relabelled; -> projected events of each"""
    runs = [gen.fine(rng, s) if rng.random() < share else (s, None) for s in sessions]
    res = run_sessions([s for s, _ in runs])
    return [project(s, r, inv) for s, r, (_, inv) in zip(sessions, res, runs)], [s for s, _ in runs]

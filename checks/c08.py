"""C08: saving and reloading forests (ForestOps Reload) against the real JSON round trip"""
from common import *
from forestlib import *

ODD = [0.1, 1 / 3, -2.5e-300, 5e-324, 1.7976931348623157e308, -0.0, 123456789.123456789, 2**53 + 1.0, -1e-17, 3.0000000000000004]


def edit_session(rng):
    d = ForestDriver(rng, p=3, cat_feats=rng.choice([(), (1,), (0, 2)]))
    c = d.forest(0, ns=0 if rng.random() < .3 else None)
    if c.s:
        d.add(c)
    for _ in range(rng.randint(0, 16) if c.s or rng.random() < .3 else 1):   # the one edit: a forest to start from, a sample started from it or a fresh one
        d.edit(c)
    nxt = 1
    for _ in range(rng.randint(1, 4)):
        src = d.F[rng.choice(list(d.F))]
        into = rng.random() < 0.3 and nxt > 1
        f2 = rng.choice([x for x in d.F if x != src.f]) if into else nxt
        if not into and rng.random() < 0.3:        # reload over a collection that already holds something else
            o = d.forest(f2, ns=rng.choice([1, 3]))
            into = True
        d.reload(src, f2, into)
        if rng.random() < 0.25:
            d.script[-1]["file"] = "forest.json"
        nxt += 1 if f2 == nxt else 0
        d.dump(d.F[f2])
        for _ in range(rng.randint(0, 8)):           # both go on being edited independently
            d.edit(d.F[rng.choice([src.f, f2])])
        if rng.random() < 0.3:
            d.add(d.F[f2])
        d.dump(src)
        d.dump(d.F[f2])
    for f in list(d.F):
        d.data(0, n=5, nb=None if d.F[f].const else d.F[f].dim)
        d.predict_all(d.F[f], 0, extra=False)
    return d.script


def container_session(beh, rng):
    dim = rng.choice([1, 2])
    s = [{"op": "begin", "seed": 1}, {"op": "forest", "f": 0, "trees": rng.randint(1, 2), "dim": dim, "constant": dim == 1, "samples": 0}]
    for o in beh:
        c = dict(o, f=0)
        if c["op"] in ("set_leaves", "init_root"):
            c["v"] = [c["v"][0]] * dim
            c["vector"] = dim > 1
        s.append(c)
    s += [{"op": "forest_dump", "f": 0}, {"op": "forest_json", "f": 0, "f2": 1}, {"op": "forest_dump", "f": 1}]
    return s


class Intern(dict):
    def __call__(self, x):
        return self.setdefault(json.dumps(x, sort_keys=True), len(self) + 1)


def odd_session(rng):
    """values whose decimal form is long, tiny or huge: compared bit for bit"""
    d = ForestDriver(rng, p=2, cat_feats=())
    c = d.forest(0, dim=rng.choice([1, 2]), const=False, ns=2)
    for _ in range(8):
        d.edit(c)
    for x in d.script:
        for k in ("lv", "rv", "v"):
            if k in x:
                x[k] = [rng.choice(ODD + [rng.gauss(0, 1), rng.gauss(0, 1)]) for _ in x[k]]
        if "thr" in x:
            x["thr"] = rng.choice(ODD + [rng.gauss(0, 1)])
    d.data(0, n=6, nb=c.dim)
    d.reload(c, 1)
    s = d.script
    for f in (0, 1):
        s += [{"op": "forest_dump", "f": f}, {"op": "predict", "f": f, "d": 0}]
    return s


def odd_events(s, res):
    it = Intern()
    if any("error" in r for r in res):
        return [{"ev": "begin"}, err_event([r for r in res if "error" in r][0])]
    rl = [r for r in res if r["op"] == "forest_json"][0]
    dd = [r for r in res if r["op"] == "forest_dump"]
    pp = [r for r in res if r["op"] == "predict"]
    f = lambda r: it(r["samples"])
    return [{"ev": "begin"}, {"ev": "same", "a": [f(dd[0]), it([dd[0]["ns"], dd[0]["nt"], dd[0]["dim"], dd[0]["const"]])] + [it(x) for x in pp[0]["pred"] + pp[0]["raw"]],
                              "b": [f(dd[1]), it([dd[1]["ns"], dd[1]["nt"], dd[1]["dim"], dd[1]["const"]])] + [it(x) for x in pp[1]["pred"] + pp[1]["raw"]]},
            {"ev": "same", "a": rl["resave"], "b": True}]


def sampler_pair(rng):
    """sample; then continue either with the collection itself or with its reloaded copy: same results"""
    n, p = rng.randint(8, 20), rng.randint(1, 3)
    model = rng.choice([0, 0, 1, 2])
    ft = [rng.choice([0, 0, 1, 2]) for _ in range(p)]
    X = [[rng.randint(0, 3) if ft[j] else rng.randint(-40, 40) / 8 for j in range(p)] for _ in range(n)]
    dim = 2 if model == 2 else 1
    nt = rng.randint(1, 3)
    d = {"op": "data", "d": 0, "X": X}
    if model:
        d["B"] = [[1] + [rng.randint(-2, 2) for _ in range(dim - 1)] for _ in X]
    y = [rng.gauss(0, 3) for _ in X]
    mean = sum(y) / n
    head = [{"op": "begin", "seed": 5}, d, {"op": "resid", "y": [v - mean for v in y]}, {"op": "forest", "f": 0, "trees": nt, "dim": dim, "constant": model == 0},
            {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": nt, "ft": ft, "model": model, "tau": 2, "Sigma": [[1, 0], [0, 1]], "alpha": .95, "beta": rng.choice([.5, 2]), "minleaf": 1, "grid": 100}]
    head += [{"op": rng.choice(["gfrq", "mcmcq", "mcmcq"]), "s": 0} for _ in range(rng.randint(2, 12))]
    cont = [{"op": "seed", "v": rng.randint(1, 99)}] + [{"op": "mcmcq", "s": 0} for _ in range(12)]
    cont += [{"op": "slot_dump", "s": 0}, {"op": "predict", "f": 0, "d": 0}]
    a = head + cont
    b = head + [{"op": "forest_json", "f": 0, "f2": 1}, {"op": "predict", "f": 0, "d": 0}, {"op": "predict", "f": 1, "d": 0}, {"op": "slot_forest", "s": 0, "f": 1}] + cont
    b[-1] = dict(b[-1], f=1)
    return a, b


def pair_events(ra, rb):
    it = Intern()
    out = [{"ev": "begin"}]
    for r in ra + rb:
        if "error" in r:
            return out + [err_event(r)]
    js = [r for r in rb if r["op"] == "forest_json"][0]
    pb = [r for r in rb if r["op"] == "predict"]
    pa = [r for r in ra if r["op"] == "predict"]
    sa, sb = [r for r in ra if r["op"] == "slot_dump"][0], [r for r in rb if r["op"] == "slot_dump"][0]
    P = lambda r: [it(x) for x in r["pred"]] + [it(x) for x in r["raw"]]
    out.append({"ev": "same", "a": js["resave"], "b": True})
    out.append({"ev": "same", "a": P(pb[0]), "b": P(pb[1])})
    out.append({"ev": "same", "a": [it(h) for h in sa["hist"]], "b": [it(h) for h in sb["hist"]]})
    out.append({"ev": "same", "a": [it(x) for x in sa["r"]], "b": [it(x) for x in sb["r"]]})
    out.append({"ev": "same", "a": P(pa[-1]), "b": P(pb[-1])})
    return out


def main():
    ck = Check("C08")
    rng = random.Random(SEED)
    r = model_check("ContainerMC", cfg("ContainerMC", MaxOps=9 if THOROUGH else 7), expect_actions=["Add", "Copy", "Edit", "Begin", "Take", "Reload"])
    try:
        model_check("ContainerMC", cfg("ContainerMC", KeepsRoot="FALSE"), workers="1")
    except CheckError as e:
        if "Invariant InvContent is violated" not in str(e):
            raise
    else:
        raise CheckError("the model does not notice that a saved root is lost")
    ck.add_model("ContainerMC: ownership of samples", r)
    beh, _ = behaviours("ContainerMC", cfg("ContainerMC", MaxOps=6, Emit="TRUE"))
    drop = set(json.dumps(b[:-1]) for b in beh)
    beh = [b for b in beh if json.dumps(b) not in drop]
    rng.shuffle(beh)
    S = [container_session(b, rng) for b in beh[:150 if not THOROUGH else None]]
    ck.cov["spec_behaviours_replayed"] = len(S)
    S += [edit_session(rng) for _ in range(900 if THOROUGH else 150)]
    no = 60
    O = [odd_session(rng) for _ in range(no)]
    P = [sampler_pair(rng) for _ in range(400 if THOROUGH else 120)]
    fin = [gen.fine(rng, s) if rng.random() < .5 else (s, None) for s in S]
    flat = [s for s, _ in fin] + O + [x for ab in P for x in ab]
    res = run_sessions(flat)
    sess = [("e%d" % i, project(s, r, f[1])) for i, (s, r, f) in enumerate(zip(S, res, fin))]
    sess += [("odd%d" % i, odd_events(s, r)) for i, (s, r) in enumerate(zip(O, res[len(S):]))]
    R = res[len(S) + no:]
    sess += [("s%d" % i, pair_events(R[2 * i], R[2 * i + 1])) for i in range(len(P))]
    v = Validation("ForestTrace").run(sess)
    ck.add_validation("reload", v)
    ck.sample({"edit_session": S[-1][:10]})
    ck.sample({"sampler_pair": [c["op"] for c in P[0][1]]})
    return ck.finish()

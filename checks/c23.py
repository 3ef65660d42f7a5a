"""C23: leaf parameters are drawn around the weighted fit of the rows in the leaf"""
from splitlib import *
from c22 import a_rule, rule_of

REPS = 1000
MS = 2**10


def frac(x):
    f = Fr(x)
    return f.numerator, f.denominator


def heaps(tree):
    """node id -> heap position"""
    nodes = {n["id"]: n for n in tree["nodes"]}
    root = [i for i, n in nodes.items() if n["isroot"]][0]
    out, todo = {}, [(root, 1)]
    while todo:
        i, h = todo.pop()
        out[i] = h
        if not nodes[i]["isleaf"]:
            todo += [(nodes[i]["l"], 2 * h), (nodes[i]["r"], 2 * h + 1)]
    return out


def built(tree):
    hp = heaps(tree)
    out = []
    for n in tree["nodes"]:
        if n["id"] not in hp:
            continue
        e = {"h": hp[n["id"]]}
        if n["isleaf"]:
            e["k"] = "leaf"
        elif n["ty"] == "num":
            e.update(k="num", feat=n["feat"], thr=enc_thr(n["thr"]))
        else:
            e.update(k="cat", feat=n["feat"], cats=n["cats"])
        out.append(e)
    return out


def session(rng, **kw):
    s, c = setup(rng, tau=rng.choice([.25, .5, 2.]), **kw)
    m = Mirror(c)
    slot = s[4]
    scale = lambda f: [[v * f for v in r] for r in c["S0"]]

    def draw(mode):
        if mode == "fit":
            s.append({"op": "sigma2", "v": 1e-12 if c["model"] < 2 else 1e-6})
        elif mode == "zero":
            z = {"op": "slot_set", "s": 0, "tau": 1e-14}
            if c["model"] == 2:
                z["Sigma"] = scale(1e-14)
            s.append(z)
        s.append({"op": "leaf_draw", "s": 0, "k": 0, "j": 0, "reps": REPS if mode == "many" else 1, "mode": mode})
        s.append({"op": "sigma2", "v": c["s2"]})
        if mode == "zero":
            z = {"op": "slot_set", "s": 0, "tau": slot["tau"]}
            if c["model"] == 2:
                z["Sigma"] = c["S0"]
            s.append(z)
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        h = rng.choice(sorted(m.leaves))
        if x < .45 and h < 16:
            r = a_rule(rng, c, m.rows[h])
            s.append(dict({"op": "trk_split", "s": 0, "k": 0, "j": 0, "node": h, "lv": [0] * c["dim"], "rv": [0] * c["dim"], "sorted": False}, **r))
            m.split(h, r)
        elif x < .55 and m.twigs():
            h = rng.choice(m.twigs())
            s.append({"op": "trk_prune", "s": 0, "k": 0, "j": 0, "node": h, "v": [0] * c["dim"]})
            m.prune(h)
        elif x < .65:
            m.y = [rng.randint(-5, 5) for _ in m.y]
            s.append({"op": "resid", "y": m.y})
        else:
            draw(rng.choice(["fit", "fit", "zero", "many"]))
    draw(rng.choice(["fit", "many"]))
    return s, c


def sampled(rng, **kw):
    """real iterations with negligible noise: every leaf of the resulting tree fits its rows"""
    s, c = setup(rng, minleaf=1, n=rng.choice([6, 9, 15]), **kw)
    s[3].pop("samples")                      # no sample yet: the samplers start the forest
    s.append({"op": "sigma2", "v": 1e-12 if c["model"] < 2 else 1e-6})
    if c["model"] == 2:
        s.append({"op": "init_slot", "s": 0, "v": [0] * c["dim"], "vector": True})
    for _ in range(rng.randint(2, 6)):
        s.append({"op": rng.choice(["gfr", "mcmc", "mcmc"]), "s": 0})
    return s, c


def events(s, res, c):
    m = Mirror(c)
    out = [{"ev": "begin", "c": spec_conf(c)}]
    first = True
    tn, td = frac(c["S0"][0][0])
    sn, sd = frac(c["s2"])
    fs = 256 if c["model"] == 2 else MS
    for q, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        op = q["op"]
        if op == "resid":
            if not first:
                m.y = q["y"]
                out.append({"ev": "resid", "y": q["y"]})
            first = False
        elif op == "trk_split":
            m.split(q["node"], rule_of(q))
            out.append(dict({"ev": "split", "node": q["node"]}, **ev_rule(q)))
        elif op == "trk_prune":
            m.prune(q["node"])
            out.append({"ev": "prune", "node": q["node"]})
        elif op in ("gfr", "mcmc"):
            t = r["cur"][0]
            hp = heaps(t)
            out.append({"ev": "tree", "nodes": built(t)})
            out.append({"ev": "fit", "S": fs, "leaves": [{"h": hp[n["id"]], "mean": [enc_fix(v, fs) for v in n["leaf"]]} for n in t["nodes"] if n["isleaf"] and n["id"] in hp]})
        elif op == "leaf_draw":
            hp = heaps(r["cur"][0])
            mode = q["mode"]
            if mode == "many":
                kind = "multi" if c["model"] == 2 else "uni"
            else:
                kind = mode
            ms, vs = (256 if kind == "uni" else fs if kind == "fit" else MS), 4096
            e = {"ev": kind, "leaves": [{"h": hp.get(n["id"], 0), "mean": [enc_fix(v, ms) for v in n["mean"]], "var": [enc_fix(v, vs) for v in n["var"]]} for n in r["leaves"]]}
            if kind == "fit":
                e["S"] = fs
            elif kind == "uni":
                e.update(t={"tn": tn, "td": td, "sn": sn, "sd": sd}, reps=REPS)
            elif kind == "multi":
                tab, seen = [], set()
                for h in m.leaves:
                    st = stat(m.rows[h], c["K"], m.y, c["B"])
                    if tuple(st) in seen:
                        continue
                    seen.add(tuple(st))
                    mean, cov = posterior(st, c["S0"], c["s2"])
                    tab.append({"st": st, "mean": [enc_fix(float(v), MS) for v in mean], "tol": [math.ceil(7 * MS * math.sqrt(float(cov[i][i]) / REPS)) for i in range(c["dim"])], "var": [enc_fix(float(cov[i][i]), 4096) for i in range(c["dim"])]})
                e["tab"] = tab
            out.append(e)
    return out


def main():
    ck = Check("C23")
    rng = random.Random(SEED)
    models(ck, [("LeafDraw: the stated centre minimises the penalised weighted squares, every small data set", "LeafDraw", cfg("LeafDraw", **({} if THOROUGH else dict(MaxN=2, Taus="{1, 3}"))), ["Split", "Draw"])])
    sc = [session(rng) for _ in range(3000 if THOROUGH else 500)] + [sampled(rng) for _ in range(1500 if THOROUGH else 250)]
    res = run_sessions([s for s, _ in sc])
    v = Validation("LeafTrace").run([("draw%d" % i, events(s, r, c)) for i, ((s, c), r) in enumerate(zip(sc, res))])
    ck.add_validation("leaf draws", v)
    ck.assumptions += ["Monte-Carlo comparisons use 1000 draws and accept 7 standard errors for the mean and a quarter for the variance", "weights are powers of two and outcomes and bases integers"]
    ck.sample({"session": sc[0][0][5:12]})
    return ck.finish()

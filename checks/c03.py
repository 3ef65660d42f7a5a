"""C03: training-row bookkeeping (Tracker) against the real ForestTracker and its index structures"""
from common import *
from forestlib import enc_rows


def replay_scripts(beh, rng):
    drop = set(json.dumps(b[:-1]) for b in beh)
    out = []
    for b in beh:
        if json.dumps(b) in drop:
            continue
        nt, j = rng.choice([(1, 0), (2, 0), (2, 1), (3, 1)])
        X = [[v / SC for v in r] for r in b[0]["X"]]
        s = [{"op": "begin", "seed": 1}, {"op": "data", "d": 0, "X": X, "row_major": rng.random() < .5}, {"op": "forest", "f": 0, "trees": nt, "dim": 1, "constant": True, "samples": 1},
             {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": nt, "ft": [0, rng.choice([1, 2])]}]
        if j:
            s.append({"op": "trk_reset", "s": 0, "k": 0, "j": j})
        keep = True
        for o in b[1:]:
            keep = o["op"] == "trk_reset" or (keep and o.get("sorted", False))
            c = {"op": o["op"], "s": 0, "k": 0, "j": j}
            if o["op"] == "trk_split":
                ru = o["rule"]
                c.update(node=o["node"], lv=[1], rv=[2], sorted=o["sorted"], feat=ru["feat"])
                if "cats" in ru:
                    c["cats"] = ru["cats"]
                else:
                    c["thr"] = ru["thr"] / SC
            elif o["op"] == "trk_prune":
                c.update(node=o["node"], v=[3])
            s.append(c)
            s.append({"op": "trk_dump", "s": 0, "k": 0, "sorted_tree": j if keep else -1, "alt": True})
        out.append(s)
    return out


def edit_session(rng):
    n, p, nt = rng.randint(1, 14), rng.randint(1, 3), rng.randint(1, 3)
    ft = [rng.choice([0, 0, 1, 2]) for _ in range(p)]
    span = rng.choice([1, 2, 6])
    X = [[rng.randint(0, 3) if ft[f] else rng.randint(-2 * span, 2 * span) / 4 for f in range(p)] for _ in range(n)]
    s = [{"op": "begin", "seed": 1}, {"op": "data", "d": 0, "X": X, "row_major": rng.random() < .5}, {"op": "forest", "f": 0, "trees": nt, "dim": 1, "constant": True, "samples": 1},
         {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": nt, "ft": ft}]
    T = [gen.ShapeTree() for _ in range(nt)]
    srt = 0
    for _ in range(rng.choice([6, 14, 30])):
        j = srt if srt is not None and rng.random() < .5 else rng.randrange(nt)
        t = T[j]
        x = rng.random()
        if x < 0.62 and t.leaves(63):
            h = rng.choice(t.leaves(63))
            f = rng.randrange(p)
            c = {"op": "trk_split", "s": 0, "k": 0, "j": j, "node": h, "feat": f, "lv": [rng.randint(-9, 9)], "rv": [rng.randint(-9, 9)]}
            if ft[f] == 1:
                c["cats"] = rng.sample(range(4), rng.randint(1, 3))
            else:
                c["thr"] = rng.choice(X)[f] + rng.choice([0, 0, 0, .125, -9, 9])
            c["sorted"] = srt == j and rng.random() < .75
            if srt == j and not c["sorted"]:
                srt = None
            t.expand(h)
        elif x < 0.85 and t.splits():
            h = rng.choice(t.splits())
            c = {"op": "trk_prune", "s": 0, "k": 0, "j": j, "node": h, "v": [rng.randint(-9, 9)]}
            t.collapse(h)
            if srt == j:
                srt = None
        elif x < 0.93:
            c = {"op": "trk_reset", "s": 0, "k": 0, "j": j}
            T[j] = gen.ShapeTree()
            srt = j
        else:
            continue
        s.append(c)
        s.append({"op": "trk_dump", "s": 0, "k": 0, "sorted_tree": -1 if srt is None else srt, "alt": True})
    return s


def sampler_session(rng):
    n, p, nt = rng.randint(6, 30), rng.randint(1, 3), rng.randint(1, 3)
    ft = [rng.choice([0, 0, 1, 2]) for _ in range(p)]
    span = rng.choice([1, 3, 20])
    X = [[rng.randint(0, 3) if ft[f] else rng.randint(-2 * span, 2 * span) / 4 for f in range(p)] for _ in range(n)]
    y = [rng.gauss(0, 3) for _ in X]
    model = rng.choice([0, 0, 1])
    d = {"op": "data", "d": 0, "X": X}
    if model:
        d["B"] = [[rng.randint(-2, 2)] for _ in X]
    ml = rng.choice([1, 1, 2])
    s = [{"op": "begin", "seed": rng.randint(1, 999)}, d, {"op": "resid", "y": y}, {"op": "forest", "f": 0, "trees": nt, "dim": 1, "constant": model == 0},
         {"op": "slot", "s": 0, "d": 0, "f": 0, "trees": nt, "ft": ft, "model": model, "tau": 4, "alpha": .95, "beta": rng.choice([.5, 1]), "minleaf": ml, "grid": rng.choice([4, 100])}]
    for _ in range(rng.randint(3, 10)):
        s.append({"op": rng.choice(["gfr", "mcmc", "mcmc"]), "s": 0, "sorted_tree": nt - 1})
        if s[-1]["op"] == "mcmc":
            s[-1]["sorted_tree"] = -1
    return s


def events(s, res):
    out = []
    X = enc_rows([c for c in s if c["op"] == "data"][0]["X"])
    for c, r in zip(s, res):
        op = c["op"]
        if op == "begin":
            out.append({"ev": "begin", "X": X})
        if "error" in r:
            return out + [err_event(r)]
        if op == "slot" and s[2]["op"] == "forest":
            out.append({"ev": "slot", "trees": c["trees"]})
        elif op == "trk_split":
            out.append(dict({"ev": "split"}, j=c["j"], node=c["node"], lv=c["lv"], rv=c["rv"], sorted=c["sorted"], **ev_rule(c)))
        elif op == "trk_prune":
            out.append({"ev": "prune", "j": c["j"], "node": c["node"], "v": c["v"]})
        elif op == "trk_reset":
            out.append({"ev": "reset", "j": c["j"]})
        elif op == "trk_dump":
            out.append({"ev": "dump", "trees": [enc_tree(t) for t in r["cur"]], "trk": trk(r["trk"]), "alt": trk(r["alt"]), "srt": c["sorted_tree"] >= 0})
        elif op in ("gfr", "mcmc"):
            trees = [enc_tree(t, leafenc=lambda v: 0) for t in r["cur"]]
            out.append({"ev": "adopt", "trees": trees, "srt": c["sorted_tree"] + 1})
            out.append({"ev": "dump", "trees": trees, "trk": trk(r["trk"]), "alt": [], "srt": c["sorted_tree"] >= 0})
    return out


def trk(ts):
    return [{"node": t["node"], "segs": t["segs"], "links": t["links"]} for t in ts]


def main():
    ck = Check("C03")
    rng = random.Random(SEED)
    r = model_check("TrackerMC", cfg("TrackerMC", MaxOps=6 if THOROUGH else 4), expect_actions=["Split", "Prune", "Reset"])
    ck.add_model("TrackerMC: every split/prune/reset history up to the bound over all small data sets", r)
    beh, _ = behaviours("TrackerMC", cfg("TrackerMC", MaxOps=4 if THOROUGH else 3, Emit="TRUE"))
    scripts = replay_scripts(beh, rng)
    rng.shuffle(scripts)
    scripts = scripts[:4000 if THOROUGH else 400]
    ck.cov["spec_behaviours_replayed"] = len(scripts)
    scripts += [edit_session(rng) for _ in range(600 if THOROUGH else 100)]
    scripts += [sampler_session(rng) for _ in range(300 if THOROUGH else 60)]
    res = run_sessions(scripts)
    v = Validation("TrackerTrace").run([("h%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("tracker histories", v)
    ck.assumptions.append("training covariates are not missing (the library's training-time splits and prediction-time routing differ for NaN)")
    ck.sample({"replayed": scripts[0]})
    ck.sample({"sampler_session": scripts[-1][2:6]})
    return ck.finish()

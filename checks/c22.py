"""C22: split evaluations use exactly the rows each side would receive"""
from splitlib import *


def a_rule(rng, c, rows):
    f = rng.randrange(c["p"])
    vals = [c["X"][r][f] for r in rows] or [0]
    if c["ft"][f] == 2:
        return {"feat": f, "cats": rng.sample(range(6), rng.randint(1, 4))}
    t = rng.choice(vals) + rng.choice([0, 0, 0, .125, -.125])
    if rng.random() < .1:
        t = rng.choice([-1000, 1000])
    return {"feat": f, "thr": t}


def session(rng, **kw):
    """returns the script; expectations are rebuilt while projecting the results"""
    s, c = setup(rng, **kw)
    m = Mirror(c)
    fresh = True        # the sorted listings follow splits only
    for _ in range(rng.randint(4, 12)):
        x = rng.random()
        h = rng.choice(sorted(m.leaves))
        if x < .35:
            s.append(dict({"op": "eval", "s": 0, "j": 0, "what": "proposed", "node": h}, **a_rule(rng, c, m.rows[h])))
        elif x < .6 and h < 16:
            r = a_rule(rng, c, m.rows[h])
            s.append(dict({"op": "eval", "s": 0, "j": 0, "what": "proposed", "node": h}, **r))
            s.append(dict({"op": "trk_split", "s": 0, "k": 0, "j": 0, "node": h, "lv": [0] * c["dim"], "rv": [0] * c["dim"], "sorted": fresh}, **r))
            m.split(h, r)
            s.append({"op": "eval", "s": 0, "j": 0, "what": "existing", "node": h})
        elif x < .7 and m.twigs():
            h = rng.choice(m.twigs())
            s.append({"op": "eval", "s": 0, "j": 0, "what": "existing", "node": h})
            if rng.random() < .5:
                s.append({"op": "trk_prune", "s": 0, "k": 0, "j": 0, "node": h, "v": [0] * c["dim"]})
                m.prune(h)
                fresh = False
        elif x < .78:
            m.y = [rng.randint(-5, 5) for _ in m.y]
            s.append({"op": "resid", "y": m.y})
        elif x < .84:
            w = [1.] * c["p"]
            if c["p"] > 1:
                w[rng.randrange(c["p"])] = 0.
            s.append({"op": "slot_set", "s": 0, "minleaf": rng.choice([0, 1, 2, 5]), "w": [v / sum(w) for v in w]})
        elif fresh and m.rows[h]:
            grid = s[4]["grid"]
            s += [{"op": "cut", "s": 0, "j": 0, "node": h, "feat": f, "grid": grid} for f in range(c["p"])]
            s.append({"op": "eval", "s": 0, "j": 0, "what": "all", "node": h})
    return s, c


def rule_of(c):
    return {k: c[k] for k in ("feat", "thr", "cats") if k in c}


def enc_r(r):
    return ev_rule(r)


def events(s, res, c):
    m = Mirror(c)
    out = [{"ev": "begin", "c": spec_conf(c)}]
    cuts, bins = {}, {}
    first = True
    fx = lambda v: enc_fix(v, FS)
    for q, r in zip(s, res):
        if "error" in r:
            return out + [err_event(r)]
        op = q["op"]
        if op == "resid":
            if not first:
                m.y = q["y"]
                out.append({"ev": "resid", "y": q["y"]})
            first = False
        elif op == "slot_set":
            out.append({"ev": "conf", "ml": q["minleaf"], "w": [int(v != 0) for v in q["w"]]})
        elif op == "trk_split":
            m.split(q["node"], rule_of(q))
            out.append(dict({"ev": "split", "node": q["node"]}, **enc_r(q)))
        elif op == "trk_prune":
            m.prune(q["node"])
            out.append({"ev": "prune", "node": q["node"]})
        elif op == "cut":
            bins[q["feat"]] = r["bins"]
            cuts[q["feat"]] = [{"v": enc_exact(b["v"], SC), "vec": b["vec"]} for b in r["bins"]]
        elif op == "eval":
            h = q["node"]
            if q["what"] == "proposed":
                L, R = m.parts(h, rule_of(q))
                out.append(dict({"ev": "proposed", "node": h, "split": fx(r["split"]), "nosplit": fx(r["nosplit"]), "ln": r["ln"], "rn": r["rn"], "tab": m.tab([L, R, m.rows[h]])}, **enc_r(q)))
            elif q["what"] == "existing":
                out.append({"ev": "existing", "node": h, "split": fx(r["split"]), "nosplit": fx(r["nosplit"]), "ln": r["ln"], "rn": r["rn"], "tab": m.tab([m.rows[2 * h], m.rows[2 * h + 1], m.rows[h]])})
            else:
                sets, cands = [m.rows[h]], []
                for d in r["cands"]:
                    if d["bin"] != int(d["bin"]):
                        return out + [{"ev": "error", "what": "fractional bin"}]
                    sets += m.parts(h, rule_of(d))
                    cands.append(dict({"ll": fx(d["ll"]), "ft": FT[d["ft"]], "bin": int(d["bin"])}, **enc_r(d)))
                out.append({"ev": "all", "node": h, "cuts": [cuts[f] for f in range(c["p"])], "cands": cands, "count": r["count"], "len": r["len"], "nosplit": fx(r["nosplit"]), "tab": m.tab(sets)})
                cuts = {}
    return out


def main():
    ck = Check("C22")
    rng = random.Random(SEED)
    acts = ["Bin", "BinsDone", "RouteRow", "RouteNext"]
    B = lambda name, **k: cfg("SplitEvalMC", **k).replace("BasisConst", name)
    jobs = [("SplitEval: constant leaves, every small data set", "SplitEvalMC", B("BasisConst"), acts), ("SplitEval: regression leaves", "SplitEvalMC", B("BasisUni", MaxN=3 if THOROUGH else 2, MinLeaf=2 if THOROUGH else 1), acts),
            ("SplitEval: two-dimensional leaves", "SplitEvalMC", B("BasisMulti", MaxN=3 if THOROUGH else 2), acts)]
    models(ck, jobs)
    sc = [session(rng) for _ in range(3000 if THOROUGH else 400)] + [session(rng, n=60) for _ in range(60 if THOROUGH else 8)]
    res = run_sessions([s for s, _ in sc])
    v = Validation("SplitTrace").run([("split%d" % i, events(s, r, c)) for i, ((s, c), r) in enumerate(zip(sc, res))])
    ck.add_validation("evaluations of splits", v)
    ck.assumptions += ["marginal likelihoods are compared to 2^-10 with a closed form evaluated in exact rational arithmetic", "weights are powers of two and outcomes and bases integers, so the statistics are exact"]
    ck.sample({"session": sc[0][0][5:12]})
    return ck.finish()

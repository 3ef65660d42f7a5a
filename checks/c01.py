"""C01: edit histories of trees (TreeEdit/TreeArena) replayed in and validated against the real Tree."""
from common import *


def events(script, res):
    out = []
    for c, r in zip(script, res):
        if "error" in r:
            out.append(err_event(r))
            break
        e = {"ev": c["op"]}
        if c["op"] != "begin":
            e["t"] = c["t"]
            for k in ("node", "src", "dim"):
                if k in c:
                    e[k] = c[k]
            for k in ("lv", "rv", "v"):
                if k in c:
                    e[k] = c[k]
            if c["op"] == "expand":
                e.update(ev_rule(c))
            for k in ("eq", "resave"):
                if k in r:
                    e[k] = r[k]
            e["trees"] = [{"t": x["t"], "tree": enc_tree(x["tree"])} for x in r["trees"]]
        out.append(e)
    return out


def replay_scripts(beh, rng):
    """TLC's histories (one per transition of the arena model) as harness scripts"""
    keys = {json.dumps(b): b for b in beh}
    drop = set(json.dumps(b[:-1]) for b in beh)
    out = []
    for k, b in keys.items():
        if k in drop:
            continue            # a longer history contains it
        s = [{"op": "begin", "seed": 1}, {"op": "tree_new", "t": 0, "dim": 1}]
        for o in b:
            c = {kk: v for kk, v in o.items() if kk != "rule"}
            c["t"] = 0
            if "rule" in o:
                c["feat"] = o["rule"]["feat"]
                if "cats" in o["rule"]:
                    c["cats"] = o["rule"]["cats"]
                else:
                    c["thr"] = o["rule"]["thr"] / SC
                c["via"] = rng.choice(["direct", "split"])
            s.append(c)
        out.append(s)
    return out


def main():
    ck = Check("C01")
    rng = random.Random(SEED)
    r = model_check("TreeArenaMC", cfg("TreeArenaMC", MaxOps=12 if THOROUGH else 9), expect_actions=["OpExpand", "OpCollapse", "OpChange", "OpSet"])
    ck.add_model("TreeArenaMC: every edit history up to the bound, arena vs abstract tree", r)
    beh, g = behaviours("TreeArenaMC", cfg("TreeArenaMC", MaxOps=8 if THOROUGH else 7, Emit="TRUE"))
    scripts = replay_scripts(beh, rng)
    rng.shuffle(scripts)
    lim = len(scripts) if THOROUGH else 700
    scripts = scripts[:lim]
    ck.cov["spec_behaviours_replayed"] = len(scripts)
    n = 500 if THOROUGH else 60
    for i in range(n):
        dims = [(1,), (2,), (3,), (1, 2)][i % 4]
        scripts.append(gen.edit_history(rng, rng.choice([20, 40, 60]), maxh=rng.choice([7, 31, 127]), dims=dims, cat_feats=[(1,), (), (0, 1, 2)][i % 3]))
    res = run_sessions(scripts)
    v = Validation("TreeEditTrace", "CONSTANTS TreeIds = {0}\n").run([("h%d" % i, events(s, r)) for i, (s, r) in enumerate(zip(scripts, res))])
    ck.add_validation("edit histories", v)
    ck.sample({"history": scripts[0]})
    ck.sample({"history": scripts[-1][:12]})
    return ck.finish()

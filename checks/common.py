import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json
import random
import re
import vf
import gen
from vf import *


def cfg(name, **subst):
    """text of spec/<name>.cfg with constants replaced"""
    t = open(os.path.join(SPEC, name + ".cfg")).read()
    for k, v in subst.items():
        t, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), t)
        if n != 1:
            raise CheckError("constant %s not in %s.cfg" % (k, name))
    return t


def ev_rule(c, sc=SC):
    if "cats" in c:
        return {"feat": c["feat"], "cats": c["cats"]}
    return {"feat": c["feat"], "thr": enc_thr(c["thr"], sc)}


def err_event(r):
    return {"ev": "error", "what": str(r.get("error"))[:200]}


def models(ck, jobs, timeout=3000):
    """check several specification configurations at the same time; jobs: (description, module, cfg text, expected actions)"""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        w = str(max(1, 8 // len(jobs)))
        rs = list(ex.map(lambda j: model_check(j[1], j[2], expect_actions=j[3], timeout=timeout, workers=w), jobs))
    for j, r in zip(jobs, rs):
        ck.add_model(j[0], r)

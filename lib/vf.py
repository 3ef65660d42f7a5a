"""Common machinery of the checks: building the code under test from /repo, running the harness,
running TLC on specifications and trace specifications, writing evidence, reporting verdicts."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = 8
PY = "/opt/vp/venv/bin/python"


class CheckError(Exception):
    """The check itself could not do its work (not a verdict)."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------- building
CXX = ["g++", "-std=c++17", "-O1", "-fPIC", "-pthread", "-w"]
INC = ["-I" + os.path.join(VERIF, "harness", "stub"), "-I" + os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
PYINC = ["-isystem", "/opt/vp/venv/lib/python3.12/site-packages/pybind11/include", "-I/usr/include/python3.12"]
RINC = ["-DSTOCHTREE_R_BUILD", "-I" + os.path.join(REPO, "src"), "-isystem", "/usr/share/R/include", "-isystem",
        "/usr/lib/R/site-library/cpp11/include"]


def _core():
    """core translation units, as listed by the project's own build"""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    names = [n for n in dict.fromkeys(re.findall(r"src/(\w+)\.cpp", txt)) if n not in ("json11", "py_stochtree")]
    names = [n for n in names if os.path.exists(os.path.join(REPO, "src", n + ".cpp"))]
    if not names:
        raise CheckError("no core sources found")
    return names


def _tree_hash(dirs, extra=()):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                if f.endswith((".cpp", ".h", ".hpp", ".txt", ".py", ".R")):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    for e in extra:
        h.update(e.encode() if isinstance(e, str) else e)
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return cmd, p.returncode, p.stderr


def _compile(jobs):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for cmd, rc, err in ex.map(_run, jobs):
            if rc != 0:
                raise CheckError("build failed: %s\n%s" % (" ".join(cmd), err[-4000:]))


def build(kind, sanitize=False):
    """Build and return the path of: 'harness' (C++ conformance driver), 'py' (directory holding
    stochtree_cpp.so) or 'r' (stochtree.so).  Cached in /verif/.build under a key made of every source."""
    os.makedirs(BUILD, exist_ok=True)
    key = _tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "harness")],
                     [kind, str(sanitize), open(os.path.join(REPO, "CMakeLists.txt")).read(), open(__file__).read()])
    out = os.path.join(BUILD, "%s-%s" % (kind, key))
    lock = open(os.path.join(BUILD, kind + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        target = {"harness": os.path.join(out, "harness"), "py": os.path.join(out, "stochtree_cpp.so"), "r": os.path.join(out, "stochtree.so"),
                  "pyw": os.path.join(out, "stochtree_cpp.so"), "rw": os.path.join(out, "stochtree.so"), "pyx": os.path.join(out, "stochtree_cpp.so"), "rx": os.path.join(out, "vf_extra.so")}[kind]
        if not os.path.exists(os.path.join(out, "done")):
            for old in glob.glob(os.path.join(BUILD, kind + "-*")):
                if old != out:
                    shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            units = [(os.path.join(REPO, "src", n + ".cpp"), n) for n in _core()] if kind != "rx" else []
            extra, link = [], []
            cxx = list(CXX)
            if kind == "harness":
                units.append((os.path.join(VERIF, "harness", "harness.cpp"), "harness_main"))
                if sanitize:
                    cxx += ["-fsanitize=address,undefined"]
            elif kind in ("py", "pyx", "pyw"):
                if kind in ("py", "pyw"):
                    units.append((os.path.join(REPO, "src", "py_stochtree.cpp"), "py_stochtree"))
                else:
                    units.append((os.path.join(VERIF, "harness", "py_extra.cpp"), "py_extra"))
                    cxx += ['-DSTOCHTREE_PY_SOURCE="%s"' % os.path.join(REPO, "src", "py_stochtree.cpp")]
                extra = PYINC + ["-fvisibility=hidden"]
                link = ["-shared"]
            elif kind == "rx":
                units.append((os.path.join(VERIF, "harness", "r_extra.cpp"), "r_extra"))
                extra = RINC
                link = ["-shared", "-L/usr/lib/R/lib", "-lR"]
            else:
                for n in ("forest", "kernel", "R_data", "R_random_effects", "sampler", "serialization", "cpp11"):
                    units.append((os.path.join(REPO, "src", n + ".cpp"), "r_" + n))
                extra = RINC
                link = ["-shared", "-L/usr/lib/R/lib", "-lR"]
            core = {n for n in _core()}
            wired = lambda o: ["-include", os.path.join(VERIF, "harness", "wire.h")] if kind in ("pyw", "rw") and o not in core else []
            units = sorted(units, key=lambda u: -os.path.getsize(u[0]))
            _compile([cxx + extra + INC + wired(o) + ["-c", s, "-o", os.path.join(out, o + ".o")] for s, o in units])
            _compile([cxx + [os.path.join(out, o + ".o") for _, o in units] + link + ["-o", target]])
            for _, o in units:
                os.unlink(os.path.join(out, o + ".o"))
            open(os.path.join(out, "done"), "w").close()
        return out if kind in ("py", "pyx", "pyw") else target
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


# ---------------------------------------------------------------------------------------- running code
def watched(cmd, outfile, stall=60, cwd=None, env=None):
    """run a command that writes one line per step; ended when it writes nothing for `stall` seconds"""
    with tempfile.TemporaryFile("w+") as err:
        p = subprocess.Popen([str(c) for c in cmd], cwd=cwd, env=env, stdout=err, stderr=err)
        size, last, nap = -1, time.time(), .01
        while p.poll() is None:
            time.sleep(nap)
            nap = min(.25, nap * 1.5)
            n = os.path.getsize(outfile) if os.path.exists(outfile) else 0
            if n != size:
                size, last = n, time.time()
            elif time.time() - last > stall:
                p.kill()
                p.wait()
                return "hang", ""
        err.seek(0)
        return p.returncode, err.read()[-3000:]


def json_lines(path):
    res = []
    if os.path.exists(path):
        for line in open(path):
            try:
                res.append(json.loads(line))
            except ValueError:
                break
    return res


def run_harness(script, stall=60):
    """script: list of command dicts; returns list of result dicts; a crash or a hang appends {"error": "crash", "crash": True}"""
    exe = build("harness")
    with tempfile.TemporaryDirectory(prefix="vfh") as d:
        sp, op = os.path.join(d, "s"), os.path.join(d, "o")
        with open(sp, "w") as f:
            for c in script:
                f.write(json.dumps(c) + "\n")
        rc, _ = watched([exe, sp, op], op, stall, cwd=d)
        res = json_lines(op)
        if len(res) < len(script):
            res.append({"op": script[len(res)]["op"], "error": "crash rc=%s" % rc, "crash": True})
        return res


MAXCRASH = 3


def run_sessions(sessions, stall=60):
    """sessions: list of scripts (each starting with begin); executed in parallel, batched per process.
    A crash or hang loses only the session it happens in; after MAXCRASH of them in a batch the rest of the batch is not run."""
    out = [None] * len(sessions)

    def work(idx):
        bad = 0
        while idx:
            if bad == MAXCRASH:
                for i in idx:
                    out[i] = [{"op": sessions[i][0]["op"], "error": "not run after %d crashes" % bad, "crash": True}]
                return
            res = run_harness([c for i in idx for c in sessions[i]], stall)
            a, rest = 0, []
            for n, i in enumerate(idx):
                k = len(sessions[i])
                out[i] = res[a:a + k]
                a += k
                if any(r.get("crash") for r in out[i]):
                    rest, bad = idx[n + 1:], bad + 1
                    break
            idx = rest
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(work, [list(range(b, len(sessions), NCPU)) for b in range(NCPU)]))
    return out


def run_driver(lang, name, sessions, crashed, stall=120):
    """run sessions through a Python or R driver (harness/<name>), which writes one line per session, in parallel batches;
    crashed(session): the result that stands for a crash or hang"""
    code = os.path.join(VERIF, "harness", name)
    d0 = build(lang)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VF_EXTRA="1" if lang in ("pyx", "rx") else "")
    if lang == "rx":
        lang, d0 = "r", build("r")
        env["VF_SOX"] = build("rx")
    if lang in ("py", "pyx", "pyw"):
        env.update(PYTHONPATH=d0 + ":" + REPO + ":" + os.path.join(VERIF, "lib"), PYTHONDONTWRITEBYTECODE="1")
        cmd = [PY, code]
    else:
        env.update(VF_REPO=REPO, VF_SO=d0, R_LIBS_USER="/nonexistent")
        cmd = ["Rscript", "--vanilla", code]
    out = [None] * len(sessions)
    fatal = []

    def work(idx):
        bad, none = 0, 0
        while idx:
            if bad == MAXCRASH:
                for i in idx:
                    out[i] = crashed(sessions[i])
                return
            with tempfile.TemporaryDirectory(prefix="vfd") as d:
                json.dump([sessions[i] for i in idx], open(d + "/in.json", "w"))
                rc, err = watched(cmd + [d + "/in.json", d + "/out"], d + "/out", stall, cwd=d, env=dict(env, VF_WIRE=d + "/wire"))
                res = json_lines(d + "/out")
            if not res and rc not in ("hang",) and rc >= 0 and rc < 128:
                fatal.append("driver %s failed (%s):\n%s" % (name, rc, err))   # the driver itself did not get going
                return
            for n, r in enumerate(res):
                out[idx[n]] = r
            if len(res) < len(idx):
                out[idx[len(res)]] = crashed(sessions[idx[len(res)]])
                bad += 1
            idx = idx[len(res) + 1:]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(work, [list(range(b, len(sessions), NCPU)) for b in range(NCPU)]))
    if fatal:
        raise CheckError(fatal[0])
    return out


def run_py(code_file, args, timeout=600, env=None):
    """run a Python driver against the freshly built extension and /repo's Python package"""
    d = build("py")
    e = dict(os.environ, PYTHONPATH=d + ":" + REPO + ":" + os.path.join(VERIF, "lib"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.update(env or {})
    return subprocess.run([PY, code_file] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e)


def run_r(code_file, args, timeout=600):
    so = build("r")
    e = dict(os.environ, VF_REPO=REPO, VF_SO=so, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", R_LIBS_USER="/nonexistent")
    return subprocess.run(["Rscript", "--vanilla", code_file] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e)


# ------------------------------------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ms = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        m = ms[-1] if ms else None
        sim = re.findall(r"(\d+) states checked", out) + re.findall(r"The number of states generated: (\d+)", out)
        self.generated = int(m[0]) if m else (int(sim[-1]) if sim else 0)
        self.distinct = int(m[1]) if m else self.generated
        d = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(d.group(1)) if d else 0
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal property|property) (\S+) (?:is|was) violated", out)
        self.post_failed = bool(re.search(r"[Pp]ost-?condition .*(is false|violated|false)", out)) or "POSTCONDITION" in out and "violated" in out
        self.finished = "Model checking completed" in out or "Finished in" in out
        # per-action counts from -coverage
        self.actions = {}
        for name, dist, gen in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
            a = self.actions.setdefault(name, [0, 0])
            a[0] = max(a[0], int(dist)); a[1] = max(a[1], int(gen))


def tlc(module, cfg_text, env=None, timeout=600, args=(), workers="1", heap="3g", extra_files=None):
    """run TLC on spec/<module>.tla in a private directory with the given configuration text"""
    d = tempfile.mkdtemp(prefix="vft")
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg_text)
        e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx%s -Xss768m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -XX:TieredStopAtLevel=%s" % (heap, "4"))
        e.update(env or {})
        cmd = ["tlc", "-workers", str(workers), "-nowarning", "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s" % module)
        return TLCResult(p.stdout + p.stderr, p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg_text, timeout=600, workers="4", args=(), expect_actions=(), heap="6g"):
    """exhaustive check of the specification itself; an error here is an error of the check, not a verdict"""
    r = tlc(module, cfg_text, timeout=timeout, workers=workers, args=["-coverage", "1"] + list(args), heap=heap)
    if r.rc != 0 or r.violated or "Error:" in r.out:
        text = re.sub(r"(?m)^(\s*\|*line \d+.*|<.*|Picked up.*|\s*)\n", "", r.out)
        i = text.find("Error:")
        j = max(r.out.find("***Parse Error***"), r.out.find("*** Errors:"))
        if j >= 0:
            raise CheckError("specification %s does not parse:\n%s" % (module, r.out[j:j + 1500]))
        raise CheckError("specification %s does not satisfy its own properties:\n%s" % (module, text[i:][:3000] if i >= 0 else text[-3000:]))
    for a in expect_actions:
        if r.actions.get(a, [0, 0])[1] == 0:
            raise CheckError("vacuous model %s: action %s never taken (%s)" % (module, a, r.actions))
    return r


def behaviours(module, cfg_text, timeout=600, args=(), workers="1", marker="BEH", heap="4g"):
    """run TLC on a generator configuration; collects the JSON the spec prints with PrintT(<<"BEH", ToJson(hist)>>)"""
    r = tlc(module, cfg_text, timeout=timeout, workers=workers, args=args, heap=heap)
    out = []
    for m in re.finditer(r'^<<"%s", "(.*)">>$' % marker, r.out, re.M):
        out.append(json.loads(m.group(1).encode().decode("unicode_escape")))
    if not out:
        raise CheckError("generator %s produced no behaviours:\n%s" % (module, r.out[-3000:]))
    return out, r


def _san(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        raise CheckError("float in trace: %r" % v)
    if isinstance(v, int):
        if not -2**31 < v < 2**31:
            raise CheckError("integer out of TLC range in trace: %r" % v)
        return v
    if isinstance(v, dict):
        return {k: _san(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_san(x) for x in v]
    if v is None:
        raise CheckError("null in trace")
    return v


class TraceReject(Exception):
    pass


def validate_events(module, events, consts="", timeout=600, heap="3g"):
    """Run one trace through a trace specification.  Returns (accepted, matched, TLCResult)."""
    text = "".join(json.dumps(_san(e)) + "\n" for e in events)
    cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + consts
    r = tlc(module, cfg, env={"TRACE": "trace.ndjson"}, timeout=timeout, extra_files={"trace.ndjson": text}, args=["-coverage", "1"], heap=heap)
    matched = r.depth - 1
    if "Model checking completed" in r.out and not r.violated and "Error:" not in r.out and matched == len(events):
        return True, matched, r
    if re.search(r"Semantic error|Parsing or semantic|java\.lang\.|OutOfMemory|GC overhead|StackOverflow|[Cc]ould not find|TLC encountered an unexpected", r.out) or "Starting..." not in r.out:
        i = max(r.out.find("errors:"), r.out.find("Error:"), 0)
        raise CheckError("TLC failed on %s:\n%s" % (module, r.out[i:][:1500] if i else r.out[-3000:]))
    if "Error:" in r.out and "TraceAccepted" not in r.out.split("Error:")[1][:200] and not re.search(r"[Pp]ost-?condition", r.out):
        # the specification could not even be evaluated on the logged data: the event is not a step of it
        m = [int(x) for x in re.findall(r"^/\\ l = (\d+)", r.out, re.M)] + [int(x) for x in re.findall(r"^l = (\d+)", r.out, re.M)]
        if not m and r.depth == 0:
            raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-3000:]))
        return False, (max(m) - 1 if m else matched), r
    return False, matched, r


class Validation:
    """Validates many independent sessions (lists of events; each starts with an event that resets the
    specification's state) against a trace specification, in parallel batches; on a rejected batch the
    offending sessions are isolated and re-run alone to confirm."""

    def __init__(self, module, consts="", timeout=800, heap="3g"):
        self.module, self.consts, self.timeout, self.heap = module, consts, timeout, heap
        self.states = self.transitions = self.traces = self.events = 0
        self.actions = {}
        self.rejected = []   # (session, matched, event)

    def _absorb(self, r):
        self.states += r.distinct
        self.transitions += r.generated
        for k, v in r.actions.items():
            self.actions[k] = self.actions.get(k, 0) + v[1]

    def run(self, sessions, nbatch=None, max_reject=1):
        """sessions: list of (name, events)"""
        sessions = [s for s in sessions if s[1]]
        if not sessions:
            return self
        nb = nbatch or min(NCPU, len(sessions))
        size = lambda s: sum(len(json.dumps(e)) for e in s[1])
        order = sorted(range(len(sessions)), key=lambda i: -size(sessions[i]))
        batches = [[] for _ in range(nb)]
        load = [0] * nb
        for i in order:
            b = load.index(min(load))
            batches[b].append(i)
            load[b] += size(sessions[i])

        def work(idx):
            todo, rej, rs = list(idx), [], []
            while todo:
                ev, spans = [], []
                for i in todo:
                    spans.append((len(ev), i))
                    ev += sessions[i][1]
                ok, matched, r = validate_events(self.module, ev, self.consts, self.timeout, self.heap)
                rs.append(r)
                if ok:
                    return rej, rs, len(todo)
                bad = max(k for k, (a, i) in enumerate(spans) if a <= matched)
                i = todo[bad]
                ok2, m2, r2 = validate_events(self.module, sessions[i][1], self.consts, self.timeout, self.heap)
                if ok2:
                    raise CheckError("rejection of %s did not repeat" % sessions[i][0])
                rej.append((sessions[i], m2, r2))
                if len(rej) >= max_reject:
                    return rej, rs, bad
                todo = todo[bad + 1:]
            return rej, rs, 0
        with cf.ThreadPoolExecutor(nb) as ex:
            for rej, rs, n in ex.map(work, [b for b in batches if b]):
                self.rejected += rej
                for r in rs:
                    self._absorb(r)
                self.traces += n
        self.events += sum(len(s[1]) for s in sessions)
        return self


# -------------------------------------------------------------------------------------- verdict & evidence
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions, self.viol, self.known_hits = [], [], []
        self.known = self._known()

    def _known(self):
        p = os.path.join(VERIF, "known-findings.txt")
        out = []
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def add_model(self, name, r, exhaustive=True):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov.setdefault("models", []).append({"model": name, "distinct_states": r.distinct, "transitions": r.generated, "actions": {k: v[1] for k, v in r.actions.items()}})
        if exhaustive:
            self.cov["exhaustive"] = True

    def add_validation(self, name, v, describe=None, key=None):
        """take in a Validation; every rejected session becomes a violation (or a known finding)"""
        self.cov["states"] += v.states
        self.cov["transitions"] += v.transitions
        self.cov["traces_validated_against_impl"] += v.traces
        self.cov.setdefault("trace_specs", []).append({"spec": v.module, "stage": name, "events": v.events, "traces_accepted": v.traces, "rejected": len(v.rejected), "actions": v.actions})
        for (sname, events), matched, r in v.rejected:
            ev = events[matched] if matched < len(events) else {}
            self.violation("%s: trace %s rejected by %s at event %d/%d (%s)" % (name, sname, v.module, matched + 1, len(events), ev.get("ev")),
                           {"spec": v.module, "consts": v.consts, "session": sname, "matched": matched, "rejected_event": ev, "trace": events[:matched + 1]}, (key or (lambda s, e: s))(sname, ev))

    def violation(self, what, replay, key=""):
        for k, desc in self.known:
            if re.fullmatch(k, key):
                if (k, desc) not in self.known_hits:
                    self.known_hits.append((k, desc))
                return
        self.viol.append((what, replay))

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none)"]
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, desc in self.known_hits:
            log("KNOWN-FINDING: property=%s %s" % (self.prop, desc))
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            for n, (what, replay) in enumerate(self.viol[:5]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, n))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
                log("  " + what)
                log("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        log("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.prop, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


# ---------------------------------------------------------------------------------------- number encoding
SC = 1024            # fixed-point scale of feature values / thresholds
NA = -(2**30)        # missing
PINF, NINF = 2**30 - 1, -(2**30) + 1


def fnum(x):
    if x is None:
        return math.nan
    if isinstance(x, str):
        return {"nan": math.nan, "-nan": math.nan, "inf": math.inf, "-inf": -math.inf}[x] if "x" not in x else float.fromhex(x)
    return float(x)


def enc_val(x, sc=SC):
    """feature value -> integer (exact; caller only uses multiples of 1/sc)"""
    x = fnum(x)
    if math.isnan(x):
        return NA
    if math.isinf(x):
        return PINF if x > 0 else NINF
    y = x * sc
    if y != int(y) or abs(y) >= 2**30 - 2:
        raise CheckError("feature value %r is not representable" % x)
    return int(y)


def enc_thr(x, sc=SC):
    """threshold -> integer; floor keeps every comparison  value <= threshold  exact"""
    x = fnum(x)
    if math.isnan(x):
        return NA
    if math.isinf(x):
        return PINF if x > 0 else NINF
    return max(NINF, min(PINF - 1, math.floor(x * sc)))


def enc_exact(x, sc=1):
    """a number that has to be an exact multiple of 1/sc; anything else becomes a value no model state has"""
    x = fnum(x)
    if math.isnan(x) or math.isinf(x):
        return -(2**30) + 7
    y = x * sc
    if y != int(y) or abs(y) >= 2**30:
        return -(2**30) + 8
    return int(y)


def enc_fix(x, sc):
    """rounded fixed-point"""
    x = fnum(x)
    if math.isnan(x) or math.isinf(x):
        return 2**30
    y = round(x * sc)
    return max(-(2**30), min(2**30, y))


def enc_tree(d, leafenc=lambda x: enc_exact(x), sc=SC):
    """projection of one dumped tree handed to the specifications"""
    nodes = []
    for n in d["nodes"]:
        nodes.append({"id": n["id"], "par": n["par"], "l": n["l"], "r": n["r"], "rawr": n["rawr"], "isleaf": n["isleaf"], "isroot": n["isroot"], "islp": n["islp"], "depth": n["depth"],
                      "ty": n["ty"], "feat": n["feat"], "thr": enc_thr(n["thr"], sc) if n["ty"] == "num" else 0, "cats": n["cats"], "leaf": [leafenc(v) for v in n["leaf"]], "vec": [leafenc(v) for v in n["vec"]]})
    return {"nn": d["nn"], "dim": d["dim"], "walk": d["walk"], "nodes": nodes, "leaves": d["leaves"], "internal": d["internal"], "lp": d["lp"], "nleaves": d["nleaves"], "nlp": d["nlp"], "nvalid": d["nvalid"],
            "ndel": d["ndel"], "nsplit": d["nsplit"], "isroot": d["isroot"], "hasvec": d["hasvec"], "hascat": d["hascat"], "sumsq": enc_exact(d["sumsq"])}

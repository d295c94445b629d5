"""Shared machinery of the checks: scratch space, compiling generated
harnesses against /repo's working tree, running them, running TLC, and
turning rejected traces into VIOLATION reports."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 2))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (not a verdict)."""


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="scverif.", dir="/tmp")
        self.n = 0
        self.lock = threading.Lock()

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, "%d.%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, inp=None, timeout=300, env=None, cwd=None):
    """-> (rc, out, err); rc None when the time ran out"""
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return None, out, err


# ---------------------------------------------------------------------------
FLAGS = {
    "st": ["-DBOOST_DISABLE_THREADS"],
    "mt": ["-pthread"],
    "sched": ["-DHX_SCHED"],
    "threads": ["-DHX_THREADS"],
    "native": ["-DBOOST_STATECHART_USE_NATIVE_RTTI"],
    "relax": ["-DBOOST_STATECHART_RELAX_TRANSITION_CONTEXT"],
    "ndebug": ["-DNDEBUG"],
    "o2": ["-O2"],
    "asan": ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "tsan": ["-g", "-fsanitize=thread"],
}


def compile_cpp(sc, name, source, flags, cxx="g++", libs=()):
    """-> (exe, None) or (None, compiler output)"""
    src = sc.path(name + ".cpp")
    with open(src, "w") as f:
        f.write(source)
    exe = src[:-4]
    cmd = [cxx, "-std=c++17", "-w", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-DBOOST_ALLOW_DEPRECATED_HEADERS"]
    for f in flags:
        cmd += FLAGS[f]
    cmd += ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, src, "-o", exe, *libs]
    err = ""
    for attempt in (1, 2):
        rc, out, err = run(cmd, timeout=300)
        if rc == 0:
            return exe, None
        if rc is not None and rc > 0 and "error:" in err and "Killed signal" not in err \
                and "internal compiler error" not in err and "No space left" not in err:
            return None, err            # a diagnosed error, no need to retry
    raise CheckError("compiler failed on %s: rc=%s %s" % (name, rc, err[-2000:]))


RUNENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=0:"
              "handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0",
              UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1",
              TSAN_OPTIONS="halt_on_error=1:exitcode=66:abort_on_error=0")


def run_scripts(exe, scripts, timeout=240):
    """Run the harness; -> list of dicts(id, lane, script, ls).  scripts: list
    of lines whose second word is the id."""
    byid = {int(s.split()[1]): s for s in scripts}
    rc, out, err = run([exe], "\n".join(scripts) + "\n", timeout=timeout, env=RUNENV)
    traces, cur = [], None
    for ln in out.splitlines():
        try:
            o = json.loads(ln)
        except ValueError:
            o = {"o": "GARBLED"}
        if o["o"] == "begin":
            cur = dict(id=o["id"], lane=o["lane"], script=byid.get(o["id"], "?"), ls=[])
            if "wait" in o:
                cur["x"] = dict(wait=o["wait"], exact=o["exact"])
            traces.append(cur)
        elif cur is not None:
            cur["ls"].append(o)
    done = {t["id"] for t in traces}
    if rc != 0 and not any(t["ls"] and t["ls"][-1]["o"] in ("CRASH", "HANG", "STUCK") for t in traces):
        missing = [i for i in byid if i not in done]
        i = missing[0] if missing else -1
        traces.append(dict(id=i, lane=0, script=byid.get(i, "?"), ls=[{"o": "CRASH"}]))
    if rc != 0:
        for t in traces:
            if t["ls"] and t["ls"][-1]["o"] in ("CRASH", "HANG", "STUCK"):
                t["note"] = "exit status %s\n%s" % (rc, err[-6000:])
    elif len(done) < len(byid):
        raise CheckError("harness %s produced %d of %d traces" % (exe, len(done), len(byid)))
    return traces


# ---------------------------------------------------------------------------
def tlc(sc, spec, cfg, env, workers=1, timeout=600, heap="1600m"):
    md = sc.path("tlc")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-noTE",
           "-metadir", md, "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, spec)]
    out = err = ""
    rc = None
    for attempt in (1, 2):
        rc, out, err = run(cmd, timeout=timeout, env=dict(os.environ, **env))
        if rc == 0 and "No error has been found" in out:
            break
        if rc is None:
            break
    shutil.rmtree(md, ignore_errors=True)
    return rc, out, err


def stats(out):
    g = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(g[-1][0]), int(g[-1][1])) if g else (0, 0)


def chunks(traces, n):
    """split into at most n lists of about equal numbers of lines"""
    traces = sorted(traces, key=lambda t: -len(t["ls"]))
    out = [[0, []] for _ in range(n)]
    for t in traces:
        b = min(out, key=lambda x: x[0])
        b[0] += len(t["ls"]) + 20
        b[1].append(t)
    return [b for _, b in out if b]


class Validator:
    """Trace validation with a *Trace.tla module."""

    def __init__(self, sc, spec, cfg, charts=None):
        self.sc, self.spec, self.cfg, self.charts = sc, spec, cfg, charts
        self.states = 0
        self.lines = 0
        self.count = 0
        self.notes = {}
        self.hints = set()
        self.undecided = 0
        self.deadline = None

    def _one(self, traces, diag=False, timeout=600):
        d = self.sc.path("nd")
        with open(d, "w") as f:
            for t in traces:
                f.write(json.dumps(dict(id=t["id"], c=t.get("c", 1), ls=t["ls"],
                                        hd="dfr" in self.hints,
                                        hs="dsc" in self.hints, **t.get("x", {}))) + "\n")
        env = dict(TRACES=d, DIAG="1" if diag else "0")
        if self.charts is not None:
            used = sorted({t["c"] for t in traces})
            cf = self.sc.path("charts.json")
            # keep numbering: unused charts are replaced by a tiny one
            with open(cf, "w") as f:
                small = min((self.charts[i - 1] for i in used), key=lambda c: c["n"])
                json.dump([c if i + 1 in used else small for i, c in enumerate(self.charts)], f)
            env["CHARTS"] = cf
        rc, out, err = tlc(self.sc, self.spec, self.cfg, env, timeout=timeout)
        return rc, out, err

    def validate(self, traces, props=None):
        """-> list of (trace, pos, why).  A trace TLC cannot evaluate at all
        is validated alone to tell a model failure from a rejection."""
        bad = []
        if not traces:
            return bad
        # kinds of hints that the library gives
        self.hints = {x["o"] for t in traces for x in t["ls"] if x["o"] in ("dfr", "dsc")}
        nch = JOBS if sum(len(t["ls"]) for t in traces) > 1500 else 2
        limited = self.charts is not None and len(self.hints) < 2
        if limited:
            # Without them some executions have too many explanations to go
            # through: take the short ones first and leave out what does not
            # come to an end in time.
            self.deadline = time.time() + (420 if os.environ.get("VERIF_TIER") != "thorough" else 3000)
            parts = []
            for t in sorted(traces, key=lambda t: len(t["ls"])):
                if not parts or sum(len(x["ls"]) for x in parts[-1]) > 6000:
                    parts.append([])
                parts[-1].append(t)
        else:
            parts = chunks(traces, nch)

        def work(part):
            if limited:
                left = self.deadline - time.time()
                rc, out, err = self._one(part, timeout=min(60, left)) if left > 1 else (None, "", "")
                if rc is None:
                    if len(part) == 1 or left <= 1:
                        with self.sc.lock:
                            self.undecided += len(part)
                        return [], 0
            else:
                rc, out, err = self._one(part)
            if rc != 0 or "No error has been found" not in out:
                if len(part) == 1:
                    raise CheckError("TLC failed on one trace: %s %s" % (out[-1500:], err[-500:]))
                h = len(part) // 2
                a, b = work(part[:h]), work(part[h:])
                return (a[0] + b[0], a[1] + b[1])
            res = []
            for i, k in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out):
                res.append((part[int(i) - 1], int(k), "rejected"))
            for i, k, names in re.findall(r'<<"PROP", (\d+), (\d+), \{([^}]*)\}>>', out):
                res.append((part[int(i) - 1], int(k) - 1, "monitor " + names.replace('"', "")))
            with self.sc.lock:
                for n in re.findall(r'^"NOTE (.*)"$', out, re.M):
                    self.notes[n] = self.notes.get(n, 0) + 1
            return res, stats(out)[1]
        with ThreadPoolExecutor(JOBS) as ex:
            for res, st in ex.map(work, parts):
                bad += res
                self.states += st
        self.count += len(traces)
        self.lines += sum(len(t["ls"]) for t in traces)
        return bad

    def diagnose(self, trace, pos):
        rc, out, err = self._one([trace], diag=True)
        want = [b for b in re.findall(r'<<\s*"AT",\s*\d+,(?:.|\n)*?\n(?=<<|\S)', out + "\nX")
                if re.match(r'<<\s*"AT",\s*%d,' % pos, b)]
        rej = 'REJECTED' in out or '"PROP"' in out
        return rej, "\n".join(want)[:4000]


# ---------------------------------------------------------------------------
class Report:
    """Collects what a check did; writes evidence; decides the exit code."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.rdir = os.path.join(VERIF, "replays", prop)
        self.known = load_known(prop)
        self.known_hit = set()

    def violation(self, key, files, summary):
        """key: a stable identification used for known findings"""
        for k in self.known:
            if k["match"] in key:
                if k["match"] not in self.known_hit:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
                    self.known_hit.add(k["match"])
                return
        os.makedirs(self.rdir, exist_ok=True)
        d = os.path.join(self.rdir, "v%d" % (len(self.violations) + 1))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, content in files.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(content)
        with open(os.path.join(d, "summary.txt"), "w") as f:
            f.write(summary + "\n")
        self.violations.append(d)
        print(summary[:3000])
        print("VIOLATION property=%s replay=%s" % (self.prop, d))
        sys.stdout.flush()

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(self.cov, samples=self.samples[:4] or ["none"]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def setup():
    """Everything is built by the checks themselves, from /repo's present
    tree; this only makes sure that the tools and specifications are there."""
    for tool in ("g++", "java"):
        if not shutil.which(tool):
            print("missing: " + tool)
            return 1
    bad = 0
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".tla"):
            rc, out, err = run(["java", "-cp", TLAJAR, "tla2sany.SANY", os.path.join(SPEC, f)], cwd=SPEC, timeout=120)
            ok = rc == 0 and "*** Errors" not in out
            print(f, "parsed" if ok else "FAILED " + out[-800:])
            bad += not ok
    return 1 if bad else 0

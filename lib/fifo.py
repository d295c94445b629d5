"""Checks C17..C20: workers, schedulers and processors (spec/Fifo*.tla)."""
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

from engine import (HARNESS, JOBS, CheckError, Report, Scratch, Validator, chunks, compile_cpp, run_scripts,
                    stats, tlc)
from core import reduce_scripts

# model: (spec bounds of the exhaustive runs), scripts: bounds of the replayed ones
PROFILES = {
    "C17": dict(variants=["st", "mt"],
                model=[("FifoMC.cfg", dict(CALLS=3, RUNS=1, THROWS=0, OPS="work"))],
                scripts=[dict(CALLS=4, RUNS=2, THROWS=0, OPS="work"), dict(CALLS=3, RUNS=2, THROWS=1, OPS="work")],
                users=[(1, 25, 200, 0), (0, 30, 200, 0), (1, 40, 300, 40), (0, 60, 100, 20)],
                plans=[(1, 1, 2, 5, 3, 150, 0), (1, 0, 2, 5, 3, 150, 0)]),
    "C18": dict(variants=["mt"],
                model=[("FifoMCLive.cfg", dict(CALLS=2, RUNS=1, THROWS=1, OPS="work", WAIT=1)),
                       ("FifoMC.cfg", dict(CALLS=2, RUNS=1, THROWS=1, WAIT=1)),
                       ("FifoMC.cfg", dict(CALLS=2, RUNS=2, THROWS=1))],
                scripts=[dict(CALLS=3, RUNS=2, THROWS=0)],
                users=[(0, 30, 100, 20)],
                plans=[(0, 1, 2, 3, 3, 100, 0), (0, 0, 2, 3, 3, 100, 30), (1, 1, 2, 3, 2, 100, 0),
                       (1, 1, 3, 2, 3, 0, 0), (0, 1, 3, 3, 4, 150, 50), (1, 1, 1, 5, 2, 0, 0)],
                races=True),
    "C19": dict(variants=["st", "mt"],
                model=[("FifoMC.cfg", dict(CALLS=2, RUNS=1, THROWS=0))],
                scripts=[dict(CALLS=4, RUNS=2, THROWS=0, PROCS=2), dict(CALLS=3, RUNS=2, THROWS=1, PROCS=2),
                         dict(CALLS=3, RUNS=2, THROWS=0, PROCS=1, EMPTY=1)],
                users=[(0, 30, 150, 0), (0, 60, 150, 15), (0, 100, 60, 10), (0, 20, 300, 30)],
                plans=[(0, 1, 2, 5, 3, 100, 0), (0, 0, 2, 5, 4, 100, 40)]),
    "C20": dict(variants=["st", "mt", "asan"],
                model=[("FifoMC.cfg", dict(CALLS=2, RUNS=2, THROWS=2))],
                scripts=[dict(CALLS=3, RUNS=2, THROWS=2, PROCS=2), dict(CALLS=4, RUNS=2, THROWS=1, PROCS=1)],
                users=[(0, 40, 100, 150), (0, 60, 100, 80), (1, 40, 200, 150), (0, 25, 200, 300)],
                plans=[(0, 1, 2, 5, 4, 100, 120), (0, 0, 2, 5, 4, 100, 120)]),
}
# (users per variant, scripts per bound, random schedules per plan,
#  (scenarios, preemptions, schedules each) per plan, free runs)
SIZE = {"quick": (100, 1200, 60, (2, 2, 400), 40), "thorough": (2500, 30000, 1500, (8, 3, 20000), 1500)}


def model(sc, cfg, env, timeout, scripts=False):
    env = {k: str(v) for k, v in env.items()}
    if scripts:
        env["SCRIPTS"] = "1"
    rc, out, err = tlc(sc, "FifoMC.tla", cfg, env, workers=4, timeout=timeout, heap="4g")
    done = rc == 0 and "No error has been found" in out
    if not done and (rc is not None or "is violated" in out):
        raise CheckError("TLC on FifoMC: %s %s" % (out[-2500:], err[-500:]))
    gen, dist = stats(out)
    if not done:
        g = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", out)
        gen, dist = (int(g[-1][0].replace(",", "")), int(g[-1][1].replace(",", ""))) if g else (0, 0)
    return dict(cfg=cfg, env=env, gen=gen, dist=dist, done=done,
                scripts=re.findall(r'^"SCRIPT( [^"]*)"', out, re.M))


def deeper(env):
    e = dict(env)
    e["CALLS"] = e.get("CALLS", 3) + 1
    return e


def seen_at(lines):
    """On which line each work item / event (by id) and each constructor (by
    processor) is seen to run, 0 if never: prunes orders of linearisation."""
    rp, rc = {}, {}
    for i, x in enumerate(lines, 1):
        if x.get("o") == "cb":
            if x["k"] in ("work", "ev", "react"):
                rp.setdefault(x["a"], i)
            elif x["k"] == "ctor":
                rc.setdefault(x["p"], i)
    dense = lambda d: [d.get(k, 0) for k in range(1, max(d, default=0) + 1)]
    return dict(rp=dense(rp), rc=dense(rc))


def check(prop):
    rep = Report(prop)
    sc = Scratch()
    try:
        _check(prop, rep, sc)
    finally:
        sc.close()
    return rep.finish()


def _check(prop, rep, sc):
    p = PROFILES[prop]
    nuser, nscript, nsched, (nscen, bound, cap), nfree = SIZE[rep.tier]
    thorough = rep.tier == "thorough"
    src = open(os.path.join(HARNESS, "fifo.cpp")).read()
    mct = 900 if thorough else 100
    builds = {}
    want = {"st": (["st"], ()), "mt": (["mt", "sched"], ("-lboost_thread",)), "asan": (["st", "asan"], ())}
    names = list(p["variants"]) + ([] if "mt" in p["variants"] else ["mt"])
    if p.get("races"):
        want["tsan"] = (["mt", "tsan"], ("-lboost_thread",))
        names.append("tsan")

    with ThreadPoolExecutor(JOBS) as ex:
        fb = {n: ex.submit(compile_cpp, sc, "fifo_" + n, src, want[n][0], "g++", want[n][1]) for n in names}
        fm = [ex.submit(model, sc, c, deeper(e) if thorough else e, mct) for c, e in p["model"]]
        fs = [ex.submit(model, sc, "FifoMCScripts.cfg", deeper(e) if thorough else e, mct, True) for e in p["scripts"]]
        for n, f in fb.items():
            builds[n] = f.result()
        models = [f.result() for f in fm]
        scr = [f.result() for f in fs]

    for n, (exe, err) in list(builds.items()):
        if exe is None:
            rep.violation("compile fifo " + n, {"harness.cpp": src, "compiler.txt": err, "flags": " ".join(want[n][0])},
                          "the harness does not compile (%s)\n%s" % (n, err[:1500]))
            del builds[n]

    rng = random.Random("%s/%d" % (prop, rep.seed))
    jobs = []          # (build, lines)
    scripted = []
    for s in scr:
        keep, total = reduce_scripts(s["scripts"], nscript, rng)
        s["total"], s["scripts"] = total, len(keep)
        scripted += keep
    nid = 0
    for bi, n in enumerate(p["variants"]):
        lines = []
        sub = scripted if (bi == 0 or thorough) else scripted[bi::3]
        for s in sub:
            nid += 1
            raw = 1 if (prop == "C17" and nid % 2 and not re.search(" [CITDV]", s)) else 0
            lines.append("S %d %d%s" % (nid, raw, s))
        if prop == "C17":
            # many items: counts and limits beyond 8 and 16 bits
            for raw in (1, 0):
                big = [255, 256, 257, 32768, 65535, 65536, 65537]
                for s in ["B.%d R.0 B.2 R.0" % rng.randint(65537, 90000),
                          "B.65536 R.0 R.0",
                          "B.300 R.256 R.0 B.70000 R.65536 R.1 R.0",
                          # limits beyond 32 bits
                          "Q Q Q R.4294967297 e.0 e.0 e.0 Q R.0 e.0",
                          "Q Q Q S Q R.4294967298 e.0 e.0 e.0 R.0",
                          "B.70000 Q Q R.18446744073709551615 e.0 e.0 R.1",
                          "B.%d R.%d R.0" % (rng.randint(9, 999), (1 << rng.randint(32, 63)) + rng.randint(1, 8)),
                          "B.66000 R.65535 R.0 B.66000 R.65537 B.5 R.0",
                          "B.140000 R.131072 Q R.0 e.0",
                          "B.%d R.%d R.%d Q B.3 R.0 e.0" % (rng.randint(70000, 140000), rng.choice(big), rng.choice(big))]:
                    nid += 1
                    lines.append("S %d %d %s" % (nid, raw, s))
        for k in range(nuser):
            nid += 1
            u = p["users"][k % len(p["users"])]
            lines.append("R %d %d %d %d %d %d" % (nid, u[0], rep.seed * 100003 + bi * 5003 + k, u[1], u[2], u[3]))
        jobs.append((n, lines))
    for pi, pl in enumerate(p["plans"]):
        lines = []
        for k in range(nsched):
            nid += 1
            lines.append("M %d %d %s %d %d" % (nid, rep.seed * 7001 + pi * 977 + k, " ".join(map(str, pl)),
                                              [60, 200, 500][k % 3], k % 4 // 2))
        for k in range(nscen):
            nid += 1
            lines.append("X %d %d %s %d %d %d" % (nid, rep.seed * 131 + pi * 17 + k, " ".join(map(str, pl)),
                                                  bound, cap, k % 2))
        jobs.append(("mt", lines))
    if p.get("races"):
        lines = []
        for k in range(nfree):
            nid += 1
            pl = p["plans"][k % len(p["plans"])]
            lines.append("H %d %d %d %d %d %d %d %d %d" % (nid, rep.seed * 9001 + k, *pl[:3], 12, *pl[4:]))
        for k in range(3):
            nid += 1
            lines.append("E %d %d" % (nid, 3000 if thorough else 500))
        jobs.append(("tsan", lines))

    def runjob(j):
        n, lines = j
        if n not in builds or not lines:
            return []
        try:
            tr = run_scripts(builds[n][0], lines, timeout=600 if thorough else 200)
        except CheckError:
            raise
        for t in tr:
            t["build"] = n
            if t["ls"] and t["ls"][-1]["o"] in ("HANG", "STUCK"):
                t["ls"] = t["ls"][:3000] + t["ls"][-1:]
        return tr

    # long jobs in pieces
    pieces = []
    for n, lines in jobs:
        size = 400
        pieces += [(n, lines[i:i + size]) for i in range(0, len(lines), size)]
    with ThreadPoolExecutor(JOBS) as ex:
        traces = [t for ts in ex.map(runjob, pieces) for t in ts]

    sched = [t for t in traces if t["lane"] == -1]
    traces = [t for t in traces if t["lane"] != -1]
    nsch = sum(t["ls"][0]["n"] for t in sched if t["ls"])
    shared = [t for t in traces if t["script"].startswith("E ")]
    traces = [t for t in traces if not t["script"].startswith("E ")]
    skipped = []
    for t in list(traces) + list(shared):
        if "unexpected memory mapping" in t.get("note", ""):
            skipped.append(t)
    traces = [t for t in traces if t not in skipped]
    shared = [t for t in shared if t not in skipped]
    for t in shared:
        if not t["ls"] or t["ls"][-1]["o"] != "shared":
            rep.violation("shared event", {"script.txt": t["script"], "note.txt": t.get("note", "")},
                          "an event object queued to two schedulers: %s\n%s" % (t["ls"][-1:], t.get("note", "")[-2500:]))
            break

    for t in traces:
        t["x"] = dict(t.get("x", dict(wait=False, exact=False)), **seen_at(t["ls"]))
    val = Validator(sc, "FifoTrace.tla", "FifoTrace.cfg")
    bad = val.validate(traces)
    seen = set()
    bad.sort(key=lambda b: b[1])
    for t, pos, why in bad:
        ln = t["ls"][min(pos, len(t["ls"])) - 1] if t["ls"] else {"o": "nothing"}
        key = (t["build"], why, ln.get("o"), ln.get("k"))
        if key in seen or len(seen) >= 6:
            continue
        rej, diag = val.diagnose(t, pos)
        if not rej:
            continue
        seen.add(key)
        rep.violation("%s %s" % (why, json.dumps(ln)),
                      {"harness.cpp": src, "script.txt": t["script"] + "\n", "flags": " ".join(want[t["build"]][0]),
                       "trace.ndjson": "\n".join(json.dumps(x) for x in t["ls"][:pos + 5]) + "\n",
                       "diagnosis.txt": diag, "note.txt": t.get("note", "")},
                      "%s: build %s, script '%s': %s at line %d\n  observed: %s\n  specification: %s\n%s" % (
                          prop, t["build"], t["script"][:300], why, pos, json.dumps(ln)[:500], diag[:1500],
                          t.get("note", "")[-2000:]))

    rep.cov.update(
        states=sum(m["dist"] for m in models + scr) + val.states,
        transitions=sum(m["gen"] for m in models + scr) + val.lines,
        traces_validated_against_impl=val.count, trace_lines=val.lines,
        schedules_explored=nsch + sum(1 for t in traces if t["script"].startswith("M ")),
        systematic=[dict(script=t["script"], schedules=t["ls"][0]["n"], all_within_bound=t["ls"][0]["all"]) for t in sched if t["ls"]],
        free_runs=sum(1 for t in traces if t["script"].startswith("H ")), shared_event_runs=len(shared),
        race_detector_unusable=len(skipped),
        model_runs=[{k: m[k] for k in ("cfg", "env", "gen", "dist", "done")} for m in models],
        script_runs=[{k: m[k] for k in ("env", "gen", "dist", "done", "total", "scripts")} for m in scr])
    for kind in "SRM":
        ts = [t for t in traces if t["script"].startswith(kind + " ")]
        if ts:
            t = ts[len(ts) // 2]
            rep.samples.append(dict(build=t["build"], script=t["script"][:300], lines=t["ls"][:10]))
    rep.assumptions += ["operator() is called by one thread at a time, as documented",
                        "systematic schedules switch threads only at synchronisation operations and around user code"]

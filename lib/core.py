"""Checks C01..C16: the synchronous state machine (spec/Statechart*.tla)."""
import json
import os
import random
import re
import sys
from concurrent.futures import ThreadPoolExecutor

import suites
from charts import pair_cpp
from engine import (JOBS, CheckError, Report, Scratch, Validator, compile_cpp, run, run_scripts, stats, tlc)

# (random charts, users' scripts per chart, model scripts per chart, TLC seconds)
SIZE = {"quick": (14, 40, 500, 60), "thorough": (90, 160, 6000, 600)}


def reduce_scripts(lines, cap, rng):
    """drop scripts that are prefixes of others; at most cap of the rest"""
    lines = sorted(set(lines))
    keep = [a for a, b in zip(lines, lines[1:] + [""]) if not b.startswith(a + " ")]
    total = len(keep)
    if len(keep) > cap:
        keep = rng.sample(keep, cap)
    return keep, total


def explore(sc, chart, kinds, budget, maxq, timeout, cap, seed):
    """TLC on StatechartMC for one chart -> dict"""
    f = sc.path("mc.json")
    with open(f, "w") as h:
        json.dump([chart.to_json()], h)
    rc, out, err = tlc(sc, "StatechartMC.tla", "StatechartMC.cfg",
                       dict(CHARTS=f, BUDGET=str(budget), **{"K" + k.upper(): str(int(k in kinds)) for k in "tpcok"}, MAXQ=str(maxq), SCRIPTS="1"),
                       timeout=timeout)
    done = rc == 0 and "No error has been found" in out
    if rc is not None and not done:
        raise CheckError("TLC: %s %s" % (out[-1500:], err[-500:]))
    scripts = re.findall(r'^"SCRIPT 1( [^"]*)"', out, re.M)
    props = re.findall(r'<<\s*"PROP",\s*\d+,\s*\{[^}]*\},\s*"[^"]*"\s*>>', out)
    if props:
        raise CheckError("a monitor fails on the specification itself, chart %s: %s" % (chart.name, props[0]))
    gen, dist = stats(out)
    if not done:
        g = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", out)
        gen, dist = (int(g[-1][0].replace(",", "")), int(g[-1][1].replace(",", ""))) if g else (len(scripts), 0)
    keep, total = reduce_scripts(scripts, cap, random.Random("%s/%d" % (chart.name, seed)))
    return dict(done=done, gen=gen, dist=dist, scripts=keep, total=total, chart=chart.name,
                kinds=kinds, budget=budget)


def check(prop):
    rep = Report(prop)
    sc = Scratch()
    try:
        _check(prop, rep, sc)
    finally:
        sc.close()
    return rep.finish()


def _check(prop, rep, sc):
    p = suites.PROFILES[prop]
    nrand, nuser, nmodel, mct = SIZE[rep.tier]
    built = suites.build(prop, rep.seed, nrand)
    charts = [b[0] for b in built]
    # programs: charts used (second one: lanes from 100), source, flags
    units = [dict(c=[i], src=ch.cpp(), flags=list(flags) + ["relax"] * ch.relax) for i, (ch, flags, _) in enumerate(built)]
    for a, b, flags in suites.pairs(prop, rep.seed, rep.tier):
        charts += [a, b]
        units.append(dict(c=[len(charts) - 2, len(charts) - 1], src=pair_cpp(a, b), flags=flags))
    for a, flags in suites.threaded(prop, rep.seed, rep.tier):
        charts.append(a)
        units.append(dict(c=[len(charts) - 1], src=a.cpp(), flags=flags))
    cj = [c.to_json() for c in charts]
    byname = {c.name: i for i, c in enumerate(charts)}
    users = p["users"]

    def comp(i):
        u = units[i]
        exe, err = compile_cpp(sc, charts[u["c"][0]].name, u["src"], u["flags"])
        return exe, err, u["src"], u["flags"]

    def mc(m):
        # deeper exploration when there is time
        k, b, q = m[1], m[2], m[3]
        if rep.tier == "thorough":
            b, q = (b + 1 if k != "x" else b), q + 1
        return explore(sc, charts[byname[m[0]]], k, b, q, mct, nmodel, rep.seed)

    with ThreadPoolExecutor(JOBS) as ex:
        fm = [ex.submit(mc, m) for m in p["mc"]]
        fc = [ex.submit(comp, i) for i in range(len(units))]
        comps = [f.result() for f in fc]
        mcs = [f.result() for f in fm]

    model = {}
    for r in mcs:
        model.setdefault(byname[r["chart"]], []).extend(r["scripts"])

    def runone(i):
        exe = comps[i][0]
        if exe is None:
            return []
        lines = []
        n = nuser
        for k in range(n):
            u = users[k % len(users)]
            lines.append(suites.rline(k + 1, rep.seed * 1000003 + i * 1009 + k, u))
        for name, u in p.get("long", ()) if i < len(built) else ():
            if name == charts[i].name:
                lines.append(suites.rline(n + 1, rep.seed * 1000003 + i, u))
                n += 1
        for k, s in enumerate(model.get(i, ()) if i < len(built) else ()):
            lines.append("X %d%s" % (n + k + 1, s))
        tr = run_scripts(exe, lines)
        for t in tr:
            cs = units[i]["c"]
            t["c"] = cs[t["lane"] // 100 if len(cs) > 1 else 0] + 1
            t["u"] = i
            if t["ls"] and t["ls"][-1]["o"] == "HANG":
                t["ls"] = t["ls"][:3000] + [{"o": "HANG"}]
        return tr

    with ThreadPoolExecutor(JOBS) as ex:
        traces = [t for ts in ex.map(runone, range(len(units))) for t in ts]
    unusable = [t for t in traces if "unexpected memory mapping" in t.get("note", "")]
    traces = [t for t in traces if t not in unusable] if unusable else traces

    for i, (exe, err, src, flags) in enumerate(comps):
        if exe is None:
            i = units[i]["c"][0]
            rep.violation("compile " + charts[i].name,
                          {"harness.cpp": src, "chart.json": json.dumps(cj[i], indent=1), "compiler.txt": err,
                           "flags": " ".join(flags)},
                          "a valid chart does not compile with the library: %s\n%s" % (charts[i].name, err[:1500]))

    val = Validator(sc, "StatechartTrace.tla", "StatechartTrace.cfg", cj)
    bad = val.validate(traces)
    # one report per chart and kind of difference is enough
    seen = set()
    bad.sort(key=lambda b: b[1])
    for t, pos, why in bad:
        ln = t["ls"][min(pos, len(t["ls"])) - 1] if t["ls"] else {"o": "nothing"}
        key = (t["u"], t["c"], why, ln.get("o"))
        if key in seen or len(seen) >= 6:
            continue
        rej, diag = val.diagnose(t, pos)
        if not rej:
            continue
        seen.add(key)
        i = t["c"] - 1
        summary = ("%s: chart %s (%s), script '%s': %s at line %d\n  observed: %s\n  specification: %s\n%s" % (
            prop, charts[i].name, " ".join(units[t["u"]]["flags"]), t["script"][:300], why, pos, json.dumps(ln)[:600],
            diag or "no step possible", t.get("note", "")))
        rep.violation("%s %s %s" % (charts[i].name, why, json.dumps(ln)),
                      {"harness.cpp": units[t["u"]]["src"], "chart.json": json.dumps(cj[i], indent=1),
                       "script.txt": t["script"] + "\n", "flags": " ".join(units[t["u"]]["flags"]), "lane": str(t["lane"]),
                       "trace.ndjson": "\n".join(json.dumps(x) for x in t["ls"][:pos + 5]) + "\n",
                       "diagnosis.txt": diag}, summary)

    sample = sorted(traces, key=lambda t: len(t["ls"]))[len(traces) // 2] if traces else None
    lens = [len(t["ls"]) for t in traces]
    rep.cov.update(
        states=sum(r["dist"] for r in mcs) + val.states,
        transitions=sum(r["gen"] for r in mcs) + val.lines,
        traces_validated_against_impl=val.count,
        traces_undecided=val.undecided,
        trace_lines=val.lines, model_states=sum(r["dist"] for r in mcs),
        model_runs=[{k: r[k] for k in ("chart", "kinds", "budget", "dist", "gen", "done", "total")}
                    | {"replayed": len(r["scripts"])} for r in mcs],
        charts=[dict(charts=[[charts[i].name, charts[i].n] for i in u["c"]], flags=u["flags"]) for u in units],
        race_detector_unusable=len(unusable),
        spec_situations=sorted(val.notes),
        longest_trace=max(lens or [0]),
        exhaustive=False)
    if sample:
        rep.samples.append(dict(chart=charts[sample["c"] - 1].name, script=sample["script"],
                                lines=sample["ls"][:12]))
    for r in mcs[:2]:
        if r["scripts"]:
            rep.samples.append(dict(chart=r["chart"], script=r["scripts"][len(r["scripts"]) // 2]))
    rep.assumptions += ["user code obeys the documented rules (no reentrant process_event, one reaction per custom reaction)",
                        "observations are made by user code through the public interface only"]


def replay(d):
    """run a recorded violation again: 0 if it is gone, 1 if it is still there"""
    d = os.path.abspath(d)
    rd = lambda n: open(os.path.join(d, n)).read()
    has = lambda n: os.path.exists(os.path.join(d, n))
    if has("command.txt"):              # C21: does the compiler accept the chart?
        rc, out, err = run(rd("command.txt").split(), timeout=300, cwd=d)
        print("accepted" if rc == 0 else "rejected\n" + err[:1500], "(expected: %s)" % rd("expect.txt"))
        return int((rc == 0) != (rd("expect.txt").strip() == "accepted"))
    if not has("harness.cpp"):
        print("nothing to run again in", d)
        return 2
    sync = has("chart.json")
    flags = rd("flags").split()
    sc = Scratch()
    try:
        exe, err = compile_cpp(sc, "replay", rd("harness.cpp"), flags, "g++",
                               ("-lboost_thread",) if not sync and "mt" in flags else ())
        if exe is None:
            print(err[:3000])
            return 1
        if not has("script.txt"):
            return 0
        tr = [t for t in run_scripts(exe, [rd("script.txt").strip()]) if not has("lane") or t["lane"] == int(rd("lane"))]
        if sync:
            for t in tr:
                t["c"] = 1
            val = Validator(sc, "StatechartTrace.tla", "StatechartTrace.cfg", [json.loads(rd("chart.json"))])
        else:
            import fifo
            tr = [t for t in tr if t["lane"] != -1]
            for t in tr:
                t["x"] = dict(t.get("x", dict(wait=False, exact=False)), **fifo.seen_at(t["ls"]))
            val = Validator(sc, "FifoTrace.tla", "FifoTrace.cfg")
        bad = val.validate(tr)
        for t, pos, why in bad[:3]:
            print(why, "at line", pos, json.dumps(t["ls"][min(pos, len(t["ls"])) - 1])[:800] if t["ls"] else "")
            print(val.diagnose(t, pos)[1], t.get("note", "")[-2000:])
        print("%d executions, %d of them rejected" % (len(tr), len(bad)))
        return 1 if bad else 0
    finally:
        sc.close()

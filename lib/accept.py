"""Check C21: which charts compile (spec/ChartRules.tla)."""
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor

from engine import FLAGS, HARNESS, JOBS, REPO, CheckError, Report, Scratch, run, stats, tlc

HIST = {"none": "", "shallow": "sc::has_shallow_history", "deep": "sc::has_deep_history", "full": "sc::has_full_history"}

HEAD = """#include <boost/statechart/event.hpp>
#include <boost/statechart/simple_state.hpp>
#include <boost/statechart/state.hpp>
#include <boost/statechart/state_machine.hpp>
#include <boost/statechart/transition.hpp>
#include <boost/statechart/termination.hpp>
#include <boost/statechart/in_state_reaction.hpp>
#include <boost/statechart/deferral.hpp>
#include <boost/statechart/custom_reaction.hpp>
#include <boost/statechart/shallow_history.hpp>
#include <boost/statechart/deep_history.hpp>
#include <boost/mpl/list.hpp>
namespace sc = boost::statechart;
namespace mpl = boost::mpl;
template<int I> struct Jump : sc::event<Jump<I> > {};
template<int I> struct Tr : sc::event<Tr<I> > {};
"""


def render(c, ns, style):
    """C++ of chart c in namespace ns; style varies how the same is written"""
    n = c["n"]
    acts = " ".join("void act%d(const Tr<%d> &) {}" % (k, k) for k in range(len(c["tr"])))
    o = ["namespace %s {" % ns, "struct M;"]
    o += ["struct S%d;" % i for i in range(1, n + 1)]
    o.append("struct M : sc::state_machine<M, S%d> { %s" % (c["root"], acts))
    mc = [x for k, x in enumerate(c["cl"]) if (k + style) % 2]
    late = []
    if mc:
        o.append("void clear();")
        late.append("inline void M::clear() { %s }" % " ".join(
            "clear_%s_history<S%d, %d>();" % (x["h"], x["s"], x["r"]) for x in mc))
    o.append("};")
    seq = "mpl::list"
    for i in range(1, n + 1):
        ent = []
        for e in c["init"][i - 1]:
            s = "S%d" % e["s"]
            ent.append(s if e["h"] == "none" else "sc::%s_history<%s>" % (e["h"], s))
        u, r = c["up"][i - 1], c["reg"][i - 1]
        ctx = "M" if u == 0 else "S%d" % u
        if u and (r or style & 1):
            ctx += "::orthogonal<%d>" % r
        ini = ent[0] if len(ent) == 1 and style & 2 and "<" not in ent[0] else "%s<%s>" % (seq, ", ".join(ent)) if ent else ""
        h = HIST[c["hist"][i - 1]]
        if h and not ini:
            ini = "mpl::list<>"
        simple = (style >> 3) & 1
        base = "%s<S%d, %s%s%s>" % ("sc::simple_state" if simple else "sc::state", i, ctx,
                                    ", " + ini if ini else "", ", " + h if h else "")
        o.append("struct S%d : %s {" % (i, base))
        if not simple:
            o.append("typedef %s base_; S%d(my_context x) : base_(x) {}" % (base, i))
        o.append(acts)
        # every state can be entered, so that all of the chart is instantiated
        rs = ["sc::transition<Jump<%d>, S%d>" % (j, j) for j in range(1, n + 1)
              if c["up"][j - 1] == u and c["reg"][j - 1] == c["reg"][i - 1]]
        body = []
        for k, t in enumerate(c["tr"]):
            if t["s"] != i:
                continue
            act = "" if t["a"] == -1 else "M" if t["a"] == 0 else "S%d" % t["a"]
            to = "S%d" % t["t"] if t["h"] == "none" else "sc::%s_history<S%d>" % (t["h"], t["t"])
            if (style >> 4) + k & 1:
                rs.append("sc::custom_reaction<Tr<%d> >" % k)
                body.append("sc::result react(const Tr<%d> &);" % k)
                late.append("inline sc::result S%d::react(const Tr<%d> & %s) { return transit<%s>(%s); }" % (
                    i, k, "e" if act else "", to, "&%s::act%d, e" % (act, k) if act else ""))
            else:
                rs.append("sc::transition<Tr<%d>, %s%s>" % (k, to, ", %s, &%s::act%d" % (act, act, k) if act else ""))
        cl = [x for x in c["cl"] if x["s"] == i and x not in mc]
        if cl:
            body.append("void clear();")
            late.append("inline void S%d::clear() { %s }" % (i, " ".join(
                "clear_%s_history<S%d, %d>();" % (x["h"], x["s"], x["r"]) for x in cl)))
        o.append("typedef %s reactions;" % (rs[0] if len(rs) == 1 and style & 4 else "%s<%s>" % (seq, ", ".join(rs))))
        o += body
        o.append("};")
    o += late
    o.append("inline void use(M & m) { m.initiate(); m.process_event(Tr<0>()); m.process_event(Jump<1>());")
    if mc:
        o.append("m.clear();")
    o.append("} }")
    return "\n".join(o) + "\n"


RULES = ["NoSuchRegion", "WrongInner", "NoHistory", "NoTargetHistory", "DeepOrtho", "WrongRoot", "CrossRegion",
         "WrongAction", "NoClear"]
# valid charts, broken charts per rule, simulated behaviours per run
SIZE = {"quick": (320, 40, 1500), "thorough": (6000, 700, 60000)}
WHAT = {
    "NoSuchRegion": "a state in an orthogonal region its outer state does not have",
    "WrongInner": "an inner initial state that does not belong to the state or region",
    "NoHistory": "a history initial state although no such history is declared",
    "NoTargetHistory": "a transition to a history although no such history is declared",
    "DeepOrtho": "deep history above orthogonal regions",
    "WrongRoot": "an initial state of the machine that is not an outermost state",
    "CrossRegion": "a transition between different orthogonal regions",
    "WrongAction": "a transition action of a class that is no context enclosing source and target",
    "NoClear": "clearing a history that is not declared",
}


def pool(sc, env, num, seed):
    """charts printed by TLC; num: simulate that many behaviours, 0: all"""
    from engine import SPEC, TLAJAR
    md = sc.path("tlc")
    cmd = ["java", "-Xmx3g", "-Xss64m", "-cp", TLAJAR, "tlc2.TLC", "-noTE", "-metadir", md,
           "-config", os.path.join(SPEC, "ChartRules.cfg")]
    cmd += ["-workers", "2"]
    if num:
        cmd += ["-simulate", "num=%d" % (num // 2), "-seed", str(seed), "-depth", "60"]
    rc, out, err = run(cmd + [os.path.join(SPEC, "ChartRules.tla")], timeout=900,
                       env=dict(os.environ, **{k: str(v) for k, v in env.items()}))
    if rc != 0 or "rror:" in out:
        raise CheckError("TLC on ChartRules: rc=%s %s %s" % (rc, out[-1500:], err[-500:]))
    got = sorted(set(re.findall(r'^"CHART (.*)"$', out, re.M)))
    gen, dist = stats(out)
    if num:
        gen = dist = int(re.findall(r"number of states generated: (\d+)", out)[-1])
    return [json.loads(json.loads('"%s"' % x)) for x in got], gen, dist


def check(prop):
    rep = Report(prop)
    sc = Scratch()
    try:
        _check(rep, sc)
    finally:
        sc.close()
    return rep.finish()


def interesting(c):
    """prefer charts with regions, history and depth"""
    return (max(len(i) for i in c["init"]) > 1) + any(h != "none" for h in c["hist"]) + any(u for u in c["up"]) + \
        any(c["up"][u - 1] for u in c["up"] if u) + len(c["tr"])


def _check(rep, sc):
    nvalid, nbad, num = SIZE[rep.tier]
    rng = random.Random("C21/%d" % rep.seed)
    runs = []          # (rule or None, relax, env, simulate)
    for n, mr in ((4, 2), (5, 3)):
        runs.append((None, 0, dict(N=n, MAXR=mr, BAD=0, TR=2, CL=2, WANT="any"), num))
    runs.append((None, 1, dict(N=5, MAXR=2, BAD=0, TR=2, CL=0, WANT="any", RELAX=1), num))
    for r in RULES:
        more = {"DeepOrtho": 4, "CrossRegion": 3}.get(r, 1)
        for n, mr in ((4, 2), (5, 2 + (more == 1))):
            runs.append((r, 0, dict(N=n, MAXR=mr, BAD=1, TR=int(r != "DeepOrtho"), CL=int(r == "NoClear"), WANT=r), num * more))
    runs.append(("WrongAction", 1, dict(N=4, MAXR=2, BAD=1, TR=1, CL=0, WANT="WrongAction", RELAX=1), num))
    runs.append((None, 0, dict(N=3, MAXR=3, BAD=0, TR=0, CL=1, WANT="any"), 0))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda kr: pool(sc, kr[1][2], kr[1][3], rep.seed * 1009 + kr[0]), enumerate(runs)))
    gen, dist = sum(r[1] for r in res), sum(r[2] for r in res)
    groups = {}
    for (rule, relax, _, _), (charts, _, _) in zip(runs, res):
        for x in charts:
            if x["broken"] == ([rule] if rule else []):
                groups.setdefault((rule, relax), {})[json.dumps(x["c"], sort_keys=True)] = x["c"]
    totals = {"%s%s" % (k[0] or "valid", " relaxed" if k[1] else ""): len(v) for k, v in groups.items()}
    for r in RULES:
        if not groups.get((r, 0)):
            raise CheckError("no chart breaks rule " + r)

    def pick(k, m):
        cs = [groups[k][j] for j in sorted(groups.get(k, {}))]
        rng.shuffle(cs)
        a = [c for c in cs if interesting(c) >= 4]
        b = [c for c in cs if interesting(c) < 4]
        return (a[:m * 3 // 4] + b + a[m * 3 // 4:])[:m]

    base = ["-std=c++17", "-w", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-I" + os.path.join(REPO, "include")]
    variants = {"st": FLAGS["st"], "relax": FLAGS["st"] + FLAGS["relax"]}
    hd = sc.path("hdr")
    for v, fl in variants.items():
        os.makedirs(os.path.join(hd, v))
        h = os.path.join(hd, v, "h.hpp")
        with open(h, "w") as f:
            f.write(HEAD)
        rc, out, err = run(["g++", *base, *fl, "-x", "c++-header", h, "-o", h + ".gch"], timeout=200)
        if rc != 0:
            if rc is not None and rc > 0 and "error:" in err:
                rep.violation("headers", {"h.hpp": HEAD, "compiler.txt": err}, "the headers do not compile\n" + err[:1500])
                return
            raise CheckError("precompiled header: %s %s" % (rc, err[-800:]))

    def compiles(v, text, cxx="g++"):
        """-> (accepted, compiler output)"""
        f = sc.path("u") + ".cpp"
        with open(f, "w") as fh:
            fh.write('#include "h.hpp"\n' + text)
        cmd = [cxx, *base, *variants[v], "-I" + os.path.join(hd, v), "-fsyntax-only", f]
        for attempt in (1, 2, 3):
            rc, out, err = run(cmd, timeout=200)
            if rc == 0:
                os.remove(f)
                return True, ""
            if rc is not None and rc > 0 and "error:" in err and "Killed" not in err and "internal compiler" not in err:
                os.remove(f)
                return False, err
        raise CheckError("compiler: rc=%s %s" % (rc, err[-800:]))

    def batch(job):
        """valid charts, several in one file; -> those rejected"""
        v, part, cxx = job
        ok, err = compiles(v, "".join(render(c, "c%d" % k, st) for k, c, st in part), cxx)
        if ok:
            return []
        if len(part) == 1:
            return [(part[0], v, err, cxx)]
        h = len(part) // 2
        return batch((v, part[:h], cxx)) + batch((v, part[h:], cxx))

    valid, bad, k = [], [], 0
    for (rule, relax) in sorted(groups, key=str):
        for c in pick((rule, relax), (nvalid if not relax else nvalid // 4) if rule is None else nbad):
            k += 1
            (valid if rule is None else bad).append((rule, "relax" if relax else "st", k, c, rng.randrange(32)))
    jobs = []
    for v in variants:
        mine = [(k, c, st) for _, w, k, c, st in valid if w == v]
        for i in range(0, len(mine), 20):
            jobs.append((v, mine[i:i + 20], "clang++" if i // 20 % 4 == 3 else "g++"))
    with ThreadPoolExecutor(JOBS) as ex:
        fv = [ex.submit(batch, j) for j in jobs]
        fb = [ex.submit(compiles, v, render(c, "c", st), "clang++" if rep.tier == "thorough" and k % 5 == 0 else "g++")
              for _, v, k, c, st in bad]
        rejected = [r for f in fv for r in f.result()]
        answers = [f.result() for f in fb]

    for (k, c, st), v, err, cxx in rejected[:3]:
        src = HEAD + render(c, "c", st)
        rep.violation("valid rejected " + json.dumps(c), {"chart.json": json.dumps(c), "chart.cpp": src, "compiler.txt": err,
                                                          "command.txt": " ".join([cxx, *base, *variants[v], "-fsyntax-only", "chart.cpp"]),
                                                          "expect.txt": "accepted"},
                      "C21: a valid chart does not compile (%s, %s): %s\n%s" % (v, cxx, json.dumps(c), "\n".join(
                          x for x in err.splitlines() if "error" in x)[:800]))
    seen = set()
    for (rule, v, k, c, st), (ok, err) in zip(bad, answers):
        if ok and (rule, v) not in seen:
            seen.add((rule, v))
            rep.violation("accepted %s %s" % (rule, json.dumps(c)),
                          {"chart.json": json.dumps(c), "chart.cpp": HEAD + render(c, "c", st),
                           "command.txt": " ".join(["g++", *base, *variants[v], "-fsyntax-only", "chart.cpp"]),
                           "expect.txt": "rejected"},
                          "C21: %s is not rejected (%s): %s" % (WHAT[rule], v, json.dumps(c)))
    rep.cov.update(states=dist, transitions=gen, traces_validated_against_impl=len(valid) + len(bad),
                   charts_generated=totals, valid_compiled=len(valid), broken_compiled=len(bad),
                   broken_per_rule={r: sum(1 for b in bad if b[0] == r) for r in RULES})
    rep.samples.append(dict(valid=valid[0][3], broken=bad[0][0], chart=bad[0][3]))
    rep.assumptions += ["a chart is rejected if the compiler reports any error for it",
                        "every state of a chart is reachable, so that all of it is instantiated"]

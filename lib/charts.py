"""Statecharts as data: hand-designed ones, a seeded generator of valid ones,
and the two back ends (C++ source for the harness, JSON for the TLA+ spec).

State numbers are 1..n in an order where outer states come first; 0 is the
machine.  Reactions: (event, kind, dest, action) with event 0 = event_base and
action -1 = none, else the state (0: machine) whose member is the action.
"""
import random


class Chart:
    def __init__(self, name):
        self.name = name
        self.par, self.reg, self.inner, self.hist, self.simple = [0], [0], [[]], ["none"], [False]
        self.rx, self.tags = [[]], [[]]
        self.init = 1
        self.nev = 3
        self.translator = False
        self.xcls = "default"     # exception event class: default | custom, or
                                  # mixed: two classes, and exceptions not translated
        self.counting = True      # counting allocator for states, lists, events
        self.own = False          # some states have an operator new of their own
        self.relax = False

    # -- building ---------------------------------------------------------
    def state(self, par=0, reg=0, hist="none", simple=False, tags=()):
        self.par.append(par); self.reg.append(reg); self.inner.append([])
        self.hist.append(hist); self.simple.append(simple); self.rx.append([])
        self.tags.append(list(tags))
        return len(self.par) - 1

    def initial(self, s, *entries):
        """entries: state number, or ('shallow'|'deep', state)"""
        self.inner[s] = [e if isinstance(e, tuple) else ("plain", e) for e in entries]

    def r(self, s, ev, kind, d=0, a=-1, opts=()):
        """d: a state, or ('shallow'|'deep', state) for a history with that default"""
        def rx(k, d=0, a=-1):
            h, d = d if isinstance(d, tuple) else ("plain", d)
            return dict(k=k, d=d, h=h, a=a)
        self.rx[s].append(dict(rx(kind, d, a), e=ev, opts=[rx(*o) for o in opts]))

    # -- structure --------------------------------------------------------
    @property
    def n(self):
        return len(self.par) - 1

    def anc(self, s):
        out = []
        while s:
            s = self.par[s]
            out.append(s)
        return out

    def kids(self, s):
        return [x for x in range(1, self.n + 1) if self.par[x] == s]

    def common(self, s, d):
        ad = self.anc(d)
        for a in self.anc(s):
            if a in ad:
                return a

    def child_on_path(self, a, s):
        while self.par[s] != a:
            s = self.par[s]
        return s

    def has_deep(self, s):
        return s != 0 and self.hist[s] in ("deep", "full")

    def has_shallow(self, s):
        return s != 0 and self.hist[s] in ("shallow", "full")

    def transit_ok(self, s, d):
        cm = self.common(s, d)
        return self.reg[self.child_on_path(cm, s)] == self.reg[self.child_on_path(cm, d)]

    def action_ctx(self, s, d):
        """contexts whose members may be the action of a transition s -> d"""
        cm = self.common(s, d)
        up = [cm] + self.anc(cm) if cm else [0]
        if self.relax:
            return [s] + self.anc(s)
        return up

    def exct(self):
        return self.nev + 1

    def excts(self):
        """types of exception events"""
        return [] if not self.translator else [self.nev + 1] + [self.nev + 2] * (self.xcls == "mixed")

    def check(self):
        for s in range(1, self.n + 1):
            assert self.par[s] < s
            p = self.par[s]
            nreg = 1 if p == 0 else len(self.inner[p])
            assert self.reg[s] < nreg, (self.name, s)
            for r, (k, t) in enumerate(self.inner[s]):
                assert self.par[t] == s and self.reg[t] == r
                assert k == "plain" or (k == "shallow" and self.has_shallow(s)) or (k == "deep" and self.has_deep(s))
            if any(self.has_deep(a) for a in self.anc(s)):
                assert len(self.inner[s]) < 2
            if self.kids(s):
                assert self.inner[s], (self.name, s)
            if not self.inner[s]:
                assert self.hist[s] == "none"
            seen = set()
            for rx in self.rx[s]:
                if rx["k"] == "custom":
                    assert rx["e"] not in seen
                    seen.add(rx["e"])
                for o in [rx] + rx["opts"]:
                    if o["k"] == "trans":
                        assert self.transit_ok(s, o["d"]), (self.name, s, o)
                        u = self.par[o["d"]]
                        assert o["h"] == "plain" or (self.has_deep(u) if o["h"] == "deep" else self.has_shallow(u))
                        assert o["a"] == -1 or o["a"] in self.action_ctx(s, o["d"]), (self.name, s, o)
                    if o["k"] == "insr" and o["a"] > 0:
                        assert o["a"] == s or o["a"] in self.anc(s)
        return self

    # -- back ends --------------------------------------------------------
    def to_json(self):
        maxreg = max([0] + self.reg[1:])
        return dict(
            name=self.name, n=self.n, par=self.par[1:], reg=self.reg[1:],
            inner=[[dict(k=k, s=t) for k, t in self.inner[s]] for s in range(1, self.n + 1)],
            hist=self.hist[1:], simple=self.simple[1:], rx=self.rx[1:], init=self.init,
            nev=self.nev, exct=self.exct(), translator=self.translator, mixed=self.xcls == "mixed", relax=self.relax,
            own=[self.own and s % 3 == 1 for s in range(1, self.n + 1)],
            maxreg=maxreg, tags=self.tags[1:], maxtag=max([0] + [t for ts in self.tags for t in ts]),
            clears=[list(c) for c in self.clears()])

    def clears(self):
        out = []
        for s in range(1, self.n + 1):
            for r in range(len(self.inner[s])):
                if self.has_shallow(s):
                    out.append(("s", s, r))
                if self.has_deep(s):
                    out.append(("d", s, r))
        return out

    def cpp(self):
        o = []
        w = o.append
        N = range(1, self.n + 1)
        exc = {"default": "sc::exception_thrown", "custom": "MyExc", "mixed": "MyExc"}[self.xcls]
        alloc = "hx::CountAlloc<int, 0>" if self.counting else "std::allocator<sc::none>"
        evalloc = "hx::CountAlloc<int, 1>" if self.counting else "std::allocator<sc::none>"

        def evt(e):
            return "sc::event_base" if e == 0 else (exc if e == self.exct() else "MyExc2" if e > self.nev else f"E{e}")

        def sname(s):
            return "M" if s == 0 else f"S{s}"

        def dest(o):
            return f"S{o['d']}" if o["h"] == "plain" else f"sc::{o['h']}_history<S{o['d']}>"

        w('#include "hx.hpp"')
        w("namespace hx {")
        w(f"const int kStates = {self.n}; const int kEvents = {self.nev};")
        cl = ", ".join("Clr{'%s',%d,%d}" % c for c in self.clears())
        w(f"const std::vector<Clr> kClears = {{ {cl} }};")
        w("const std::vector<std::vector<int>> kTermOps;")
        w("}")
        for e in range(1, self.nev + 1):
            w(f"typedef hx::Ev<{e}, {evalloc}> E{e};")
        if self.xcls != "default":
            w("struct MyExc : sc::event<MyExc> {};")
        if self.xcls == "mixed":
            w("struct MyExc2 : sc::event<MyExc2> {};")
            w(MIXED)
        maxtag = max([0] + [t for ts in self.tags for t in ts])
        for t in range(1, maxtag + 1):
            w(f"struct Tag{t} {{ virtual ~Tag{t}() {{}} }};")
        w("struct M;")
        for s in N:
            w(f"struct S{s};")
        # forward declared glue
        w("template<class S> bool ctx_ok(S &);")
        w("template<class MM> std::string leaves_json(const MM &);")
        w("template<class MM> void ask(const MM &, std::string &, std::string &);")
        w("std::string casts_json(const M &);")
        w("void dispatch_process(M &, int, int, bool);")
        w("namespace hx { void maybe_cross(); const M & machine_ref(); }")
        w(GLUE)
        tr = "" if not self.translator else (
            ", " + {"default": "sc::exception_translator<>", "custom": "sc::exception_translator<MyExc>",
                                                   "mixed": "Mixed"}[self.xcls])
        w(f"struct M : sc::state_machine<M, S{self.init}, {alloc}{tr}> {{")
        w(f"  typedef sc::state_machine<M, S{self.init}, {alloc}{tr}> base;")
        w("  using base::post_event;")
        w("  void unconsumed_event(const sc::event_base & e) { hx::on_unconsumed(*this, e); }")
        for e in list(range(0, self.nev + 1)) + self.excts():
            w(f"  void act_{e}(const {evt(e)} & e) {{ hx::on_action(*this, 0, e); }}")
        w("};")
        for s in N:
            p = self.par[s]
            ctx = sname(p)
            if p and len(self.inner[p]) > 1 or self.reg[s] > 0:
                ctx = f"{sname(p)}::orthogonal<{self.reg[s]}>"
            ents = [{"plain": "S%d", "shallow": "sc::shallow_history<S%d>",
                     "deep": "sc::deep_history<S%d>"}[k] % t for k, t in self.inner[s]]
            inner = ""
            if len(ents) == 1 and self.inner[s][0][0] == "plain":
                inner = ", " + ents[0]
            elif ents:
                inner = ", mpl::list<" + ", ".join(ents) + ">"
            h = self.hist[s]
            if h != "none":
                inner += f", sc::has_{h}_history"
            kind = "simple_state" if self.simple[s] else "state"
            bases = "".join(f", Tag{t}" for t in self.tags[s])
            w(f"struct S{s} : sc::{kind}<S{s}, {ctx}{inner}>{bases} {{")
            w(f"  enum {{ hx_id = {s} }};")
            w(f"  typedef sc::{kind}<S{s}, {ctx}{inner}> hx_base;")
            if any(rx["k"] == "defer" for rx in self.rx[s]):
                w(f"  sc::result defer_event() {{ hx::hint(\"dfr\", {s}); return hx_base::defer_event(); }}")
            if any(rx["k"] == "insr" for rx in self.rx[s]):
                w(f"  sc::result discard_event() {{ hx::hint(\"dsc\", {s}); return hx_base::discard_event(); }}")
            for e in list(range(0, self.nev + 1)) + self.excts():
                w(f"  void act_{e}(const {evt(e)} & e) {{ hx::on_action(*this, {s}, e); }}")
            rl = []
            for rx in self.rx[s]:
                E = evt(rx["e"])
                if rx["k"] == "trans":
                    a = "" if rx["a"] == -1 else f", {sname(rx['a'])}, &{sname(rx['a'])}::act_{rx['e']}"
                    rl.append(f"sc::transition<{E}, {dest(rx)}{a}>")
                elif rx["k"] == "term":
                    rl.append(f"sc::termination<{E}>")
                elif rx["k"] == "defer":
                    rl.append(f"sc::deferral<{E}>")
                elif rx["k"] == "insr":
                    a = "" if rx["a"] == -1 else f", {sname(rx['a'])}, &{sname(rx['a'])}::act_{rx['e']}"
                    rl.append(f"sc::in_state_reaction<{E}{a}>")
                else:
                    rl.append(f"sc::custom_reaction<{E}>")
            if len(rl) == 1:
                w(f"  typedef {rl[0]} reactions;")
            elif rl:
                w(f"  typedef mpl::list<{', '.join(rl)}> reactions;")
            if self.own and s % 3 == 1:
                w("  void * operator new(std::size_t n) { return hx::own_new(n); }")
                w("  void operator delete(void * p) { hx::own_delete(p); }")
            if self.simple[s]:
                w(f"  S{s}() {{ hx::on_enter_simple({s}, this); }}")
            else:
                w(f"  S{s}(my_context c) : my_base(c) {{ hx::on_enter(*this, {s}); }}")
            w(f"  ~S{s}() {{ hx::note_dtor({s}, this); }}")
            w(f"  void exit() {{ hx::on_exit(*this, {s}); }}")
            for rx in self.rx[s]:
                if rx["k"] == "custom":
                    w(f"  sc::result react(const {evt(rx['e'])} & e);")
            w("};")
        for s in N:
            for i, rx in enumerate(self.rx[s], 1):
                if rx["k"] != "custom":
                    continue
                w(f"sc::result S{s}::react(const {evt(rx['e'])} & e) {{")
                w(f"  switch (hx::on_react(*this, {s}, {i}, e, {len(rx['opts'])})) {{")
                for j, op in enumerate(rx["opts"], 1):
                    if op["k"] == "discard":
                        x = "hx_base::discard_event()"
                    elif op["k"] == "forward":
                        x = "forward_event()"
                    elif op["k"] == "defer":
                        x = "hx_base::defer_event()"
                    elif op["k"] == "term":
                        x = "terminate()"
                    else:
                        x = f"transit<{dest(op)}>(" + (
                            "" if op["a"] == -1 else f"&{sname(op['a'])}::act_{rx['e']}, e") + ")"
                    w(f"    {'default' if j == len(rx['opts']) else 'case %d' % j}: return {x};")
                w("  } }")
        # event dispatch and posting
        w("namespace hx { template<class S> void do_post(S & s, const Post & p, const sc::event_base * trig) {")
        w("  if (p.how == 2) { s.post_event(*trig); return; }")
        w("  if (p.how == 4) { s.post_event(hx::cur->kept); return; }")
        w("  switch (p.t) {")
        for e in range(1, self.nev + 1):
            w(f"    case {e}: if (p.how == 3) {{ boost::intrusive_ptr<E{e}> k(new E{e}(p.id)); s.post_event(k);"
              " hx::cur->kept = k; hx::cur->keptT = p.t; hx::cur->keptId = p.id; }")
            w(f"      else if (p.how == 1) s.post_event(boost::intrusive_ptr<E{e}>(new E{e}(p.id)));"
              f" else with_local<E{e}>(p.id, [&](E{e} & x) {{ s.post_event(x); }}); break;")
        w("  } }")
        w("template<class S> void do_clear(S & s, const Clr & c) { (void)s; (void)c;")
        for k, st, r in self.clears():
            fn = "clear_shallow_history" if k == "s" else "clear_deep_history"
            w(f"  if (c.kind == '{k}' && c.s == {st} && c.r == {r}) s.template {fn}<S{st}, {r}>();")
        w("} }")
        w("void dispatch_process(M & m, int t, int id, bool heap);")
        # context checks
        w("template<> bool ctx_ok<M>(M & m) { return (const void *)&m == hx::cur->machine; }")
        for s in N:
            c = [f"(const void *)&x.context<{sname(a)}>() == "
                 + (f"hx::cur->obj[{a}]" if a else "hx::cur->machine") for a in self.anc(s)]
            c.append("(const void *)&x.outermost_context() == hx::cur->machine")
            c.append(f"&x.context<S{s}>() == &x")
            cc = [t.replace("x.", "cx.").replace("&x", "&cx") for t in c]
            w(f"template<> bool ctx_ok<S{s}>(S{s} & x) {{ const S{s} & cx = x; (void)cx; return "
              + " && ".join(c + cc) + "; }")
        # snapshots
        w("namespace hx { const M & machine_ref() { return *static_cast<const M *>(cur->machine); } }")
        w("static int id_of(const M::state_base_type & b) {")
        w("  const void * p = dynamic_cast<const void *>(&b);")
        for s in N:
            w(f"  if (b.dynamic_type() == S{s}::static_type()) return p == hx::cur->obj[{s}] && "
              f"hx::custom_ok<S{s}>(b, {s}) ? {s} : -{s};")
        w("  return -99; }")
        w("""template<class MM> std::string leaves_json(const MM & m) {
  std::string s = "[";
  bool bad = false;
  typename MM::state_iterator j = m.state_begin(), e = m.state_end();
  for (typename MM::state_iterator i = m.state_begin(); i != e; ++i) {
    if (!(i == j) || j == e) { bad = true; break; }
    typename MM::state_iterator o = j++;
    if (&*o != &*i || o->outer_state_ptr() != (*i).outer_state_ptr()) bad = true;
    if (s.size() > 1) s += ",";
    std::string t = "[";
    for (const typename MM::state_base_type * p = &*i; p; p = p->outer_state_ptr()) {
      if (t.size() > 1) t += ",";
      t += std::to_string(id_of(*p));
    }
    s += t + "]";
  }
  if (bad || j != e) return "[[-1]]";
  return s + "]"; }""")
        for s in [0] + list(N):
            w(f"template<> void ask<{sname(s)}>(const {sname(s)} & m, std::string & a, std::string & f) {{ (void)m;")
            for t in sorted({x for x in (s, self.par[s] if s else 0, 1 + (s * 7) % self.n, 1 + (s * 5 + 3) % self.n) if x}):
                w(f"  hx::ask_one<S{t}>(m, {t}, a, f);")
            w("}")
        w("std::string casts_json(const M & m) { std::string a, b, c, d, t; (void)m;")
        for s in N:
            w(f"  hx::cast_one<S{s}>(m, {s}, a, b, c, d);")
        for t in range(1, maxtag + 1):
            mem = [s for s in N if t in self.tags[s]]
            w(f"  {{ const Tag{t} * p = m.state_cast<const Tag{t} *>(); bool ok = false;")
            w("    const void * q = p ? dynamic_cast<const void *>(p) : 0;")
            for s in mem:
                w(f"    if (p && q == hx::cur->obj[{s}]) ok = true;")
            w(f"    if (p) t += std::string(t.empty() ? \"\" : \",\") + (ok ? \"{t}\" : \"-{t}\"); }}")
        w('  return ",\\"sc\\":[" + a + "],\\"sd\\":[" + b + "],\\"rc\\":[" + c + "],\\"rd\\":[" + d + "],\\"tg\\":[" + t + "]"; }')
        w("namespace hx { inline void set_custom_ids() {")
        for s in N:
            w(f"  set_custom<S{s}>({s});")
        for e in range(1, self.nev + 1):
            if e % 3:
                w(f"  set_custom_ev<E{e}>({e});")
        w("} }")
        w('#include "hxmain.hpp"')
        w("void dispatch_process(M & m, int t, int id, bool heap) { switch (t) {")
        for e in range(1, self.nev + 1):
            w(f"  case {e}: hx::proc<E{e}>(m, id, heap); break;")
        w("} }")
        w("#ifndef HX_PAIR")
        w("int main() { return hx::main_loop(); }")
        w("#endif")
        return "\n".join(o) + "\n"


PAIR_HEAD = """#define HX_PAIR
#include <iostream>
#include "hx.hpp"
#undef HX_HPP
"""
PAIR_MAIN = """
static void flush_both() { A::hx::flush_all(); B::hx::flush_all(); }
static void let_a() { A::hx::cross(1000); }
static void let_b() { B::hx::cross(1000); }
static void on_sig(int s) {
  A::hx::emit_all(s == SIGALRM ? "HANG" : "CRASH");
  flush_both();
  _exit(s == SIGALRM ? 98 : 97);
}
int main() {
  A::hx::prepare(); B::hx::prepare();
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) std::signal(s, on_sig);
  A::hx::other = let_b; B::hx::other = let_a;
  std::string ln;
  while (std::getline(std::cin, ln)) {
    auto tok = A::hx::split(ln, ' ');
    alarm(20);
    A::hx::other = nullptr;
    A::hx::begin_random(tok);
    A::hx::other = let_b; B::hx::other = nullptr;
    B::hx::begin_random(tok, 1);
    B::hx::other = let_a;
    for (auto & r : B::hx::runs) r->lane.tag += 100;
    for (int k = A::hx::random_ops() + B::hx::random_ops(); k > 0; --k)
      if (A::hx::rng->chance(500)) A::hx::one_random(); else B::hx::one_random();
    A::hx::other = nullptr;
    B::hx::end_random();
    B::hx::other = nullptr;
    A::hx::end_random();
    A::hx::finish_trace(); B::hx::finish_trace();
    alarm(0);
    flush_both();
  }
  return 0;
}
"""


def pair_cpp(a, b):
    """two charts in one program; lanes of the second one are numbered from 100"""
    return (PAIR_HEAD + "namespace A {\n" + a.cpp() + "}\n#undef HX_HPP\n#undef HXMAIN_HPP\n#undef HX_TL\nnamespace B {\n"
            + b.cpp() + "}\n" + PAIR_MAIN)


# exceptions 1, 4, ...: MyExc, 2, 5, ...: MyExc2, 3, 6, ... are not translated
MIXED = r"""struct Mixed {
  template<class Action, class Handler> sc::result operator()(Action action, Handler handler) {
    try { return action(); }
    catch (const hx::Boom & b) {
      if (b.id % 3 == 1) return handler(MyExc());
      if (b.id % 3 == 2) return handler(MyExc2());
      throw;
    }
  }
};"""

GLUE = r"""
namespace hx {
template<class S> void do_post(S & s, const Post & p, const sc::event_base * trig);
template<class S> void do_clear(S & s, const Clr & c);

// the machine and the state agree on the triggering event
template<class S> bool same_trigger(S & s) {
  const S & cs = s;
  return cs.triggering_event() == static_cast<const S &>(s).outermost_context().triggering_event();
}
// ... which is the very object the reaction gets, of its dynamic type
template<class S> bool is_trigger(S & s, const sc::event_base & e) { return &e == s.triggering_event(); }
template<class S, class E> bool is_trigger(S & s, const E & e) {
  return static_cast<const sc::event_base *>(&e) == s.triggering_event() && e.dynamic_type() == E::static_type() &&
    s.triggering_event()->dynamic_type() == E::static_type();
}
template<class S> std::string asked_json(const S & s) {
  std::string a, f;
  ask(s, a, f);
  return ",\"ca\":[" + a + "],\"cf\":[" + f + "]";
}

inline void on_enter_simple(int id, const void * self) {
  hxnew::User u;
  Caps caps{false, true, false, false, 1};
  Dec d = decide(caps, 0);
  bool ok = d.th ? true : note_alive(id, self);
  line("enter", id, -3, ok, d);
  maybe_cross();
  if (d.th) throw Boom(d.th);
}
template<class S> void on_enter(S & s, int id) {
  hxnew::User u;
  int tr = tid(s.triggering_event());
  Caps caps{true, true, true, true, 1};
  Dec d = decide(caps, tr);
  bool ok = note_alive(id, &s);
  ok = ctx_ok(s) && ok;
  ok = same_trigger(s) && ok;
  effects(s, d, s.triggering_event());
  line("enter", id, tr, ok, d);
  maybe_cross();
  if (d.th) { note_dead(id); throw Boom(d.th); }
}
template<class S> void on_exit(S & s, int id) {
  hxnew::User u;
  int tr = tid(s.triggering_event());
  Caps caps{true, true, true, true, 1};
  Dec d = decide(caps, tr);
  bool ok = ctx_ok(s) && is_live(id, &s) && same_trigger(s);
  effects(s, d, s.triggering_event());
  line("exit", id, tr, ok, d);
  maybe_cross();
  if (d.th) throw Boom(d.th);
}
template<class S, class E> void on_action(S & s, int id, const E & e) {
  hxnew::User u;
  int tr = tid(s.triggering_event());
  Caps caps{true, true, true, true, 1};
  Dec d = decide(caps, tr);
  bool ok = ctx_ok(s) && (id == 0 || is_live(id, &s)) && same_trigger(s) && is_trigger(s, e);
  std::string x = ",\"x\":" + std::to_string(tid(&e)) + ",\"lv\":" + leaves_json(s);
  effects(s, d, s.triggering_event());
  line("act", id, tr, ok, d, x);
  maybe_cross();
  if (d.th) throw Boom(d.th);
}
template<class S, class E> int on_react(S & s, int id, int ri, const E & e, int nops) {
  hxnew::User u;
  int tr = tid(s.triggering_event());
  Caps caps{true, true, true, true, nops};
  Dec d = decide(caps, tr);
  bool ok = ctx_ok(s) && is_live(id, &s) && same_trigger(s) && is_trigger(s, e);
  std::string x = ",\"x\":" + std::to_string(tid(&e)) + ",\"r\":" + std::to_string(ri) +
    ",\"lv\":" + leaves_json(s) + asked_json(s);
  effects(s, d, s.triggering_event());
  line("react", id, tr, ok, d, x);
  maybe_cross();
  if (d.th) throw Boom(d.th);
  return d.op;
}
template<class MM> void on_unconsumed(MM & s, const sc::event_base & e) {
  hxnew::User u;
  int tr = tid(s.triggering_event());
  Caps caps{true, true, true, true, 1};
  Dec d = decide(caps, tr);
  bool ok = ctx_ok(s) && is_trigger(s, e);
  std::string x = ",\"x\":" + std::to_string(tid(&e)) + ",\"lv\":" + leaves_json(s) + asked_json(s);
  effects(s, d, s.triggering_event());
  line("uncons", 0, tr, ok, d, x);
  maybe_cross();
  if (d.th) throw Boom(d.th);
}
inline void add_id(std::string & s, int v) { s += (s.empty() ? "" : ",") + std::to_string(v); }
template<class S, class MM>
void cast_one(const MM & m, int id, std::string & a, std::string & b, std::string & c, std::string & d) {
  const void * o = cur->obj[(std::size_t)id];
  if (const S * p = m.template state_cast<const S *>()) add_id(a, p == o ? id : -id);
  if (const S * p = m.template state_downcast<const S *>()) add_id(b, p == o ? id : -id);
  try { const S & r = m.template state_cast<const S &>(); add_id(c, &r == o ? id : -id); }
  catch (const std::bad_cast &) {}
  try { const S & r = m.template state_downcast<const S &>(); add_id(d, &r == o ? id : -id); }
  catch (const std::bad_cast &) {}
}
// casts asked for by a state (or the machine): all forms agree
template<class T, class S>
void ask_one(const S & s, int id, std::string & a, std::string & f) {
  const void * o = cur->obj[(std::size_t)id];
  int found = 0, right = 0;
  if (const T * p = s.template state_cast<const T *>()) { ++found; right += p == o; }
  if (const T * p = s.template state_downcast<const T *>()) { ++found; right += p == o; }
  try { const T & r = s.template state_cast<const T &>(); ++found; right += &r == o; } catch (const std::bad_cast &) {}
  try { const T & r = s.template state_downcast<const T &>(); ++found; right += &r == o; } catch (const std::bad_cast &) {}
  add_id(a, id);
  if (found) add_id(f, found == 4 && right == 4 ? id : -id);
}
#ifdef BOOST_STATECHART_USE_NATIVE_RTTI
template<class S> void set_custom(int) {}
template<class E> void set_custom_ev(int) {}
template<class S, class B> bool custom_ok(const B &, int) { return true; }
#else
// some states have no custom id
inline const char * custom_of(int id) { return id % 5 ? custom_mark() + id : nullptr; }
template<class S> void set_custom(int id) { if (id % 5) S::custom_static_type_ptr(custom_of(id)); }
template<class E> void set_custom_ev(int t) { E::custom_static_type_ptr(static_cast<const char *>(custom_mark() + 256 + t)); }
template<class S, class B> bool custom_ok(const B & b, int id) {
  return S::template custom_static_type_ptr<char>() == custom_of(id) &&
    b.template custom_dynamic_type_ptr<char>() == custom_of(id);
}
#endif
}
"""


# ---------------------------------------------------------------------------
# seeded generator of valid charts

def random_chart(rng, name, feat):
    """feat: dict of switches - ortho, shallow, deep, custom, defer, term,
    insr, any, translator, tags, maxn, nev, relax, rich"""
    for _ in range(200):
        ch = _try_random(rng, name, feat)
        if ch is not None:
            ch.check()
            return ch
    raise RuntimeError("no chart")


def _try_random(rng, name, f):
    ch = Chart(name)
    ch.nev = f.get("nev", 3)
    ch.translator = f.get("translator", False)
    ch.xcls = rng.choice(["default", "custom", "mixed"]) if ch.translator else "default"
    ch.relax = f.get("relax", False)
    ch.counting = f.get("counting", True)
    target = rng.randint(f.get("minn", 5), f.get("maxn", 9))
    # grow a tree: outermost states, then split states into inner ones
    for _ in range(rng.randint(1, 2)):
        ch.state(0)
    spec = {s: None for s in range(1, ch.n + 1)}    # s -> list of region sizes
    todo = list(range(1, ch.n + 1))
    while todo and ch.n < target:
        s = todo.pop(0)
        depth = len(ch.anc(s))
        if depth > 3 or (rng.random() < 0.25 and todo):
            continue
        nreg = 1
        if f.get("ortho") and rng.random() < 0.45:
            nreg = rng.choice([2, 2, 3])
        deep_above = any(ch.has_deep(a) for a in ch.anc(s))
        if deep_above:
            nreg = 1
        hist = "none"
        choices = ["none"]
        if f.get("shallow"):
            choices += ["shallow", "shallow"]
        if f.get("deep"):
            choices += ["deep", "deep"]
        if f.get("shallow") and f.get("deep"):
            choices += ["full"]
        hist = rng.choice(choices)
        ch.hist[s] = hist
        ents = []
        for r in range(nreg):
            cnt = rng.choice([1, 2, 2, 3])
            new = [ch.state(s, r) for _ in range(cnt)]
            todo += new
            kind = "plain"
            ks = ["plain"]
            if ch.has_shallow(s):
                ks += ["shallow"] * 3
            if ch.has_deep(s):
                ks += ["deep"] * 3
            kind = rng.choice(ks)
            ents.append((kind, rng.choice(new)))
        ch.initial(s, *ents)
    # numbering is by creation, parents always earlier
    if ch.n > 20 or ch.n < 3:
        return None
    for s in range(1, ch.n + 1):
        ch.simple[s] = rng.random() < 0.35
        if f.get("tags"):
            ch.tags[s] = [t for t in (1, 2) if rng.random() < 0.35]
    evs = list(range(1, ch.nev + 1))
    nrx = 0
    for s in range(1, ch.n + 1):
        dests = [d for d in range(1, ch.n + 1) if ch.transit_ok(s, d)]
        used_custom = set()
        rich = f.get("rich")            # many reactions, few of them hidden by others
        taken = []
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4] if rich else [0, 1, 1, 2, 2, 3])):
            pool = evs
            if ch.translator and rng.random() < 0.6:
                pool = ch.excts()
            ev = 0 if f.get("any") and rng.random() < (0.25 if rich else 0.12) else rng.choice(pool)
            if (ev in taken or 0 in taken) and rng.random() < 0.85:
                continue
            taken.append(ev)
            kinds = ["trans"] * 4
            if f.get("custom"):
                kinds += ["custom"] * f["custom"]
            if f.get("defer"):
                kinds += ["defer"] * (f["defer"] if ev <= ch.nev else 1)
            if f.get("term"):
                kinds += ["term"] * (f["term"] if ev <= ch.nev else f["term"] + 1)
            if f.get("insr"):
                kinds += ["insr"] * f["insr"]
            k = rng.choice(kinds)

            def act(d):
                if rng.random() < f.get("pact", 0.4):
                    return rng.choice(ch.action_ctx(s, d))
                return -1
            def to(d):
                u = ch.par[d]
                hs = ["shallow"] * ch.has_shallow(u) + ["deep"] * ch.has_deep(u)
                return (rng.choice(hs), d) if hs and rng.random() < f.get("phist", 0.4) else d
            if k == "trans":
                d = rng.choice(dests)
                ch.r(s, ev, "trans", to(d), act(d))
            elif k == "custom":
                if ev in used_custom:
                    continue
                used_custom.add(ev)
                opts = []
                for _ in range(rng.randint(1, 3)):
                    ok = ["discard", "forward", "trans", "trans"] + ["forward"] * bool(rich)
                    if f.get("defer"):
                        ok.append("defer")
                    if f.get("term"):
                        ok.append("term")
                    kk = rng.choice(ok)
                    if kk == "trans":
                        d = rng.choice(dests)
                        opts.append(("trans", to(d), act(d)))
                    else:
                        opts.append((kk,))
                ch.r(s, ev, "custom", opts=opts)
            elif k == "insr":
                a = rng.choice([-1, s, 0] + ch.anc(s))
                ch.r(s, ev, "insr", 0, a)
            else:
                ch.r(s, ev, k)
            nrx += 1
        if rng.random() < 0.8:
            ch.rx[s].sort(key=lambda r: r["e"] == 0)    # reactions to any event last
    if nrx < ch.n * (0.8 if not f.get("rich") else 1.1):
        return None
    return ch

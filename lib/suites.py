"""What each of the checks C01..C16 explores: hand-made charts, profiles of
randomly generated ones, the user behaviours (random and model-generated
scripts) run on them and the build variants used."""
import random

from charts import Chart, random_chart

T = "trans"


def _c(name, nev=3, translator=False, xcls="default", relax=False):
    ch = Chart(name)
    ch.nev, ch.translator, ch.xcls, ch.relax = nev, translator, xcls, relax
    return ch


def nest(relax=False):
    ch = _c("nest", relax=relax)
    a = ch.state(); b = ch.state(a); c = ch.state(b); d = ch.state(c, simple=True); e = ch.state(c)
    f = ch.state(b); g = ch.state(a, simple=True); h = ch.state()
    ch.initial(a, b); ch.initial(b, c); ch.initial(c, d)
    ch.r(d, 1, T, e); ch.r(e, 1, T, f, b if not relax else c); ch.r(c, 2, T, g, a)
    ch.r(b, 3, T, b, 0); ch.r(a, 2, T, h); ch.r(h, 1, T, e, 0); ch.r(h, 2, T, h)
    ch.r(g, 1, T, d, a); ch.r(d, 3, "insr", 0, d)
    ch.r(f, 2, "custom", opts=[("forward",), (T, g, a), ("discard",)])
    if relax:
        ch.r(e, 3, T, g, e); ch.r(d, 2, T, h, b); ch.r(f, 3, T, d, f); ch.r(g, 3, T, h, g)
    return ch


def ortho():
    ch = _c("ortho")
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(a, 1)
    f = ch.state(d); g = ch.state(d, simple=True); h = ch.state(a, 2, simple=True); i = ch.state(a, 2); j = ch.state()
    ch.initial(a, b, d, h); ch.initial(d, f)
    ch.r(b, 1, T, c, a); ch.r(c, 2, T, b); ch.r(f, 1, T, g, d); ch.r(d, 2, T, e, a); ch.r(e, 2, T, g, 0)
    ch.r(h, 3, T, i, a); ch.r(i, 3, T, j, 0); ch.r(j, 1, T, g, 0); ch.r(j, 2, T, i); ch.r(j, 3, T, a)
    ch.r(g, 3, "custom", opts=[("forward",), (T, f, d), (T, e)])
    ch.r(a, 1, "custom", opts=[("discard",), (T, a, 0)])
    return ch


def orthonest(relax=False):
    ch = _c("orthonest", relax=relax)
    a = ch.state(); b = ch.state(a, 0); c = ch.state(b, 0); d = ch.state(b, 1); e = ch.state(b, 1)
    f = ch.state(a, 1); g = ch.state(f, 0); h = ch.state(f, 1); i = ch.state(h); j = ch.state(h)
    k = ch.state()
    ch.initial(a, b, f); ch.initial(b, c, d); ch.initial(f, g, h); ch.initial(h, i)
    ch.r(d, 1, T, e, b); ch.r(e, 2, T, d); ch.r(i, 1, T, j, f if not relax else i); ch.r(j, 2, T, j, h)
    ch.r(c, 3, T, k, 0 if not relax else b); ch.r(k, 1, T, j); ch.r(k, 2, T, e, 0); ch.r(h, 3, T, i, f)
    ch.r(f, 2, "custom", opts=[("forward",), (T, f, a), ("discard",)])
    ch.r(g, 3, "custom", opts=[("forward",), (T, b and g, f), ("forward",)])
    return ch


def shallow():
    ch = _c("shallow")
    a = ch.state(0, 0, "shallow"); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(c); e = ch.state(c)
    f = ch.state(a, 1); g = ch.state(a, 1); h = ch.state(a, 2); i = ch.state(a, 2); j = ch.state()
    ch.initial(a, ("shallow", b), ("shallow", f), h); ch.initial(c, d)
    ch.r(b, 1, T, c); ch.r(d, 1, T, e); ch.r(e, 1, T, b); ch.r(f, 2, T, g); ch.r(g, 2, T, f, a); ch.r(h, 2, T, i)
    ch.r(a, 3, T, j, 0); ch.r(j, 3, T, a); ch.r(j, 1, T, e); ch.r(j, 2, T, g); ch.r(i, 3, "insr", 0, i)
    ch.r(i, 1, T, h)
    return ch


def shallow2():
    """history states at two levels, and a history region entered from inside"""
    ch = _c("shallow2")
    a = ch.state(0, 0, "shallow"); b = ch.state(a, 0, "shallow"); c = ch.state(a)
    d = ch.state(b, 0); e = ch.state(b, 0); f = ch.state(b, 1); g = ch.state(b, 1); h = ch.state()
    ch.initial(a, ("shallow", c)); ch.initial(b, ("shallow", d), ("shallow", f))
    ch.r(c, 1, T, b); ch.r(d, 1, T, e); ch.r(e, 1, T, d, b); ch.r(f, 2, T, g); ch.r(b, 3, T, c); ch.r(a, 2, T, h, 0)
    ch.r(g, 3, T, h); ch.r(h, 1, T, a); ch.r(h, 2, T, b); ch.r(h, 3, T, e)
    return ch


def deep():
    ch = _c("deep")
    a = ch.state(0, 0, "deep"); b = ch.state(a); c = ch.state(b); d = ch.state(b); e = ch.state(d)
    f = ch.state(d); g = ch.state(a); h = ch.state()
    ch.initial(a, ("deep", b)); ch.initial(b, c); ch.initial(d, e)
    ch.r(c, 1, T, d); ch.r(e, 1, T, f, d); ch.r(f, 1, T, g); ch.r(g, 1, T, c); ch.r(a, 2, T, h, 0); ch.r(h, 2, T, a)
    ch.r(h, 1, T, f); ch.r(b, 3, T, a); ch.r(h, 3, T, d)
    return ch


def deep2():
    """orthogonal regions with deep history, deep inside deep"""
    ch = _c("deep2")
    a = ch.state(0, 0, "deep"); b = ch.state(a, 0, "deep"); c = ch.state(b); d = ch.state(b)
    e = ch.state(a, 1); f = ch.state(e); g = ch.state(e); h = ch.state(a, 1); i = ch.state()
    ch.initial(a, ("deep", b), ("deep", e)); ch.initial(b, ("deep", c)); ch.initial(e, f)
    ch.r(c, 1, T, d); ch.r(d, 1, T, c); ch.r(f, 2, T, g, e); ch.r(g, 2, T, h); ch.r(h, 2, T, f)
    ch.r(a, 3, T, i); ch.r(i, 3, T, a); ch.r(i, 1, T, b); ch.r(i, 2, T, g)
    return ch


def deepmid():
    """a deep history state that is not outermost: leaving an enclosing state"""
    ch = _c("deepmid")
    a = ch.state(); b = ch.state(a, 0, "deep"); c = ch.state(b); d = ch.state(c); e = ch.state(c)
    f = ch.state(b); g = ch.state(a); h = ch.state()
    ch.initial(a, b); ch.initial(b, ("deep", c)); ch.initial(c, d)
    ch.r(d, 1, T, e); ch.r(e, 1, T, f); ch.r(f, 1, T, d); ch.r(b, 2, T, g); ch.r(g, 2, T, b); ch.r(a, 3, T, h)
    ch.r(h, 3, T, a); ch.r(h, 1, T, e)
    return ch


def full():
    ch = _c("full")
    a = ch.state(0, 0, "full"); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(b); e = ch.state(b)
    f = ch.state(a, 1); g = ch.state(a, 1); h = ch.state(f); i = ch.state(f); j = ch.state()
    ch.initial(a, ("shallow", b), ("deep", f)); ch.initial(b, d); ch.initial(f, h)
    ch.r(d, 1, T, e); ch.r(b, 2, T, c); ch.r(c, 2, T, e); ch.r(h, 1, T, i); ch.r(f, 2, T, g); ch.r(g, 1, T, i)
    ch.r(a, 3, T, j); ch.r(j, 3, T, a); ch.r(j, 1, T, g)
    return ch


def histto():
    """transitions to shallow and deep histories, from outside and inside, in several regions"""
    ch = _c("histto")
    a = ch.state(); b = ch.state(a, 0, "full"); c = ch.state(b, 0); d = ch.state(b, 0); e = ch.state(d); f = ch.state(d)
    g = ch.state(a, 1, "shallow"); h = ch.state(g, 0); i = ch.state(g, 1); j = ch.state(g, 1); k = ch.state()
    ch.initial(a, b, g); ch.initial(b, c); ch.initial(d, e); ch.initial(g, h, i)
    ch.r(c, 1, T, d); ch.r(e, 1, T, f); ch.r(f, 1, T, ("deep", c)); ch.r(d, 2, T, ("shallow", d), b)
    ch.r(i, 2, T, j); ch.r(h, 3, "custom", opts=[("forward",), (T, ("shallow", h), g), (T, h)])
    ch.r(a, 3, T, k, 0); ch.r(k, 1, T, ("deep", c), 0); ch.r(k, 2, T, ("shallow", d))
    ch.r(k, 3, "custom", opts=[(T, ("shallow", i)), (T, ("shallow", j), 0), (T, ("deep", d))])
    return ch


def defer():
    ch = _c("defer")
    a = ch.state(); b = ch.state(a); c = ch.state(a); d = ch.state(c); e = ch.state(c); f = ch.state()
    ch.initial(a, b); ch.initial(c, d)
    ch.r(b, 1, "defer"); ch.r(b, 2, T, c); ch.r(d, 1, T, e, c); ch.r(d, 3, "defer"); ch.r(e, 2, "defer")
    ch.r(e, 1, T, b); ch.r(a, 3, T, f); ch.r(f, 3, T, a); ch.r(f, 1, "custom", opts=[("defer",), (T, e), ("forward",)])
    ch.r(f, 2, "insr", 0, f)
    return ch


def deferortho():
    ch = _c("deferortho")
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(a, 1); f = ch.state()
    ch.initial(a, b, d)
    ch.r(b, 1, "defer"); ch.r(b, 2, T, c); ch.r(c, 2, T, b); ch.r(c, 1, "insr", 0, a)
    ch.r(d, 3, "defer"); ch.r(d, 1, T, e, a); ch.r(e, 2, "defer"); ch.r(e, 3, T, f, 0); ch.r(f, 1, T, e); ch.r(f, 2, T, c)
    return ch


def term():
    ch = _c("term")
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(d); f = ch.state(d)
    g = ch.state(0, 0)
    ch.initial(a, b, d); ch.initial(d, e)
    ch.r(b, 1, "term"); ch.r(b, 2, T, c); ch.r(c, 1, T, c); ch.r(c, 3, "term"); ch.r(e, 1, T, f); ch.r(f, 2, "term")
    ch.r(d, 3, T, d); ch.r(a, 2, T, g); ch.r(g, 2, T, f); ch.r(g, 1, "term")
    ch.r(g, 3, "custom", opts=[("term",), (T, a, 0), ("discard",)])
    return ch


def termhist():
    """termination below history states, and deferral in the same chart"""
    ch = _c("termhist")
    a = ch.state(0, 0, "full"); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(a, 1)
    f = ch.state()
    ch.initial(a, ("shallow", b), ("deep", d))
    ch.r(b, 1, T, c); ch.r(c, 1, "term"); ch.r(d, 2, T, e); ch.r(e, 2, "term"); ch.r(d, 1, "defer")
    ch.r(a, 3, T, f); ch.r(f, 3, T, a); ch.r(f, 1, "term")
    return ch


def exc(xcls="default"):
    ch = _c("exc", 2, True, xcls)
    x = 3
    a = ch.state(); b = ch.state(a); c = ch.state(b); d = ch.state(b); e = ch.state(a); f = ch.state()
    ch.initial(a, b); ch.initial(b, c)
    ch.r(c, 1, T, d, b); ch.r(d, 1, T, e, a); ch.r(e, 1, T, c); ch.r(e, x, "insr", 0, e)
    ch.r(b, x, "custom", opts=[(T, e), ("forward",), ("term",), ("discard",)]); ch.r(a, x, T, f, 0)
    ch.r(a, 2, T, f); ch.r(f, 2, T, d); ch.r(f, x, "custom", opts=[("discard",), (T, a), ("forward",)])
    ch.r(d, x, T, c, b)
    return ch


def excterm():
    """exceptions handled by terminating a state inside orthogonal regions"""
    ch = _c("excterm", 3, True)
    x = 4
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(d); f = ch.state(d)
    g = ch.state(e, 0); h = ch.state(e, 0); i = ch.state(e, 1); j = ch.state(e, 1, simple=True); k = ch.state(a, 2); l = ch.state()
    ch.initial(a, b, d, k); ch.initial(d, e); ch.initial(e, g, i)
    ch.r(b, 1, T, c); ch.r(c, 1, T, b, a); ch.r(g, 2, T, h, e); ch.r(h, 2, T, g); ch.r(i, 3, T, j); ch.r(j, 3, T, i, e)
    ch.r(e, 1, T, f); ch.r(f, 1, T, e, d); ch.r(f, 3, T, f, a); ch.r(k, 2, T, k, a); ch.r(k, 3, "insr", 0, k); ch.r(l, 1, T, a); ch.r(a, 0, "custom", opts=[("forward",), (T, l)])
    ch.r(b, x, "term"); ch.r(e, x, "term"); ch.r(h, x, "term"); ch.r(i, x, "custom", opts=[("forward",), ("term",)])
    ch.r(d, x, "custom", opts=[("term",), ("forward",), (T, f)]); ch.r(k, x, "custom", opts=[("forward",), ("term",), (T, k)])
    ch.r(a, x, "custom", opts=[("forward",), ("term",), (T, l), (T, a)]); ch.r(l, 2, "term"); ch.r(l, x, "term")
    return ch


def ladder(multi=True, relax=False):
    """reactions to exceptions and to any event at every level, with every kind of outcome"""
    ch = _c("ladder", 2, True, "mixed", relax)
    a = ch.state(0, 0, "full"); b = ch.state(a, 0, "full"); c = ch.state(b); d = ch.state(c); e = ch.state(c); z = ch.state(b)
    w = ch.state(a, 0); o = ch.state(); p = ch.state(o); q = ch.state(p); r = ch.state(o, simple=True)
    y = [ch.state(a, 1), ch.state(a, 1, simple=True)] if multi else []
    ch.initial(a, ("shallow", b), *([("shallow", y[0])] if multi else [])); ch.initial(b, ("deep", c)); ch.initial(c, d)
    ch.initial(o, p); ch.initial(p, q)
    ch.r(d, 1, T, e); ch.r(e, 1, T, d, c); ch.r(e, 2, T, z); ch.r(z, 1, T, d, b); ch.r(z, 2, T, w, a); ch.r(w, 1, T, d); ch.r(w, 2, T, q, 0)
    ch.r(q, 1, T, r, o); ch.r(r, 1, T, q); ch.r(r, 2, T, e)
    if multi:
        ch.r(y[0], 1, T, y[1]); ch.r(y[1], 2, T, y[0], a); ch.r(y[0], 3, "insr", 0, a)
        ch.r(y[1], 0, "custom", opts=[("forward",), ("discard",), (T, y[0])])
    def outs(s, k):
        ds = [x for x in range(1, ch.n + 1) if ch.transit_ok(s, x)]
        res = [("forward",), ("discard",), ("defer",), ("term",), ("forward",)]
        for i in range(4):
            x = ds[(k + s + i * 3) % len(ds)]
            u = ch.par[x]
            hs = ["shallow"] * ch.has_shallow(u) + ["deep"] * ch.has_deep(u)
            cs = ch.action_ctx(s, x)
            to = (hs[(i + k) % len(hs)], x) if hs and (i + s) % 2 else x
            res.append((T, to) if i == 3 else (T, to, cs[(i + k) % len(cs)]))
        return res
    for k, s in enumerate((a, b, c, d, z, w)):
        ch.r(s, 3, "custom", opts=outs(s, k)); ch.r(s, 0, "custom", opts=outs(s, k + 1))
    ch.r(q, 0, "custom", opts=[("forward",), (T, r), ("defer",)]); ch.r(p, 3, "insr", 0, o); ch.r(p, 0, "insr", 0, p)
    ch.r(o, 3, "defer"); ch.r(o, 4, "insr", 0, 0); ch.r(r, 3, "custom", opts=[("forward",), (T, p)])
    return ch


def excmixed():
    """two classes of exception events, and exceptions that are not translated"""
    ch = _c("excmixed", 2, True, "mixed")
    x, y = 3, 4
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(a, 1); f = ch.state(e); g = ch.state()
    ch.initial(a, b, d); ch.initial(e, f)
    ch.r(b, 1, T, c); ch.r(c, 1, T, b, a); ch.r(d, 2, T, e, a); ch.r(e, 2, T, d); ch.r(f, 1, T, g, 0); ch.r(g, 1, T, e)
    ch.r(b, x, T, c); ch.r(b, y, "insr", 0, b); ch.r(c, y, T, b, a); ch.r(f, y, "custom", opts=[("forward",), (T, d), ("discard",)])
    ch.r(e, x, "custom", opts=[(T, e, a), ("forward",)]); ch.r(a, x, T, g); ch.r(a, y, "custom", opts=[(T, a), ("term",), ("discard",)])
    ch.r(g, 0, "custom", opts=[("forward",), (T, c), ("discard",)])
    return ch


def excortho():
    ch = _c("excortho", 2, True)
    x = 3
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(a, 1)
    f = ch.state(e); g = ch.state()
    ch.initial(a, b, d); ch.initial(e, f)
    ch.r(b, 1, T, c); ch.r(c, 1, T, b, a); ch.r(d, 2, T, e, a); ch.r(e, 2, T, d); ch.r(f, x, "custom", opts=[("forward",), (T, f)])
    ch.r(c, x, "insr", 0, c); ch.r(e, x, T, d); ch.r(a, x, "custom", opts=[(T, a), (T, g), ("discard",)])
    ch.r(g, 1, T, a, 0); ch.r(g, x, T, a)
    return ch


def nohandler():
    """no exception handling at all"""
    ch = deferortho()
    ch.name = "nohandler"
    ch.hist[1] = "full"
    ch.initial(1, ("shallow", 2), ("deep", 4))
    return ch


def exchist():
    """histories of a state that is also left by handled exceptions (without exit())"""
    ch = _c("exchist", 3, True)
    x = 4
    a = ch.state(0, 0, "full"); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(d)
    f = ch.state(d); g = ch.state(a, 1); z = ch.state()
    ch.initial(a, ("shallow", b), ("deep", d)); ch.initial(d, e)
    ch.r(b, 1, T, c, a); ch.r(c, 1, T, b); ch.r(e, 2, T, f, d); ch.r(f, 2, T, g); ch.r(g, 2, T, e)
    ch.r(a, 3, T, z, 0); ch.r(z, 3, T, a); ch.r(a, x, T, z); ch.r(c, 3, "insr", 0, c)
    ch.r(z, x, "custom", opts=[(T, a), ("discard",)]); ch.r(z, 1, T, f); ch.r(f, x, "custom", opts=[("forward",), (T, e), ("discard",)])
    return ch


def towers():
    """orthogonal regions of different depths"""
    ch = _c("towers")
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 1); d = ch.state(a, 2); e = ch.state(c); f = ch.state(e)
    g = ch.state(f, simple=True); h = ch.state(d); i = ch.state(h); j = ch.state(i); k = ch.state(j); l = ch.state(j)
    m = ch.state(e); n = ch.state(d); o = ch.state()
    ch.initial(a, b, c, d); ch.initial(c, e); ch.initial(e, f); ch.initial(f, g); ch.initial(d, h); ch.initial(h, i)
    ch.initial(i, j); ch.initial(j, k)
    ch.r(g, 1, T, m, c); ch.r(m, 1, T, g); ch.r(k, 2, T, l, d); ch.r(l, 2, T, n); ch.r(n, 2, T, l, a); ch.r(c, 3, T, o)
    ch.r(o, 1, T, l); ch.r(o, 2, T, m, 0); ch.r(o, 3, T, a); ch.r(i, 3, "insr", 0, h); ch.r(e, 2, "custom", opts=[("forward",), ("discard",)])
    return ch


def excdefer():
    """exception events that a state would like to defer, and forward"""
    ch = _c("excdefer", 3, True)
    x = 4
    a = ch.state(); b = ch.state(a); c = ch.state(a); d = ch.state(0, 0, "deep"); e = ch.state(d); f = ch.state(d)
    ch.initial(a, b); ch.initial(d, ("deep", e))
    ch.r(b, 1, T, c, a); ch.r(b, x, "defer"); ch.r(b, 2, "defer"); ch.r(c, 1, T, d); ch.r(c, 2, T, b)
    ch.r(c, x, "custom", opts=[("forward",), ("defer",), (T, b), ("discard",)]); ch.r(a, x, "custom", opts=[("defer",), (T, d), ("discard",)])
    ch.r(d, 3, T, a); ch.r(e, 1, T, f); ch.r(f, 1, T, c); ch.r(f, 2, "insr", 0, d); ch.r(d, x, "defer"); ch.r(e, 2, "defer")
    ch.r(f, 0, "custom", opts=[("forward",), ("defer",)])
    return ch


def deferexc():
    """deferring states left by handled exceptions"""
    ch = _c("deferexc", 3, True)
    x = 4
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(a, 1); f = ch.state()
    ch.initial(a, b, d)
    ch.r(b, 1, "defer"); ch.r(b, x, T, c, a); ch.r(b, 2, "custom", opts=[("discard",), (T, c)]); ch.r(c, 1, "insr", 0, c)
    ch.r(c, 2, T, b); ch.r(d, 3, "defer"); ch.r(d, x, T, e); ch.r(e, 3, "insr", 0, a); ch.r(e, 2, T, d, 0)
    ch.r(a, 3, T, f); ch.r(a, x, T, f); ch.r(f, 1, T, a); ch.r(f, 3, "defer"); ch.r(f, x, "custom", opts=[(T, e), ("discard",)])
    ch.r(f, 2, "custom", opts=[("defer",), (T, c)])
    return ch


def manyhist():
    """many history slots: three states with histories in three regions each"""
    ch = _c("manyhist", 6)
    top = ch.state()
    hs, os_ = [], []
    for i in range(3):
        hs.append(ch.state(top, i, ["shallow", "deep", "full"][i]))
        os_.append(ch.state(top, i))
    ch.initial(top, *os_)
    for i, h in enumerate(hs):
        ents = []
        for r in range(3):
            a, b = ch.state(h, r), ch.state(h, r, simple=r == 1)
            ents.append((["shallow", "deep", ["deep", "shallow"][r % 2]][i], a))
            ch.r(a, 4 + r, T, b); ch.r(b, 4 + r, T, a, h)
        ch.initial(h, *ents)
        ch.r(h, 1 + i, T, os_[i]); ch.r(os_[i], 1 + i, T, h); ch.r(os_[i], 4 + i, "custom", opts=[(T, h), ("discard",)])
    return ch


def broad():
    """twelve regions (histories in the last ones), six more inside one of them, long reaction lists"""
    ch = _c("broad", 14)
    top = ch.state(0, 0, "full"); out = ch.state()
    ents = []
    for r in range(12):
        a = ch.state(top, r); b = ch.state(top, r, simple=r % 2 == 1)
        ents.append((["plain", "shallow", "plain", "deep"][r % 4], a))
        ch.r(a, 1 + r, T, b, top if r % 3 else -1); ch.r(b, 1 + r, T, a); ch.r(b, 13, T, a, 0)
    ch.initial(top, *ents)
    ch.r(top, 14, T, out); ch.r(out, 14, T, top)
    for e in range(1, 13):
        ch.r(out, e, "custom", opts=[(T, 1 + 2 * e), (T, 2 + 2 * e, 0), (T, ("shallow", 1 + 2 * e))]) if e < 12 else ch.r(out, e, "defer")
    mid = ch.state(out); low = ch.state(out)
    es = []
    for r in range(6):
        x = ch.state(mid, r); y = ch.state(mid, r)
        es.append(x)
        ch.r(x, 1 + r, T, y, mid); ch.r(y, 7 + r, T, x); ch.r(x, 13, "defer")
    ch.initial(mid, *es); ch.initial(out, mid)
    ch.r(mid, 13, T, low); ch.r(low, 13, T, es[3]); ch.r(low, 1, T, es[5] + 1)
    for e in range(2, 13):
        ch.r(low, e, "insr", 0, low if e % 2 else 0)
    return ch


def abyss():
    """sixteen levels, with a deep history at the top of it"""
    ch = _c("abyss", 4)
    top = ch.state(0, 0, "deep"); z = ch.state()
    p, chain, side = top, [], []
    for i in range(15):
        s = ch.state(p, simple=i % 4 == 2); t = ch.state(p)
        ch.initial(p, ("deep", s) if i == 0 else s)
        chain.append(s); side.append(t)
        p = s
    for i, t in enumerate(side):
        ch.r(t, 1 + i % 2, T, chain[(i * 7 + 3) % 15]); ch.r(t, 3, T, z)
        ch.r(chain[i], 1 + i % 2, T, side[(i * 4 + 9) % 15], [top, 0][i % 2])
    ch.r(chain[-1], 3, T, side[-1]); ch.r(top, 4, T, z); ch.r(z, 4, T, top); ch.r(z, 1, T, chain[9]); ch.r(z, 3, T, ("deep", chain[0]))
    return ch


def anyev():
    ch = _c("anyev")
    a = ch.state(); b = ch.state(a, 0); c = ch.state(a, 0); d = ch.state(a, 1); e = ch.state(d); f = ch.state()
    ch.initial(a, b, d); ch.initial(d, e)
    ch.r(b, 1, "custom", opts=[("forward",), ("discard",)]); ch.r(b, 0, "insr", 0, b); ch.r(b, 2, T, c)
    ch.r(c, 2, "custom", opts=[("forward",), (T, b, a)]); ch.r(c, 2, "insr", 0, a); ch.r(c, 0, "custom", opts=[("forward",), (T, b)])
    ch.r(e, 1, "insr", 0, d); ch.r(e, 1, T, f); ch.r(e, 3, "custom", opts=[("forward",), ("discard",)]); ch.r(e, 2, "insr", 0, -1)
    ch.r(d, 3, "custom", opts=[("forward",), (T, d), ("forward",)]); ch.r(a, 3, "custom", opts=[("forward",), (T, f)])
    ch.r(f, 0, "custom", opts=[("forward",), (T, a), ("discard",)])
    return ch


def wide():
    ch = _c("wide", 4)
    a = ch.state(0, 0, "shallow")
    lo = []
    for r in range(5):
        lo.append((ch.state(a, r, simple=r % 2 == 0), ch.state(a, r)))
    z = ch.state()
    ch.initial(a, *[("shallow", x) if i % 2 else x for i, (x, _) in enumerate(lo)])
    for i, (x, y) in enumerate(lo):
        ch.r(x, 1 + i % 3, T, y, a); ch.r(y, 1 + (i + 1) % 3, T, x)
    ch.r(a, 4, T, z, 0); ch.r(z, 4, T, a); ch.r(z, 1, T, lo[2][1]); ch.r(z, 2, T, lo[4][1]); ch.r(z, 3, T, lo[0][1])
    return ch


def tall():
    ch = _c("tall", 4)
    s = [ch.state()]
    for i in range(6):
        s.append(ch.state(s[-1], 0, "deep" if i == 2 else "none"))
        if i == 2:
            pass
    alt = [ch.state(x) for x in s[:6]]
    z = ch.state()
    for i in range(6):
        ch.initial(s[i], s[i + 1] if i != 3 else ("deep", s[i + 1]))
    for i, x in enumerate(alt):
        ch.r(x, 1 + i % 3, T, s[-1], 0); ch.r(x, 4, T, alt[(i + 2) % 6])
    for i, x in enumerate(s):
        ch.r(x, 1 + i % 3, T, alt[(i * 5 + 1) % 6], ch.common(x, alt[(i * 5 + 1) % 6]))
    ch.r(s[0], 4, T, z); ch.r(z, 4, T, s[0]); ch.r(z, 1, T, s[4]); ch.r(z, 2, T, alt[5])
    return ch


HAND = dict(deferexc=deferexc, exchist=exchist, excdefer=excdefer, manyhist=manyhist, towers=towers, nest=nest, nestrelax=lambda: nest(True), ortho=ortho, orthonest=orthonest,
            orthonestrelax=lambda: orthonest(True), shallow=shallow, shallow2=shallow2, deep=deep,
            deep2=deep2, deepmid=deepmid, full=full, histto=histto, defer=defer, deferortho=deferortho, term=term,
            termhist=termhist, exc=exc, excc=lambda: exc("custom"), excterm=excterm, ladder=ladder, laddersolo=lambda: ladder(False), ladderrelax=lambda: ladder(True, True), excortho=excortho, excmixed=excmixed,
            nohandler=nohandler, anyev=anyev, wide=wide, tall=tall, broad=broad, abyss=abyss)


def hand(name, translator=None, tags=False, own=False):
    ch = HAND[name]()
    ch.name = name
    if translator is not None:
        ch.translator = translator
    if tags:
        for s in range(1, ch.n + 1):
            ch.tags[s] = [t for t in (1, 2) if (s + t) % 3 == 0]
    ch.own = own
    return ch.check()


def S(throw=0, post=0, clr=0, heap=400, self=0, alloc=0, ops=14, init=40, term=40, maxp=30, maxt=5,
      pick=700, lanes=1, out=40, cold=60):
    """parameters of a randomly chosen user"""
    return dict(lanes=lanes, throw=throw, post=post, clr=clr, heap=heap, self=self, alloc=alloc,
                ops=ops, init=init, term=term, maxp=maxp, maxt=maxt, pick=pick, out=out, cold=cold)


def rline(i, seed, p):
    return "R %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
        i, seed, p["lanes"], p["throw"], p["post"], p["clr"], p["heap"], p["self"], p["alloc"],
        p["ops"], p["init"], p["term"], p["maxp"], p["maxt"], p["pick"], p["out"], p["cold"])


ALL = dict(ortho=1, shallow=1, deep=1, custom=3, defer=2, term=1, insr=1, any=1)

# long: users with very long queues or histories, for one chart each;
# hand: (chart, options); mc: (chart, kinds, budget, maxq); users: random users;
# feats: features of random charts; variants: build flags, used in turn
PROFILES = {
    "C01": dict(
        hand=["ladderrelax", "excterm", "broad", "towers", "nest", "ortho", "orthonest", "term", "wide", "tall", "full", "excortho"],
        mc=[("nest", "x", 0, 0), ("ortho", "x", 0, 0), ("term", "t", 1, 0), ("full", "x", 0, 0)],
        feats=[dict(ALL, maxn=12), dict(ALL, translator=True, maxn=10), dict(ortho=1, term=2, custom=2, maxn=12)],
        users=[S(), S(post=150), S(throw=60), S(throw=30, post=100, clr=50)],
        variants=[["st"], ["st", "native"], ["st", "ndebug", "o2"]]),
    "C02": dict(
        hand=["ladderrelax", "abyss", "broad", "nest", "nestrelax", "ortho", "orthonest", "orthonestrelax", "wide", "tall", "deepmid", "histto"],
        mc=[("nest", "x", 0, 0), ("nestrelax", "x", 0, 0), ("ortho", "x", 0, 0), ("orthonest", "x", 0, 0),
            ("orthonestrelax", "x", 0, 0)],
        feats=[dict(ortho=1, custom=2, pact=.7, maxn=12), dict(ortho=1, custom=2, pact=.8, relax=True, maxn=12),
               dict(ortho=1, shallow=1, deep=1, pact=.6, phist=.6, custom=1, rich=1, maxn=12),
               dict(ortho=1, custom=1, pact=.9, relax=True, minn=8, maxn=14)],
        users=[S(), S(ops=20), S(post=100)],
        variants=[["st"], ["st", "native"], ["st", "ndebug", "o2"]]),
    "C03": dict(
        hand=["laddersolo", "excterm", "nest", "ortho", "term", "exc", "excortho", "nohandler", "orthonestrelax"],
        mc=[("exc", "t", 1, 0), ("term", "t", 1, 0), ("ortho", "t", 1, 0)],
        feats=[dict(ALL, maxn=11), dict(ALL, translator=True, rich=1, pact=.6, phist=.6, maxn=10), dict(ortho=1, term=1, custom=2, maxn=12)],
        users=[S(throw=80, init=80, term=80), S(throw=30, alloc=20), S(throw=200), S(init=150, term=100)],
        variants=[["st"], ["st", "native"], ["st", "asan"]]),
    "C04": dict(
        hand=["ladder", "anyev", "nest", "ortho", "excortho", "deferortho"],
        mc=[("anyev", "p", 1, 1), ("anyev", "x", 0, 0), ("ortho", "x", 0, 0)],
        feats=[dict(ortho=1, custom=5, insr=3, any=1, maxn=9), dict(ortho=1, custom=6, insr=2, defer=2, term=1, any=1, rich=1, maxn=10),
               dict(custom=5, insr=3, any=1, defer=1, term=1, rich=1, minn=6, maxn=9, nev=2)],
        users=[S(pick=700), S(pick=900, post=60), S(pick=400, throw=20)],
        variants=[["st"], ["st", "native"]]),
    "C05": dict(
        hand=["nest", "ortho", "defer", "excortho", "term", "anyev"],
        mc=[("nest", "p", 2, 2), ("defer", "po", 1, 2), ("term", "po", 1, 2), ("exc", "tp", 2, 1), ("nest", "k", 2, 2)],
        feats=[dict(ortho=1, custom=3, insr=1, maxn=9), dict(ortho=1, custom=3, defer=2, maxn=9),
               dict(ALL, translator=True, rich=1, maxn=9), dict(ortho=1, custom=2, term=2, maxn=9)],
        users=[S(post=300), S(post=500, maxp=60), S(post=250, throw=40), S(post=900, maxp=200, ops=6),
               S(post=250, init=100, term=100)],
        long=[("nest", S(post=950, maxp=700, ops=4)), ("defer", S(post=950, maxp=600, ops=4))],
        variants=[["st"], ["st", "native"]]),
    "C06": dict(
        hand=["laddersolo", "broad", "defer", "deferortho", "termhist", "nohandler", "deferexc", "excdefer"],
        mc=[("deferexc", "t", 1, 2), ("defer", "k", 1, 2), ("defer", "p", 1, 3), ("deferortho", "p", 1, 3), ("termhist", "p", 1, 2), ("nohandler", "t", 1, 2)],
        feats=[dict(ortho=1, custom=2, defer=5, maxn=8), dict(custom=2, defer=4, insr=1, any=1, maxn=8),
               dict(ortho=1, custom=3, defer=5, translator=True, any=1, rich=1, maxn=9), dict(ortho=1, defer=4, term=2, shallow=1, maxn=8)],
        users=[S(post=100, ops=25), S(ops=40), S(post=250, ops=15, self=300), S(post=100, throw=30, ops=25),
               S(post=100, ops=25, init=80, term=80), S(post=150, throw=100, maxt=12, ops=30, heap=700, self=300)],
        long=[("defer", S(ops=300, pick=950)), ("deferortho", S(post=900, maxp=500, ops=4))],
        variants=[["st"], ["st", "native"]]),
    "C07": dict(
        hand=["broad", "shallow", "shallow2", "full", "wide", "termhist", "histto", "manyhist"],
        mc=[("shallow2", "c", 1, 0), ("histto", "x", 0, 0), ("shallow", "x", 0, 0), ("full", "x", 0, 0), ("shallow2", "t", 1, 0)],
        feats=[dict(ortho=1, shallow=1, custom=1, maxn=11), dict(ortho=1, shallow=1, deep=1, custom=1, phist=.6, pact=.6, rich=1, maxn=11),
               dict(shallow=1, term=1, custom=1, maxn=10)],
        users=[S(ops=25), S(ops=25, clr=60), S(ops=20, throw=20, init=60, term=60), S(ops=25, post=100)],
        variants=[["st"], ["st", "native"]]),
    "C08": dict(
        hand=["broad", "abyss", "deep", "deep2", "deepmid", "full", "tall", "termhist", "histto", "manyhist"],
        mc=[("histto", "x", 0, 0), ("deep", "c", 1, 0), ("deep2", "x", 0, 0), ("deepmid", "c", 1, 0), ("full", "x", 0, 0), ("deep", "t", 1, 0)],
        feats=[dict(deep=1, custom=1, minn=7, maxn=12), dict(ortho=1, deep=1, shallow=1, custom=1, phist=.6, pact=.6, rich=1, maxn=12),
               dict(deep=1, ortho=1, term=1, custom=1, maxn=11)],
        users=[S(ops=25), S(ops=25, clr=60), S(ops=20, throw=20, init=60, term=60), S(ops=25, post=100)],
        variants=[["st"], ["st", "native"]]),
    "C09": dict(
        hand=["ladder", "shallow", "shallow2", "deep", "deep2", "full", "termhist", "nohandler", "histto", "exchist", "manyhist"],
        mc=[("exchist", "t", 1, 0), ("shallow2", "tco", 1, 0), ("deep", "tco", 1, 0), ("deep2", "co", 1, 0), ("full", "c", 1, 0),
            ("termhist", "c", 1, 1)],
        feats=[dict(ortho=1, shallow=1, deep=1, custom=1, maxn=11), dict(ortho=1, shallow=1, deep=1, translator=True, rich=1, phist=.6, pact=.6, custom=2, term=1, maxn=10),
               dict(shallow=1, deep=1, term=2, maxn=10)],
        users=[S(ops=25, clr=150), S(ops=25, clr=60, throw=50), S(ops=25, init=120, term=120), S(ops=20, throw=120, maxt=8)],
        variants=[["st"], ["st", "native"]]),
    "C10": dict(
        hand=["ladder", "excterm", "abyss", "term", "termhist", "ortho", "defer", "full", "orthonest"],
        mc=[("excterm", "t", 1, 0), ("term", "po", 1, 1), ("termhist", "x", 0, 2), ("term", "t", 1, 0), ("defer", "p", 1, 2)],
        feats=[dict(ortho=1, term=4, custom=2, maxn=10), dict(ALL, term=3, maxn=9), dict(ortho=1, term=3, custom=2, translator=True, any=1, rich=1, maxn=10)],
        users=[S(init=150, term=150), S(init=200, term=100, post=150), S(init=150, term=150, throw=40), S(post=100)],
        variants=[["st"], ["st", "native"]]),
    "C11": dict(
        hand=["ladder", "ladderrelax", "laddersolo", "excterm", "exc", "excc", "excortho", "exchist", "excdefer", "excmixed"],
        mc=[("excterm", "t", 1, 0), ("excdefer", "t", 1, 1), ("excmixed", "t", 2, 0), ("exc", "t", 2, 0), ("excortho", "t", 1, 0), ("exc", "tp", 2, 1)],
        feats=[dict(ALL, translator=True, rich=1, term=2, maxn=10), dict(translator=True, custom=4, term=1, defer=1, any=1, insr=1, rich=1, minn=6, maxn=9),
               dict(translator=True, ortho=1, shallow=1, deep=1, custom=2, maxn=9),
               dict(ALL, translator=True, pact=.8, phist=.6, relax=True, rich=1, maxn=10)],
        users=[S(throw=120, maxt=8), S(throw=60, post=100), S(throw=300, maxt=12), S(throw=100, alloc=30), S(throw=60, init=100, term=60),
               S(throw=120, maxt=12, post=150, self=500)],
        variants=[["st"], ["st", "native"]]),
    "C12": dict(
        hand=["ladder", "excterm", "abyss", "nohandler", "ortho", "exc", "excortho", "termhist", "defer", "exchist", "excmixed"],
        mc=[("nohandler", "t", 1, 2), ("ortho", "t", 1, 0), ("exc", "t", 2, 0), ("excmixed", "t", 1, 0), ("defer", "tp", 2, 1)],
        feats=[dict(ALL, maxn=9), dict(ALL, translator=True, rich=1, pact=.6, phist=.6, maxn=10), dict(ortho=1, shallow=1, deep=1, defer=2, custom=1, maxn=10)],
        users=[S(throw=100, maxt=10), S(throw=50, alloc=40, maxt=10), S(throw=60, post=150, maxt=8), S(alloc=80, maxt=10), S(throw=60, init=120)],
        variants=[["st"], ["st", "asan"], ["st", "native"]]),
    "C13": dict(
        hand=["laddersolo", "excterm", "nest", "exc", "excortho", "term", "defer", "nestrelax", "anyev"],
        mc=[("exc", "tp", 2, 1), ("nest", "p", 1, 1), ("defer", "p", 1, 2), ("term", "tp", 1, 1)],
        feats=[dict(ALL, maxn=9), dict(ALL, translator=True, rich=1, maxn=9), dict(ortho=1, custom=2, pact=.7, relax=True, translator=True, maxn=9)],
        users=[S(post=200), S(post=150, throw=60, self=300), S(throw=150, maxt=8), S(post=150, init=120, term=120)],
        variants=[["st"], ["st", "native"]]),
    "C14": dict(
        hand=["defer", "deferortho", "excortho", "nohandler"],
        mc=[("defer", "p", 1, 3), ("deferortho", "tp", 1, 2)],
        feats=[dict(ortho=1, defer=4, custom=2, maxn=8), dict(ALL, translator=True, defer=3, maxn=8), dict(ALL, defer=3, maxn=9)],
        users=[S(post=300, heap=500, self=300), S(post=150, heap=700, self=300, throw=40), S(post=200, self=500, init=80, term=80),
               S(post=150, alloc=30, self=200)],
        variants=[["st", "asan"], ["mt"], ["st", "native"]]),
    "C15": dict(
        hand=["broad", "nest", "ortho", "orthonest", "wide", "tall", "full", "towers", "histto"], tags=True,
        mc=[("towers", "x", 0, 0), ("nest", "x", 0, 0), ("ortho", "x", 0, 0), ("orthonest", "x", 0, 0)],
        feats=[dict(ortho=1, custom=2, insr=1, tags=1, maxn=12), dict(ALL, tags=1, maxn=10), dict(ortho=1, tags=1, shallow=1, deep=1, maxn=12),
               dict(ortho=1, tags=1, custom=1, minn=10, maxn=16)],
        users=[S(), S(post=100), S(init=100, term=100)],
        variants=[["st"], ["st", "native"]]),
    "C22": dict(
        hand=["ladder", "nest", "defer", "deferortho", "excortho", "full", "histto", "manyhist", "term", "excdefer", "broad"], own=True,
        mc=[("defer", "k", 1, 2), ("full", "c", 1, 0), ("excortho", "t", 1, 0)],
        feats=[dict(ALL, maxn=10), dict(ALL, translator=True, rich=1, maxn=10), dict(ortho=1, shallow=1, deep=1, defer=3, custom=1, maxn=10)],
        users=[S(post=250, heap=500, self=300, clr=40), S(post=150, throw=60, self=200, clr=40), S(post=150, alloc=40, init=80, term=80),
               S(ops=30, self=200, heap=600), S(post=200, lanes=2)],
        variants=[["st"], ["st", "native"], ["mt", "asan"], ["st", "ndebug", "o2"]]),
    "C16": dict(
        hand=["shallow2", "defer", "exc", "deep2", "term"],
        mc=[("defer", "p", 1, 2), ("shallow2", "x", 0, 0)],
        feats=[dict(ALL, maxn=8), dict(ALL, translator=True, rich=1, maxn=9), dict(ortho=1, shallow=1, deep=1, defer=2, maxn=9)],
        users=[S(lanes=3, post=80, ops=8), S(lanes=3, post=80, throw=60, ops=8), S(lanes=2, post=150, clr=60, init=80, term=80),
               S(lanes=4, ops=6, throw=40, post=40)],
        variants=[["st"], ["st", "native"], ["mt", "asan"]]),
}


def _named(ch, name):
    ch.name = name
    return ch


def pairs(prop, seed, tier):
    """programs with machines of two types: (chart, chart, flags)"""
    if prop != "C16":
        return []
    out = []
    some = [("defer", "exc"), ("shallow2", "shallow"), ("deep", "excortho"), ("term", "anyev")]
    for i, (a, b) in enumerate(some):
        out.append((_named(hand(a), "p%da" % i), _named(hand(b), "p%db" % i), [["st"], ["st", "native"]][i % 2]))
    for i in range(2 if tier == "quick" else 20):
        rng = random.Random("pair/%d/%d" % (seed, i))
        cs = [_named(random_chart(rng, "x", dict(ALL, maxn=9, translator=j == 1)), "q%d%s" % (i, "ab"[j])) for j in (0, 1)]
        if not cs[0].relax and not cs[1].relax:
            out.append((cs[0], cs[1], [["st"], ["mt", "asan"]][i % 2]))
    return out


def threaded(prop, seed, tier):
    """programs with four threads that have machines of their own"""
    if prop != "C16":
        return []
    out = [(_named(hand(n), "t" + n), f) for n, f in
           [("full", ["mt", "tsan", "threads"]), ("excortho", ["mt", "tsan", "threads", "native"]), ("defer", ["mt", "tsan", "threads"])]]
    for i in range(1 if tier == "quick" else 10):
        rng = random.Random("threads/%d/%d" % (seed, i))
        ch = _named(random_chart(rng, "x", dict(ALL, maxn=9, translator=True)), "u%d" % i)
        out.append((ch, ["mt", "threads"] + ["tsan"] * (i % 2) + ["relax"] * ch.relax))
    return out


def build(prop, seed, nrand):
    """-> list of (chart, flags, is_hand)"""
    p = PROFILES[prop]
    out = []
    var = p["variants"]
    names = list(p["hand"])
    for m in p["mc"]:
        if m[0] not in names:
            names.append(m[0])
    for i, h in enumerate(names):
        out.append((hand(h, tags=p.get("tags", False), own=p.get("own", False)), var[i % len(var)], True))
    for i in range(nrand):
        rng = random.Random("%s/%d/%d" % (prop, seed, i))
        f = p["feats"][i % len(p["feats"])]
        ch = random_chart(rng, "r%d" % i, f)
        ch.own = p.get("own", False) or i % 7 == 3
        out.append((ch, var[(i // len(p["feats"]) + i) % len(var)], False))
    return out

"""C11 (error measure) and C12 (confusion matrix)."""
from dv.spec import *

H = Fraction(1, 2)


def best(r, row, n):
    """Column of the first largest element of a row."""
    return nl.argmax(lambda k: r((row, k)), n)


def measure(m, c, ft, fy, lo, hi, tcls):
    """Documented error of samples lo..hi-1."""
    n, K = sub(hi, lo), c.outputs
    if c.kind == "c":
        return mul(recip(n), sumrows(lo, hi, lambda s: ind(ne(best(fy, s, K), tcls(s)))))
    if c.kind == "ml":
        wrong = lambda s, k: ind(ne(lt(num(H), fy((s, k))), lt(num(H), ft((s, k)))))
        return mul(recip(n), recip(K), sumrows(lo, hi, lambda s: sumrows(num(0), K, lambda k: wrong(s, k))))
    if c.kind == "wc":
        w = lambda k: app("wt", (k,), "R")
        cnt = lambda k: sumrows(lo, hi, lambda s: ind(eq(tcls(s), k)))
        bad = lambda k: sumrows(lo, hi, lambda s: ind(and_(eq(tcls(s), k), ne(best(fy, s, K), k))))
        hit = lambda k: sumrows(lo, hi, lambda s: ind(and_(eq(tcls(s), k), eq(best(fy, s, K), k))))
        if c.cls == "ELM":     # the same number, as the share of rows that are not hits in classes with samples
            return div(sumrows(num(0), K, lambda k: ite(lt(num(0), cnt(k)), mul(w(k), sub(num(1), mul(hit(k), recip(cnt(k))))), num(0))),
                       sumrows(num(0), K, w))
        return div(sumrows(num(0), K, lambda k: mul(w(k), bad(k), recip(tmax(num(1), cnt(k))))),
                   sumrows(num(0), K, w))
    return mul(recip(n), recip(K), sumrows(lo, hi, lambda s: sumrows(num(0), K, lambda k: pow2(sub(ft((s, k)), fy((s, k)))))))


def pow2(x):
    return mul(x, x)


def setup(m, cls, kind, src, prec="double"):
    w = None
    if kind == "wc":
        outs = I(m, "outputs", 2)
        w = m.array((outs,), lambda i: app("wt", (i[0],), "R"), F8)
    c = model(m, cls, None, prec, "" if kind == "r" else kind, w, neurons=False)
    c.kind = kind
    N = I(m, "N", 1)
    T = onehot(m, "T", N, c.outputs) if kind in ("c", "wc") else matrix(m, "T", (N, c.outputs))
    Y = matrix(m, "Y", (N, c.outputs))
    ft, fy = m.rreader(T), m.rreader(Y)
    if src == "file":
        scilib.h5store(m, "t.h5", T)
        scilib.h5store(m, "y.h5", Y)
        T, Y = "t.h5", "y.h5"
    return c, T, Y, ft, fy, N


def _error(cls, kind, src, ranged):
    @harness("C11", "error %s '%s' data=%s%s" % (cls, kind, src, " of a range" if ranged else ""))
    def h(m):
        c, T, Y, ft, fy, N = setup(m, cls, kind, src)
        lo, n, kw = num(0), N, {}
        if ranged:
            istart, icount = I(m, "istart", 0), I(m, "icount", 1)
            m.assume(lt(istart, N))
            lo, n, kw = istart, tmin(icount, sub(N, istart)), dict(istart=istart, icount=icount)
        e = m.call(m.getattr(c.elm, "error"), [T, Y], kw)
        m.prove("is the documented error measure", eq(num(nl.as_term(e)), measure(m, c, ft, fy, lo, add(lo, n), lambda s: app("Tcls", (s,), "I"))))


for kind in ("r", "c", "ml", "wc"):
    _error("ELM", kind, "array", False)
    for src in ("array", "file"):
        _error("HPELM", kind, src, False)
    _error("HPELM", kind, "file", True)


def _conf(cls, kind, src):
    @harness("C12", "confusion %s '%s' data=%s" % (cls, kind, src))
    def h(m):
        c, T, Y, ft, fy, N = setup(m, cls, kind, src)
        r = m.call(m.getattr(c.elm, "confusion"), [T, Y])
        K = c.outputs
        cls_ = lambda s: app("Tcls", (s,), "I")
        if kind == "ml":
            f = lambda ij: sumrows(num(0), N, lambda s: ind(and_(lt(num(H), ft((s, ij[0]))), lt(num(H), fy((s, ij[1]))))))
        else:
            f = lambda ij: sumrows(num(0), N, lambda s: ind(and_(eq(cls_(s), ij[0]), eq(best(fy, s, K), ij[1]))))
        same_elements(m, "entry (i,j) counts the samples of true class i predicted as j", r, f, (K, K))
        if kind != "ml":
            i, j = fresh("i", "I"), fresh("j", "I")
            g = m.rreader(r)
            m.prove("all entries sum to the number of samples",
                    eq(sum_(i, num(0), K, sum_(j, num(0), K, g((i, j)))), real(N)))


for kind in ("c", "wc", "ml"):
    _conf("ELM", kind, "array")
    _conf("HPELM", kind, "array")
    _conf("HPELM", kind, "file")

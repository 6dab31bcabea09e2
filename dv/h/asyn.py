"""C20: asynchronous operation; the reader and writer processes' contracts and their proofs."""
from dv.spec import *
from dv.h.train import stats, weight, train_setup, trained, check_corr, setup, lab
from dv.h.ranges import part, which, with_weights, row_of
from dv.h.corr import stored, given


def all_waited_for(m):
    ps = m.rec(m.fs).d.get("#procs", ())
    for p in ps:
        d = m.rec(p).d
        m.prove("%s(%s) is waited for" % (d["target"].name, d["args"][0]), TRUE if d["joined"] is True else FALSE)
    return ps


def _train(mode, ranged, solver=None, prec="double", dtype=F8):
    @harness("C20", "train_async %s%s solver=%s precision=%s data=%s" % (mode, which(ranged), solver or "python", prec, dtype))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, "HPELM", solver, prec, mode, "file", dtype)
        lo, n, kw = part(m, N, ranged)
        hi = add(lo, n)
        opts.update(kw)
        m.call(m.getattr(c.elm, "train_async"), [X, T] + args, opts)
        trained(m, c, *stats(m, c, fx, ft, lo, hi, weight(m, c, weights, ft, lo, hi)))
        all_waited_for(m)


for mode in ("r", "c", "ml", "wc given", "wc auto"):
    for ranged in (False, True):
        _train(mode, ranged)
for r in ("istart", "icount"):
    _train("r", r)
    _train("wc auto", r)
_train("r", False, "basic")
_train("wc given", True, "basic", "single", F4)


def _add(weights, ranged, first, solver=None):
    @harness("C20", "add_data_async weights=%s%s statistics to %s solver=%s" % (weights or "none", which(ranged), first or "memory", solver or "python"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", solver, "double", weights, "file")
        lo, n, opts = part(m, N, ranged)
        hi = add(lo, n)
        if first:
            opts.update(fHH="hh.h5", fHT="ht.h5")
        S, R = stats(m, c, fx, ft, lo, hi, weight(m, c, weights, ft, lo, hi), norm=first != "old files")
        if first == "old files":
            HH, HT, f, g = given(m, c)
            scilib.h5store(m, "hh.h5", HH)
            scilib.h5store(m, "ht.h5", HT)
            S0, R0 = S, R
            S, R = lambda ij: add(f(ij), S0(ij)), lambda ij: add(g(ij), R0(ij))
        m.call(m.getattr(c.elm, "add_data_async"), [X, T], opts)
        if first:
            stored(m, c, S, R)
        else:
            check_corr(m, c, S, R)
        all_waited_for(m)


for w in (None, "given", "auto"):
    for ranged in (False, True):
        _add(w, ranged, None)
for r in ("istart", "icount"):
    _add(None, r, None)
    _add("auto", r, None)
_add(None, False, None, "basic")
_add(None, True, "new files")
_add("given", False, "new files", "basic")
_add(None, False, "old files")
_add("given", True, "old files")


def _predict(ranged, solver=None, prec="double"):
    @harness("C20", "predict_async%s solver=%s precision=%s" % (which(ranged), solver or "python", prec))
    def h(m):
        c = model(m, "HPELM", solver, prec)
        with_weights(m, c)
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs))
        fx = m.rreader(X)
        scilib.h5store(m, "x.h5", X)
        istart, n, kw = part(m, N, ranged)
        m.call(m.getattr(c.elm, "predict_async"), ["x.h5", "out.h5"], kw)
        all_waited_for(m)
        same_elements(m, "row i of the file belongs to sample istart+i", h5read(m, "out.h5"), row_of(c, fx, None, istart), (n, c.outputs))
        same_elements(m, "output weights are unchanged", m.getattr(c.nnet, "B"), lambda i: app("Beta", tuple(i), "R"), (c.L, c.outputs))


for ranged in (False, True):
    for prec in ("double", "single"):
        _predict(ranged, None, prec)
_predict(True, "basic")
_predict("istart")
_predict("icount")


# ---------------------------------------------------------------- the processes themselves
def rd(d, key):
    if isinstance(d[key], Junk):
        raise JunkRead(d[key].loc)
    return num(d[key])


@harness("C20", "_ireader answers every non-empty request, in order, with the rows asked for, and ends at the first empty one")
def _(m):
    n, k = I(m, "rows", 1), I(m, "cols", 1)
    A = matrix(m, "A", (n, k))
    fa = m.rreader(A)
    scilib.h5store(m, "x.h5", A)
    S, E = (lambda g: app("S", (g,), "I")), (lambda g: app("E", (g,), "I"))
    st = m.new("nat", {"got": 0, "put": 0}, "envq")

    def get(mm, a, kw):
        d = m.rec(st).d
        g = rd(d, "got")
        m.prove("every request but the last is answered before the next is taken", eq(rd(d, "put"), g))
        m.prove("no request is taken after an empty one", or_(le(g, num(0)), lt(S(sub(g, num(1))), E(sub(g, num(1))))))
        d["got"] = nl.pyfix(add(g, num(1)))
        m.assume(implies(lt(S(g), E(g)), and_(le(num(0), S(g)), le(E(g), n))))
        return (S(g), E(g))

    def put(mm, a, kw):
        d = m.rec(st).d
        g = sub(rd(d, "got"), num(1))
        m.prove("one answer per request", eq(rd(d, "put"), g))
        m.prove("an empty request has no answer", lt(S(g), E(g)))
        same_elements(m, "the answer holds the rows asked for", a[0], lambda i: fa((add(i[0], S(g)), i[1])), (sub(E(g), S(g)), k))
        d["put"] = nl.pyfix(add(rd(d, "put"), num(1)))
    qi, qo = m.new("nat", {"get": Native("get", get)}, "attrs"), m.new("nat", {"put": Native("put", put)}, "attrs")
    m.call(m.get("hpelm.modules.hdf5_tools", "_ireader"), ["x.h5", qi, qo])
    d = m.rec(st).d
    g = sub(rd(d, "got"), num(1))
    m.prove("it ends at an empty request", le(E(g), S(g)))
    m.prove("all requests before it were answered", eq(rd(d, "put"), g))
    same_elements(m, "the file is closed and unchanged", h5read(m, "x.h5"), fa, (n, k))


@harness("C20", "_iwriter writes every block to its place and ends at None with the file complete and closed")
def _(m):
    n, k, B = I(m, "rows", 1), I(m, "cols", 1), I(m, "block", 1)
    A = matrix(m, "A", (n, k))
    fa = m.rreader(A)
    scilib.h5store(m, "out.h5", A)
    N = I(m, "N", 1)
    m.assume(le(N, n))
    st = m.new("nat", {"got": 0}, "envq")

    def get(mm, a, kw):
        d = m.rec(st).d
        g = rd(d, "got")
        m.prove("nothing is taken after the end marker", le(mul(sub(g, num(1)), B), sub(N, num(1))))
        d["got"] = nl.pyfix(add(g, num(1)))
        lo = mul(g, B)
        hi = tmin(mul(add(g, num(1)), B), N)
        if m.branch(le(N, lo)):
            return None
        rows = m.array((sub(hi, lo), k), lambda i: app("Row", (add(i[0], lo), i[1]), "R"), F8)
        return (rows, lo, hi)
    qi = m.new("nat", {"get": Native("get", get)}, "attrs")
    m.call(m.get("hpelm.modules.hdf5_tools", "_iwriter"), ["out.h5", qi])
    same_elements(m, "the file holds every block at its place, other rows as before", h5read(m, "out.h5"),
                  lambda i: ite(lt(i[0], N), app("Row", tuple(i), "R"), fa(i)), (n, k))

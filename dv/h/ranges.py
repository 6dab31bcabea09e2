"""C03 (sample ranges) and C04 (prediction), C05 callers of the projection."""
from dv.spec import *
from dv.h.train import stats, weight, train_setup, trained, check_corr, setup, lab


def rng(m, N):
    """A requested range and the samples it selects."""
    istart, icount = I(m, "istart", 0), I(m, "icount", 0)
    m.assume(lt(istart, N))
    m.assume(lt(num(0), icount))
    return istart, icount, tmin(icount, sub(N, istart))


def part(m, N, ranged):
    """ranged: False, True (both given), "istart" or "icount" -> first sample, number of samples, options."""
    if not ranged:
        return num(0), N, {}
    istart, icount, n = rng(m, N)
    if ranged == "istart":
        return istart, sub(N, istart), dict(istart=istart)
    if ranged == "icount":
        return num(0), tmin(icount, N), dict(icount=icount)
    return istart, n, dict(istart=istart, icount=icount)


def which(ranged):
    return " of a range" + (" given by " + ranged if isinstance(ranged, str) else "") if ranged else ""


def with_weights(m, c):
    B = matrix(m, "Beta", (c.L, c.outputs), c.prec)
    m.call(m.getattr(c.nnet, "set_B"), [B])


def row_of(c, fx, B, start):
    return lambda i: sumrows(num(0), c.L, lambda k: mul(hid(c.m, fx, add(i[0], start), c.inputs, k), app("Beta", (k, i[1]), "R")))


# ---------------------------------------------------------------- training and feeding a range
def _add(solver, weights, src, ranged=True):
    @harness("C03", "add_data%s, weights=%s data=%s solver=%s" % (which(ranged), weights or "none", src, solver or "python"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", solver, "double", weights, src)
        istart, n, kw = part(m, N, ranged)
        m.call(m.getattr(c.elm, "add_data"), [X, T], kw)
        hi = add(istart, n)
        check_corr(m, c, *stats(m, c, fx, ft, istart, hi, weight(m, c, weights, ft, istart, hi)))


for s in (None, "basic"):
    for w in (None, "given", "auto"):
        for src in ("array", "file"):
            _add(s, w, src)
for r in ("istart", "icount"):
    for w in (None, "auto"):
        _add(None, w, "file", r)


def _train(mode, src, only):
    @harness("C03", "train on a range %s data=%s given=%s" % (mode, src, only))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, "HPELM", None, "double", mode, src)
        istart, icount, n = rng(m, N)
        if only == "istart":
            n = sub(N, istart)
            opts["istart"] = istart
        elif only == "icount":
            istart, n = num(0), tmin(icount, N)
            opts["icount"] = icount
        else:
            opts.update(istart=istart, icount=icount)
        m.call(m.getattr(c.elm, "train"), [X, T] + args, opts)
        hi = add(istart, n)
        trained(m, c, *stats(m, c, fx, ft, istart, hi, weight(m, c, weights, ft, istart, hi)))


for k in (("r", "file", "both"), ("c", "array", "both"), ("wc given", "file", "both"), ("wc auto", "file", "both"), ("r", "file", "istart"),
          ("r", "array", "icount"), ("wc auto", "array", "icount")):
    _train(*k)


# ---------------------------------------------------------------- produced outputs
def outputs_of(m, c, out, cols, rows, extra):
    """Where the result goes -> (argument, function returning the produced array)."""
    if out == "returned":
        return None, None
    if out == "file":
        return "out.h5", lambda: h5read(m, "out.h5")
    r = I(m, "rows", 0)
    m.assume(le(rows, r))
    a = matrix(m, "old", (r, cols), c.prec)
    return a, lambda: a


def produce(prop, op, cls, src, out, ranged, prec, dtype=F8, solver=None):
    label = "%s %s data=%s result=%s precision=%s%s%s%s" % (cls, op, src, out, prec, which(ranged),
                                                          " " + str(dtype) if dtype is not F8 else "", " solver=basic" if solver else "")

    @harness(prop, label)
    def h(m):
        c = model(m, cls, solver, prec)
        with_weights(m, c)
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs), dtype)
        fx = m.rreader(X)
        if src == "file":
            scilib.h5store(m, "x.h5", X)
            X = "x.h5"
        istart, n, kw = part(m, N, ranged)
        cols = c.outputs if op == "predict" else c.L
        where, get = outputs_of(m, c, out, cols, n, True)
        before = m.rreader(where) if isinstance(where, Arr) else None
        args = [X] if where is None else [X, where]
        r = m.call(m.getattr(c.elm, op), args, kw)
        f = row_of(c, fx, None, istart) if op == "predict" else lambda i: hid(m, fx, add(i[0], istart), c.inputs, i[1])
        if where is None:
            same_elements(m, "row i of the result belongs to sample istart+i", r, f, (n, cols))
        elif out == "file":
            same_elements(m, "row i of the file belongs to sample istart+i", get(), f, (n, cols))
        else:
            # rows behind the range keep what they held
            g = lambda i: ite(lt(i[0], n), f(i), before(i))
            same_elements(m, "row i of the given array belongs to sample istart+i, rows behind are untouched", where, g, where.shape)
        if prop == "C04":
            same_elements(m, "output weights are unchanged", m.getattr(c.nnet, "B"), lambda i: app("Beta", tuple(i), "R"), (c.L, c.outputs))


for op in ("predict", "project"):
    for src in ("array", "file"):
        for out in ("returned", "array", "file"):
            produce("C03", op, "HPELM", src, out, True, "double")
    produce("C03", op, "HPELM", "array", "returned", False, "double")
    for r in ("istart", "icount"):
        produce("C03", op, "HPELM", "array", "returned", r, "double")
        produce("C03", op, "HPELM", "file", "file", r, "double")
for prec in ("double", "single"):
    for solver in (None, "basic"):
        produce("C04", "predict", "ELM", "array", "returned", False, prec, solver=solver)
        for out in ("returned", "array", "file"):
            produce("C04", "predict", "HPELM", "file", out, False, prec, solver=solver)
produce("C04", "predict", "HPELM", "array", "returned", False, "double", F4)
produce("C04", "predict", "ELM", "array", "returned", False, "double", I8)


@harness("C04", "a row of the prediction depends on its own sample only")
def _(m):
    c = model(m, "HPELM")
    with_weights(m, c)
    N, M = I(m, "N", 1), I(m, "M", 1)
    X, Y = matrix(m, "X", (N, c.inputs)), matrix(m, "X2", (M, c.inputs))
    r, q = I(m, "r", 0), I(m, "q", 0)
    m.assume(lt(r, N))
    m.assume(lt(q, M))
    fx = m.rreader(X)
    row = m.rreader(Y)
    # sample q of the second data set equals sample r of the first
    Y2 = m.array((M, c.inputs), lambda i: ite(eq(i[0], q), fx((r, i[1])), row(i)), F8)
    a = m.call(m.getattr(c.elm, "predict"), [X])
    b = m.call(m.getattr(c.elm, "predict"), [Y2])
    j = I(m, "j", 0)
    m.assume(lt(j, c.outputs))
    m.prove("equal samples give equal rows", eq(m.rreader(a)((r, j)), m.rreader(b)((q, j))))

for k in (("ELM", "array", "returned"), ("HPELM", "array", "returned"), ("HPELM", "file", "file"), ("HPELM", "file", "array")):
    produce("C05", "project", k[0], k[1], k[2], False, "double")

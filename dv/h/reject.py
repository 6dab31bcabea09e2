"""C14: malformed data and neurons are rejected before the model changes; one-dimensional data is a column."""
from dv.spec import *
from dv.h.train import stats, trained
from dv.h.options import SELECT, stub

KINDS = ("columns of X", "columns of T", "more rows in X", "fewer rows in X", "3-D X", "3-D T", "0-D X", "object X", "object T", "string X", "bytes T")


def bad(m, c, what, N):
    """(X, T) that are wrong in one respect only."""
    X, T = (N, c.inputs), (N, c.outputs)
    dx = dt = F8
    if what.startswith("columns"):
        k = I(m, "columns", 0)
        m.assume(ne(k, c.inputs if what.endswith("X") else c.outputs))
        X, T = ((N, k), T) if what.endswith("X") else (X, (N, k))
    elif "rows" in what:
        k = I(m, "M", 0)
        m.assume(lt(N, k) if "more" in what else lt(k, N))
        X = (k, c.inputs)
    elif what == "3-D X":
        X = X + (I(m, "depth", 1),)
    elif what == "3-D T":
        T = T + (I(m, "depth", 1),)
    elif what == "0-D X":
        X = ()
    dx = {"object X": OBJ, "string X": STR}.get(what, F8)
    dt = {"object T": OBJ, "bytes T": BYTES}.get(what, F8)
    return matrix(m, "X", X, dx), matrix(m, "T", T, dt)


def states(m, c, trained):
    if trained:
        m.call(m.getattr(c.nnet, "set_B"), [matrix(m, "Beta", (c.L, c.outputs), c.prec)])
    m.call(m.getattr(c.nnet, "set_corr"), [matrix(m, "HHold", (c.L, c.L), c.prec), matrix(m, "HTold", (c.L, c.outputs), c.prec)])


def still(m, before, c):
    """The model, the arguments and the files are as they were (a handle may be open for reading)."""
    but = {m.rec(c.elm).d["opened_hdf5"].id} | {i for i, r in before.items() if r.kind == "node" or r.kind == "nat"}
    unchanged(m, before, "nothing has changed", but=but)


def _data(cls, op, what, src="array", state=True):
    @harness("C14", "%s %s rejects %s data=%s %s" % (cls, op, what, src, "trained model" if state else "model without solution"))
    def h(m):
        c = model(m, cls, None, "double", classification="c" if op == "confusion" else "")
        states(m, c, state)
        N = I(m, "N", 1)
        X, T = bad(m, c, what, N)
        ok = matrix(m, "Tok", (N, c.outputs))
        Xok = matrix(m, "Xok", (N, c.inputs))
        for q in SELECT:
            m.overrides[q] = stub([], q)
        if src == "file":
            scilib.h5store(m, "x.h5", X)
            scilib.h5store(m, "t.h5", T)
            X, T = "x.h5", "t.h5"
        f = m.getattr(c.elm, "train" if op.startswith("train") else op.split()[0])
        args = {"train": [X, T], "train V": [X, T, "V"], "train V set": [Xok, ok, "V"], "train CV": [X, T, "CV"], "train LOO": [X, T, "loo"],
                "train wc": [X, T, "wc"], "add_data": [X, T], "predict": [X], "project": [X], "error T": [T, ok], "error Y": [ok, T],
                "confusion": [T, ok]}[op]
        kw = {"train V": dict(Xv=Xok, Tv=ok), "train V set": dict(Xv=X, Tv=T), "train CV": dict(k=3)}.get(op, {})
        before = take(m)
        rejects(m, lambda: m.call(f, args, kw), "an error is raised")
        still(m, before, c)


for what in KINDS:
    for cls, op in (("ELM", "train"), ("HPELM", "train"), ("HPELM", "add_data")):
        _data(cls, op, what)
    _data("ELM", "train V set", what)
    if "X" in what and "rows" not in what:
        for cls in ("ELM", "HPELM"):
            _data(cls, "predict", what)
            _data(cls, "project", what, state=False)
    if "T" in what:
        for cls in ("ELM", "HPELM"):
            _data(cls, "error T", what)
            _data(cls, "error Y", what)
for what in ("columns of X", "more rows in X", "columns of T"):
    for op in ("train V", "train CV", "train LOO", "train wc"):
        _data("ELM", op, what, state=False)
    for op in ("train", "add_data", "train wc"):
        _data("HPELM", op, what, "file")
for op, what in (("predict", "columns of X"), ("project", "columns of X"), ("error T", "columns of T"), ("error Y", "columns of T")):
    _data("HPELM", op, what, "file")


# ---------------------------------------------------------------- neurons
def _neurons(cls, what):
    @harness("C14", "add_neurons %s rejects %s" % (cls, what))
    def h(m):
        c = model(m, cls, None, "double")
        states(m, c, True)
        n, d = I(m, "n", 1), c.inputs
        k = I(m, "k", 0)
        number, func, W, B = nl.pyfix(n), "tanh", (d, n), (n,)
        if what == "a count that is a float":
            number = var("fnumber", "R")
            m.assume(eq(number, real(n)))
        elif what == "a count that is text":
            number = "3"
        elif what == "no count":
            number = None
        elif what.startswith("type"):
            func = what[5:]
        elif what == "no type":
            func = None
        elif what in ("rows of W", "columns of W", "length of B"):
            m.assume(ne(k, d if what[0] == "r" else n))
            W = {"r": (k, n), "c": (d, k)}.get(what[0], W)
            B = (k,) if what[0] == "l" else B
        elif what == "W transposed":
            m.assume(ne(d, n))
            W = (n, d)
        elif what == "1-D W":
            W = (mul(n, d),)
        elif what == "3-D W":
            W = (d, n, num(1))
        elif what == "2-D B":
            B = (n, num(1))
        W, B = matrix(m, "W1", W), matrix(m, "B1", B)
        if what == "W a list":
            W = m.newlist([1.0])
            m.assume(eq(n, num(1)))
            m.assume(eq(d, num(1)))
        if what == "B a list":
            B = m.newlist([1.0])
            m.assume(eq(n, num(1)))
        if what == "a Python function":
            func = m.getattr(c.elm, "train")
        before = take(m)
        rejects(m, lambda: m.call(m.getattr(c.elm, "add_neurons"), [number, func, W, B]))
        unchanged(m, before, "nothing has changed")


for what in ("a count that is a float", "a count that is text", "no count", "type sigmoid", "type ", "type LIN", "type rbf_l3", "type rbf", "no type",
             "a Python function", "rows of W", "columns of W", "length of B", "W transposed", "1-D W", "3-D W", "2-D B", "W a list", "B a list"):
    _neurons("ELM", what)
for what in ("a count that is a float", "type tan", "columns of W", "length of B"):
    _neurons("HPELM", what)


# ---------------------------------------------------------------- one-dimensional data
def _column(cls, dtype):
    @harness("C14", "one-dimensional data is a single column, %s %s" % (cls, dtype))
    def h(m):
        c = model(m, cls, None, "double")
        m.assume(eq(c.inputs, num(1)))
        m.assume(eq(c.outputs, num(1)))
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N,), dtype), matrix(m, "T", (N,), dtype)
        fx, ft = m.rreader(X), m.rreader(T)
        gx, gt = lambda i: fx((i[0],)), lambda i: ft((i[0],))
        m.call(m.getattr(c.elm, "train"), [X, T])
        HH, HT = stats(m, c, gx, gt, num(0), N)
        trained(m, c, HH, HT)
        Y = m.call(m.getattr(c.elm, "predict"), [X])
        m.prove("one prediction per sample", and_(eq(Y.shape[0], N), eq(Y.shape[1], num(1))) if Y.ndim == 2 else FALSE)
        H = m.call(m.getattr(c.elm, "project"), [X])
        same_elements(m, "hidden layer of the column", H, lambda i: hid(m, gx, i[0], c.inputs, i[1]), (N, c.L))
        same_elements(m, "X is unchanged", X, fx, (N,))
        same_elements(m, "T is unchanged", T, ft, (N,))


for k in (("ELM", F8), ("HPELM", F8), ("ELM", I8)):
    _column(*k)

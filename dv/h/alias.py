"""C15: the caller's arrays are not modified and the model keeps no reference to them."""
from dv.spec import *
from dv.h.train import train_setup, setup, targets
from dv.h.corr import given
from dv.h.ranges import with_weights, rng


def reach(m, v, seen=None, bufs=None):
    """Buffers reachable from a value."""
    seen = set() if seen is None else seen
    bufs = set() if bufs is None else bufs
    if isinstance(v, Arr):
        bufs.add(v.buf)
    elif isinstance(v, (tuple, list)):
        for x in v:
            reach(m, x, seen, bufs)
    elif isinstance(v, dict):
        for x in v.values():
            reach(m, x, seen, bufs)
    elif isinstance(v, Ref):
        if v.id not in seen:
            seen.add(v.id)
            r = m.rec(v)
            if r.kind == "symlist":
                reach(m, r.d["fn"](fresh("q", "I")), seen, bufs)
            else:
                reach(m, r.d, seen, bufs)
                reach(m, r.x if isinstance(r.x, (list, tuple)) and r.kind != "buf" else None, seen, bufs)
    return bufs


class Kept(object):
    """The caller's arrays, and the obligations about them."""

    def __init__(self, m, c, **arrays):
        self.m, self.c = m, c
        self.arrays = {k: (a, m.rreader(a), a.shape) for k, a in arrays.items() if isinstance(a, Arr)}

    def check(self, model=True):
        m = self.m
        own = reach(m, self.c.elm) if model else set()
        for k, (a, f, shape) in sorted(self.arrays.items()):
            same_elements(m, "%s is unchanged" % k, a, f, shape)
            if model:
                m.prove("the model keeps no reference to %s" % k, TRUE if a.buf not in own else FALSE)


DT = {"double": F8, "single": F4}


def _train(cls, solver, prec, mode, op):
    @harness("C15", "%s %s solver=%s precision=%s %s" % (op, cls, solver or "python", prec, mode))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, cls, solver, prec, mode, "array", DT[prec])
        k = Kept(m, c, X=X, T=T, **opts)
        if op == "train":
            m.call(m.getattr(c.elm, "train"), [X, T] + args, opts)
        else:
            m.setattr(c.elm, "classification", None if mode == "r" else "wc")
            if opts:
                m.setattr(c.elm, "wc", m.array((c.outputs,), m.rreader(opts["w"]), F8))
            m.call(m.getattr(c.elm, "add_data"), [X, T])
        k.check()
        if op == "train":       # nothing of the results is the caller's either
            B = m.getattr(c.nnet, "B")
            m.prove("the weights are an array of their own", TRUE if B.buf not in {a.buf for a, _, _ in k.arrays.values()} else FALSE)


for cls in ("ELM", "HPELM"):
    for solver in (None, "basic"):
        for mode in ("r", "wc given"):
            for op in ("train", "add_data"):
                _train(cls, solver, "double", mode, op)
    _train(cls, None, "single", "r", "train")
    _train(cls, None, "double", "wc auto", "train")
    _train(cls, None, "double", "ml", "train")


def _use(cls, op, kind=""):
    @harness("C15", "%s %s %s" % (op, cls, kind))
    def h(m):
        w = None
        if kind == "wc":
            outs = I(m, "outputs", 2)
            w = m.array((outs,), lambda i: app("wt", (i[0],), "R"), F8)
        c = model(m, cls, None, "double", classification=kind, w=w)
        with_weights(m, c)
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs))
        T = targets(m, c, kind, N)
        Y = matrix(m, "Y", (N, c.outputs))
        k = Kept(m, c, X=X, T=T, Y=Y, **({"w": w} if w is not None else {}))
        before = take(m)
        args = [X] if op in ("predict", "project") else [T, Y]
        r = m.call(m.getattr(c.elm, op), args)
        k.check()
        unchanged(m, before, "nothing that existed before has changed")
        if isinstance(r, Arr):
            m.prove("the result is an array of its own", TRUE if r.buf not in set(before) else FALSE)


for cls in ("ELM", "HPELM"):
    for op in ("predict", "project"):
        _use(cls, op)
    for kind in ("", "c", "wc", "ml"):
        _use(cls, "error", kind)
        if kind:
            _use(cls, "confusion", kind)


def _neurons(cls, solver, prec, t, merged, dtype):
    @harness("C15", "add_neurons %s solver=%s precision=%s %s%s given=%s" % (cls, solver or "python", prec, t, " twice" if merged else "", dtype))
    def h(m):
        c = model(m, cls, solver, prec, neurons=False)
        n = I(m, "n", 1)
        W, B = matrix(m, "W1", (c.inputs, n), dtype), matrix(m, "B1", (n,), dtype)
        k = Kept(m, c, W=W, B=B)
        for _ in range(2 if merged else 1):
            m.call(m.getattr(c.elm, "add_neurons"), [nl.pyfix(n), t, W, B])
        k.check()


for k in (("ELM", None, "double", "tanh", False, F8), ("ELM", None, "double", "tanh", True, F8), ("HPELM", "basic", "double", "rbf_l2", False, F8),
          ("ELM", None, "single", "sigm", False, F4), ("HPELM", None, "single", "lin", True, F4), ("ELM", "basic", "single", "lin", False, F8)):
    _neurons(*k)


@harness("C15", "class weights given to the constructor")
def _(m):
    outs = I(m, "outputs", 2)
    w = m.array((outs,), lambda i: app("wt", (i[0],), "R"), F8)
    c = model(m, "ELM", None, "double", "wc", w)
    Kept(m, c, w=w).check()


def _set(cls, solver, prec, then):
    @harness("C15", "set_corr and set_B%s %s solver=%s precision=%s" % (then, cls, solver or "python", prec))
    def h(m):
        c = model(m, cls, solver, prec)
        HH, HT, f, g = given(m, c)
        B = matrix(m, "Beta", (c.L, c.outputs), c.prec)
        k = Kept(m, c, HH=HH, HT=HT, B=B)
        m.call(m.getattr(c.nnet, "set_corr"), [HH, HT])
        m.call(m.getattr(c.nnet, "set_B"), [B])
        if "feed" in then:
            N = I(m, "N", 1)
            m.call(m.getattr(c.elm, "add_data"), [matrix(m, "X", (N, c.inputs), c.prec), matrix(m, "T", (N, c.outputs), c.prec)])
        if "read" in then:
            m.call(m.getattr(c.nnet, "get_corr"), [])
        if "solve" in then:
            m.call(m.getattr(c.nnet, "solve"), [])
        k.check()


for cls in ("ELM", "HPELM"):
    for solver in (None, "basic"):
        _set(cls, solver, "double", ", read, feed, read, solve")
        _set(cls, solver, "single", "")
        _set(cls, solver, "double", ", solve")


def _solve(cls, solver):
    @harness("C15", "nnet.solve_corr leaves the matrices it is given, %s solver=%s" % (cls, solver or "python"))
    def h(m):
        c = model(m, cls, solver)
        HH, HT, f, g = given(m, c)
        k = Kept(m, c, HH=HH, HT=HT)
        before = take(m)
        m.call(m.getattr(c.nnet, "solve_corr"), [HH, HT])
        k.check()
        unchanged(m, before, "the model is unchanged")


_solve("ELM", None)
_solve("HPELM", "basic")


# ---------------------------------------------------------------- files

def _files(op, ranged):
    @harness("C15", "HPELM %s%s leaves its input files" % (op, " of a range" if ranged else ""))
    def h(m):
        c = model(m, "HPELM", None, "double", classification="c" if op == "confusion" else "")
        with_weights(m, c)
        N = I(m, "N", 1)
        fs = dict(X=matrix(m, "X", (N, c.inputs)), T=matrix(m, "T", (N, c.outputs)), Y=matrix(m, "Y", (N, c.outputs)))
        k = Kept(m, c, **fs)
        for x in fs:
            scilib.h5store(m, x + ".h5", fs[x])
        kw = {}
        if ranged:
            istart, icount, n = rng(m, N)
            kw = dict(istart=istart, icount=icount)
        args = {"train": ["X.h5", "T.h5"], "add_data": ["X.h5", "T.h5"], "predict": ["X.h5", "out.h5"], "project": ["X.h5", "out.h5"],
                "error": ["T.h5", "Y.h5"], "confusion": ["T.h5", "Y.h5"]}[op]
        m.call(m.getattr(c.elm, op), args, kw)
        for x, a in fs.items():
            st = m.rec(m.rec(m.fs).d[x + ".h5"])
            arr = m.rec(st.d["node"]).d["_arr"]
            same_elements(m, "the file of %s is unchanged" % x, arr, k.arrays[x][1], a.shape)


for op in ("train", "add_data", "predict", "project", "error"):
    _files(op, False)
    _files(op, True)
_files("confusion", False)


def _corrfiles(op):
    @harness("C15", "HPELM %s leaves the correlation files" % op)
    def h(m):
        c = model(m, "HPELM")
        HH, HT, f, g = given(m, c)
        scilib.h5store(m, "HH.h5", HH)
        scilib.h5store(m, "HT.h5", HT)
        k = Kept(m, c, HH=HH, HT=HT)
        m.call(m.getattr(c.elm, op), ["HH.h5", "HT.h5"])
        for x, a in (("HH", HH), ("HT", HT)):
            st = m.rec(m.rec(m.fs).d[x + ".h5"])
            same_elements(m, "the file of %s is unchanged" % x, m.rec(st.d["node"]).d["_arr"], k.arrays[x][1], a.shape)


_corrfiles("solve_corr")

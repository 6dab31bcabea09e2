"""C22: training starts afresh; feeding data accumulates until reset; reset keeps the solution."""
from dv.spec import *
from dv.h.train import train_setup, stats, trained, weight, check_corr, setup, MODES
from dv.h.corr import given
from dv.h.options import SELECT


def history(m, c, past):
    """Traces of earlier training and data feeding: any statistics, solution, class weights, mode, ranking."""
    HH, HT, f, g = given(m, c)
    m.call(m.getattr(c.nnet, "set_corr"), [HH, HT])
    m.call(m.getattr(c.nnet, "set_B"), [matrix(m, "Bold", (c.L, c.outputs), c.prec)])
    m.setattr(c.elm, "ranking", "OP")
    m.setattr(c.elm, "kmax_op", nl.pyfix(I(m, "kold", 1)))
    m.setattr(c.elm, "wc", m.array((c.outputs,), lambda i: app("wold", (i[0],), "R"), F8))
    m.setattr(c.elm, "classification", past)
    return f, g


def _train(cls, solver, prec, mode, src, past):
    @harness("C22", "train %s solver=%s precision=%s %s data=%s after any %s training" % (cls, solver or "python", prec, mode, src, past or "regression"))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, cls, solver, prec, mode, src)
        history(m, c, past)
        m.call(m.getattr(c.elm, "train"), [X, T] + args, opts)
        HH, HT = stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N))
        trained(m, c, HH, HT)
        check_corr(m, c, HH, HT, "statistics left: ")
        word = (MODES[mode][0] or "").lower()
        m.prove("mode", TRUE if m.getattr(c.elm, "classification") == ({"r": None, "": None}.get(word, word)) else FALSE)
        w = m.getattr(c.elm, "wc")
        if weights is None:
            m.prove("no former class weights", TRUE if w is None else FALSE)
        m.prove("no former ranking", TRUE if m.getattr(c.elm, "ranking") is None and m.getattr(c.elm, "kmax_op") is None else FALSE)


for cls, src in (("ELM", "array"), ("HPELM", "file")):
    for solver in (None, "basic"):
        for mode in ("none", "wc auto"):
            _train(cls, solver, "double", mode, src, "wc")
    for mode in ("r", "c", "ml", "wc given"):
        _train(cls, None, "double", mode, src, "ml" if mode != "ml" else "wc")
_train("ELM", None, "single", "none", "array", "c")


def _twice(cls, solver, mode, first):
    @harness("C22", "train %s solver=%s %s after train %s on other data" % (cls, solver or "python", mode, first))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, cls, solver, "double", mode, "array")
        if first:
            m.assume(lt(num(1), c.outputs))
        M = I(m, "M", 1)
        X2 = matrix(m, "X2", (M, c.inputs))
        T2 = onehot(m, "T2", M, c.outputs) if first == "wc" else matrix(m, "T2", (M, c.outputs))
        m.call(m.getattr(c.elm, "train"), [X2, T2] + ([first] if first else []))
        m.call(m.getattr(c.elm, "train"), [X, T] + args, opts)
        trained(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)))


_twice("ELM", None, "none", "wc")
_twice("ELM", "basic", "wc auto", "wc")
_twice("HPELM", "basic", "r", "c")


def _select(select, op, mode):
    @harness("C22", "train with %s%s %s starts the selection afresh" % (select, " OP" if op else "", mode))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, "ELM", None, "double", mode, "array")
        history(m, c, "wc")
        seen = []

        def entry(m_, a, kw):
            seen.append(1)
            m.prove("no former statistics", TRUE if m.getattr(c.nnet, "HH") is None and m.getattr(c.nnet, "HT") is None else FALSE)
            word = (MODES[mode][0] or "").lower()
            m.prove("mode", TRUE if m.getattr(c.elm, "classification") == ({"r": None, "": None}.get(word, word)) else FALSE)
            w = m.getattr(c.elm, "wc")
            if weights == "given":
                same_elements(m, "class weights", w, lambda i: app("wt", (i[0],), "R"), (c.outputs,))
            else:
                m.prove("no former class weights", TRUE if w is None else FALSE)
            m.prove("ranking", TRUE if m.getattr(c.elm, "ranking") == ("OP" if op else None) and m.getattr(c.elm, "kmax_op") is None else FALSE)
            m.prove("all neurons", eq(num(m.getattr(c.nnet, "L")), c.L))
            return None
        for q in SELECT:
            m.overrides[q] = entry
        kw = dict(opts, k=3, Xv=X, Tv=T)
        m.call(m.getattr(c.elm, "train"), [X, T, select] + (["OP"] if op else []) + args, kw)
        m.prove("one selection", TRUE if len(seen) == 1 else FALSE)


for s in ("V", "CV", "LOO"):
    _select(s, False, "none")
    _select(s, True, "wc auto")
    _select(s, False, "wc given")


def _accumulate(cls, solver, reset):
    @harness("C22", "feeding data %s, %s solver=%s" % ("after reset starts anew and the solution stays" if reset else "accumulates", cls, solver or "python"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, cls, solver, "double", None, "array")
        M = I(m, "M", 1)
        X2, T2 = matrix(m, "X2", (M, c.inputs)), matrix(m, "T2", (M, c.outputs))
        gx, gt = m.rreader(X2), m.rreader(T2)
        m.call(m.getattr(c.nnet, "set_B"), [matrix(m, "Bold", (c.L, c.outputs), c.prec)])
        m.call(m.getattr(c.elm, "add_data"), [X, T])
        a, b = stats(m, c, fx, ft, num(0), N)
        if reset:
            m.call(m.getattr(c.nnet, "reset"), [])
            m.prove("number of neurons stays", eq(num(m.getattr(c.nnet, "L")), c.L))
            Y = m.call(m.getattr(c.elm, "predict"), [X])
            same_elements(m, "the solution stays usable", Y,
                          lambda i: sumrows(num(0), c.L, lambda k: mul(hid(m, fx, i[0], c.inputs, k), app("Bold", (k, i[1]), "R"))), (N, c.outputs))
        m.call(m.getattr(c.elm, "add_data"), [X2, T2])
        a2, b2 = stats(m, c, gx, gt, num(0), M, norm=reset)
        if reset:
            check_corr(m, c, a2, b2)
        else:
            check_corr(m, c, lambda i: add(a(i), a2(i)), lambda i: add(b(i), b2(i)))
        same_elements(m, "feeding keeps the former solution", m.getattr(c.nnet, "B"), lambda i: app("Bold", tuple(i), "R"), (c.L, c.outputs))


for cls in ("ELM", "HPELM"):
    for s in (None, "basic"):
        for r in (False, True):
            _accumulate(cls, s, r)

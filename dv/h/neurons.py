"""C05: the hidden layer's formulas and columns; C06: adding neurons."""
from dv.spec import *
from dv.concat import blk

CUSTOM = Ufunc("custom", lambda m, x: app("custom", (x,), "R"))


def groups(c):
    """(width of group k, columns before group k)"""
    w = lambda k: app("cnt", (num(k),), "I")
    off = lambda h: sumrows(num(0), num(h), w)
    return w, off


def lemma(m, name, f):
    m.prove("lemma: " + name, f)
    m.assume(f)


def column(m, H, n, off, w, r, k, p):
    """Element of row r and the column of neuron p of group k (n groups); blocks are found by prefix sums of the widths."""
    g = m.rreader(H)((r, add(off(k), p)))
    bs = [t for t in smt.collect([g]) if t.op == "app" and t.data == "blk"]
    for b in bs:
        def before(x, y):
            lemma(m, "blocks are adjacent", implies(le(num(0), x), eq(off(add(x, num(1))), add(off(x), w(x)))))
            lemma(m, "blocks follow one another", implies(and_(le(num(0), x), lt(x, y)), le(off(add(x, num(1))), off(y))))
        before(k, n)
        lemma(m, "the block of a position lies inside", and_(le(num(0), b), lt(b, n), le(off(b), add(off(k), p)), lt(add(off(k), p), add(off(b), w(b)))))
        before(b, k)
        before(k, b)
        lemma(m, "a position has one block", eq(b, k))
        g = replace(g, {b: k})
    return g


def formula(m, name, x, w, b, d):
    """One neuron's output for a row x(c), weights w(c), bias b, d inputs."""
    dot = sumrows(num(0), d, lambda k: mul(x(k), w(k)))
    if name == "lin":
        return add(dot, b)
    if name == "sigm":
        return div(num(1), add(num(1), nl.t_exp(add(dot, b))))
    if name == "tanh":
        return app("tanh", (add(dot, b),), "R")
    if name is CUSTOM:
        return app("custom", (add(dot, b),), "R")
    diff = lambda k: sub(x(k), w(k))
    if name == "rbf_l1":
        d2 = power(sumrows(num(0), d, lambda k: tabs(diff(k))), 2)
    elif name == "rbf_l2":
        d2 = sumrows(num(0), d, lambda k: mul(diff(k), diff(k)))
    else:
        d2 = power(nl.maxval(lambda k: tabs(diff(k)), d), 2)
    return nl.t_exp(nl.fdiv(m, mul(num(-1), d2), b))


def _columns(cls, solver, prec, dtype):
    @harness("C05", "project: any list of neuron types, %s solver=%s precision=%s data=%s" % (cls, solver or "python", prec, dtype))
    def h(m):
        c = model(m, cls, solver, prec, project=False)
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs), dtype)
        fx = m.rreader(X)
        snap = take(m)
        H = m.call(m.getattr(c.nnet, "_project"), [X])
        w, off = groups(c)
        m.prove("one row per sample", eq(H.shape[0], N))
        m.prove("one column per neuron", eq(H.shape[1], off(c.ntypes)))
        r, k, p = I(m, "r", 0), I(m, "k", 0), I(m, "p", 0)
        m.assume(lt(r, N))
        m.assume(lt(k, c.ntypes))
        m.assume(lt(p, w(k)))
        W = lambda k, v, p: app("W", (k, v, p), "R")
        B = lambda k, p: app("Bias", (k, p), "R")
        got = column(m, H, c.ntypes, off, w, r, k, p)
        for t in TYPES:
            m.prove("column of a %s neuron" % t, implies(is_type(ftype(k), t), eq(got, formula(m, t, lambda v: fx((r, v)), lambda v: W(k, v, p), B(k, p), c.inputs))))
        unchanged(m, snap, "projecting changes nothing")


for k in (("ELM", None, "double", F8), ("ELM", "basic", "double", F8), ("HPELM", None, "single", F4), ("ELM", None, "double", I8)):
    _columns(*k)


def _custom(cls, solver, prec):
    @harness("C05", "project: custom function, neurons of a type added twice, %s solver=%s precision=%s" % (cls, solver or "python", prec))
    def h(m):
        c = model(m, cls, solver, prec, neurons=False)
        parts = []
        for i, t in enumerate(("tanh", CUSTOM, "rbf_l2", "tanh", CUSTOM, "lin")):
            n = I(m, "n%d" % i, 1)
            W, B = matrix(m, "W%d" % i, (c.inputs, n)), matrix(m, "B%d" % i, (n,))
            parts.append((t, n, m.rreader(W), m.rreader(B)))
            m.call(m.getattr(c.elm, "add_neurons"), [nl.pyfix(n), t, W, B])
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs))
        fx = m.rreader(X)
        H = m.call(m.getattr(c.nnet, "_project"), [X])
        order = [parts[i] for i in (0, 3, 1, 4, 2, 5)]
        m.prove("one row per sample", eq(H.shape[0], N))
        m.prove("one column per neuron", eq(H.shape[1], add(*[p[1] for p in parts])))
        r, p = I(m, "r", 0), I(m, "p", 0)
        m.assume(lt(r, N))
        o = num(0)
        f = m.rreader(H)
        for i, (t, n, W, B) in enumerate(order):
            w = formula(m, t, lambda v: fx((r, v)), lambda v: W((v, p)), B((p,)), c.inputs)
            m.prove("group %d in order of first addition (%s)" % (i, t if isinstance(t, str) else "custom"), implies(lt(p, n), eq(f((r, add(o, p))), w)))
            o = add(o, n)


for k in (("ELM", None, "double"), ("ELM", "basic", "single"), ("HPELM", None, "double")):
    _custom(*k)


# ---------------------------------------------------------------- C06
def code(t):
    return name_code(t)


tm.RANGES["otype"] = (num(0), num(9))
OTHER = [None]
smt.AXIOMS["otype"] = lambda t: [le(num(0), t), ne(t, num(OTHER[0]))]
smt.EVAL["otype"] = lambda ev, a: ev.tab.setdefault(("otype", int(a[0])), ev.rnd.choice([x for x in range(6) if x != OTHER[0]]))


def add_setup(m, cls, solver, prec, t, where):
    """Model with neurons of other types only, with some of type t in group `at`, or without neurons."""
    OTHER[0] = num_val(code(t))
    other = lambda k: app("otype", (num(k),), "I")
    at = None
    if where == "merged":
        at = I(m, "at", 0)
        names = lambda k: ite(eq(num(k), at), code(t), other(k))
    else:
        names = other
    c = model(m, cls, solver, prec, neurons=where != "first", project=False, names=names)
    if at is not None:
        m.assume(lt(at, c.ntypes))
    if where == "first":
        c.ntypes, c.L = num(0), num(0)
    else:
        B = matrix(m, "Beta", (c.L, c.outputs), c.prec)
        HH, HT = matrix(m, "HHold", (c.L, c.L), c.prec), matrix(m, "HTold", (c.L, c.outputs), c.prec)
        m.call(m.getattr(c.nnet, "set_B"), [B])
        m.call(m.getattr(c.nnet, "set_corr"), [HH, HT])
    return c, names, at


def count(m, ns):
    r = m.rec(ns)
    return num(r.d["n"]) if r.kind == "symlist" else num(len(r.x))


def neurons_are(m, c, t, names, at, n, W, B, rows=None):
    """Obligations: the old groups are unchanged, n neurons (W, B) of type t are behind those of their type."""
    ns = m.getattr(c.nnet, "neurons")
    total = c.ntypes if at is not None else add(c.ntypes, num(1))
    m.prove("number of groups", eq(count(m, ns), total))
    k, v, p = I(m, "k", 0), I(m, "v", 0), I(m, "p", 0)
    m.assume(lt(v, c.inputs))
    w = lambda k: app("cnt", (num(k),), "I")

    def check(label, g, count, typ, fw, fb):
        g = m.lib.unpack(m, g, 4)
        m.prove(label + ": number of neurons", eq(num(g[0]), count))
        x = g[1]
        m.prove(label + ": type", eq(x.t if isinstance(x, NameVal) else code(x), typ))
        m.prove(label + ": shapes", and_(eq(g[2].shape[0], c.inputs), eq(g[2].shape[1], count), eq(g[3].shape[0], count)) if g[2].ndim == 2 and g[3].ndim == 1 else FALSE)
        m.prove(label + ": weights", implies(lt(p, count), eq(m.rreader(g[2])((v, p)), fw(p))))
        m.prove(label + ": biases", implies(lt(p, count), eq(m.rreader(g[3])((p,)), fb(p))))
        m.prove(label + ": precision", TRUE if m.dtype(g[2]) is c.prec and m.dtype(g[3]) is c.prec else FALSE)
    old = lambda k, p: app("W", (k, v, p), "R"), lambda k, p: app("Bias", (k, p), "R")
    if not (is_num(c.ntypes) and num_val(c.ntypes) == 0):
        snap = m.snapshot()
        m.assume(lt(k, c.ntypes))
        if at is not None:
            m.assume(ne(k, at))
        check("other group", m.lib.getitem(m, ns, k), w(k), names(k), lambda p: old[0](k, p), lambda p: old[1](k, p))
        m.restore(snap)
    if at is not None:
        check("enlarged group", m.lib.getitem(m, ns, at), add(w(at), n), code(t),
              lambda p: ite(lt(p, w(at)), old[0](at, p), W((v, sub(p, w(at))))), lambda p: ite(lt(p, w(at)), old[1](at, p), B((sub(p, w(at)),))))
    else:
        check("new group", m.lib.getitem(m, ns, c.ntypes), n, code(t), lambda p: W((v, p)), lambda p: B((p,)))
    m.prove("total number of neurons", eq(num(m.getattr(c.nnet, "L")), add(c.L, n)))
    for x in ("HH", "HT", "B"):
        m.prove("%s of the former layer is gone" % x, TRUE if m.getattr(c.nnet, x) is None else FALSE)


def _given(cls, solver, prec, t, where, dtype=F8):
    lt_ = t if isinstance(t, str) else "custom"

    @harness("C06", "add_neurons with W and B, %s, %s neurons, %s solver=%s precision=%s given=%s" % (where, lt_, cls, solver or "python", prec, dtype))
    def h(m):
        c, names, at = add_setup(m, cls, solver, prec, t, where)
        n = I(m, "n", 1)
        W, B = matrix(m, "Wnew", (c.inputs, n), dtype), matrix(m, "Bnew", (n,), dtype)
        fw, fb = m.rreader(W), m.rreader(B)
        m.call(m.getattr(c.elm, "add_neurons"), [nl.pyfix(n), t, W, B])
        neurons_are(m, c, t, names, at, n, fw, fb)
        same_elements(m, "the given W is unchanged", W, fw, (c.inputs, n))
        same_elements(m, "the given B is unchanged", B, fb, (n,))


for t in ("tanh", "rbf_l1", "lin", CUSTOM):
    for where in ("merged", "appended", "first"):
        _given("ELM", None, "double", t, where)
_given("HPELM", "basic", "double", "sigm", "merged")
_given("HPELM", None, "single", "sigm", "merged")
_given("ELM", "basic", "single", "rbf_linf", "appended", F4)


def _default(t, where, what):
    lt_ = t if isinstance(t, str) else "custom"

    @harness("C06", "add_neurons without %s, %s, %s neurons" % (what, where, lt_))
    def h(m):
        c, names, at = add_setup(m, "ELM", None, "double", t, where)
        n = I(m, "n", 1)
        args = dict()
        cap = n
        if what == "B":
            args["W"] = W = matrix(m, "Wnew", (c.inputs, n))
        elif t == "lin":
            cap = tmin(n, c.inputs)
        if what == "W":
            if t == "lin":
                m.assume(le(n, c.inputs))
            args["B"] = matrix(m, "Bnew", (n,))
        old = {}
        m.call(m.getattr(c.elm, "add_neurons"), [nl.pyfix(n), t], args)
        ns = m.getattr(c.nnet, "neurons")
        g = m.lib.unpack(m, m.lib.getitem(m, ns, at if at is not None else c.ntypes), 4)
        first = app("cnt", (at,), "I") if at is not None else num(0)
        gw, gb = m.rreader(g[2]), m.rreader(g[3])
        fw = lambda i: gw((i[0], add(i[1], first)))
        fb = lambda i: gb((add(i[0], first),))
        # whatever was generated went where it belongs
        neurons_are(m, c, t, names, at, cap, fw, fb)
        v, p = I(m, "v", 0), I(m, "p", 0)
        m.assume(lt(v, c.inputs))
        m.assume(lt(p, cap))
        if what == "B":
            m.prove("the given W is used", eq(fw((v, p)), m.rreader(W)((v, p))))
        elif t == "lin":
            m.prove("linear neuron p copies input p", eq(fw((v, p)), ind(eq(v, p))))
        if what == "W":
            m.prove("the given B is used", eq(fb((p,)), m.rreader(args["B"])((p,))))
        elif t == "lin":
            m.prove("linear neurons have no bias", eq(fb((p,)), num(0)))
        elif isinstance(t, str) and t.startswith("rbf"):
            m.prove("widths are positive", lt(num(0), fb((p,))))  # randn() is not 0 (assumed)


for t in ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf", CUSTOM):
    _default(t, "merged", "W and B")
    _default(t, "first", "W and B")
_default("lin", "appended", "W and B")
_default("lin", "merged", "B")
_default("rbf_l2", "appended", "B")
_default("sigm", "appended", "W")
_default("lin", "merged", "W")

"""C10: saving and loading."""
from dv.spec import *

CUSTOM = Ufunc("custom", lambda m, x: app("custom", (x,), "R"))
smt.AXIOMS["ftype"] = lambda t: [le(num(0), t), lt(t, num(6)), eq(app("ftindex", (t,), "I"), t.args[0])]


ADD = "hpelm.nnets.slfn.SLFN.add_neurons"


def sizes(m, ns):
    """Sum of the sizes of the groups of a list of neurons."""
    r = m.rec(ns)
    if r.kind == "list":
        return add(num(0), *[num(m.lib.unpack(m, x, 4)[0]) for x in r.x])
    return sumrows(num(0), r.d["n"], lambda i: num(m.lib.unpack(m, r.d["fn"](i), 4)[0]))


def add_contract(m, args, kw):
    """Contract of nnet.add_neurons for a type the layer does not have: the neurons become a new last group, their number is added
    to L (the sum of the sizes), the former solution and statistics are dropped."""
    self, number, func, W, B = args + [kw[x] for x in ("number", "func", "W", "B")[len(args) - 1:]]
    ns, L = m.getattr(self, "neurons"), m.getattr(self, "L")
    try:
        r = m.rec(ns)
        if r.kind == "list":
            new = all(m.entails(ne(tcode(x[1]), tcode(func))) for x in r.x)
        else:
            q = fresh("k", "I")
            x = r.d["fn"](q)
            new = smt.impossible(m.pc + [le(num(0), q), lt(q, r.d["n"])], eq(tcode(x[1]), tcode(func)))
        if not new:
            raise Unsupported("neurons of a type that the layer may have")
        if L is None:
            m.prove("add_neurons: the layer was empty", TRUE if r.kind == "list" and not r.x else FALSE)
        else:
            m.prove("add_neurons: L counts the neurons", eq(num(L), sizes(m, ns)))
    except JunkRead:
        pass                # an intermediate trial of a loop; its obligations are not kept
    m.call(m.getattr(ns, "append"), [(number, func, W, B)])
    m.setattr(self, "L", nl.pyfix(number if L is None else add(num(L), num(number))))
    for x in ("HH", "HT", "B"):
        m.setattr(self, x, None)


def tcode(x):
    return x.t if isinstance(x, NameVal) else name_code(x)


def store(m, elm, how):
    if how == "file":
        m.call(m.getattr(elm, "save"), ["model.pkl"])
        return "model.pkl"
    return m.call(m.getattr(elm, "dumps"), [])


def load(m, elm, how, what):
    m.call(m.getattr(elm, "load" if how == "file" else "loads"), [what])


def _saved(cls, solver, prec, cls2, solver2, prec2, how, solved, mode):
    @harness("C10", "%s %s/%s/%s into %s/%s/%s with neurons and a solution, %s classification=%s" % (
        how, cls, solver or "python", prec, cls2, solver2 or "python", prec2, "trained" if solved else "not trained", mode))
    def h(m):
        kw = {}
        c = model(m, cls, solver, prec, classification=mode, project=False)
        if mode == "wc":
            wc = matrix(m, "wcs", (c.outputs,))
            m.setattr(c.elm, "wc", wc)
        if solved:
            m.call(m.getattr(c.nnet, "set_B"), [matrix(m, "Beta", (c.L, c.outputs), c.prec)])
            m.call(m.getattr(c.nnet, "set_corr"), [matrix(m, "HHold", (c.L, c.L), c.prec), matrix(m, "HTold", (c.L, c.outputs), c.prec)])
        d = other(m, cls2, solver2, prec2)
        before = take(m)
        what = store(m, c.elm, how)
        m.overrides[ADD] = add_contract
        unchanged(m, before, "saving does not change the model", but=fs(m))
        load(m, d.elm, how, what)
        unchanged(m, before, "loading does not change the model that was saved", but=fs(m) | {x for x in d.own})
        same(m, c, d, solved, mode)
    return h


def fs(m):
    return {m.fs.id} | {r.id for r in m.rec(m.fs).d.values() if isinstance(r, Ref)}


def other(m, cls, solver, prec):
    """A loading object with neurons, a solution, statistics, weights of its own."""
    d = Ctx()
    d.prec = F8 if prec == "double" else F4
    first = set(m.heap)
    i, o = I(m, "inputs2", 1), I(m, "outputs2", 2)
    d.batch = I(m, "batch2", 1)
    C = m.get("hpelm.elm" if cls == "ELM" else "hpelm.hp_elm", cls)
    d.elm = m.call(C, [i, o], dict(classification="wc", w=matrix(m, "wcs2", (o,)), batch=d.batch, precision=prec, norm=var("norm2", "R"), accelerator=solver))
    n = I(m, "nrs2", 1)
    for t in ("tanh", "rbf_l2"):
        m.call(m.getattr(d.elm, "add_neurons"), [nl.pyfix(n), t, matrix(m, "W2" + t, (i, n)), matrix(m, "B2" + t, (n,))])
    nn = m.getattr(d.elm, "nnet")
    d.nnet = nn
    L = num(m.getattr(nn, "L"))
    m.call(m.getattr(nn, "set_B"), [matrix(m, "Beta2", (L, o), d.prec)])
    m.call(m.getattr(nn, "set_corr"), [matrix(m, "HH2", (L, L), d.prec), matrix(m, "HT2", (L, o), d.prec)])
    d.own = set(m.heap) - first
    d.cls = m.rec(nn).d.get("__class__") if False else None
    d.solver = solver
    return d


def same(m, c, d, solved, mode):
    nn = m.getattr(d.elm, "nnet")
    g = lambda x: num(m.getattr(nn, x))
    m.prove("inputs", eq(g("inputs"), c.inputs))
    m.prove("outputs", eq(g("outputs"), c.outputs))
    m.prove("regularisation", eq(g("norm"), c.norm))
    m.prove("number of neurons", eq(g("L"), c.L))
    m.prove("classification", TRUE if m.getattr(d.elm, "classification") == (mode or None) or m.getattr(d.elm, "classification") == mode else FALSE)
    m.prove("batch size is kept", eq(num(m.getattr(d.elm, "batch")), d.batch))
    m.prove("precision is kept", TRUE if m.getattr(d.elm, "precision") is d.prec and m.getattr(nn, "precision") is d.prec else FALSE)
    m.prove("solver is kept", TRUE if m.rec(nn).x is m.rec(d.nnet).x else FALSE)
    w = m.getattr(d.elm, "wc")
    if mode == "wc":
        same_elements(m, "class weights", w, lambda i: app("wcs", tuple(i), "R"), (c.outputs,))
    else:
        m.prove("class weights", TRUE if w is None else FALSE)
    for x in ("HH", "HT"):
        m.prove("no former %s" % x, TRUE if m.getattr(nn, x) is None else FALSE)
    B = m.getattr(nn, "B")
    if solved:
        same_elements(m, "output weights", B, lambda i: app("Beta", tuple(i), "R"), (c.L, c.outputs))
        m.prove("precision of the output weights", TRUE if isinstance(B, Arr) and m.dtype(B) is d.prec else FALSE)
    else:
        m.prove("no solution", TRUE if B is None else FALSE)
    from dv.h.neurons import count
    ns = m.getattr(nn, "neurons")
    m.prove("number of groups", eq(count(m, ns), c.ntypes))
    k, v, p = I(m, "k", 0), I(m, "v", 0), I(m, "p", 0)
    w = lambda k: app("cnt", (num(k),), "I")
    m.assume(lt(k, c.ntypes))
    a = m.lib.unpack(m, m.lib.getitem(m, ns, k), 4)
    m.prove("size of a group", eq(num(a[0]), w(k)))
    m.prove("type of a group", eq(a[1].t if isinstance(a[1], NameVal) else name_code(a[1]), ftype(k)))
    m.prove("shapes of a group", and_(eq(a[2].shape[0], c.inputs), eq(a[2].shape[1], w(k)), eq(a[3].shape[0], w(k))))
    inr = and_(lt(v, c.inputs), lt(p, w(k)))
    m.prove("weights of a group", implies(inr, eq(m.rreader(a[2])((v, p)), app("W", (k, v, p), "R"))))
    m.prove("biases of a group", implies(inr, eq(m.rreader(a[3])((p,)), app("Bias", (k, p), "R"))))
    m.prove("precision of a group", TRUE if m.dtype(a[2]) is d.prec and m.dtype(a[3]) is d.prec else FALSE)



for k in (("ELM", None, "double", "ELM", None, "double", "file", True, ""),
          ("ELM", "basic", "double", "HPELM", None, "single", "file", True, "c"),
          ("HPELM", None, "single", "ELM", "basic", "double", "bytes", True, "wc"),
          ("HPELM", "basic", "double", "HPELM", "basic", "double", "bytes", True, "ml"),
          ("ELM", None, "double", "ELM", "basic", "single", "bytes", False, "wc"),
          ("HPELM", None, "double", "ELM", None, "double", "file", False, "")):
    _saved(*k)


def _custom(cls, prec, cls2, prec2, how):
    @harness("C10", "%s %s/%s into new %s/%s, custom function among the neurons" % (how, cls, prec, cls2, prec2))
    def h(m):
        c = model(m, cls, None, prec, neurons=False)
        parts = []
        for i, t in enumerate(("tanh", CUSTOM, "rbf_l2")):
            n = I(m, "n%d" % i, 1)
            W, B = matrix(m, "W%d" % i, (c.inputs, n)), matrix(m, "B%d" % i, (n,))
            parts.append((t, n, W, B))
            m.call(m.getattr(c.elm, "add_neurons"), [nl.pyfix(n), t, W, B])
        what = store(m, c.elm, how)
        C = m.get("hpelm.elm" if cls2 == "ELM" else "hpelm.hp_elm", cls2)
        e = m.call(C, [I(m, "inputs2", 1), I(m, "outputs2", 1)], dict(precision=prec2))
        load(m, e, how, what)
        nn = m.getattr(e, "nnet")
        ns = m.lib.unpack(m, m.getattr(nn, "neurons"), 3)
        m.prove("number of neurons", eq(num(m.getattr(nn, "L")), add(*[p[1] for p in parts])))
        for i, (t, n, W, B) in enumerate(parts):
            a = m.lib.unpack(m, ns[i], 4)
            m.prove("group %d: size and type" % i, and_(eq(num(a[0]), n), TRUE if a[1] == t else FALSE))
            same_elements(m, "group %d: weights" % i, a[2], m.rreader(W), (c.inputs, n))
            same_elements(m, "group %d: biases" % i, a[3], m.rreader(B), (n,))
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs))
        a, b = m.call(m.getattr(c.nnet, "_project"), [X]), m.call(m.getattr(nn, "_project"), [X])
        same_elements(m, "both project alike", b, m.rreader(a), (N, add(*[p[1] for p in parts])))


_custom("ELM", "double", "HPELM", "double", "file")
_custom("HPELM", "single", "ELM", "double", "bytes")


def _contract(cls, solver, prec, empty):
    @harness("C10", "contract of nnet.add_neurons, a new type, %s solver=%s precision=%s %s" % (cls, solver or "python", prec, "no neurons yet" if empty else "any neurons"))
    def h(m):
        from dv.h.neurons import add_setup, neurons_are
        c, names, at = add_setup(m, cls, solver, prec, "tanh", "first" if empty else "appended")
        if not empty and c.ntypes is not num(0):
            m.prove("L counts the neurons", eq(num(m.getattr(c.nnet, "L")), sizes(m, m.getattr(c.nnet, "neurons"))))
        n = I(m, "n", 1)
        W, B = matrix(m, "Wnew", (c.inputs, n), c.prec), matrix(m, "Bnew", (n,), c.prec)
        m.call(m.getattr(c.nnet, "add_neurons"), [nl.pyfix(n), "tanh", W, B])
        neurons_are(m, c, "tanh", names, at, n, m.rreader(W), m.rreader(B))
        m.prove("L counts the neurons afterwards", eq(num(m.getattr(c.nnet, "L")), sizes(m, m.getattr(c.nnet, "neurons"))))


_contract("ELM", None, "double", True)
_contract("ELM", "basic", "double", False)
_contract("HPELM", None, "single", False)

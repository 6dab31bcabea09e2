"""C13: options of train."""
from dv.spec import *
from dv.h.train import stats, trained, targets
from dv.h.errors import measure

SELECT = ("hpelm.mss_v.train_v", "hpelm.mss_cv.train_cv", "hpelm.mss_loo.train_loo")
KIND = {"c": "c", "wc": "wc", "ml": "ml", "mc": "ml", "r": "r", "": "r"}


def stub(called, name):
    def ov(m, args, kw):
        called.append(name)
        return None
    return ov


def _mode(cls, word, select, src="array", former="wc"):
    kind = KIND[word.lower()]

    @harness("C13", "train %s with %s %s data=%s, constructed for %s" % (cls, repr(word), repr(select) if select else "", src, former or "regression"))
    def h(m):
        w0 = None
        if former == "wc":
            outs = I(m, "outputs", 2)
            w0 = m.array((outs,), lambda i: app("wformer", (i[0],), "R"), F8)
        c = model(m, cls, None, "double", former, w0)
        if not former:
            m.assume(lt(num(1), c.outputs))
        c.kind = kind
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N, c.inputs)), targets(m, c, kind, N)
        fx, ft = m.rreader(X), m.rreader(T)
        opts, called = {}, []
        args = [X, T]
        if src == "file":
            scilib.h5store(m, "x.h5", X)
            scilib.h5store(m, "t.h5", T)
            args = ["x.h5", "t.h5"]
        if select:
            for q in SELECT:
                m.overrides[q] = stub(called, q)
            if select.upper() == "V":
                opts.update(Xv=matrix(m, "Xv", (N, c.inputs)), Tv=matrix(m, "Tv", (N, c.outputs)))
            if select.upper() == "CV":
                opts["k"] = 5
            args.append(select)
        if word:
            args.append(word)
        given = kind == "wc" and former != "ml"
        if given:
            opts["w"] = m.array((c.outputs,), lambda i: app("wt", (i[0],), "R"), F8)
        m.call(m.getattr(c.elm, "train"), args, opts)
        if select:
            want = dict(zip(("V", "CV", "LOO"), SELECT))[select.upper()]
            m.prove("the selection method named is used, once", TRUE if called == [want] else FALSE)
        else:
            m.prove("classification in force", TRUE if m.getattr(c.elm, "classification") == (None if kind == "r" else kind) else FALSE)
        w = m.getattr(c.elm, "wc")
        if given:
            same_elements(m, "class weights are those given", w, lambda i: app("wt", (i[0],), "R"), (c.outputs,))
        elif kind == "wc" and not select:
            n = lambda k: sumrows(num(0), N, lambda s: ft((s, k)))
            k = I(m, "k", 0)
            m.assume(lt(k, c.outputs))
            m.assume(lt(num(0), n(k)))
            m.prove("weight of a class is N by its number of samples", eq(m.rreader(w)((k,)), mul(N, recip(real(n(k))))))
        elif not select:
            m.prove("no class weights left", TRUE if w is None else FALSE)
        if kind == "wc" and not given:
            return
        M = I(m, "M", 1)
        T2 = onehot(m, "U", M, c.outputs) if kind in ("c", "wc") else matrix(m, "U", (M, c.outputs))
        Y2 = matrix(m, "Y", (M, c.outputs))
        f2, y2 = m.rreader(T2), m.rreader(Y2)
        e = m.call(m.getattr(c.elm, "error"), [T2, Y2])
        c.cls = cls
        m.prove("error is the measure named", eq(num(nl.as_term(e)), measure(m, c, f2, y2, num(0), M, lambda s: app("Ucls", (s,), "I"))))


for w in ("c", "C", "wc", "WC", "Wc", "ml", "ML", "mc", "MC", "r", "R", ""):
    _mode("ELM", w, None, former="c" if w.lower() == "wc" else "wc")
for w in ("C", "wc", "ML", "Mc", ""):
    _mode("HPELM", w, None, "file", former="ml" if w != "ML" else "wc")
for s in ("V", "v", "CV", "cv", "LOO", "loo"):
    for w in ("c", "WC", "ml", ""):
        _mode("ELM", w, s, former="wc" if w != "WC" else "c")


def _reject(cls, words, outputs=2):
    @harness("C13", "train %s rejects %s%s" % (cls, "+".join(words), " with one output" if outputs == 1 else ""))
    def h(m):
        c = model(m, cls, None, "double")
        if outputs == 1:
            m.assume(eq(c.outputs, num(1)))
        else:
            m.assume(lt(num(1), c.outputs))
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N, c.inputs)), matrix(m, "T", (N, c.outputs))
        opts = dict(Xv=X, Tv=T, k=3)
        for q in SELECT:
            m.overrides[q] = stub([], q)
        rejects(m, lambda: m.call(m.getattr(c.elm, "train"), [X, T] + list(words), opts))


for ws in (("V", "CV"), ("v", "loo"), ("CV", "Loo"), ("LOO", "cv", "V"), ("c", "wc"), ("C", "ml"), ("wc", "ML"), ("mc", "C"), ("V", "c", "WC"), ("LOO", "wc", "mc")):
    _reject("ELM", ws)
for ws in (("c", "wc"), ("wc", "ml"), ("C", "MC")):
    _reject("HPELM", ws)
for w in ("c", "wc", "ml"):
    _reject("ELM", (w,), 1)


def _op(select, op, kmax):
    @harness("C13", "train with %s %s%s" % (select, op or "without OP", " kmax given" if kmax else ""))
    def h(m):
        c = model(m, "ELM", None, "double")
        m.setattr(c.elm, "ranking", "OP")
        m.setattr(c.elm, "kmax_op", 7)
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N, c.inputs)), matrix(m, "T", (N, c.outputs))
        called = []
        for q in SELECT:
            m.overrides[q] = stub(called, q)
        opts = dict(Xv=X, Tv=T, k=3)
        if kmax:
            opts["kmax"] = nl.pyfix(I(m, "kmax", 1))
        m.call(m.getattr(c.elm, "train"), [X, T, select] + ([op] if op else []), opts)
        m.prove("one selection method", TRUE if len(called) == 1 else FALSE)
        m.prove("ranking", TRUE if m.getattr(c.elm, "ranking") == ("OP" if op else None) else FALSE)
        k = m.getattr(c.elm, "kmax_op")
        m.prove("kmax", (eq(num(k), var("kmax", "I")) if k is not None else FALSE) if op and kmax else TRUE if k is None else FALSE)


for k in (("V", "OP", True), ("cv", "op", False), ("LOO", "Op", True), ("loo", "", True), ("V", "", False)):
    _op(*k)


def _constructor(cls, word):
    @harness("C13", "constructor %s classification=%r" % (cls, word))
    def h(m):
        outs = I(m, "outs", 2)
        C = m.get("hpelm.elm" if cls == "ELM" else "hpelm.hp_elm", cls)
        W = m.array((outs,), lambda i: app("wt", (i[0],), "R"), F8)
        e = m.call(C, [I(m, "ins", 1), outs], dict(classification=word, w=W))
        k = KIND.get(word.lower(), "r")
        m.prove("mode", TRUE if m.getattr(e, "classification") == (None if k == "r" else k) else FALSE)
        same_elements(m, "class weights", m.getattr(e, "wc"), lambda i: app("wt", (i[0],), "R"), (outs,))


for w in ("c", "C", "wc", "Wc", "ml", "ML", "mc", "Mc", "", "r"):
    _constructor("ELM", w)
    _constructor("HPELM", w)


def _weights(cls, given, src):
    @harness("C13", "each sample carries the weight of its own class, %s %s data=%s" % (cls, "given" if given else "automatic", src))
    def h(m):
        from dv.h.train import train_setup, weight
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, cls, None, "double", "wc given" if given else "wc auto", src)
        m.call(m.getattr(c.elm, "train"), [X, T] + args, opts)
        trained(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)))


for k in (("ELM", True, "array"), ("ELM", False, "array"), ("HPELM", True, "file"), ("HPELM", False, "file")):
    _weights(*k)

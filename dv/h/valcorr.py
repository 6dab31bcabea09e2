"""C21: validation over stored statistics."""
from dv.spec import *
from dv import hoare
from dv.h.corr import given
from dv.h.mss import find_app

smt.DOMAINS["loss"] = {}


def row(m, read, r):
    v = fresh("c", "I")
    return lam([v], real(read((r, v))))


def loss(m, ft, fy, r):
    """Error of one sample: a function of its targets and outputs (C11)."""
    return app("loss", (row(m, ft, r), row(m, fy, r)), "R")


def counts(m, ft, fy, r, i, j):
    """Contribution of one sample to entry (i,j) of the confusion matrix (C12)."""
    return app("conf", (row(m, ft, r), row(m, fy, r), i, j), "R")


smt.AXIOMS["conf"] = lambda t: [le(num(0), t)]


def contracts(m, c, HH, HT, f, g):
    o = m.overrides
    L, K = c.L, c.outputs

    def solve_corr(m, args, kw):
        _, A, B = args
        l = A.shape[0]
        m.prove("a model has at least one neuron", le(num(1), l))
        same_elements(m, "a size is solved from its part of the stored HH", A, f, (l, l))
        same_elements(m, "a size is solved from its part of the stored HT", B, g, (l, K))
        return m.array((l, K), lambda i: app("Bl", (l,) + tuple(i), "R"), c.prec)

    def error(m, args, kw):
        _, T, Y = args[:3]
        n = T.shape[0]
        m.prove("error of as many outputs as targets", eq(Y.shape[0], n))
        if c.kind == "wc":
            return m.sym("wcerror", "R")
        ft, fy = m.rreader(T), m.rreader(Y)
        return mul(recip(n), sumrows(num(0), n, lambda r: loss(m, ft, fy, r)))

    def confusion(m, args, kw):
        _, T, Y = args[:3]
        n = T.shape[0]
        m.prove("confusion of as many outputs as targets", eq(Y.shape[0], n))
        ft, fy = m.rreader(T), m.rreader(Y)
        q = (fresh("q", "I"), fresh("q", "I"))
        body = sumrows(num(0), n, lambda r: counts(m, ft, fy, r, q[0], q[1]))
        return m.array((K, K), lambda i: subst(body, {q[0].data: i[0], q[1].data: i[1]}), F8)

    def prune(m, args, kw):
        self, idx = args[:2]
        a = nl.to_arr(m, idx)
        m.rec(m.fs).d["#pruned"] = a.shape[0]
        same_elements(m, "the neurons kept are the first ones", a, lambda i: real(i[0]), (a.shape[0],))
        m.prove("number of neurons kept", and_(le(num(1), a.shape[0]), le(a.shape[0], L)))
        r = m.rec(self).d
        r["L"], r["HH"], r["HT"], r["B"] = nl.pyfix(a.shape[0]), None, None, None
        return None
    for q in ("hpelm.nnets.slfn.SLFN", "hpelm.nnets.slfn_python.SLFNPython"):
        o[q + ".solve_corr"] = solve_corr
        o[q + "._prune"] = prune
    o["hpelm.hp_elm.HPELM._error"] = o["hpelm.elm.ELM._error"] = error
    o["hpelm.hp_elm.HPELM.confusion"] = o["hpelm.elm.ELM.confusion"] = confusion


def _valid(kind, solver, steps, src):
    @harness("C21", "validation_corr '%s' solver=%s steps=%s data=%s" % (kind, solver or "python", steps, src))
    def h(m):
        w = None
        if kind == "wc":
            outs = I(m, "outputs", 2)
            w = m.array((outs,), lambda i: app("wt", (i[0],), "R"), F8)
        c = model(m, "HPELM", solver, "double", "" if kind == "r" else kind, w)
        c.kind = kind
        L, K = c.L, c.outputs
        HH, HT, f, g = given(m, c)
        scilib.h5store(m, "hh.h5", HH)
        scilib.h5store(m, "ht.h5", HT)
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N, c.inputs)), matrix(m, "T", (N, K))
        fx, ft = m.rreader(X), m.rreader(T)
        if src == "file":
            scilib.h5store(m, "x.h5", X)
            scilib.h5store(m, "t.h5", T)
            X, T = "x.h5", "t.h5"
        contracts(m, c, HH, HT, f, g)
        kw = {}
        if steps == "number":
            n = I(m, "steps", 2)
            kw["steps"] = n
        elif steps == "vector":
            n = I(m, "steps", 1)
            sz = "sizes"
            smt.AXIOMS[sz] = lambda t: [le(num(1), t), le(t, L)]
            tm.RANGES[sz] = (num(1), add(L, num(1)))
            kw["steps"] = m.array((n,), lambda i: app(sz, (i[0],), "I"), I8)
        r = m.call(m.getattr(c.elm, "validation_corr"), ["hh.h5", "ht.h5", X, T], kw)
        Ls, errs, confs = m.lib.unpack(m, r, 3)
        k = Ls.shape[0]
        fl, fe = m.rreader(Ls), m.rreader(errs)
        j = I(m, "j", 0)
        at = lambda j: fl((j,))
        m.prove("the sizes increase", implies(lt(add(j, num(1)), k), lt(at(j), at(add(j, num(1))))))
        m.prove("no size is above the size of the layer", implies(lt(j, k), and_(le(num(1), at(j)), le(at(j), L))))
        if steps != "vector":
            m.prove("the largest size is that of the layer", eq(at(sub(k, num(1))), L))

        def fy(l):
            return lambda rc: sumrows(num(0), l, lambda q: mul(hid(m, fx, rc[0], c.inputs, q), app("Bl", (l, q, rc[1]), "R")))

        def conf(l, p, q):
            return sumrows(num(0), N, lambda s: counts(m, ft, fy(l), s, p, q))

        def err(l):
            if kind == "wc":
                nc = lambda p: sumrows(num(0), K, lambda q: conf(l, p, q))
                wt = lambda p: app("wt", (p,), "R")
                return div(sumrows(num(0), K, lambda p: mul(wt(p), sub(nc(p), conf(l, p, p)), recip(tmax(nc(p), num(1))))), sumrows(num(0), K, wt))
            return mul(recip(N), sumrows(num(0), N, lambda s: loss(m, ft, fy(l), s)))
        same_elements(m, "the error of a size is that of its model on the whole validation set", errs, lambda i: err(at(i[0])), (k,))
        if not isinstance(confs, Ref) or m.rec(confs).kind not in ("list", "symlist") or m.rec(confs).d.get("mask"):
            raise Unsupported("list of confusion matrices")
        rec = m.rec(confs)
        if kind != "r":
            z = rec.d["n"] if rec.kind == "symlist" else num(len(rec.x))
            fn = rec.d["fn"] if rec.kind == "symlist" else lambda j: rec.x[0]
            m.prove("a confusion matrix for every size", eq(num(z), k))
            m.assume(lt(j, k))
            same_elements(m, "the confusion matrix of a size is that of its model on the whole validation set", fn(j),
                          lambda i: conf(at(j), i[0], i[1]), (K, K))
        else:
            m.prove("no confusion matrices for regression", eq(num(rec.d["n"] if rec.kind == "symlist" else len(rec.x)), num(0)))
        best = m.rec(m.fs).d.get("#pruned")
        if best is None:
            m.prove("the layer is reduced", FALSE)
            raise Dead()
        largest_at(m, best, j)
        q = find_app(best, "argmax")
        if q is not None and at(q) is best:        # the size with index q
            m.prove("the size kept is one of the sizes", and_(le(num(0), q), lt(q, k)))
            m.prove("the size kept has the smallest error", implies(lt(j, k), le(fe((q,)), fe((j,)))))
        else:
            m.prove("the size kept has the smallest error", implies(lt(j, k), le(err(best), err(at(j)))))
        same_elements(m, "the weights kept are those of the size kept", m.getattr(c.nnet, "B"),
                      lambda i: app("Bl", (best,) + tuple(i), "R"), (best, K))


_valid("r", None, "not given", "array")
_valid("r", "basic", "number", "file")
_valid("r", None, "vector", "array")
_valid("c", None, "not given", "file")
_valid("ml", None, "number", "array")
_valid("wc", None, "not given", "array")

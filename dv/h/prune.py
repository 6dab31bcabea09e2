"""C07: what pruning leaves, and retraining of the reduced layer on the complete data."""
import ast
from dv.spec import *
from dv import hoare
from dv.h.train import stats, weight, onehot, solution
from dv.h import mss
from dv.h.mss import Select, LooSelect, cv_folds


def off(g):
    v = fresh("k", "I")
    return sum_(v, num(0), num(g), app("cnt", (v,), "I"))


class Kept(object):
    """Specification of pruning: group g keeps, in the order of the selection, the selected indices of its range."""

    def __init__(self, m, c, n, at):
        self.m, self.c, self.n, self.at = m, c, num(n), at

    def cond(self, g, s):
        x = self.at(s)
        return and_(le(off(g), x), lt(x, add(off(g), app("cnt", (num(g),), "I"))))

    def mask(self, g):
        return Mask(self.n, lambda s: self.cond(g, s))

    def group(self, g):
        m, c = self.m, self.c
        g = num(g)
        mk = self.mask(g)
        loc = lambda s: sub(self.at(s), off(g))
        W = m.array((c.inputs, self.n), lambda i: app("W", (g, i[0], loc(i[1])), "R"), c.prec, (None, mk))
        b = m.array((self.n,), lambda i: app("Bias", (g, loc(i[0])), "R"), c.prec, (mk,))
        return (nl.pyfix(mk.count), NameVal(ftype(g)), W, b)

    def check(self, m, v, g, name):
        """Obligations: v is group g after pruning."""
        g = num(g)
        if not isinstance(v, tuple) or len(v) != 4:
            raise Unsupported("group of neurons")
        i, s = tm.var("i", "I"), tm.var("s", "I")
        ins = and_(le(num(0), s), lt(s, self.n))
        ini = and_(le(num(0), i), lt(i, self.c.inputs))
        cnt, t, W, b = v
        m.prove(name + "number of kept neurons", eq(num(cnt), self.mask(g).count))
        m.prove(name + "type of the group", same_type(m, t, g))
        m.prove(name + "weights of all inputs", eq(W.shape[0], self.c.inputs))
        for a, ax, what in ((W, 1, "weights"), (b, 0, "biases")):
            mk = a.masks[ax]
            m.prove("%sone column of %s per selected index" % (name, what), eq(a.shape[ax], self.n))
            m.prove("%sthe %s kept are those of the selected neurons" % (name, what),
                    implies(ins, iff(mk.cond(s) if mk is not None else TRUE, self.cond(g, s))))
        m.prove(name + "kept weights are unaltered", implies(and_(ins, ini, self.cond(g, s)), eq(
            m.rreader(W)((i, s)), app("W", (g, i, sub(self.at(s), off(g))), "R"))))
        m.prove(name + "kept biases are unaltered", implies(and_(ins, self.cond(g, s)), eq(
            m.rreader(b)((s,)), app("Bias", (g, sub(self.at(s), off(g))), "R"))))


def same_type(m, t, g):
    e = nl.equals_any(m, t, NameVal(ftype(g)))
    return e if isinstance(e, T) else TRUE if e else FALSE


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


class Pruning(hoare.Contract):
    """Before group g: the indices left are those of group g and later ones, relative to group g; the new list holds the
    selected neurons of the groups before g."""
    name = "pruning"
    placed = True
    keep = ("self",)

    def __init__(self, kept, new, idx="idx"):
        self.kept, self.new, self.idx = kept, new, idx

    def havoc(self, m, env):
        pass

    def place(self, m, env, k):
        """The state before group k."""
        K = self.kept
        o = off(k)
        d = {"n": K.n, "fn": lambda s: sub(K.at(num(s)), o), "mask": Mask(K.n, lambda s: le(o, K.at(num(s))))}
        fr = m.heap[env.frame].d
        fr[self.idx] = m.new("symlist", d)
        rec = m.rec(self.new)
        rec.kind, rec.x = "symlist", None
        rec.d = {"n": k, "fn": self.member(k)}

    def member(self, k):
        cache = {}

        def fn(g):
            g = num(g)
            if g.id not in cache:
                cache[g.id] = self.kept.group(g)
            return cache[g.id]
        return fn

    def known(self, m, env, k):
        self.place(m, env, k)
        s = tm.var("s", "I")
        return []

    def locs(self, m, env):
        return {(self.new.id, "#x")}

    def done(self, m, env):
        pass

    def invariant(self, m, env, k):
        K = self.kept
        fr = m.heap[env.frame].d
        v = fr[self.idx]
        out = []
        s = tm.var("s", "I")
        ins = and_(le(num(0), s), lt(s, K.n))
        n, fn, mk = m.lib.iterate_masked(m, v)
        c = mk.cond(s) if mk is not None else TRUE
        out.append(("one position per selected index", eq(num(n), K.n)))
        out.append(("the indices left are those of later groups", implies(ins, iff(c, le(off(k), K.at(s))))))
        out.append(("the indices left are relative to the group", implies(and_(ins, c), eq(num(fn(s)), sub(K.at(s), off(k))))))
        rec = m.rec(self.new)
        if rec.kind == "list":
            out.append(("one new group per group", eq(num(len(rec.x)), k)))
            if rec.x:
                raise Unsupported("new groups")
        else:
            out.append(("one new group per group", eq(rec.d["n"], k)))
            apps = rec.d.get("app") or []
            if len(apps) != 1:
                raise Unsupported("new groups")
            self.kept.check(m, apps[0][1], apps[0][0], "pruning, an arbitrary group: ")
        return out


class Prune(object):
    def __init__(self, m, c, n, at):
        self.m, self.kept = m, Kept(m, c, n, at)
        m.loop_contracts[:] = [self.loops]

    def loops(self, m, s, env):
        fr = m.heap[env.frame].d
        if isinstance(s, ast.For):
            # what is left of the selection is kept in a local list; without one the invariant is derived
            left = [x for x in sorted(hoare.assigned(s.body)) if isinstance(fr.get(x), (Ref, Arr)) and (
                isinstance(fr[x], Arr) or m.rec(fr[x]).kind in ("list", "symlist"))]
            new = [v for x, v in sorted(fr.items()) if isinstance(v, Ref) and m.rec(v).kind == "list" and not m.rec(v).x]
            if len(left) == 1 and len(new) == 1:
                return Pruning(self.kept, new[0], left[0])
        return None


def _prune(cls, solver, prec, how):
    @harness("C07", "_prune %s solver=%s precision=%s selection=%s" % (cls, solver or "python", prec, how))
    def h(m):
        c = model(m, cls, solver, prec, "")
        n = I(m, "n", 1)
        m.assume(le(n, c.L))
        L = c.L
        sel = "selx"
        if how == "best":
            at = lambda s: app(sel, (num(s),), "I")
            smt.AXIOMS[sel] = lambda t: [le(num(0), t), lt(t, L)]
            tm.RANGES[sel] = (num(0), L)
            smt.EVAL[sel] = lambda ev, a: ev.tab.setdefault((sel, int(a[0])), ev.rnd.randint(0, 3))
            idx = m.array((n,), lambda i: at(i[0]), I8)
        else:
            at = lambda s: num(s)
            idx = m.lib.np.d["arange"].fn(m, [nl.pyfix(n)], {})
        P = Prune(m, c, n, at)
        m.call(m.getattr(c.nnet, "_prune"), [idx])
        v = m.getattr(c.nnet, "neurons")
        rec = m.rec(v)
        if rec.kind != "symlist" or rec.d.get("mask"):
            raise Unsupported("neurons after pruning")
        m.prove("as many groups as before", eq(rec.d["n"], c.ntypes))
        g = I(m, "g", 0)
        m.assume(lt(g, c.ntypes))
        P.kept.check(m, rec.d["fn"](g), g, "")
        r = m.rec(c.nnet).d
        m.prove("statistics and solution are dropped", TRUE if r["HH"] is None and r["HT"] is None and r["B"] is None else FALSE)
        # number of neurons: sum over the groups, by induction over the groups
        G, q = I(m, "G", 0), I(m, "q", 0)
        cnt = app("cnt", (G,), "I")
        total = lambda G: sumrows(num(0), num(G), lambda g: P.kept.mask(g).count)

        def below(x, n=n):
            v = fresh("s", "I")
            return sum_(v, num(0), n, ind(lt(at(v), x)))

        def inside(n):
            v = fresh("s", "I")
            return sum_(v, num(0), n, ind(P.kept.cond(G, v)))
        split = lambda q: eq(add(below(off(G), q), inside(q)), below(add(off(G), cnt), q))
        m.prove("selected indices below the end of a group, none", split(num(0)))
        m.prove("selected indices below the end of a group, one more", implies(split(q), split(add(q, num(1)))))
        m.assume(split(n))
        m.prove("number of neurons, no group", eq(total(0), below(num(0))))
        m.prove("number of neurons, one more group", implies(and_(eq(total(G), below(off(G))), lt(G, c.ntypes)), eq(total(add(G, num(1))), below(add(off(G), cnt)))))
        m.assume(eq(total(c.ntypes), below(off(c.ntypes))))
        allin = lambda q: eq(below(off(c.ntypes), q), q)
        m.prove("all selected indices, none", allin(num(0)))
        m.prove("all selected indices, one more", implies(and_(allin(q), lt(q, n)), allin(add(q, num(1)))))
        m.assume(allin(n))
        m.prove("as many neurons as selected indices", eq(num(r["L"]), n))


for k in (("ELM", None, "double", "best"), ("ELM", "basic", "single", "best"), ("HPELM", None, "double", "first")):
    _prune(*k)


# ---------------------------------------------------------------- retraining
KEEP = ("the selected size is", "the selected neurons are", "final: ", "no unexpected")


def after(base):
    class Final(base):
        """The search under its contracts (its own obligations are those of C08), then real pruning's contract and real
        training of the reduced layer: neuron j of it is neuron #sel(j) of the layer before."""

        def __init__(self, m, c, folds, weights):
            base.__init__(self, m, c, folds, None)
            self.weights = weights
            m.left_out = lambda name: not name.startswith(KEEP)

        def add_data(self, m, args, kw):
            self.default_weights(m, args[2])
            return base.add_data(self, m, args, kw)

        def default_weights(self, m, T):
            """add_data computes class weights from its data if there are none."""
            m.rec(m.fs).d["#wc"] = True
            e = m.rec(self.c.elm).d
            if e["classification"] == "wc" and e["wc"] is None:
                ft, n = m.rreader(T), T.shape[0]
                cnt = lambda k: sumrows(num(0), n, lambda s: ft((s, k)))
                e["wc"] = m.array((self.c.outputs,), lambda i: mul(real(n), recip(real(cnt(i[0])))), self.c.prec)

        def prune(self, m, args, kw):
            base.prune(self, m, args, kw)
            L = self.c.L
            smt.AXIOMS["sel"] = lambda t: [le(num(0), t), lt(t, L)]
            tm.RANGES["sel"] = (num(0), L)
            smt.EVAL["sel"] = lambda ev, a: ev.tab.setdefault(("sel", int(a[0])), ev.rnd.randint(0, 2))
            o = m.overrides
            o.pop("hpelm.elm.ELM.add_data", None)
            for q in ("hpelm.nnets.slfn.SLFN", "hpelm.nnets.slfn_python.SLFNPython"):
                for f in (".solve_corr", ".solve"):
                    o.pop(q + f, None)
                o[q + "._project"] = reduced(self.c)
            k = m.rec(m.fs).d["#pruned"]
            n = tm.var(mss.path_name(m, "kept"), "I")
            m.assume(eq(n, k))
            m.assume(le(num(1), n))
            m.assume(le(n, self.Lr))
            m.rec(m.fs).d["#pruned"] = n
            m.rec(self.c.nnet).d["L"] = n
            m.loop_contracts[:] = []
            return None
    return Final


def reduced(c):
    def ov(m, args, kw):
        X = args[1] if len(args) > 1 else kw["X"]
        if not isinstance(X, Arr) or X.ndim != 2 or any(X.masks):
            raise Unsupported("projection of such data")
        m.must(eq(X.shape[1], c.inputs), ValueError, "shapes not aligned")
        f = m.rreader(X)
        L = num(m.rec(args[0]).d["L"])
        return m.array((X.shape[0], L), lambda i: hid(m, f, i[0], c.inputs, app("sel", (i[1],), "I")), promote(F8, c.prec))
    return ov


def final(m, c, L, X, T, N, wt):
    w = wt if wt else (lambda s: num(1))
    H = lambda s, i: hid(m, X, s, c.inputs, app("sel", (i,), "I"))
    HH = lambda ij: add(sumrows(num(0), N, lambda s: mul(w(s), H(s, ij[0]), H(s, ij[1]))), mul(c.norm, ind(eq(ij[0], ij[1]))))
    HT = lambda ij: sumrows(num(0), N, lambda s: mul(w(s), H(s, ij[0]), T((s, ij[1]))))
    m.prove("final: the reduced layer has the selected number of neurons", eq(num(m.getattr(c.nnet, "L")), L))
    r = m.rec(c.nnet).d
    if r["HH"] is None or r["HT"] is None:
        m.prove("final: the reduced layer is trained", FALSE)
        return
    a, b = m.lib.unpack(m, m.call(m.getattr(c.nnet, "get_corr"), []), 2)
    same_elements(m, "final: HH is norm*I + sum h'wh over all samples", a, HH, (L, L))
    same_elements(m, "final: HT is sum h'wt over all samples", b, HT, (L, c.outputs))
    if r["B"] is None:
        m.prove("final: the reduced layer is solved", FALSE)
        return
    same_elements(m, "final: B solves (H'WH + norm*I) B = H'WT of the reduced layer on all samples", r["B"], solution(m, c, HH, HT, L), (L, c.outputs))


MODE = {"": (None, None), "c": ("c", None), "ml": ("ml", None), "wc given": ("wc", "given"), "wc auto": ("wc", "auto")}


def _retrain(how, solver, prec, mode, dtype):
    @harness("C07", "train %s solver=%s precision=%s %s data=%s" % (how, solver or "python", prec, mode or "regression", dtype))
    def h(m):
        word, weights = MODE[mode]
        c = model(m, "ELM", solver, prec, word or "")
        N = I(m, "N", 1)
        X = matrix(m, "X", (N, c.inputs), dtype)
        T = onehot(m, "T", N, c.outputs, dtype) if word in ("c", "wc") else matrix(m, "T", (N, c.outputs), dtype)
        fx, ft = m.rreader(X), m.rreader(T)
        kw, args = {}, [X, T, how] + ([word] if word else [])
        if weights == "given":
            kw["w"] = m.array((c.outputs,), lambda i: app("wt", (i[0],), "R"), F8)
        if how == "V":
            Nv = I(m, "Nv", 1)
            Xv, Tv = matrix(m, "Xv", (Nv, c.inputs), dtype), matrix(m, "Tv", (Nv, c.outputs), dtype)
            kw.update(Xv=Xv, Tv=Tv)
            S = after(Select)(m, c, [dict(train=(N, fx, ft), val=(Nv, m.rreader(Xv), m.rreader(Tv)))], weights)
        elif how == "LOO":
            S = after(LooSelect)(m, c, [dict(train=(N, fx, ft), val=(N, fx, ft))], weights)
        else:
            k = kw["k"] = I(m, "folds", 3)
            m.assume(le(k, N))
            S = after(Select)(m, c, cv_folds(m, N, k, fx, ft), weights)
        m.call(m.getattr(c.elm, "train"), args, kw)
        n = m.rec(m.fs).d["#pruned"]
        if n is None:
            m.prove("final: the layer is pruned", FALSE)
            return
        final(m, c, n, fx, ft, N, weight(m, c, weights, ft, num(0), N))


for k in [("V", None, "double", "", F8), ("V", "basic", "double", "wc given", F8), ("V", None, "double", "wc auto", F8), ("V", None, "single", "c", F4),
          ("LOO", None, "double", "", F8), ("LOO", "basic", "double", "wc auto", F8), ("LOO", None, "single", "wc given", F4),
          ("CV", None, "double", "", F8), ("CV", None, "double", "wc auto", F8), ("CV", "basic", "double", "wc given", F8), ("CV", None, "single", "ml", F4)]:
    _retrain(*k)


# ---------------------------------------------------------------- the contract of add_data about class weights
def _weights(how, solver):
    @harness("C07", "add_data and class weights, %s solver=%s" % (how, solver or "python"))
    def h(m):
        c = model(m, "ELM", solver, "double", "wc" if how != "not wanted" else "c")
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N, c.inputs)), onehot(m, "T", N, c.outputs)
        ft = m.rreader(T)
        if how == "given":
            w = m.array((c.outputs,), lambda i: app("wt", (i[0],), "R"), F8)
            m.setattr(c.elm, "wc", w)
        m.call(m.getattr(c.elm, "add_data"), [X, T])
        got = m.getattr(c.elm, "wc")
        if how == "not wanted":
            m.prove("no weights are set", TRUE if got is None else FALSE)
        elif how == "given":
            same_elements(m, "given weights stay", got, lambda i: app("wt", (i[0],), "R"), (c.outputs,))
        else:
            cnt = lambda k: sumrows(num(0), N, lambda s: ft((s, k)))
            k = I(m, "k", 0)
            m.assume(lt(k, c.outputs))
            m.prove("one weight per class", eq(got.shape[0], c.outputs))
            m.prove("the weight of a class that has samples is N over their number",
                    implies(lt(num(0), cnt(k)), eq(m.rreader(got)((k,)), mul(real(N), recip(real(cnt(k)))))))


for k in (("computed", None), ("computed", "basic"), ("given", None), ("not wanted", None)):
    _weights(*k)

"""C08 (and the search part of C07): model structure selection, with contracts on its loops and callees."""
import ast
from dv.spec import *
from dv import hoare, concat
from dv.h.train import stats, weight, MODES

NAMES = ("iA", "iB", "iC", "iD", "iE", "l", "e")
for _s in ("val", "test"):
    smt.AXIOMS["E" + _s] = lambda t: [le(num(0), t)]
    smt.EVAL["E" + _s] = lambda ev, a, _s=_s: ev.tab.setdefault((_s,) + tuple(int(x) for x in a), ev.rnd.randint(0, 6))


def find_app(t, name):
    """An application of the function inside the term, also under sums."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.data == name:
            return x
        if x.op == "psum":
            todo.append(tm.psum_body(x, fresh("b", "I")))
        elif x.op == "lam":
            todo.append(tm.apply_lam(x, [fresh("b", s) for s in x.data.sorts]))
        todo.extend(tm.children(x))
    return None


def ghost(d, name):
    v = d[name]
    if isinstance(v, Junk):
        raise JunkRead(v.loc)
    return v


def path_name(m, base):
    """A name that only states with the same history share."""
    return "%s~%s" % (base, "".join("01"[int(x)] for x in m.dec[:m.pos]))


def sym_hh(f, i, j):
    """Element of the (symmetric) matrix HH of part f."""
    a, b = app("HHs", (num(f), i, j), "R"), app("HHs", (num(f), j, i), "R")
    return a if i is j else ite(le(i, j), a, b)


class Folds(object):
    """n parts; part f has dict(train=(rows, X reader, T reader), val=..., test=...)."""

    def __init__(self, n, fn):
        self.n, self.fn = num(n), fn

    def __getitem__(self, f):
        return self.fn(num(f))

    @staticmethod
    def of(items):
        return items if isinstance(items, Folds) else Folds(len(items), lambda f: items[int(num_val(f))])


class Select(object):
    """Contracts of the callees; folds: list of dict(train=(rows, X reader, T reader), val=..., test=...)."""

    def __init__(self, m, c, folds, final):
        self.m, self.c, self.folds, self.final = m, c, Folds.of(folds), final
        self.Lr = I(m, "ranked", 1)
        m.assume(le(self.Lr, c.L))
        self.search = None
        g = m.rec(m.fs).d
        g["#adds"], g["#ranks"], g["#pruned"] = 0, 0, None
        o = m.overrides
        o["hpelm.elm.ELM._ranking"] = self.ranking
        o["hpelm.elm.ELM._error"] = self.error
        for q in ("hpelm.nnets.slfn.SLFN", "hpelm.nnets.slfn_python.SLFNPython"):
            o[q + ".solve_corr"] = self.solve_corr
            o[q + "._prune"] = self.prune
            o[q + ".solve"] = self.solve
        o["hpelm.elm.ELM.add_data"] = self.add_data
        m.loop_contracts[:] = [self.loops]
        rk = "rank"
        L = c.L
        smt.AXIOMS[rk] = lambda t: [le(num(0), t), lt(t, L)]
        tm.RANGES[rk] = (num(0), L)
        smt.EVAL[rk] = lambda ev, a: ev.tab.setdefault((rk,) + tuple(int(x) for x in a), ev.rnd.randint(0, 2))

    # ---------------------------------------------------------- specification
    def rank(self, f, i):
        return app("rank", (num(f), i), "I")

    def E(self, n, kind="val"):
        k, f = self.folds.n, fresh("f", "I")
        return mul(recip(real(k)), sum_(f, num(0), k, app("E" + kind, (f, num(n)), "R")))

    def perr(self, n):
        """Penalised error of size n: its error plus n times 1% of the error at the largest size over that size."""
        pen = mul(num(0.01), self.E(self.Lr), recip(real(self.Lr)))
        return add(self.E(n), mul(pen, real(num(n))))

    def same(self, name, a, f, shape):
        same_elements(self.m, name, a, f, shape)

    # ---------------------------------------------------------- contracts of callees
    def add_data(self, m, args, kw):
        g = m.rec(m.fs).d
        if g["#pruned"] is not None:
            return self.final(m, args)
        f = ghost(g, "#adds")
        f = num(f)
        m.prove("no more training sets than folds", lt(f, self.folds.n))
        m.assume(lt(f, self.folds.n))
        g["#adds"] = nl.pyfix(add(f, num(1)))
        self_, X, T = args
        n, fx, ft = self.folds[f]["train"]
        self.same("a part is trained with the inputs of its training set", X, fx, (n, self.c.inputs))
        self.same("a part is trained with the targets of its training set", T, ft, (n, self.c.outputs))
        r = m.rec(self.c.nnet).d
        m.prove("statistics of a part start afresh", TRUE if r["HH"] is None and r["HT"] is None else FALSE)
        L = self.c.L
        r["HH"] = m.array((L, L), lambda i: sym_hh(f, i[0], i[1]), self.c.prec)
        r["HT"] = m.array((L, self.c.outputs), lambda i: app("HTs", (f,) + tuple(i), "R"), self.c.prec)
        return None

    def ranking(self, m, args, kw):
        g = m.rec(m.fs).d
        f = ghost(g, "#ranks")
        g["#ranks"] = nl.pyfix(add(num(f), num(1)))
        m.prove("all neurons are ranked", eq(num(args[1]), self.c.L))
        return (m.array((self.Lr,), lambda i: self.rank(f, i[0]), I8), nl.pyfix(self.Lr))

    def solve_corr(self, m, args, kw):
        _, HH, HT = args
        n = HH.shape[0]
        i, j = tm.var("i", "I"), tm.var("j", "I")
        x = find_app(m.rreader(HH)((i, j)), "HHs")
        if x is None:
            raise Unsupported("solution for other statistics")
        f = x.args[0]
        self.solving(m, f, n, HH)
        self.same("the model of a size is solved from its neurons' rows of HT", HT,
                  lambda ij: app("HTs", (num(f), self.rank(f, ij[0]), ij[1]), "R"), (n, self.c.outputs))
        return m.array((n, self.c.outputs), lambda i: app("Bsel", (num(f), n) + tuple(i), "R"), self.c.prec)

    def solving(self, m, f, n, HH):
        self.same("the model of a size is solved from its neurons' part of HH", HH,
                  lambda ij: sym_hh(f, self.rank(f, ij[0]), self.rank(f, ij[1])), (n, n))

    def error(self, m, args, kw):
        _, T, Y = args[:3]
        r, j = tm.var("i", "I"), tm.var("j", "I")
        b = find_app(m.rreader(Y)((r, j)), "Bsel")
        if b is None:
            raise Unsupported("error of other predictions")
        f, n = b.args[0], b.args[1]
        for kind in ("val", "test"):
            if kind not in self.folds[f]:
                continue
            rows, fx, ft = self.folds[f][kind]
            if T.ndim == 2 and m.entails(eq(T.shape[0], rows)) and smt.agree(
                    m.pc + [le(num(0), r), lt(r, rows), le(num(0), j), lt(j, self.c.outputs)], m.rreader(T)((r, j)), real(ft((r, j)))):
                break
        else:
            kind = "val"
            rows, fx, ft = self.folds[f][kind]
        self.same("an error compares with the %s targets" % kind, T, ft, (rows, self.c.outputs))
        self.predicted(m, f, n, kind, Y)
        self.press(m, f, n, args, kw)
        return app("E" + kind, (num(f), n), "R")

    def predicted(self, m, f, n, kind, Y):
        rows, fx, ft = self.folds[f][kind]
        v = fresh("k", "I")
        self.same("an error is of the %s predictions of the model with the best neurons" % kind, Y, lambda ij: sum_(
            v, num(0), n, mul(hid(m, fx, ij[0], self.c.inputs, self.rank(f, v)), app("Bsel", (num(f), n, v, ij[1]), "R"))),
            (rows, self.c.outputs))

    def press(self, m, f, n, args, kw):
        if len(args) > 3 or kw:
            m.prove("a validation error is not a PRESS error", FALSE)

    def prune(self, m, args, kw):
        g = m.rec(m.fs).d
        idx = args[1]
        if not isinstance(idx, Arr) or idx.ndim != 1 or self.search is None or g["#pruned"] is not None:
            raise Unsupported("pruning")
        k = idx.shape[0]
        g["#pruned"] = k
        n = tm.var("n", "I")
        x = find_app(m.rreader(idx)((n,)), "rank")
        f = x.args[0] if x is not None else num(0)
        m.prove("the selected size is between 1 and the number of ranked neurons", and_(le(num(1), k), le(k, self.Lr)))
        self.same("the selected neurons are the best ranked ones", idx, lambda i: self.rank(f, i[0]), (k,))
        e = m.rreader(self.search.e)
        g_ = and_(le(num(1), n), le(n, self.Lr), ne(e((n,)), num(-1)))
        m.prove("no size evaluated has a smaller penalised error than the selected one", implies(g_, le(self.perr(k), self.perr(n))))
        m.prove("the search records the penalised errors of sizes", implies(g_, eq(e((n,)), self.perr(n))))
        r = m.rec(self.c.nnet).d
        r["HH"] = r["HT"] = r["B"] = None
        r["L"] = nl.pyfix(k)
        return None

    def solve(self, m, args, kw):
        return None

    # ---------------------------------------------------------- loops
    def loops(self, m, s, env):
        if env.fn is None:
            return None
        fr = m.heap[env.frame].d
        if isinstance(s, ast.While):
            if all(x in fr and not isinstance(fr[x], Junk) for x in NAMES):
                self.search = Search(self, fr["e"], s)
                self.search.lemma(m)
                return self.search
        elif isinstance(s, ast.For) and self.search is not None and s in self.search.node.body and s is [
                x for x in self.search.node.body if isinstance(x, ast.For)][0]:
            return Points(self, self.search.e)
        return None


class Search(hoare.Contract):
    """Interval halving: five points between the bounds of the search; m is the smallest error seen, attained at a point."""
    name = "size search"
    keep = ("rank",)

    def __init__(self, sel, e, node):
        self.sel, self.e, self.node = sel, e, node

    def get(self, m, env, *names):
        r = [m.lookup(env, x) for x in names]
        return [num(x) for x in r]

    def lemma(self, m):
        n = tm.var("n", "I")
        m.prove("size search: penalised errors are not negative", implies(and_(le(num(1), n), le(n, self.sel.Lr)), le(num(0), self.sel.perr(n))))

    def entry(self, m, env):
        self.first = TRUE           # ghost: no iteration completed; m is not set, l only makes the loop start

    def done(self, m, env):
        self.first = FALSE

    def havoc(self, m, env):
        fr = m.heap[env.frame].d
        eH, mH = path_name(m, "eH"), tm.var(path_name(m, "mH"), "R")
        first = self.first = tm.var(path_name(m, "first"), "B")
        smt.EVAL[eH] = lambda ev, a: ev.tab.setdefault((eH, int(a[0])), ev.rnd.randint(-1, 8))
        Lr, perr = self.sel.Lr, self.sel.perr

        def ax(t):
            n = t.args[0]
            p = perr(n)
            return [implies(and_(le(num(1), n), le(n, Lr)), and_(le(num(0), p), self.recorded(n, t, mH, first)))]
        smt.AXIOMS[eH] = ax
        for x in ("iA", "iC", "iE", "l"):
            fr[x] = tm.var(path_name(m, x), "I")
        fr["m"] = mH
        d = sub(fr["iE"], fr["iA"])
        fr["iB"] = add(fr["iA"], idiv(d, num(4)))
        fr["iD"] = add(fr["iA"], idiv(mul(num(3), d), num(4)))
        m.heap[self.e.buf].d["c"] = Content(lambda i: app(eH, (i[0],), "R"))

    def recorded(self, n, t, mm, first):
        """What the record t of size n can be."""
        return or_(eq(t, num(-1)), and_(eq(t, self.sel.perr(n)), or_(and_(first, eq(n, self.sel.Lr)), and_(not_(first), le(mm, t)))))

    def locs(self, m, env):
        return {(self.e.buf, "c")}

    def invariant(self, m, env, k):
        A, B, C, D, E, l = self.get(m, env, "iA", "iB", "iC", "iD", "iE", "l")
        first = self.first
        mm = self.get(m, env, "m")[0] if first is not TRUE else num(0)
        e = m.rreader(self.e)
        n = tm.var("n", "I")
        Lr = self.sel.Lr
        d = sub(E, A)
        out = [("l is the length of the interval", or_(and_(first, lt(num(2), l)), and_(not_(first), eq(l, d)))),
               ("iB is at a quarter", eq(B, add(A, idiv(d, num(4))))),
               ("iD is at three quarters", eq(D, add(A, idiv(mul(num(3), d), num(4)))))]
        for x, nm in zip((A, C, E), "ACE"):
            out.append(("1 <= i%s <= number of ranked neurons" % nm, and_(le(num(1), x), le(x, Lr))))
        out.append(("the search starts with the largest size", or_(not_(first), eq(E, Lr))))
        out.append(("the smallest error is not negative", or_(first, le(num(0), mm))))
        out.append(("the smallest error is at one of the points", or_(first, *[eq(e((x,)), mm) for x in (A, C, E)])))
        out.append(("every size is not evaluated, or recorded with its penalised error, which is no smaller than the smallest",
                    implies(and_(le(num(1), n), le(n, Lr)), self.recorded(n, e((n,)), mm, first))))
        return out

    def variant(self, m, env):
        A, C, E = self.get(m, env, "iA", "iC", "iE")
        mx = lambda a, b: ite(le(a, b), b, a)
        mn = lambda a, b: ite(le(a, b), a, b)
        hull = sub(mx(mx(A, C), E), mn(mn(A, C), E))
        v = add(mul(num(3), hull), ite(le(E, C), num(2), ite(le(C, A), num(1), num(0))))
        return ite(self.first, add(mul(num(3), self.sel.Lr), num(9)), v)


class Points(hoare.Contract):
    """Evaluation of the points of the search: a recorded error stays, the first k points are recorded afterwards."""
    name = "evaluation of the points"
    keep = ("rank",)

    def __init__(self, sel, e):
        self.sel, self.e = sel, e

    def entry(self, m, env):
        self.e0 = m.rreader(self.e)
        self.pts = [num(x) for x in self.items] if isinstance(self.items, list) else None
        if self.pts is None:
            raise Unsupported("points of the search")
        for p in self.pts:      # instances of the lemma proved by Search.entry
            m.assume(le(num(0), self.sel.perr(p)))

    def havoc(self, m, env):
        eI = path_name(m, "eI")
        smt.EVAL[eI] = lambda ev, a: ev.tab.setdefault((eI, int(a[0])), ev.rnd.randint(-1, 8))
        e0, Lr, f = self.e0, self.sel.Lr, self.fact
        k = getattr(self, "at", None)
        smt.AXIOMS[eI] = lambda t: [implies(and_(le(num(1), t.args[0]), le(t.args[0], Lr)), f(t.args[0], t, self.upto))]
        m.heap[self.e.buf].d["c"] = Content(lambda i: app(eI, (i[0],), "R"))

    def fact(self, n, t, k):
        """Of size n, its record t, k points done."""
        b, p = self.e0((n,)), self.sel.perr(n)
        return and_(le(num(0), p), or_(eq(t, num(-1)), eq(t, p)), or_(eq(b, num(-1)), eq(t, b)), or_(eq(t, b), *[eq(n, x) for x in self.pts[:k]]))

    def locs(self, m, env):
        return {(self.e.buf, "c")}

    def invariant(self, m, env, k):
        k = num_val(num(k))
        self.upto = int(k)
        e = m.rreader(self.e)
        n = tm.var("n", "I")
        out = [("records stay, and new ones are penalised errors of points",
                implies(and_(le(num(1), n), le(n, self.sel.Lr)), self.fact(n, e((n,)), self.upto)))]
        for x in self.pts[:self.upto]:
            out.append(("points done are recorded", eq(e((x,)), self.sel.perr(x))))
        return out


# ---------------------------------------------------------------- harnesses
def v_setup(m, solver=None, prec="double", cl="", dtype=F8):
    c = model(m, "ELM", solver, prec, cl)
    N, Nv = I(m, "N", 1), I(m, "Nv", 1)
    X, T = matrix(m, "X", (N, c.inputs), dtype), matrix(m, "T", (N, c.outputs), dtype)
    Xv, Tv = matrix(m, "Xv", (Nv, c.inputs), dtype), matrix(m, "Tv", (Nv, c.outputs), dtype)
    return c, X, T, Xv, Tv, N, Nv


def _v(solver, prec, cl, dtype, kmax=False):
    @harness("C08", "train V solver=%s precision=%s %s data=%s" % (solver or "python", prec, cl or "regression", dtype))
    def h(m):
        c, X, T, Xv, Tv, N, Nv = v_setup(m, solver, prec, cl, dtype)
        fx, ft, gx, gt = map(m.rreader, (X, T, Xv, Tv))
        sel = Select(m, c, [dict(train=(N, fx, ft), val=(Nv, gx, gt))], lambda m, a: None)
        m.call(m.getattr(c.elm, "train"), [X, T, "V"] + ([cl] if cl else []), dict(Xv=Xv, Tv=Tv))
        m.prove("the search is made", TRUE if m.rec(m.fs).d["#pruned"] is not None else FALSE)


for k in ((None, "double", "", F8), ("basic", "double", "c", F8), (None, "single", "wc", F4)):
    _v(*k)


def linalg_modules(m):
    mods = m.lib.modules
    out = [mods[x] for x in ("numpy.linalg", "scipy.linalg") if x in mods]
    np_ = mods["numpy"].d.get("linalg")
    return out + ([np_] if np_ is not None and np_ not in out else [])


class LooSelect(Select):
    """Leave-one-out: the inverse of a size's statistics gives its model and the residuals' denominators."""

    def __init__(self, m, c, folds, final):
        Select.__init__(self, m, c, folds, final)
        for lin in linalg_modules(m):
            lin.d["inv"] = Native("inv", self.inv)

    def inv(self, m, args, kw):
        HH = nl.to_arr(m, args[0])
        n = HH.shape[0]
        i, j = tm.var("i", "I"), tm.var("j", "I")
        x = find_app(m.rreader(HH)((i, j)), "HHs")
        if x is None:
            raise Unsupported("inverse of other statistics")
        f = x.args[0]
        self.solving(m, f, n, HH)
        return m.array((n, n), lambda i: app("Bsel", (num(f), n) + tuple(i), "R"), F8)

    def inv_el(self, f, n, i, j):
        return app("Bsel", (num(f), n, i, j), "R")

    def predicted(self, m, f, n, kind, Y):
        rows, fx, ft = self.folds[f][kind]
        v, u = fresh("k", "I"), fresh("u", "I")
        self.same("an error is of the predictions of the model with the best neurons", Y, lambda ij: sum_(
            v, num(0), n, mul(hid(m, fx, ij[0], self.c.inputs, self.rank(f, v)),
                              sum_(u, num(0), n, mul(self.inv_el(f, n, v, u), app("HTs", (num(f), self.rank(f, u), ij[1]), "R"))))),
            (rows, self.c.outputs))

    def press(self, m, f, n, args, kw):
        R = args[3] if len(args) > 3 else kw.get("R")
        if R is None:
            m.prove("a leave-one-out error is a PRESS error", FALSE)
            return
        rows, fx, ft = self.folds[f]["val"]
        v, u = fresh("k", "I"), fresh("u", "I")
        h = lambda r, k: hid(m, fx, r, self.c.inputs, self.rank(f, k))
        self.same("a leave-one-out residual is divided by 1 - h inv(HH) h'", R, lambda i: sub(num(1), sum_(
            u, num(0), n, mul(h(i[0], u), sum_(v, num(0), n, mul(h(i[0], v), self.inv_el(f, n, v, u)))))), (rows,))


def _loo(solver, prec, cl, dtype):
    @harness("C08", "train LOO solver=%s precision=%s %s data=%s" % (solver or "python", prec, cl or "regression", dtype))
    def h(m):
        c = model(m, "ELM", solver, prec, cl)
        N = I(m, "N", 1)
        X, T = matrix(m, "X", (N, c.inputs), dtype), matrix(m, "T", (N, c.outputs), dtype)
        fx, ft = m.rreader(X), m.rreader(T)
        LooSelect(m, c, [dict(train=(N, fx, ft), val=(N, fx, ft))], lambda m, a: None)
        m.call(m.getattr(c.elm, "train"), [X, T, "LOO"] + ([cl] if cl else []))
        m.prove("the search is made", TRUE if m.rec(m.fs).d["#pruned"] is not None else FALSE)


for k in ((None, "double", "", F8), ("basic", "double", "c", F8), (None, "single", "ml", F4)):
    _loo(*k)


def part(m, N, k, a):
    """Rows of part a: a, a + k, a + 2k, ..."""
    n = nl.steps(sub(N, a), k)
    return m.array((n,), lambda r: add(a, nl.stride(sub(N, a), k, r[0])), I8)


def cv_folds(m, N, k, fx, ft):
    """Fold f: parts f .. f + k - 3 train, the next one validates, the next one tests (numbers of parts modulo k)."""
    def fold(f):
        at = lambda j: imod(add(f, num(j)), k)
        d = {}
        tr = concat.concat(m, {"n": sub(k, num(2)), "fn": lambda j: part(m, N, k, at(j))}, "h")
        for name, a in (("train", tr), ("val", part(m, N, k, at(sub(k, num(2))))), ("test", part(m, N, k, at(sub(k, num(1)))))):
            g = m.reader(a)
            d[name] = (a.shape[0], (lambda g: lambda ij: fx((g((ij[0],)), ij[1])))(g), (lambda g: lambda ij: ft((g((ij[0],)), ij[1])))(g))
        return d
    return Folds(k, fold)


def _cv(solver, prec, cl, dtype):
    @harness("C08", "train CV solver=%s precision=%s %s data=%s" % (solver or "python", prec, cl or "regression", dtype))
    def h(m):
        c = model(m, "ELM", solver, prec, cl)
        k, N = I(m, "folds", 3), I(m, "N", 1)
        m.assume(le(k, N))
        X, T = matrix(m, "X", (N, c.inputs), dtype), matrix(m, "T", (N, c.outputs), dtype)
        fx, ft = m.rreader(X), m.rreader(T)
        sel = Select(m, c, cv_folds(m, N, k, fx, ft), lambda m, a: None)
        r = m.call(m.getattr(c.elm, "train"), [X, T, "CV"] + ([cl] if cl else []), dict(k=k))
        n = m.rec(m.fs).d["#pruned"]
        m.prove("the search is made", TRUE if n is not None else FALSE)
        if n is not None:
            m.prove("returns the mean test error of the selected size", eq(num(r), sel.E(n, "test")))


for k in ((None, "double", "", F8), ("basic", "double", "c", F8), (None, "single", "wc", F4)):
    _cv(*k)

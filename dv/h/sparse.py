"""C26: what optimal pruning ranks by."""
import ast
from dv.spec import *
from dv.h.mss import path_name, find_app, linalg_modules
from dv.h.rank import Mrsr, permutation, readlist


def largest(m, t, body, among):
    """Instance of the contract of argmax, for the application t: no element of its vector is larger than the element there."""
    f = lam_fn(t.args[0])
    m.assume(implies(and_(le(num(0), among), lt(among, t.args[1])), le(f(among), f(t))))


class Fit(Mrsr):
    """The work arrays hold the columns of the neurons ranked and left, and the products of those ranked."""

    def __init__(self, M, arrays, X, T, n, p):
        Mrsr.__init__(self, M, arrays)
        self.X, self.T, self.n, self.p = X, T, n, p

    def gram(self, a, b):
        v = fresh("r", "I")
        return sum_(v, num(0), self.n, mul(self.X((v, a)), self.X((v, b))))

    def XT(self, a, o):
        v = fresh("r", "I")
        return sum_(v, num(0), self.n, mul(self.X((v, a)), self.T((v, o))))

    def strength(self, Y, c):
        """Summed absolute correlation of neuron c with the residual T - Y."""
        v, o = fresh("r", "I"), fresh("o", "I")
        return sum_(o, num(0), self.p, tabs(sum_(v, num(0), self.n, mul(self.X((v, c)), sub(self.T((v, o)), Y((v, o)))))))

    def inverse(self, m, args, kw):
        """Contract of inv and pinv: the matrix is that of the products of the neurons ranked so far."""
        A = nl.to_arr(m, args[0])
        cnt, i1 = readlist(m, m.heap[self.frame].d["i1"])
        what = "the matrix inverted has the products of the neurons ranked so far"
        if not isinstance(A, Arr) or A.ndim != 2 or any(A.masks):
            raise Unsupported("matrix inverted")
        for x in A.shape:
            m.prove(what + " (size)", eq(x, cnt))
        rd = m.rreader(A)
        for case, hyp, x, y in self.cases(cnt):
            m.prove("%s (%s)" % (what, case), implies(hyp, eq(rd((x, y)), self.gram(i1(x), i1(y)))))
        nm = self.inv = path_name(m, "ginv")
        return m.array((cnt, cnt), lambda i: app(nm, tuple(i), "R"), F8)

    def cases(self, cnt):
        """Pairs of neurons ranked, by whether they are the last one."""
        s, t = tm.var("s", "I"), tm.var("t", "I")
        last = sub(cnt, num(1))
        old = lambda x: and_(le(num(0), x), lt(x, last))
        return (("before", and_(old(s), old(t)), s, t), ("before and the last one", old(s), s, last),
                ("last and one before", old(t), last, t), ("last", TRUE, last, last))

    def fit(self, i1, n, new, first):
        """The least-squares fit of the targets on the neurons i1(0..n-1), the last one being the new one."""
        if first:
            inv = nl.pinv_fn(lambda a, b: self.gram(i1(a), i1(b)), n)
        else:
            inv = lambda a, b: app(self.inv, (a, b), "R")
        last = sub(n, num(1))

        def at(idx):
            a, b = fresh("a", "I"), fresh("b", "I")
            x = self.X((idx[0], new)) if first else ite(lt(a, last), self.X((idx[0], self.pm(a))), self.X((idx[0], new)))
            return sum_(a, num(0), n, mul(x, sum_(b, num(0), n, mul(inv(a, b), self.XT(i1(b), idx[1])))))
        return at

    def known(self, m, env, k):
        out = Mrsr.known(self, m, env, k)
        fr = m.heap[env.frame].d
        n = self.count(k)
        pm = self.pm = permutation(m, self.M)
        fr["Xi1"] = m.array((self.n, n), lambda i: self.X((i[0], pm(i[1]))), F8)
        fr["Xi2"] = m.array((self.n, sub(self.M, n)), lambda i: self.X((i[0], pm(add(n, i[1])))), F8)
        nm = path_name(m, "XXs")
        back = lambda c: app(path_name(m, "pm") + "^", (self.M, c), "I")
        taken = lambda c: and_(le(num(0), c), lt(c, self.M), lt(back(c), n))
        smt.EVAL[nm] = lambda ev, a: ev.tab.setdefault((nm,) + tuple(int(x) for x in a), ev.rnd.randint(-3, 3))
        fr["XX"] = m.array((self.M, self.M), lambda i: ite(and_(taken(i[0]), taken(i[1])), self.gram(i[0], i[1]), app(nm, tuple(i), "R")), F8)
        self.frame, self.inv = env.frame, None
        for lin in linalg_modules(m):
            for x in ("inv", "pinv"):
                lin.d[x] = Native(x, self.inverse)
        self.before = (n, pm, m.rreader(fr["Y"]))
        return out

    def entry(self, m, env):
        Mrsr.entry(self, m, env)
        self.taken_is_best(m, env, num(0), None, lambda i: num(0))

    def done(self, m, env):
        Mrsr.done(self, m, env)
        n, pm, Y = self.before
        self.taken_is_best(m, env, n, pm, Y)

    def taken_is_best(self, m, env, n, pm, Y0):
        fr = m.heap[env.frame].d
        cnt, i1 = readlist(m, fr["i1"])
        new = i1(n)
        what = "mrsr: %s neuron" % ("the first" if pm is None else "a later")
        t = find_app(new, "argmax")
        if t is None:
            raise Unsupported("how the neuron is chosen")
        j = tm.var(path_name(m, "left"), "I")
        m.assume(le(num(0), j))
        m.assume(lt(j, sub(self.M, n)))
        other = pm(add(n, j)) if pm else j
        largest(m, t, None, j)
        m.prove(what + " correlates most with what is left to explain", le(self.strength(Y0, other), self.strength(Y0, new)))
        Y1 = m.rreader(fr["Y"])
        if pm is not None and self.inv is None:
            raise Unsupported("how the fit is solved")
        F = self.fit(i1, add(n, num(1)), new, pm is None)
        i, o, u, w = [tm.var(path_name(m, x), "I") for x in ("row", "out", "row2", "out2")]
        for x, e in ((i, self.n), (u, self.n), (o, num(self.p)), (w, num(self.p))):
            m.assume(le(num(0), x))
            m.assume(lt(x, e))
        if self.p == 1:
            o = w = num(0)
        d = lambda A, x: sub(A(x), Y0(x))
        m.prove(what + " moves the fit towards the least-squares fit on the neurons ranked so far",
                eq(mul(d(Y1, (i, o)), d(F, (u, w))), mul(d(Y1, (u, w)), d(F, (i, o)))))

    def invariant(self, m, env, k):
        out = Mrsr.invariant(self, m, env, k)
        fr = m.heap[env.frame].d
        n = self.count(k)
        n1, a = readlist(m, fr["i1"])
        n2, b = readlist(m, fr["i2"])
        r, s, t = tm.var("r", "I"), tm.var("s", "I"), tm.var("t", "I")
        row = and_(le(num(0), r), lt(r, self.n), le(num(0), s))
        rd = {x: m.rreader(fr[x]) for x in ("Xi1", "Xi2", "XX")}
        out.append(("columns of the neurons ranked", implies(and_(row, lt(s, n)), eq(rd["Xi1"]((r, s)), self.X((r, a(s)))))))
        out.append(("columns of the neurons left", implies(and_(row, lt(s, sub(self.M, n))), eq(rd["Xi2"]((r, s)), self.X((r, b(s)))))))
        for what, hyp, x, y in self.cases(n):
            x, y = a(x), a(y)
            out.append(("products of the neurons ranked (%s)" % what, implies(hyp, eq(rd["XX"]((x, y)), self.gram(x, y)))))
        return out


def _fit(p):
    @harness("C26", "mrsr, %d outputs" % p)
    def h(m):
        n, M, kmax = I(m, "n", 1), I(m, "m", 1), I(m, "kmax", 1)
        X, T = matrix(m, "X", (n, M)), matrix(m, "T", (n, num(p)))
        shapes = dict(XX=(lambda k: (M, M), F8), Xi1=(lambda k: (n, k), F8), Xi2=(lambda k: (n, sub(M, k)), F8), Y=(lambda k: (n, num(p)), F8))
        found = []

        def loops(m, s, env):
            fr = m.heap[env.frame].d
            if isinstance(s, ast.For) and all(isinstance(fr.get(x), Arr) for x in ("i1", "i2", "XX", "Xi1", "Xi2", "Y")):
                found.append(s)
                return Fit(M, shapes, m.rreader(X), m.rreader(T), n, p)
            return None
        m.loop_contracts[:] = [loops]
        m.call(m.get("hpelm.modules.mrsr", "mrsr"), [X, T, nl.pyfix(kmax)])
        if not found:
            raise Unsupported("steps of mrsr not found")


for p in range(1, 10):
    _fit(p)

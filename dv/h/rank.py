"""C09: rankings list distinct existing neurons."""
import ast
from dv.spec import *
from dv import hoare
from dv.h.mss import path_name


def distinct(m, name, at, n, top):
    """Obligation: at(0..n-1) are distinct numbers in [0, top)."""
    s, t = I(m, "s!", 0), I(m, "t!", 0)
    m.prove(name + ": existing neurons", implies(lt(s, n), and_(le(num(0), at(s)), lt(at(s), top))))
    m.prove(name + ": no neuron twice", implies(and_(lt(s, n), lt(t, n), ne(s, t)), ne(at(s), at(t))))


def permutation(m, n):
    """An unknown permutation of 0..n-1."""
    nm = path_name(m, "pm")
    nl.register_perm(nm)
    return lambda i: app(nm, (n, num(i)), "I")


def readlist(m, v):
    """(length, element reader) of a list or an index vector."""
    if isinstance(v, Arr):
        if v.ndim != 1 or any(v.masks):
            raise Unsupported("index vector")
        f = m.reader(v)
        return v.shape[0], lambda i: f((num(i),))
    rec = m.rec(v)
    if rec.kind == "list":
        items = [num(x) for x in rec.x]

        def at(i):
            r = items[-1] if items else num(0)
            for j in range(len(items) - 2, -1, -1):
                r = ite(eq(num(i), num(j)), items[j], r)
            return r
        return num(len(items)), at
    if rec.kind != "symlist" or rec.d.get("mask"):
        raise Unsupported("list of neurons")
    fn = rec.d["fn"]
    return rec.d["n"], lambda i: num(fn(num(i)))


def unknown(m, base, shape, dtype=F8):
    nm = path_name(m, base)
    return m.array(shape, lambda i: app(nm, tuple(i), "R"), dtype)


class Ranking(hoare.Contract):
    """The ranked neurons followed by the others are a permutation of all neurons; the work arrays have their shapes."""
    taken, rest = "i1", "i2"
    placed = True

    def __init__(self, M, arrays):
        self.M, self.arrays = M, arrays     # name -> shape as a function of the number of ranked neurons

    def count(self, k):
        return num(k)

    def entry(self, m, env):
        self.own(m, env)

    def own(self, m, env):
        """Arrays updated in place are not seen through other names."""
        fr = m.heap[env.frame].d
        seen = {}
        for x, v in fr.items():
            if isinstance(v, Arr) and (x in self.arrays or x not in self.names):
                if x in self.arrays and v.buf in seen or v.buf in seen and seen[v.buf] in self.arrays:
                    if {x, seen[v.buf]} & self.inplace:
                        raise Unsupported("%s: %s and %s share memory" % (self.name, x, seen[v.buf]))
                seen[v.buf] = x

    inplace = frozenset()

    def done(self, m, env):
        self.own(m, env)

    def known(self, m, env, k):
        fr = m.heap[env.frame].d
        n = self.count(k)
        pm = permutation(m, self.M)
        self.place(m, fr, n, pm)
        for x, (shape, dt) in self.arrays.items():
            fr[x] = unknown(m, x, shape(n), dt)
        return [le(num(1), n), le(n, self.M)]

    def locs(self, m, env):
        fr = m.heap[env.frame].d
        return {(fr[x].buf, "c") for x in self.inplace}

    def invariant(self, m, env, k):
        fr = m.heap[env.frame].d
        n = self.count(k)
        out = []
        n1, a = readlist(m, fr[self.taken])
        n2, b = readlist(m, fr[self.rest])
        out.append(("number of ranked neurons", eq(n1, n)))
        out.append(("number of neurons left", eq(n2, sub(self.M, n))))
        s, t = tm.var("s", "I"), tm.var("t", "I")
        at = lambda i: ite(lt(i, n), a(i), b(sub(i, n)))
        ins = lambda i: and_(le(num(0), i), lt(i, self.M))
        for x, hyp, f in (("ranked", and_(le(num(0), s), lt(s, n)), a), ("left", and_(le(num(0), s), lt(s, sub(self.M, n))), b)):
            out.append(("neurons %s exist" % x, implies(hyp, and_(le(num(0), f(s)), lt(f(s), self.M)))))
            out.append(("neurons %s are distinct" % x, implies(and_(hyp, subst(hyp, {s.data: t}), lt(s, t)), ne(f(s), f(t)))))
        out.append(("no ranked neuron is left", implies(and_(le(num(0), s), lt(s, n), le(num(0), t), lt(t, sub(self.M, n))), ne(a(s), b(t)))))
        for x, (shape, dt) in self.arrays.items():
            v = fr.get(x)
            if not isinstance(v, Arr) or any(v.masks) or v.ndim != len(shape(n)):
                out.append(("%s is an array" % x, FALSE))
                continue
            out.append(("shape of %s" % x, and_(*[eq(p, q) for p, q in zip(v.shape, shape(n))])))
        return out


class Mrsr(Ranking):
    name = "mrsr steps"
    inplace = frozenset(["XX", "Xi2"])

    def count(self, k):
        return add(num(k), num(1))

    def place(self, m, fr, n, pm):
        fr["i1"] = m.array((n,), lambda i: pm(i[0]), I8)
        fr["i2"] = m.array((sub(self.M, n),), lambda i: pm(add(n, i[0])), I4)


def _mrsr(p):
    @harness("C09", "mrsr, %d outputs" % p)
    def h(m):
        n, M, kmax = I(m, "n", 1), I(m, "m", 1), I(m, "kmax", 1)
        X, T = matrix(m, "X", (n, M)), matrix(m, "T", (n, num(p)))
        shapes = dict(XX=(lambda k: (M, M), F8), Xi1=(lambda k: (n, k), F8), Xi2=(lambda k: (n, sub(M, k)), F8), Y=(lambda k: (n, num(p)), F8))

        def loops(m, s, env):
            fr = m.heap[env.frame].d
            if isinstance(s, ast.For) and all(isinstance(fr.get(x), Arr) for x in ("i1", "i2", "XX", "Xi1", "Xi2", "Y")):
                return Mrsr(M, shapes)
            return None
        m.loop_contracts[:] = [loops]
        snap = take(m)
        r = m.call(m.get("hpelm.modules.mrsr", "mrsr"), [X, T, nl.pyfix(kmax)])
        got, at = readlist(m, r)
        m.prove("as many neurons as requested, or all", eq(got, ite(lt(kmax, M), kmax, M)))
        distinct(m, "ranking", at, got, M)
        unchanged(m, snap, "the data are unchanged")


for p in range(1, 10):
    _mrsr(p)


def _random(cls):
    @harness("C09", "random ranking %s" % cls)
    def h(m):
        c = model(m, cls, None, "double", "")
        N = I(m, "N", 1)
        r, L = m.lib.unpack(m, m.call(m.getattr(c.elm, "_ranking"), [nl.pyfix(c.L), matrix(m, "H", (N, c.L)), matrix(m, "T", (N, c.outputs))]), 2)
        got, at = readlist(m, r)
        m.prove("all neurons", eq(got, c.L))
        m.prove("the number of neurons is returned", eq(num(L), c.L))
        distinct(m, "ranking", at, got, c.L)


_random("ELM")


# ---------------------------------------------------------------- many outputs
class Mrsr2(Ranking):
    name = "mrsr2 steps"
    taken, rest = "rank", "nonrank"
    inplace = frozenset(["XA", "W"])
    peel = 1

    def count(self, k):
        return m_min(num(k), self.M)

    def place(self, m, fr, n, pm):
        fr["rank"] = m.new("symlist", {"n": n, "fn": lambda i: nl.pyfix(pm(i))})
        fr["nonrank"] = m.new("symlist", {"n": sub(self.M, n), "fn": lambda i: nl.pyfix(pm(add(n, num(i))))})
        fr["j_current"] = nl.pyfix(pm(sub(n, num(1))))

    def known(self, m, env, k):
        r = Ranking.known(self, m, env, k)
        fr = m.heap[env.frame].d
        fr["y_min"] = tm.var(path_name(m, "ymin"), "R")
        return r

    def locs(self, m, env):
        fr = m.heap[env.frame].d
        return Ranking.locs(self, m, env) | {(fr[x].id, "#x") for x in ("rank", "nonrank")}

    def invariant(self, m, env, k):
        out = Ranking.invariant(self, m, env, k)
        fr = m.heap[env.frame].d
        if out:
            j = fr.get("j_current")
            ok = isinstance(j, (int, T))
            out.append(("the neuron of the last step exists", and_(le(num(0), num(j)), lt(num(j), self.M)) if ok else FALSE))
        return out


def m_min(a, b):
    return ite(lt(a, b), a, b)


class Pick(hoare.Contract):
    """Search through the neurons left: the one found is at some position of them."""
    name = "choice of a neuron"
    placed = True

    def entry(self, m, env):
        self.pos = None

    def known(self, m, env, k):
        fr = m.heap[env.frame].d
        self.at = num(k)
        n = num(self.items.n)
        if k is n:
            fr[self.target] = self.items.fn(sub(n, num(1)))
        self.pos = p = tm.var(path_name(m, self.name + " pos"), "I")
        return self.state(m, fr, p, num(k), n)

    def is_at(self, v, *ps):
        if not isinstance(v, (int, T)):
            return FALSE
        return or_(*[eq(num(v), num(self.items.fn(num(p)))) for p in ps])


class First(Pick):
    """The first neuron: the best one so far."""
    name, peel, target = "first neuron", 1, "j"

    def state(self, m, fr, p, k, n):
        fr["c_max"] = tm.var(path_name(m, "c_max"), "R")
        fr["j_max"] = self.items.fn(p)
        return [le(num(0), p), lt(p, k)]

    def invariant(self, m, env, k):
        fr = m.heap[env.frame].d
        return [("the best neuron so far is one of those left", self.is_at(fr.get("j_max"), *([num(0)] if self.pos is None else [self.pos, sub(k, num(1))])))]


class Next(Pick):
    """A later neuron: none found yet (step 1), or the one with the smallest step."""
    name, target = "next neuron", "j_new"

    def state(self, m, fr, p, k, n):
        if m.decide(None):
            fr["y_min"] = nl.pyfix(num(1)) if not isinstance(fr["y_min"], float) else 1
            return []
        fr["y_min"] = tm.var(path_name(m, "y_min"), "R")
        fr["j_min"] = self.items.fn(p)
        return [le(num(0), p), lt(p, k)]

    def invariant(self, m, env, k):
        fr = m.heap[env.frame].d
        j = fr.get("j_min")
        found = self.is_at(j, *([self.pos, sub(k, num(1))])) if self.pos is not None else FALSE
        return [("no neuron is found, or it is one of those left", or_(eq(num(fr["y_min"]), num(1)), found))]


def within(node, s):
    return any(x is s for x in ast.walk(node))


def _mrsr2(norm):
    @harness("C09", "mrsr2, any number of outputs, norm %d" % norm)
    def h(m):
        n, M, kmax, p = I(m, "n", 1), I(m, "m", 1), I(m, "kmax", 1), I(m, "p", 1)
        X, T = matrix(m, "X", (n, M)), matrix(m, "T", (n, p))
        R8 = lambda *sh: (lambda k: tuple(k if x is None else x for x in sh), F8)
        shapes = dict(XA=R8(n, M), W=R8(M, p), Y=R8(n, p), Yk1=R8(n, p), Wk1=R8(None, p))
        top = []

        def loops(m, s, env):
            fr = m.heap[env.frame].d
            if not isinstance(s, ast.For) or "nonrank" not in fr or "XA" not in fr:
                return None
            if not top or top[0] is s:
                top[:] = [s]
                return Mrsr2(M, shapes)
            if not within(top[0], s):
                return None
            if "j_max" in fr and not isinstance(fr["j_max"], Junk):
                return Next()
            return First() if s.target.id == "j" else Next()
        m.loop_contracts[:] = [loops]
        snap = take(m)
        r = m.call(m.get("hpelm.modules.mrsr2", "mrsr2"), [X, T, nl.pyfix(kmax)] + ([] if norm == 2 else [norm]))
        got, at = readlist(m, r)
        m.prove("as many neurons as requested and there are samples, or all", eq(got, m_min(m_min(kmax, n), M)))
        distinct(m, "ranking", at, got, M)
        unchanged(m, snap, "the data are unchanged")


_mrsr2(2)
_mrsr2(1)


# ---------------------------------------------------------------- _ranking
def _optimal(prop, few, kmax, cls):
    @harness(prop, "optimal pruning ranking, %s outputs, maximum %s" % ("few" if few else "many", "given" if kmax else "not given"))
    def h(m):
        c = model(m, cls, None, "double", "")
        N = I(m, "N", 1)
        m.assume(lt(c.outputs, num(10)) if few else le(num(10), c.outputs))
        m.setattr(c.elm, "ranking", "OP")
        K = I(m, "kmax", 1) if kmax else None
        m.setattr(c.elm, "kmax_op", nl.pyfix(K) if kmax else None)
        H, T = matrix(m, "H", (N, c.L)), matrix(m, "T", (N, c.outputs))
        made = []

        def contract(name, most):
            def f(m, args, kw):
                X, Y, k = args[:3]
                M = X.shape[1]
                same_elements(m, "%s gets the hidden layer's outputs" % name, X, m.rreader(H), H.shape)
                same_elements(m, "%s gets the targets" % name, Y, m.rreader(T), T.shape)
                m.prove("%s can handle the number of outputs" % name, most(Y.shape[1]))
                m.prove("%s is asked for at least one neuron" % name, le(num(1), num(k)))
                n = m_min(num(k), M) if name == "mrsr" else m_min(m_min(num(k), N), M)
                pm = permutation(m, M)
                made.append(pm)
                if name == "mrsr":
                    return m.array((n,), lambda i: pm(i[0]), I8)
                return m.new("symlist", {"n": n, "fn": lambda i: nl.pyfix(pm(i))})
            return f
        m.overrides["hpelm.modules.mrsr.mrsr"] = contract("mrsr", lambda p: lt(p, num(10)))
        m.overrides["hpelm.modules.mrsr2.mrsr2"] = contract("mrsr2", lambda p: TRUE)
        r, L = m.lib.unpack(m, m.call(m.getattr(c.elm, "_ranking"), [nl.pyfix(c.L), H, T]), 2)
        want = m_min(K, c.L) if kmax else c.L
        got, at = readlist(m, r)
        m.prove("the number of ranked neurons is returned", eq(num(L), want if few else m_min(want, N)))
        m.prove("as many neurons as requested, or all (at most one per sample with many outputs)", eq(got, want if few else m_min(want, N)))
        if prop == "C09":
            distinct(m, "ranking", at, got, c.L)
            return
        i = tm.var("i", "I")
        m.prove("the ranking is that of the data", implies(and_(le(num(0), i), lt(i, got)), eq(at(i), made[-1](i))) if made else FALSE)


for k in ((True, True), (True, False), (False, True), (False, False)):
    _optimal("C09", k[0], k[1], "ELM")
_optimal("C26", True, True, "ELM")
_optimal("C26", True, False, "ELM")

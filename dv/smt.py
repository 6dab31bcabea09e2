"""Discharging obligations: translation of terms to z3, axiom instances, and evaluation of terms on concrete values."""
import time
from fractions import Fraction
import z3
from dv.term import *
from dv import term as tm

STATS = {"queries": 0, "seconds": 0.0, "syntactic": 0, "cache": 0}
AXIOMS = {}      # application name -> f(term) -> list of Boolean terms (instances for that term)
DOMAINS = {}     # application name -> {index of a lam argument: f(args) -> list of (lo, hi) per bound variable}
EVAL = {}        # application name -> f(ev, args) -> value


class Z(object):
    """One translation context."""

    def __init__(self, abstract_nl=True):
        self.abs = abstract_nl
        self.memo = {}
        self.side = []
        self.funs = {}
        self.F = z3.DeclareSort("Fun")
        self.recips = {}

    def fun(self, name, dom, rng):
        k = (name, tuple(str(d) for d in dom), str(rng))
        f = self.funs.get(k)
        if f is None:
            f = self.funs[k] = z3.Function("%s!%d" % (name, len(self.funs)), *(list(dom) + [rng]))
        return f

    def rs(self, sort):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "F": self.F}[sort]

    def fresh(self, sort, base="x"):
        self.memo_n = getattr(self, "memo_n", 0) + 1
        return z3.Const("%s?%d" % (base, self.memo_n), self.rs(sort))

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def _mono(self, mono):
        """z3 expression of a monomial with unit coefficient."""
        conds = [self.tr(x.args[0]) for x, e in mono if x.op == "ind"]
        rest = [(x, e) for x, e in mono if x.op != "ind"]
        isint = all(x.sort == "I" and e > 0 for x, e in rest)
        if not rest:
            body = z3.IntVal(1)
        elif len(rest) == 1 and rest[0][1] == 1:
            body = self.tr(rest[0][0])
        elif self.abs:
            k = ("mono", tuple((x.id, e) for x, e in rest))
            body = self.memo.get(k)
            if body is None:
                body = self.memo[k] = self.fresh("I" if isint else "R", "m")
        else:
            body = None
            for x, e in rest:
                y = self.tr(x)
                if not isint:
                    y = self.real(y)
                if e < 0:
                    y = self.tr(tm._mk("recip", (x,), "R"))
                for _ in range(abs(e)):
                    body = y if body is None else body * y
        if conds:
            c = conds[0] if len(conds) == 1 else z3.And(*conds)
            zero = z3.IntVal(0) if z3.is_int(body) else z3.RealVal(0)
            body = z3.If(c, body, zero)
        return body

    def _poly(self, t):
        isint = is_int(t)
        tot = None
        for m, c in poly_of(t).items():
            if not m:
                e = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
            else:
                e = self._mono(m)
                if isint:
                    if c != 1:
                        e = z3.IntVal(int(c)) * e
                else:
                    e = self.real(e)
                    if c != 1:
                        e = z3.RealVal(str(c)) * e
            tot = e if tot is None else tot + e
        if tot is None:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        return tot

    def _tr(self, t):
        op = t.op
        if op == "var":
            return z3.Const(t.data, self.rs(t.sort))
        if op == "poly":
            return self._poly(t)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == "iff":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "eqfun":
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == "le":
            return self.tr(t.args[0]) <= 0
        if op == "lt":
            return self.tr(t.args[0]) < 0
        if op == "eq":
            return self.tr(t.args[0]) == 0
        if op == "ind":
            return z3.If(self.tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op in ("min", "max"):
            a, b = self.tr(t.args[0]), self.tr(t.args[1])
            if z3.is_int(a) != z3.is_int(b):
                a, b = self.real(a), self.real(b)
            return z3.If(a <= b, a, b) if op == "min" else z3.If(a >= b, a, b)
        if op == "abs":
            a = self.tr(t.args[0])
            return z3.If(a >= 0, a, -a)
        if op == "ceil":
            c = self.fresh("I", "ceil")
            x = t.args[0]
            d = _frac(x)
            if d:
                nume, den = d      # x = nume / den
                cn, n_, d_ = tm.var("ceil?%d" % t.id, "I"), nume, den
                c = self.tr(cn)
                pos = lt(num(0), den)
                self.side.append(z3.Implies(self.tr(pos), z3.And(
                    self.tr(lt(mul(sub(cn, num(1)), den), nume)), self.tr(le(nume, mul(cn, den))))))
                return c
            a = self.real(self.tr(x))
            self.side.append(z3.And(z3.ToReal(c) - 1 < a, a <= z3.ToReal(c)))
            return c
        if op == "trunc":
            a = self.real(self.tr(t.args[0]))
            return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
        if op == "idiv":
            a, b = self.tr(t.args[0]), self.tr(t.args[1])
            if is_num(t.args[1]) and num_val(t.args[1]) > 0:
                return a / b
            q = tm.var("idiv?%d" % t.id, "I")
            den = t.args[1]
            qb = mul(q, den)
            self.side.append(z3.Implies(self.tr(lt(num(0), den)), z3.And(
                self.tr(le(qb, t.args[0])), self.tr(lt(t.args[0], add(qb, den))))))
            return self.tr(q)
        if op == "imod" and not is_num(t.args[1]):
            a, den = t.args
            r = tm.var("imod?%d" % t.id, "I")
            dist = mul(idiv(a, den), den)
            self.memo[t.id] = z = self.tr(r)
            self.side.append(z3.Implies(self.tr(lt(num(0), den)), self.tr(and_(
                le(num(0), r), lt(r, den), eq(r, sub(a, dist)), or_(lt(a, num(0)), le(den, a), eq(r, a)),
                or_(lt(a, den), le(mul(num(2), den), a), eq(r, sub(a, den))), or_(lt(a, neg(den)), le(num(0), a), eq(r, add(a, den)))))))
            return z
        if op == "imod":
            return self.tr(sub(t.args[0], mul(idiv(t.args[0], t.args[1]), t.args[1])))
        if op == "recip":
            r = self.fresh("R", "recip")
            p = t.args[0]
            self.memo[t.id] = r
            self.recips[t.id] = (r, p)
            z = self.real(self.tr(p))
            self.side.append(z3.Implies(z > 0, r > 0))
            self.side.append(z3.Implies(z < 0, r < 0))
            if not self.abs:
                self.side.append(z3.Implies(z != 0, z * r == 1))
            return r
        if op == "sqrt":
            r = self.fresh("R", "sqrt")
            z = self.real(self.tr(t.args[0]))
            self.side.append(r >= 0)
            self.side.append(z3.Implies(z > 0, r > 0))
            if not self.abs:
                self.side.append(z3.Implies(z >= 0, r * r == z))
            return r
        if op in ("app", "psum", "lam"):
            args = [self.tr(a) for a in t.args]
            if op == "app":
                name, rng = t.data, self.rs(t.sort)
            elif op == "psum":
                name, rng = "S%d" % t.data.id, self.rs(t.sort)
            else:
                name, rng = "L%d" % t.data.id, self.F
            # reals and integers of one parameter position may differ between occurrences: real wins
            if not args:
                return z3.Const(name + "!c", rng)
            sig = [a.sort() for a in args]
            if op == "app":
                cs = [self.real(a) if (z3.is_int(a) and self.realpos.get((name, i))) else a for i, a in enumerate(args)]
            else:
                cs = [self.real(a) if (z3.is_int(a) and self.realpos.get((name, i))) else a for i, a in enumerate(args)]
            return self.fun(name, [c.sort() for c in cs], rng)(*cs)
        raise ValueError(op)

    realpos = {}


def _frac(x):
    """x == numerator / denominator with one reciprocal factor common to all monomials, denominator a term."""
    if x.op == "recip":
        return num(1), x.args[0]
    p = poly_of(x)
    negs = None
    for m in p:
        ns = frozenset((y, e) for y, e in m if e < 0 or y.op == "recip")
        negs = ns if negs is None else negs & ns
    if not negs:
        # common denominators may be missing from some monomials (constants); multiply everything out
        allneg = {}
        for m in p:
            for y, e in m:
                if e < 0:
                    allneg[y] = max(allneg.get(y, 0), -e)
                elif y.op == "recip":
                    allneg[y] = max(allneg.get(y, 0), e)
        if not allneg:
            return None
        den = num(1)
        for y, e in allneg.items():
            base = y.args[0] if y.op == "recip" else y
            for _ in range(e):
                den = mul(den, base)
        nume = mul(x, den)
        return (nume, den) if not _has_neg(nume) else None
    den = num(1)
    for y, e in negs:
        base, k = (y.args[0], e) if y.op == "recip" else (y, -e)
        for _ in range(k):
            den = mul(den, base)
    nume = mul(x, den)
    return (nume, den) if not _has_neg(nume) else None


def _has_neg(t):
    return any(e < 0 or y.op == "recip" for m in poly_of(t) for y, e in m)


# ---------------------------------------------------------------- axiom instances
def _range_axioms(ts):
    out = []
    for t in ts:
        if t.op == "app" and t.data in AXIOMS:
            r = tm.RANGES.pop(t.data, None)      # else the terms' own simplification removes what z3 has to be told
            try:
                out.extend(AXIOMS[t.data](t))
            finally:
                if r is not None:
                    tm.RANGES[t.data] = r
    return out


def _pairs(ts, mode):
    """Extensionality and step lemmas for sums and functionals among the given terms."""
    out = []
    sums = {}
    for t in ts:
        if t.op == "psum":
            sums.setdefault((t.data.id, tuple(a.id for a in t.args[:-1])), []).append(t)
    groups = list(sums.values())
    # neighbouring heights of one prefix sum
    for g in groups:
        for i, a in enumerate(g):
            for b in g:
                if a is b:
                    continue
                d = sub(b.args[-1], a.args[-1])
                if is_num(d) and 0 < num_val(d) <= 2:
                    s = a
                    for k in range(int(num_val(d))):
                        s = add(s, psum_body(a, add(a.args[-1], num(k))))
                    out.append(eq(b, s))
        if mode.get("nonneg"):
            hs = [a.args[-1] for a in g] + [num(0)]
            for a in hs:
                for b in hs:
                    if a is b:
                        continue
                    sk = tm.var("sk_nn_%d_%d_%d" % (g[0].id, a.id, b.id), "I")
                    pa = tm._psum_node(g[0].data, g[0].args[:-1], a, g[0].sort)
                    pb = tm._psum_node(g[0].data, g[0].args[:-1], b, g[0].sort)
                    body = psum_body(g[0], sk)
                    out.append(or_(lt(b, a), le(pa, pb), and_(le(a, sk), lt(sk, b), lt(body, num(0)))))
    if mode.get("incl"):
        out += _inclusions(groups)
    if mode.get("ext"):
        n = 0
        for i in range(len(groups)):
            for j in range(i + 1, len(groups)):
                a, b = groups[i][0], groups[j][0]
                h1 = set(x.args[-1] for x in groups[i]) | {num(0)}
                h2 = set(x.args[-1] for x in groups[j]) | {num(0)}
                com = sorted(h1 & h2) if len(h1 & h2) >= 2 else None
                prs = [(lo, hi, lo, hi) for lo in com or () for hi in com or () if lo is not hi]
                if not com:
                    prs = [(num(0), x, num(0), y) for x in h1 for y in h2 if x is not num(0) and y is not num(0)][:4]
                for lo, hi, lo2, hi2 in prs:
                    n += 1
                    if n > 400:
                        return out
                    sk = tm.var("sk_ps_%d_%d_%d_%d" % (a.id, b.id, lo.id, hi.id), "I")
                    P = lambda g, h: tm._psum_node(g.data, g.args[:-1], h, g.sort)
                    d1 = sub(P(a, hi), P(a, lo))
                    d2 = sub(P(b, hi2), P(b, lo2))
                    same = eq(hi, hi2)
                    out.append(or_(lt(hi, lo), not_(same), eq(d1, d2), and_(
                        le(lo, sk), lt(sk, hi), ne(psum_body(a, sk), psum_body(b, sk)))))
        apps = {}
        for t in ts:
            if t.op == "app" and any(a.op == "lam" for a in t.args):
                apps.setdefault(t.data, []).append(t)
        for name, l in apps.items():
            l = l[:14]
            for i in range(len(l)):
                for j in range(i + 1, len(l)):
                    a, b = l[i], l[j]
                    alts = [eq(a, b)]
                    dom = DOMAINS.get(name, {})
                    ok = True
                    for p, (x, y) in enumerate(zip(a.args, b.args)):
                        if x is y:
                            continue
                        if x.op == "lam" and y.op == "lam":
                            if x.data.n != y.data.n:
                                ok = False
                                break
                            sks = [tm.var("sk_ap_%d_%d_%d_%d" % (a.id, b.id, p, q), s) for q, s in enumerate(x.data.sorts)]
                            cond = [ne(apply_lam(x, sks), apply_lam(y, sks))]
                            if p in dom:
                                for sk, (lo, hi) in zip(sks, dom[p](a.args)):
                                    cond += [le(lo, sk), lt(sk, hi)]
                            alts.append(and_(*cond))
                        elif x.op == "lam" or y.op == "lam":
                            ok = False
                            break
                        else:
                            alts.append(ne(x, y))
                    if ok:
                        out.append(or_(*alts))
    for name in mode.get("member", ()):
        s = tm.var(name, "I")
        for g in groups:
            if not nonneg(psum_body(g[0], tm.var("#q", "I"))):
                continue
            b = psum_body(g[0], s)
            for t in g:
                if name in t.fv or b is not num(0):
                    out.append(or_(lt(s, num(0)), le(t.args[-1], s), le(b, t)))
                    for u in g:
                        if u is not t:
                            out.append(or_(lt(s, u.args[-1]), le(t.args[-1], s), lt(u.args[-1], num(0)), le(b, sub(t, u))))
    return out


def _unit(t):
    """Factors of a term that is one product with coefficient 1, else None."""
    p = tm.poly_of(t)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    return dict(m) if c == 1 and all(e == 1 for x, e in m) else None


def _inclusions(groups):
    """0 <= sum of b <= sum of a over one range where b is a's body, an indicator product, times further indicators."""
    out = []
    q = tm.var("#q", "I")
    fac = [_unit(psum_body(g[0], q)) for g in groups]
    for i, fa in enumerate(fac):
        if not fa or any(x.op != "ind" for x in fa):
            continue
        for j, fb in enumerate(fac):
            if i == j or not fb or any(x.op != "ind" for x in fb) or not set(fa) <= set(fb):
                continue
            hs = [num(0)] + sorted(set(x.args[-1] for x in groups[i]) & set(x.args[-1] for x in groups[j]), key=lambda x: x.id)
            for lo in hs:
                for hi in hs:
                    if lo is hi:
                        continue
                    P = lambda g, h: tm._psum_node(g[0].data, g[0].args[:-1], h, g[0].sort)
                    d1, d2 = (sub(P(groups[x], hi), P(groups[x], lo)) for x in (i, j))
                    out.append(or_(lt(hi, lo), and_(le(num(0), d2), le(d2, d1))))
    return out


def ranges_of(t, pc):
    """Pairs of monomials co*S(hi) - co*S(lo) of one sum in a polynomial, with lo <= hi by pc -> [(co, S(hi), S(lo))]."""
    out = []
    d = tm.poly_of(t)
    ps = []
    for m, c in d.items():
        for x, e in m:
            if x.op == "psum" and e == 1:
                ps.append((tuple(y for y in m if y[0] is not x), c, x, m))
    used = set()
    for co, c, x, m in ps:
        for co2, c2, y, m2 in ps:
            if x is y or c != -c2 or co != co2 or c < 0 or m in used or m2 in used:
                continue
            if x.data is not y.data or any(p is not q for p, q in zip(x.args[:-1], y.args[:-1])):
                continue
            if impossible(pc, lt(x.args[-1], y.args[-1]), 1500) and impossible(pc, lt(y.args[-1], num(0)), 1500):
                used.update((m, m2))
                out.append((co, x, y))
            elif impossible(pc, lt(y.args[-1], x.args[-1]), 1500) and impossible(pc, lt(x.args[-1], num(0)), 1500):
                used.update((m, m2))
                out.append((co, y, x))
    return out


POSITIVE = {"wt", "exp"}


def nonneg(t, pc=None):
    """Not negative, by its form (sums: with an upper end that pc shows not to be negative)."""
    skip = set()
    if pc is not None:
        for co, hi, lo in ranges_of(t, pc):
            if not co and tm.poly_of(t).get(((hi, 1),), 0) > 0 and nonneg(psum_body(hi, tm.var("#q", "I")), pc):
                skip.add(((hi, 1),))
                skip.add(((lo, 1),))
    for m, c in tm.poly_of(t).items():
        if m in skip:
            continue
        if c < 0:
            return False
        for x, e in m:
            if x.op in ("ind", "sqrt", "abs") or e % 2 == 0 or (x.op == "app" and x.data in POSITIVE):
                continue
            if x.op == "psum" and nonneg(psum_body(x, tm.var("#q", "I")), pc):
                h = x.args[-1]
                if (is_num(h) and num_val(h) >= 0) or (pc is not None and impossible(pc, lt(h, num(0)))):
                    continue
            if x.op == "recip" and nonneg(x.args[0], pc):
                continue
            return False
    return True


def positive(t, pc):
    """Greater than zero, by its form."""
    if is_num(t):
        return num_val(t) > 0
    if not nonneg(t, pc):
        return False
    for m, c in tm.poly_of(t).items():
        if c > 0 and all(_pos_atom(x, e, pc) for x, e in m):
            return True
    return False


def _pos_atom(x, e, pc):
    if x.op == "app" and x.data in POSITIVE:
        return True
    if x.op == "recip":
        return positive(x.args[0], pc)
    if x.op == "psum":
        return impossible(pc, lt(x.args[-1], num(1)), 1500) and positive(psum_body(x, tm.var("#q", "I")), pc)
    return False


def collect(ts):
    seen = {}
    for t in ts:
        atoms(t, seen)
    return list(seen.values())


def _products(ts):
    """Pairs of integer products x*y, x'*y: monotonicity in x for y >= 0 (helps when products are abstracted)."""
    monos = {}
    for t in ts:
        if t.op == "poly":
            for m, c in t.args:
                mm = [(x, e) for x, e in m if x.op != "ind"]
                if len(mm) == 2 and all(e == 1 and x.sort == "I" for x, e in mm):
                    monos[tuple(mm)] = True
    out = []
    ks = list(monos)[:12]
    for i in range(len(ks)):
        (x, _), (y, _) = ks[i]
        for a, b in ((x, y), (y, x)):
            out.append(or_(lt(a, num(0)), lt(b, num(0)), le(num(0), mul(a, b))))
            out.append(or_(lt(a, num(1)), lt(b, num(0)), le(b, mul(a, b))))
        for j in range(len(ks)):
            if i == j:
                continue
            (u, _), (v, _) = ks[j]
            for a, b in ((x, y), (y, x)):
                for c, d in ((u, v), (v, u)):
                    if b is d and a is not c:
                        # b >= 0 and a <= c  ->  ab <= cb ;  a + 1 <= c -> ab + b <= cb
                        out.append(or_(lt(b, num(0)), lt(c, a), le(mul(a, b), mul(c, b))))
                        out.append(or_(lt(b, num(0)), le(c, a), le(add(mul(a, b), b), mul(c, b))))
                        out.append(or_(lt(b, num(0)), le(c, add(a, num(1))), le(add(mul(a, b), b, b), mul(c, b))))
    return out


_cache = {}


def realpos(ts):
    rp = {}
    for t in ts:
        if t.op in ("app", "psum", "lam"):
            name = t.data if t.op == "app" else ("S%d" if t.op == "psum" else "L%d") % t.data.id
            for i, a in enumerate(t.args):
                if a.sort == "R" and a.op != "lam" and not is_int(a):
                    rp[(name, i)] = True
    return rp


def _syms(t, memo={}):
    """Variables and unknown functions of a term."""
    r = memo.get(t.id)
    if r is None:
        r = set(t.fv)
        for x in atoms(t).values():
            if x.op == "app":
                r.add(x.data)
        r = memo[t.id] = frozenset(r)
    return r


def cone(assertions, goal):
    """The assertions linked to the goal by common symbols."""
    have = set(_syms(goal))
    left = [a for a in assertions if a is not goal]
    out = []
    while True:
        new = [a for a in left if _syms(a) & have]
        if not new:
            return out + [goal]
        for a in new:
            have |= _syms(a)
        out += new
        left = [a for a in left if a not in new]


def sat_goal(pc, neg, timeout=2000, mode=None):
    """sat(pc + [neg]), first with the assumptions connected to the goal only."""
    neg = num(neg)
    pc = list(pc)
    if _syms(neg):
        c = cone(pc, neg)
        if len(c) < len(set(x.id for x in pc)) + 1:
            r = sat(c, timeout, mode)
            if r == "unsat":
                return r
    return sat(pc + [neg], timeout, mode)


def impossible(pc, neg, timeout=2000):
    """pc excludes neg, for certain."""
    return sat_goal(pc, neg, timeout, dict(prod=1)) == "unsat" or sat_goal(pc, neg, timeout, dict(nl=1)) == "unsat"


def sat(assertions, timeout=2000, mode=None):
    """z3 verdict on the conjunction of Boolean terms: 'unsat', 'sat', 'unknown'."""
    mode = mode or {}
    a = and_(*assertions)
    if a is FALSE:
        return "unsat"
    if a is TRUE:
        return "sat"
    key = (a.id, timeout, tuple(sorted(mode.items())))
    r = _cache.get(key)
    if r is not None:
        STATS["cache"] += 1
        return r
    t0 = time.time()
    lem = []
    base = [a]
    for rnd in range(mode.get("depth", 1)):
        ts = collect(base + lem)
        new = _range_axioms(ts) + _pairs(ts, mode)
        if mode.get("prod"):
            new += _products(ts)
        n0 = len(lem)
        known = set(x.id for x in lem)
        for x in new:
            if x is not TRUE and x.id not in known:
                known.add(x.id)
                lem.append(x)
        if len(lem) == n0:
            break
    ts = collect(base + lem)
    z = Z(abstract_nl=not mode.get("nl"))
    z.realpos = realpos(ts)
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(z.tr(a))
    for x in lem:
        s.add(z.tr(x))
    if mode.get("prod"):
        i = 0
        # products introduced by the definitions of ceil and idiv
        for x in _products(collect(base + lem + _defs(ts))):
            s.add(z.tr(x))
    for x in z.side:
        s.add(x)
    r = str(s.check())
    STATS["queries"] += 1
    STATS["seconds"] += time.time() - t0
    _cache[key] = r
    return r


def _defs(ts):
    out = []
    for t in ts:
        if t.op == "ceil":
            d = _frac(t.args[0])
            if d:
                cn = tm.var("ceil?%d" % t.id, "I")
                out += [lt(mul(sub(cn, num(1)), d[1]), d[0]), le(d[0], mul(cn, d[1]))]
        elif t.op == "idiv" and not is_num(t.args[1]):
            q = tm.var("idiv?%d" % t.id, "I")
            out += [le(mul(q, t.args[1]), t.args[0])]
    return out


PARTIAL = {"fdiv", "fsqrt"}
_has = {}


def _partial(t):
    """A partial operation occurs in t (also under sums)."""
    r = _has.get(t.id)
    if r is None:
        r = t.op == "app" and t.data in PARTIAL
        if not r and t.op in ("psum", "lam"):
            r = _partial(t.data.body)
        if not r:
            r = any(_partial(x) for x in tm.children(t))
        _has[t.id] = r
    return r


def resolve(pc, t, vs=()):
    """t with its partial operations (division, root) replaced by the exact ones where the context excludes the bad case."""
    if not _partial(t):
        return t
    if t.op == "poly":
        parts = []
        done = set()
        for co, hi, lo in ranges_of(t, pc) if sum(1 for m, c in t.args if any(x.op == "psum" and _partial(x) for x, e in m)) > 1 else ():
            if not _partial(hi):
                continue
            a, b = lo.args[-1], hi.args[-1]
            s = tm.fresh("e", "I")
            body = psum_body(hi, s)
            b2 = resolve(pc + [le(a, s), lt(s, b)], body, vs + (s.data,))
            if b2 is body:
                continue
            mono = [m for m, c in t.args if dict(m).get(hi) == 1 and tuple(y for y in m if y[0] is not hi) == co][0]
            c = dict(t.args)[mono]
            fs = [num(c, "I" if c.denominator == 1 else "R"), tm.sum_(s, a, b, b2)]
            for x, e in co:
                y = resolve(pc, x, vs)
                if e < 0:
                    y, e = recip(y), -e
                fs += [y] * e
            parts.append(mul(*fs))
            done.add(mono)
            done.add([m for m, c in t.args if dict(m).get(lo) == 1 and tuple(y for y in m if y[0] is not lo) == co][0])
        # sums over the same range are taken together
        groups = {}
        for mono, c in t.args:
            if mono in done:
                continue
            ps = [x for x, e in mono if x.op == "psum" and e == 1 and _partial(x)]
            if len(ps) == 1:
                co = tuple(y for y in mono if y[0] is not ps[0])
                groups.setdefault((co, ps[0].args[-1].id), []).append((mono, c, ps[0]))
        for (co, h), l in groups.items():
            if len(l) < 2:
                continue
            s = tm.fresh("e", "I")
            h = l[0][2].args[-1]
            body = add(*[mul(num(c, "I" if c.denominator == 1 else "R"), psum_body(x, s)) for mono, c, x in l])
            b2 = resolve(pc + [le(num(0), s), lt(s, h)], body, vs + (s.data,))
            if b2 is body:
                continue
            fs = [tm.sum_(s, num(0), h, b2)]
            for x, e in co:
                y = resolve(pc, x, vs)
                if e < 0:
                    y, e = recip(y), -e
                fs += [y] * e
            parts.append(mul(*fs))
            done.update(mono for mono, c, x in l)
        for mono, c in t.args:
            if mono in done:
                continue
            fs = [num(c, "I" if c.denominator == 1 else "R")]
            for x, e in mono:
                y = resolve(pc, x, vs)
                if e < 0:
                    y, e = recip(y), -e
                fs += [y] * e
            parts.append(mul(*fs))
        r = add(*parts)
        return real(r) if t.sort == "R" else r
    if t.op == "psum":
        args = [resolve(pc, a, vs) for a in t.args]
        s = tm.fresh("e", "I")
        body = psum_body(t, s)
        b2 = resolve(pc + [le(num(0), s), lt(s, t.args[-1])], body, vs + (s.data,))
        if b2 is body:
            return tm.rebuild(t, args)
        return tm.sum_(s, num(0), args[-1], b2)
    if t.op == "app" and t.data in PARTIAL:
        a = [resolve(pc, x, vs) for x in t.args]
        bad = eq(a[1], num(0)) if t.data == "fdiv" else lt(a[0], num(0))
        ok = (nonneg(a[0], pc) if t.data == "fsqrt" else positive(a[1], pc)) or bad is FALSE or sat_goal(pc, bad, 1500, dict(member=tuple(vs))) == "unsat" or \
            sat_goal(pc, bad, 1500, dict(nl=1, member=tuple(vs))) == "unsat"
        if ok:
            return div(a[0], a[1]) if t.data == "fdiv" else sqrt(a[0])
        return tm.rebuild(t, a)
    if t.args:
        return tm.rebuild(t, [resolve(pc, x, vs) for x in t.args])
    return t


def _functional(t):
    return t.op == "psum" or (t.op == "app" and any(a.op == "lam" for a in t.args))


def _open_term(x):
    return any(n.startswith(("#", "$", "@")) for n in x.fv)


def rewrite(t, new):
    """t with the subterms whose ids are in new replaced (not below binders, whose parameters are)."""
    memo = {}

    def walk(y):
        r = memo.get(y.id)
        if r is None:
            if y.id in new:
                r = new[y.id]
            elif y.op == "poly":
                parts = []
                for mono, c in y.args:
                    fs = [num(c, "I" if c.denominator == 1 else "R")]
                    for x, e in mono:
                        z = walk(x)
                        if e < 0:
                            z, e = recip(z), -e
                        fs += [z] * e
                    parts.append(mul(*fs))
                r = add(*parts)
                r = real(r) if y.sort == "R" else r
            elif y.args:
                r = tm.rebuild(y, [walk(x) for x in y.args])
            else:
                r = y
            memo[y.id] = r
        return r
    return walk(t)


_same_memo = {}
_rnd = __import__("random").Random(7)


def same_terms(pc, a, b, depth, until):
    """pc entails a == b, shown through equal bounds and bodies (congruence for sums and functionals)."""
    key = (a.id, b.id, tuple(sorted(x.id for x in pc)))
    if key in _same_memo:
        return _same_memo[key]
    _same_memo[key] = False
    r = _same_terms(pc, a, b, depth, until)
    _same_memo[key] = r
    return r


def _same_terms(pc, a, b, depth, until):
    if depth <= 0 or time.time() > until:
        return False
    if refute(pc, eq(a, b), _rnd, tries=12, seconds=0.5) is not None:
        return False
    sub_ = lambda p, g: prove(p, g, 2000, QUICK[:3], depth - 1, until)[0] == "proved"
    if a.op == "psum":
        x, y = a.args[-1], b.args[-1]
        if x is not y and not sub_(pc, eq(x, y)):
            return False
        s = tm.fresh("s", "I")
        return sub_(pc + [le(num(0), s), lt(s, x)], eq(psum_body(a, s), psum_body(b, s)))
    dom = DOMAINS.get(a.data, {})
    for p, (x, y) in enumerate(zip(a.args, b.args)):
        if x is y:
            continue
        if x.op == "lam" or y.op == "lam":
            if x.op != y.op or x.data.n != y.data.n:
                return False
            vs = [tm.fresh("q", so) for so in x.data.sorts]
            ctx = list(pc)
            if p in dom:
                for v, (lo, hi) in zip(vs, dom[p](a.args)):
                    ctx += [le(lo, v), lt(v, hi)]
            if not sub_(ctx, eq(apply_lam(x, vs), apply_lam(y, vs))):
                return False
        elif not sub_(pc, eq(x, y)):
            return False
    return True


def align(pc, goal, depth, until):
    """goal with equal sums and functionals identified."""
    ctx = list(pc)
    if goal.op == "or":
        ctx += [not_(d) for d in goal.args if not any(_functional(x) for x in collect([d]))]
    ts = [x for x in collect([goal]) if _functional(x) and not _open_term(x)]
    # the outer terms first
    inner = set()
    for x in ts:
        for y in collect(list(tm.children(x))):
            inner.add(y.id)
    ts.sort(key=lambda x: (x.id in inner, x.id))
    ts = ts[:12]
    new = {}
    for i in range(len(ts)):
        if ts[i].id in new:
            continue
        for j in range(i + 1, len(ts)):
            a, b = ts[i], ts[j]
            if b.id in new or a.op != b.op or (a.op == "app" and (a.data != b.data or len(a.args) != len(b.args))):
                continue
            if time.time() > until:
                break
            if same_terms(ctx, a, b, depth, until):
                new[b.id] = a
    return rewrite(goal, new) if new else goal


def settle(pc, t):
    """t with the minima and maxima that the context decides replaced by the smaller or larger argument."""
    new = {}
    for x in collect([t]):
        if x.op in ("min", "max") and not any(y.op == "var" and y.data.startswith(("#", "$")) for y in collect([x])):
            a, b = x.args
            for u, v in ((a, b), (b, a)):
                if impossible(pc, lt(v, u) if x.op == "min" else lt(u, v), 1500):
                    new[x.id] = u
                    break
        elif x.op == "app" and x.data == "asoff" and not _open_term(x) and impossible(pc, ne(x.args[1], x.args[2]), 1500):
            new[x.id] = x.args[0]
    if not new:
        return t
    return rewrite(t, new)


def narrow(pc, goal, until, most=14):
    """(context, goal) with the disjuncts but the largest moved to the context, and the conditions in it that the context decides replaced."""
    pc = list(pc)
    if goal.op == "or":
        core = max(goal.args, key=lambda x: len(collect([x])))
        pc += [not_(x) for x in goal.args if x is not core]
        goal = core
    tried = set()
    for _ in range(most):
        inds = [x for x in collect([goal]) if x.op == "ind" and not _open_term(x) and x.id not in tried]
        if not inds or time.time() > until:
            break
        x = min(inds, key=lambda x: len(collect([x])))
        tried.add(x.id)
        c = x.args[0]
        for v, neg in ((num(1), not_(c)), (num(0), c)):
            if sat_goal(pc, neg, 600, {}) == "unsat":
                goal = tm.replace(goal, {x: v})
                break
        if goal is TRUE or goal is FALSE:
            break
    return pc, goal


def unstep(t):
    """The term with prefix sums of neighbouring heights in terms of the lowest one."""
    groups = {}
    for x in collect([t]):
        if x.op == "psum" and not _open_term(x):
            groups.setdefault((x.data.id, tuple(a.id for a in x.args[:-1])), []).append(x)
    mp = {}
    for g in groups.values():
        for b in g:
            best = None
            for a in g:
                d = sub(b.args[-1], a.args[-1])
                if a is not b and is_num(d) and 0 < num_val(d) <= 4 and (best is None or num_val(d) > best[0]):
                    best = (int(num_val(d)), a)
            if best:
                mp[b] = add(best[1], *[psum_body(best[1], add(best[1].args[-1], num(i))) for i in range(best[0])])
    return tm.replace(t, mp) if mp else t


def _solved(c):
    """(variable, value) of an integer equation with a variable of unit coefficient."""
    if c.op != "eq":
        return None
    p = tm.poly_of(c.args[0])
    for m, k in p.items():
        if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op == "var" and m[0][0].sort == "I" and not _open_term(m[0][0]):
            v = m[0][0]
            if not any(v.data in x.fv for mm in p if mm != m for x, e in mm):
                return v, tm.scale(tm.mk_poly({mm: kk for mm, kk in p.items() if mm != m}, "I"), -1 / k)
    return None


def cases(pc, goal, budget, until):
    """Proof by cases on the conditions of the indicators in the goal."""
    if goal is TRUE:
        return True
    if time.time() > until:
        return False
    inds = [x for x in collect([goal]) if x.op == "ind" and not _open_term(x)]
    if not inds or budget <= 0:
        g = settle(pc, goal)
        return g is TRUE or sat_goal(pc, not_(g), 1500, {}) == "unsat" or sat_goal(pc, not_(g), 1500, dict(incl=1, nonneg=1, prod=1)) == "unsat"
    inds.sort(key=lambda x: (x.args[0].op != "eq", _solved(x.args[0]) is None, len(atoms(x)), x.id))
    x = inds[0]
    c = x.args[0]
    for val, cond in ((1, c), (0, not_(c))):
        if impossible(pc, cond, 1000):
            continue
        g = rewrite(goal, {x.id: num(val)})
        p2 = pc + [cond]
        sv = _solved(c) if val else None
        if sv is not None:
            mp = {sv[0].data: sv[1]}
            g = tm.subst(g, mp)
            p2 = [tm.subst(y, mp) for y in pc]
        if not cases(p2, g, budget - 1, until):
            return False
    return True


QUICK = [dict(), dict(prod=1), dict(ext=1, prod=1, depth=2), dict(nl=1), dict(nl=1, ext=1, nonneg=1, prod=1, depth=2)]


def prove(pc, goal, timeout=3000, levels=None, depth=5, until=None):
    """-> ('proved', backend) or ('open', reason)."""
    if until is None:
        until = time.time() + 30.0
    if goal is TRUE:
        STATS["syntactic"] += 1
        return "proved", "normal form"
    mp = pinned(pc)
    if mp:
        pc, goal = [tm.subst(y, mp) for y in pc], tm.subst(goal, mp)
        if goal is TRUE or any(y is FALSE for y in pc):
            return "proved", "normal form"
    neg = not_(goal)
    last = "unknown"
    if _partial(goal):
        if sat_goal(pc, neg, timeout, dict()) == "unsat":
            return "proved", "z3"
        goal = settle(pc, goal)
        goal = resolve(pc, goal)
        if goal is TRUE:
            return "proved", "normal form"
        neg = not_(goal)
    for m in (levels or QUICK):
        r = sat_goal(pc, neg, timeout, m)
        if r == "unsat":
            return "proved", "z3"
        last = r
        if m and len(m) == 1 and "prod" in m and depth > 3 and any(x.op == "ind" and not _open_term(x) for x in collect([goal])):
            if cases(list(pc), goal, 7, min(until, time.time() + 8.0)):
                return "proved", "cases+z3"
        if not m:
            if depth > 3 and any(x.op == "ind" and not _open_term(x) for x in collect([goal])):
                p3, g3 = narrow(pc, goal, min(until, time.time() + 6.0))
                if g3 is TRUE:
                    return "proved", "normal form+z3"
                if g3 is not goal and g3 is not FALSE:
                    if sat_goal(p3, not_(g3), timeout, dict()) == "unsat":
                        return "proved", "z3"
                    pc, goal, neg = p3, g3, not_(g3)
            g2 = unstep(settle(pc, goal))
            if g2 is not goal:
                if g2 is TRUE:
                    return "proved", "normal form"
                goal, neg = g2, not_(g2)
                if sat_goal(pc, neg, timeout, dict()) == "unsat":
                    return "proved", "z3"
            if depth > 0:
                g2 = align(pc, goal, depth, until)
                if g2 is not goal:
                    if g2 is TRUE:
                        return "proved", "normal form+z3"
                    goal, neg = g2, not_(g2)
                    if sat_goal(pc, neg, timeout, dict()) == "unsat":
                        return "proved", "z3"
    return "open", "z3: " + last


def agree(pc, a, b):
    """pc entails a == b (quick)."""
    g = eq(a, b)
    if g is TRUE or g is FALSE:
        return g is TRUE
    return sat_goal(pc, not_(g), 1000, {}) == "unsat" or sat_goal(pc, not_(g), 1500, dict(incl=1, nonneg=1, prod=1)) == "unsat"


def pinned(pc):
    """{variable: value} for the integer variables whose lower and upper bound coincide."""
    les = {x.id for x in pc if x.op == "le"}
    out = {}
    for x in pc:
        if x.op == "le" and le(num(0), x.args[0]).id in les:
            c = eq(x.args[0], num(0))
            c = tm.subst(c, out) if out else c
            sv = _solved(c) if isinstance(c, T) else None
            if sv is not None and sv[0].data not in out:
                out = {k: tm.subst(v, {sv[0].data: sv[1]}) for k, v in out.items()}
                out[sv[0].data] = sv[1]
    return out


def feasible(pc, timeout=1500):
    mp = pinned(pc)
    if mp:
        pc = [tm.subst(y, mp) for y in pc]
        if any(y is FALSE for y in pc):
            return False
    return sat(list(pc), timeout, dict(prod=1)) != "unsat"


def entails(pc, c, timeout=1500):
    """Cheap decision used for control flow: True, False (its negation holds) or None."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if sat(list(pc) + [not_(c)], timeout, dict(prod=1)) == "unsat":
        return True
    if sat(list(pc) + [c], timeout, dict(prod=1)) == "unsat":
        return False
    if nonlinear(pc, c):
        if sat_goal(pc, not_(c), timeout, dict(nl=1)) == "unsat":
            return True
        if sat_goal(pc, c, timeout, dict(nl=1)) == "unsat":
            return False
    return None


def nonlinear(pc, c):
    """The condition or an assumption linked to it has a product of unknowns."""
    for t in collect(cone(list(pc), c)):
        if t.op == "poly" and any(len([1 for x, e in m if x.op != "ind"]) > 1 or any(e != 1 for x, e in m) for m, k in t.args):
            return True
        if t.op in ("ceil", "idiv", "imod"):
            return True
    return False


# ---------------------------------------------------------------- evaluation
class NoEval(Exception):
    pass


class Ev(object):
    """Evaluates terms on concrete values; uninterpreted symbols are drawn at random and remembered."""

    def __init__(self, rnd, ints=(0, 5), fixed=None):
        self.rnd = rnd
        self.ints = ints
        self.vars = dict(fixed or {})
        self.tab = {}
        self.budget = 400000

    def val(self, sort, name=""):
        if sort == "I":
            return self.rnd.randint(*self.ints)
        if sort == "B":
            return self.rnd.random() < 0.5
        return Fraction(self.rnd.randint(-6, 6), self.rnd.choice((1, 1, 2)))

    def draw(self, key, sort, name=""):
        if key not in self.tab:
            self.tab[key] = self.val(sort, name)
        return self.tab[key]

    def __call__(self, t, env=None, memo=None):
        return self.ev(t, env or {}, {} if memo is None else memo)

    def ev(self, t, env, memo):
        r = memo.get(t.id)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise NoEval("budget")
            r = self._ev(t, env, memo)
            memo[t.id] = r
        return r

    def lam(self, t, env, memo):
        """Python function of a lam term."""
        c = t.data
        ps = [self.lam(a, env, memo) if a.op == "lam" else self.ev(a, env, memo) for a in t.args]
        if all(not callable(p) for p in ps):
            ident = ("lam", c.id, tuple(ps))
        else:
            ident = None
        cache = {}

        def f(*a):
            a = tuple(a)
            if a not in cache:
                e = {"#%d" % i: v for i, v in enumerate(a)}
                for k, p in enumerate(ps):
                    e["$%d" % k] = p
                cache[a] = self.ev(c.body, e, {})
            return cache[a]
        f.ident = ident
        return f

    def _ev(self, t, env, memo):
        op = t.op
        E = lambda x: self.ev(x, env, memo)
        if op == "var":
            if t.data in env:
                return env[t.data]
            if t.data not in self.vars:
                self.vars[t.data] = self.val(t.sort, t.data)
            return self.vars[t.data]
        if op == "poly":
            s = Fraction(0)
            for m, c in t.args:
                p = c
                for x, e in m:
                    if p == 0:
                        break
                    v = E(x)
                    if e < 0:
                        if v == 0:
                            raise NoEval("division by zero")
                        p *= Fraction(1) / (v if isinstance(v, float) else Fraction(v)) ** (-e) if not isinstance(v, float) else v ** e
                    else:
                        p *= v ** e
                s = s + p if not isinstance(p, float) else float(s) + p
            return s
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not E(t.args[0])
        if op == "and":
            return all(E(a) for a in t.args)
        if op == "or":
            return any(E(a) for a in t.args)
        if op == "iff":
            return bool(E(t.args[0])) == bool(E(t.args[1]))
        if op == "le":
            return E(t.args[0]) <= 1e-9
        if op == "lt":
            return E(t.args[0]) < -1e-9
        if op == "eq":
            v = E(t.args[0])
            if isinstance(v, float):
                if 1e-6 < abs(v) < 1e-3:
                    raise NoEval("rounding")
                return abs(v) <= 1e-6
            return v == 0
        if op == "ind":
            return 1 if E(t.args[0]) else 0
        if op == "min":
            return min(E(t.args[0]), E(t.args[1]))
        if op == "max":
            return max(E(t.args[0]), E(t.args[1]))
        if op == "abs":
            return abs(E(t.args[0]))
        if op == "ceil":
            v = E(t.args[0])
            return -((-v) // 1) if not isinstance(v, float) else int(-((-v) // 1))
        if op == "trunc":
            return int(E(t.args[0]))
        if op == "idiv":
            b = E(t.args[1])
            if b == 0:
                raise NoEval("division by zero")
            return E(t.args[0]) // b
        if op == "imod":
            b = E(t.args[1])
            if b == 0:
                raise NoEval("division by zero")
            return E(t.args[0]) % b
        if op == "recip":
            v = E(t.args[0])
            if v == 0:
                raise NoEval("division by zero")
            return 1 / v if isinstance(v, float) else Fraction(1) / v
        if op == "sqrt":
            v = E(t.args[0])
            if v < 0:
                raise NoEval("sqrt")
            f = float(v) ** 0.5
            return Fraction(int(round(f))) if int(round(f)) ** 2 == v else f
        if op == "psum":
            h = E(t.args[-1])
            h = int(h)
            if abs(h) > 60:
                raise NoEval("long sum")
            c = t.data
            ps = [self.lam(a, env, memo) if a.op == "lam" else E(a) for a in t.args[:-1]]
            base = {"$%d" % k: p for k, p in enumerate(ps)}
            s = Fraction(0)
            rng = range(0, h) if h >= 0 else range(h, 0)
            for i in rng:
                e = dict(base)
                e["#0"] = i
                v = self.ev(c.body, e, {})
                s = s + v
            return s if h >= 0 else -s
        if op == "lam":
            return self.lam(t, env, memo)
        if op == "app":
            if t.data in EVAL:
                args = [self.lam(a, env, memo) if a.op == "lam" else E(a) for a in t.args]
                return EVAL[t.data](self, args)
            args = []
            for i, a in enumerate(t.args):
                if a.op == "lam":
                    f = self.lam(a, env, memo)
                    dom = DOMAINS.get(t.data, {}).get(i)
                    if dom is None:
                        if f.ident is None:
                            raise NoEval("functional " + t.data)
                        args.append(f.ident)
                    else:
                        args.append(self.table(f, [(E(lo), E(hi)) for lo, hi in dom(t.args)]))
                else:
                    v = E(a)
                    if callable(v):
                        raise NoEval("functional " + t.data)
                    args.append(v)
            return self.draw((t.data, tuple(args)), t.sort, t.data)
        raise NoEval(op)

    def table(self, f, rngs):
        import itertools
        return tuple(f(*i) for i in itertools.product(*[range(int(a), int(b)) for a, b in rngs]))


# unknowns of a run that may take any value (given the path condition); others stand for values a summary or a contract
# describes only in part
FREE = {"rnd", "perm", "empty", "time", "sk", "lock_is_free", "lock_in_time", "alive", "chunk", "overwritten", "posvjunk",
        "q", "k", "s", "c", "i", "j", "x", "u", "e", "ix"}


_exact_memo = {}


def _exact(t):
    r = _exact_memo.get(t.id)
    if r is None:
        r = not (t.op in ("var", "app") and "~" in t.data and t.data.split("~")[0] not in FREE) and all(_exact(x) for x in tm.children(t)) \
            and (t.op not in ("psum", "lam") or _exact(t.data.body))
        _exact_memo[t.id] = r
    return r


_approx_memo = {}


def approximations(t):
    """Names of variables and functions of the term that stand for values only approximated."""
    r = _approx_memo.get(t.id)
    if r is None:
        r = set()
        if t.op in ("var", "app") and "~" in t.data and t.data.split("~")[0] not in FREE:
            r.add(t.data)
        for x in list(tm.children(t)) + ([t.data.body] if t.op in ("psum", "lam") else []):
            r |= approximations(x)
        _approx_memo[t.id] = r
    return r


def refute(pc, goal, rnd, tries=300, ints=(0, 5), ranges=None, seconds=6.0):
    """A concrete valuation satisfying pc and falsifying goal -> {variable: value} or None."""
    t0 = time.time()
    vs = {}
    for t in list(pc) + [goal]:
        if not _exact(t):
            return None            # over-approximated value: a valuation would not be a run of the code
    for t in collect(list(pc) + [goal]):
        if t.op == "var" and not t.data.startswith(("#", "$", "@")):
            vs[t.data] = t.sort
    pcs = sorted(pc, key=lambda c: len(atoms(c)))
    models = _models(pc, goal, vs, rnd)
    for n in range(tries):
        if time.time() - t0 > seconds:
            break
        fixed = {}
        if n % 2 == 0 and models:
            fixed = dict(models[rnd.randrange(len(models))])
        e = Ev(rnd, ints if n % 3 else (0, 2), fixed)
        for k, r in (ranges or {}).items():
            if k not in e.vars:
                e.vars[k] = rnd.randint(*r)
        try:
            memo = {}
            if all(e(c, None, memo) for c in pcs) and not e(goal, None, memo):
                return {k: (v if isinstance(v, (bool, int)) else (int(v) if Fraction(v).denominator == 1 else float(v)))
                        for k, v in e.vars.items() if not k.startswith("sk_")}
        except NoEval:
            continue
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
    return None


def _models(pc, goal, vs, rnd, k=4):
    """Integer values that satisfy the path condition (functions abstracted), from z3."""
    out = []
    z = Z(abstract_nl=False)
    a = and_(*pc)
    z.realpos = realpos(collect([a, goal]))
    try:
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(z.tr(a))
        for x in z.side:
            s.add(x)
        iv = [(n, z3.Int(n)) for n, srt in vs.items() if srt == "I"]
        for n, v in iv:
            s.add(v <= 7, v >= -2)
        for i in range(k):
            s.push()
            for n, v in iv:
                if rnd.random() < 0.4:
                    s.push()
                    s.add(v == rnd.randint(0, 5))
                    if s.check() != z3.sat:
                        s.pop()
            if s.check() == z3.sat:
                m = s.model()
                out.append({n: m.eval(v, model_completion=True).as_long() for n, v in iv})
            while s.num_scopes() > 0:
                s.pop()
    except z3.Z3Exception:
        pass
    return out

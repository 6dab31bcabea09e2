"""Terms of the verification conditions: hash-consed, kept in a polynomial normal form.

Sorts: 'I' (mathematical integer), 'R' (real), 'B' (Boolean).  Integers embed silently into reals.
A binder (lambda, prefix sum) is closure-converted: its body is turned into a *code* (bound variables #i, parameters
$k for the maximal subterms without bound variables) so that a binder is an ordinary application of the symbol
`code` to its parameters; equality of binders with equal codes is congruence.

  psum(code, params, h) = sum of the body for #0 = 0 .. h-1   (signed when h < 0)
"""
from fractions import Fraction

_table = {}
_next = [0]


class T(object):
    __slots__ = ("op", "args", "sort", "fv", "id", "data", "_poly")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic term used as a Python Boolean")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, args, sort, data=None):
    k = (op, data, args, sort)
    t = _table.get(k)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort, t.data = op, args, sort, data
        fv = set()
        if op == "poly":
            for mono, c in args:
                for a, e in mono:
                    fv |= a.fv
        elif op == "var":
            fv.add(t_name(data))
        else:
            for a in args:
                fv |= a.fv
        t.fv = frozenset(fv)
        t.id = _next[0]
        _next[0] += 1
        t._poly = None
        _table[k] = t
    return t


def t_name(d):
    return d


# ---------------------------------------------------------------- constants and variables
def var(name, sort):
    return _mk("var", (), sort, name)


_fresh = [0]


def fresh(base, sort):
    _fresh[0] += 1
    return var("%s~%d" % (base, _fresh[0]), sort)


def num(v, sort=None):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        v = Fraction(v)
        s = sort or "I"
    elif isinstance(v, float):
        v = Fraction(repr(v)) if v == v and abs(v) != float("inf") else None
        if v is None:
            raise ValueError("not a real number")
        s = "R"
    else:
        v = Fraction(v)
        s = sort or ("I" if v.denominator == 1 else "R")
    if v == 0:
        return _mk("poly", (), s)
    return _mk("poly", (((), v),), s)


def is_num(t):
    return t.op == "poly" and (len(t.args) == 0 or (len(t.args) == 1 and t.args[0][0] == ()))


def num_val(t):
    return Fraction(0) if not t.args else t.args[0][1]


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    """{mono: coef} of a numeric term."""
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mono_mul(a, b):
    """Product of two monomials -> (extra polynomial factors, mono)."""
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return _mono_norm(d)


def _mono_norm(d):
    extra = []
    out = []
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == "ind" and e > 1:
            e = 1
        elif x.op == "sqrt" and e >= 2:
            extra.append((x.args[0], e // 2))
            e = e % 2
            if e == 0:
                continue
        elif x.op == "recip" and e < 0:
            extra.append((x.args[0], -e))
            continue
        out.append((x, e))
    out.sort(key=lambda p: p[0].id)
    return extra, tuple(out)


def mk_poly(d, sort):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
        return items[0][0][0][0]
    items.sort(key=lambda p: [(x.id, e) for x, e in p[0]])
    return _mk("poly", tuple(items), sort)


def _psort(*ts):
    return "R" if any(t.sort == "R" for t in ts) else "I"


def add(*ts):
    ts = [num(t) for t in ts]
    d = {}
    for t in ts:
        for m, c in poly_of(t).items():
            d[m] = d.get(m, 0) + c
    return mk_poly(d, _psort(*ts))


def neg(t):
    t = num(t)
    return mk_poly({m: -c for m, c in poly_of(t).items()}, t.sort)


def sub(a, b):
    return add(a, neg(b))


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return num(0, t.sort)
    return mk_poly({m: c * v for m, v in poly_of(t).items()}, t.sort if c.denominator == 1 else "R")


def _split_ind(m):
    return m


def mul(*ts):
    ts = [num(t) for t in ts]
    sort = _psort(*ts)
    acc = {(): Fraction(1)}
    for t in ts:
        p = poly_of(t)
        new = {}
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                if not m1 and len(m2) <= 1 and (not m2 or m2[0][1] == 1):
                    new[m2] = new.get(m2, 0) + c1 * c2
                    continue
                extra, m = _mono_mul(m1, m2)
                if extra:
                    x = mk_poly({m: c1 * c2}, sort)
                    for b, e in extra:
                        for _ in range(e):
                            x = mul(x, b)
                    for m3, c3 in poly_of(x).items():
                        new[m3] = new.get(m3, 0) + c3
                else:
                    new[m] = new.get(m, 0) + c1 * c2
        acc = {m: c for m, c in new.items() if c != 0}
    acc = _cancel(acc)
    return mk_poly(acc, sort)


def _cancel(d):
    """Exact cancellation of p * recip(p)."""
    recips = set()
    for m in d:
        for x, e in m:
            if x.op == "recip":
                recips.add(x)
    for r in recips:
        while True:
            part = {}
            for m, c in d.items():
                for x, e in m:
                    if x is r:
                        mm = tuple((y, f - 1 if y is r else f) for y, f in m if not (y is r and f == 1))
                        part[mm] = part.get(mm, 0) + c
                        break
            if not part:
                break
            q = _divide(part, poly_of(r.args[0]))
            if q is None:
                break
            new = {m: c for m, c in d.items() if not any(x is r for x, e in m)}
            for m, c in q.items():
                new[m] = new.get(m, 0) + c
            d = {m: c for m, c in new.items() if c != 0}
    return d


def _lead(d):
    return max(d, key=lambda m: (sum(abs(e) for x, e in m), [(x.id, e) for x, e in m]))


def _divide(d, p):
    """Quotient of two polynomials when the division is exact (no idempotent interaction), else None."""
    lp = _lead(p)
    cp = p[lp]
    lpd = dict(lp)
    d = dict(d)
    q = {}
    for _ in range(4 * len(d) + 8):
        if not d:
            return q
        # a monomial divisible by the leading monomial
        cand = [m for m in d if all(dict(m).get(x, 0) >= e for x, e in lpd.items())]
        if not cand:
            return None
        m = max(cand, key=lambda m: (sum(abs(e) for x, e in m), [(x.id, e) for x, e in m]))
        qm = dict(m)
        for x, e in lpd.items():
            qm[x] -= e
        extra, qmono = _mono_norm(qm)
        if extra:
            return None
        c = d[m] / cp
        q[qmono] = q.get(qmono, 0) + c
        for m2, c2 in p.items():
            extra, mm = _mono_mul(qmono, m2)
            if extra:
                return None
            d[mm] = d.get(mm, 0) - c * c2
            if d[mm] == 0:
                del d[mm]
    return None


def recip(t):
    t = num(t)
    p = poly_of(t)
    if not p:
        return _mk("recip", (t,), "R")
    if len(p) == 1:
        (m, c), = p.items()
        if any(x.op == "ind" for x, e in m):
            return _mk("recip", (t,), "R")
        extra, mm = _mono_norm({x: -e for x, e in m})
        r = mk_poly({mm: 1 / c}, "R")
        for b, e in extra:
            for _ in range(e):
                r = mul(r, b)
        return r
    lead = _lead(p)
    c = p[lead]
    monic = mk_poly({m: v / c for m, v in p.items()}, "R")
    return scale(_mk("recip", (monic,), "R"), 1 / c)


def div(a, b):
    return real(mul(a, recip(b)))


def real(t):
    t = num(t)
    if t.sort == "R":
        return t
    if t.op == "poly":
        return _mk("poly", t.args, "R")
    return t    # an integer atom; the context is real


def power(t, n):
    r = num(1)
    for _ in range(n):
        r = mul(r, t)
    return r


def sqrt(t):
    t = num(t)
    if is_num(t):
        v = num_val(t)
        for i in range(0, 20):
            if Fraction(i * i) == v:
                return num(i, "R")
    p = poly_of(t)
    return _mk("sqrt", (t,), "R")


# ---------------------------------------------------------------- integers
def idiv(a, b):
    a, b = num(a), num(b)
    if is_num(a) and is_num(b) and num_val(b) != 0:
        return num(int(num_val(a)) // int(num_val(b)))
    if is_num(b) and num_val(b) == 1:
        return a
    return _mk("idiv", (a, b), "I")


def imod(a, b):
    a, b = num(a), num(b)
    if is_num(a) and is_num(b) and num_val(b) != 0:
        return num(int(num_val(a)) % int(num_val(b)))
    return _mk("imod", (a, b), "I")


def ceil(t):
    t = num(t)
    if t.sort == "I" and t.op != "poly":
        return t
    if t.op == "poly" and t.sort == "I":
        return t
    if is_num(t):
        v = num_val(t)
        return num(-((-v.numerator) // v.denominator))
    if is_int(t):
        return as_int(t)
    return _mk("ceil", (t,), "I")


def trunc(t):
    """int() of a real."""
    t = num(t)
    if t.sort == "I":
        return t
    if is_num(t):
        return num(int(num_val(t)))
    if is_int(t):
        return as_int(t)
    return _mk("trunc", (t,), "I")


def floor(t):
    return neg(ceil(neg(t)))


def is_int(t):
    """A real-sorted polynomial that is an integer by construction."""
    if t.sort == "I":
        return True
    if t.op == "poly":
        return all(c.denominator == 1 and all(x.sort == "I" and e > 0 for x, e in m) for m, c in t.args)
    return False


def as_int(t):
    if t.sort == "I":
        return t
    return _mk("poly", t.args, "I") if t.op == "poly" else t


def _common(a, b):
    pa, pb = poly_of(a), poly_of(b)
    c = {m: v for m, v in pa.items() if pb.get(m) == v}
    return c


def tmin(a, b, op="min"):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.sort != b.sort or a.sort == "R":
        if is_int(a) and is_int(b):
            return real(tmin(as_int(a), as_int(b), op))
    d = sub(a, b)
    if is_num(d):
        less = num_val(d) <= 0
        return (a if less else b) if op == "min" else (b if less else a)
    if POS:
        if _ceil_ge0(d):
            return b if op == "min" else a
        if _ceil_ge0(neg(d)):
            return a if op == "min" else b
    c = _common(a, b)
    s = _psort(a, b)
    if c:
        ct = mk_poly(c, s)
        return add(ct, tmin(sub(a, ct), sub(b, ct), op))
    x, y = (a, b) if a.id < b.id else (b, a)
    return _mk(op, (x, y), s)


def tmax(a, b):
    return tmin(a, b, "max")


def tabs(a):
    a = num(a)
    if is_num(a):
        return num(abs(num_val(a)), a.sort)
    if a.op == "abs":
        return a
    p = poly_of(a)
    first = min(p, key=lambda m: [(x.id, e) for x, e in m])
    if p[first] < 0:
        a = neg(a)
    return _mk("abs", (a,), a.sort)


# ---------------------------------------------------------------- Booleans
def not_(b):
    b = num(b)
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le":
        return lt(num(0), b.args[0])
    if b.op == "lt":
        return le(num(0), b.args[0])
    return _mk("not", (b,), "B")


def and_(*bs):
    s = []
    for b in bs:
        b = num(b)
        for x in (b.args if b.op == "and" else (b,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in s:
                continue
            if not_(x) in s:
                return FALSE
            s.append(x)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort()
    return _mk("and", tuple(s), "B")


def or_(*bs):
    return not_(and_(*[not_(b) for b in bs])) if False else _or(bs)


def _or(bs):
    s = []
    for b in bs:
        b = num(b)
        for x in (b.args if b.op == "or" else (b,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in s:
                continue
            if not_(x) in s:
                return TRUE
            s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort()
    return _mk("or", tuple(s), "B")


def implies(a, b):
    return or_(not_(a), b)


RANGES = {}     # name of an integer application -> (least value, end), its contract


POS = set()      # names of integer variables assumed positive on every path of the harness


def positive(n):
    return is_num(n) and num_val(n) > 0 or n.op == "var" and n.data in POS


def _ceil_ge0(d):
    """d >= 0 because v*ceil(P/v) >= P for a positive v."""
    if d.op != "poly":
        return False
    for m, c in d.args:
        if c > 0 and len(m) == 2 and all(e == 1 for _, e in m):
            for (v, _), (w, _) in (m, m[::-1]):
                if v.op == "var" and v.data in POS and w.op == "ceil" and w.args[0].op == "poly":
                    P = {}
                    for m2, c2 in w.args[0].args:
                        fac = dict(m2)
                        fac[v] = fac.get(v, 0) + 1
                        if fac[v] == 0:
                            del fac[v]
                        k = tuple(sorted(fac.items(), key=lambda x: x[0].id))
                        P[k] = P.get(k, 0) + c2 * c
                    rest = add(mk_poly({mm: cc for mm, cc in d.args if mm != m}, "R"), mk_poly(P, "R"))
                    if is_num(rest) and num_val(rest) >= 0:
                        return True
    return False


def _known(d):
    """True / False when d <= 0 follows from the range of an application in it, else None."""
    if d.op != "poly":
        return None
    for m, c in d.args:
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "app" and m[0][0].data in RANGES:
            x = mk_poly({m: Fraction(1)}, "I")
            r = RANGES[x.data]
            if callable(r):
                r = r(x)
                if r is None:
                    continue
            lo, hi = r
            top = sub(hi, num(1))
            big = add(d, scale(sub(top if c > 0 else lo, x), c))
            if is_num(big) and num_val(big) <= 0:
                return True
            small = add(d, scale(sub(lo if c > 0 else top, x), c))
            if is_num(small) and num_val(small) > 0:
                return False
    return None


def le(a, b):
    d = sub(a, b)
    if is_num(d):
        return TRUE if num_val(d) <= 0 else FALSE
    k = _known(d) if RANGES else None
    if k is not None:
        return TRUE if k else FALSE
    return _mk("le", (_pos_scale(d),), "B")


def lt(a, b):
    d = sub(a, b)
    if is_num(d):
        return TRUE if num_val(d) < 0 else FALSE
    if is_int(d):
        return le(add(as_int(d), num(1)), num(0))
    return _mk("lt", (_pos_scale(d),), "B")


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _pos_scale(d):
    if d.op != "poly":
        return d
    c = abs(d.args[-1][1])
    if is_int(d):
        import math
        g = 0
        for m, v in d.args:
            g = math.gcd(g, int(v))
        return scale(d, Fraction(1, g)) if g > 1 else d
    return scale(d, 1 / c) if c != 1 else d


def eq(a, b):
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if a.sort == "B" or b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        x, y = (a, b) if a.id < b.id else (b, a)
        return _mk("iff", (x, y), "B")
    if a.op == "lam" or b.op == "lam":
        x, y = (a, b) if a.id < b.id else (b, a)
        return _mk("eqfun", (x, y), "B")
    d = sub(a, b)
    if is_num(d):
        return TRUE if num_val(d) == 0 else FALSE
    if is_int(d):
        d = _pos_scale(d)
        if d.op == "poly" and () in dict(d.args):
            import math
            g = 0
            for m, v in d.args:
                if m:
                    g = math.gcd(g, int(v))
            if g > 1 and int(dict(d.args)[()]) % g:
                return FALSE
    if d.op == "poly":
        first = d.args[-1][1]
        if first < 0:
            d = neg(d)
        if not is_int(d):
            d = scale(d, 1 / abs(first))
    return _mk("eq", (d,), "B")


def ne(a, b):
    return not_(eq(a, b))


def ind(c):
    """1 if c else 0."""
    c = num(c)
    if c is TRUE:
        return num(1)
    if c is FALSE:
        return num(0)
    if c.op == "and":
        return mul(*[ind(x) for x in c.args])
    if c.op == "or":
        r = num(1)
        for x in c.args:
            r = mul(r, sub(num(1), ind(x)))
        return sub(num(1), r)
    if c.op == "not":
        return sub(num(1), ind(c.args[0]))
    if c.op in ("le", "lt"):     # one orientation of each comparison
        n = not_(c)
        d, e = c.args[0], n.args[0]
        if n.op in ("le", "lt") and _orient(e) < _orient(d):
            return sub(num(1), _mk("ind", (n,), "I"))
    return _mk("ind", (c,), "I")


def _orient(d):
    p = poly_of(d)
    ms = [m for m in p if m]
    m = max(ms, key=lambda m: [(x.id, e) for x, e in m])
    return 0 if p[m] > 0 else 1


def ite(c, a, b):
    c, a, b = num(c), num(a), num(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "lam" or b.op == "lam":
        raise ValueError("ite of functions")
    return add(b, mul(ind(c), sub(a, b)))


# ---------------------------------------------------------------- applications
def app(name, args, sort):
    return _mk("app", tuple(num(a) for a in args), sort, name)


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == "poly":
        return [x for m, c in t.args for x, e in m]
    return list(t.args)


def subst(t, m, memo=None):
    """Replaces variables by terms, m: {variable name: term}."""
    if memo is None:
        memo = {}
    if not any(v in m for v in t.fv):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = m[t.data]
    elif t.op == "poly":
        parts = []
        for mono, c in t.args:
            fs = [num(c, "I" if c.denominator == 1 else "R")]
            for x, e in mono:
                y = subst(x, m, memo)
                if e < 0:
                    y, e = recip(y), -e
                fs += [y] * e
            parts.append(mul(*fs))
        r = add(*parts)
        if t.sort == "R":
            r = real(r)
    else:
        r = rebuild(t, [subst(a, m, memo) for a in t.args])
    memo[t.id] = r
    return r


def replace(t, m, memo=None):
    """Replaces atoms (any terms) by terms, m: {term: term}, outermost first."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "poly":
        parts = []
        for mono, c in t.args:
            fs = [num(c, "I" if c.denominator == 1 else "R")]
            for x, e in mono:
                y = replace(x, m, memo)
                if e < 0:
                    y, e = recip(y), -e
                fs += [y] * e
            parts.append(mul(*fs))
        r = add(*parts)
        if t.sort == "R":
            r = real(r)
    elif t.args:
        r = rebuild(t, [replace(a, m, memo) for a in t.args])
    else:
        r = t
    memo[t.id] = r
    return r


def rebuild(t, a):
    op = t.op
    if all(x is y for x, y in zip(a, t.args)):
        return t
    if op == "app":
        f = _simplifiers.get(t.data)
        if f:
            r = f(*a)
            if r is not None:
                return r
        return app(t.data, a, t.sort)
    if op == "recip":
        return recip(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "ind":
        return ind(a[0])
    if op in ("min", "max"):
        return tmin(a[0], a[1], op)
    if op == "abs":
        return tabs(a[0])
    if op == "ceil":
        return ceil(a[0])
    if op == "trunc":
        return trunc(a[0])
    if op == "idiv":
        return idiv(*a)
    if op == "imod":
        return imod(*a)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "le":
        return le(a[0], num(0))
    if op == "lt":
        return lt(a[0], num(0))
    if op == "eq":
        return eq(a[0], num(0))
    if op == "iff":
        return eq(a[0], a[1])
    if op == "eqfun":
        return eq(a[0], a[1])
    if op == "lam":
        return _mk("lam", tuple(a), t.sort, t.data)
    if op == "psum":
        return _psum_node(t.data, a[:-1], a[-1], t.sort)
    raise ValueError(op)


_simplifiers = {}     # name -> f(args) -> T or None


def atoms(t, seen=None):
    """All subterms."""
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        st.extend(children(x))
    return seen


# ---------------------------------------------------------------- binders
CODES = {}       # code -> Code


class Code(object):
    def __init__(self, n, nparams, body, sorts):
        self.n, self.nparams, self.body, self.sorts = n, nparams, body, sorts
        self.id = len(CODES)


def bvar(i, sort="I"):
    return var("#%d" % i, sort)


def _wkey(t, bound, memo):
    """Ordering key of a term that ignores what its parameters are."""
    if not (t.fv & bound):
        return ("?" if "ids" not in memo else "?%d" % t.id) if not is_num_t(t) else str(num_val(t))
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "var":
        r = t.data
    elif t.op == "poly":
        ks = []
        for bm, cf in _group(t, bound):
            ks.append("%s*(%s)" % (_wkey(cf, bound, memo), ",".join(sorted("%s^%d" % (_wkey(x, bound, memo), e) for x, e in bm))))
        r = "P[" + "+".join(sorted(ks)) + "]"
    elif t.op in ("and", "or", "iff", "min", "max"):
        r = t.op + "{" + ",".join(sorted(_wkey(a, bound, memo) for a in t.args)) + "}"
    elif t.op == "eq":
        r = "eq:" + _wkey(_sign(t.args[0], bound, memo), bound, memo)
    else:
        d = t.data.id if isinstance(t.data, Code) else t.data
        r = "%s:%s(%s)" % (t.op, d, ",".join(_wkey(a, bound, memo) for a in t.args))
    memo[t.id] = r
    return r


def _sign(d, bound, memo, memo2=None):
    """d or -d, so that the choice does not depend on the order in which the terms were made."""
    if d.op != "poly":
        return d
    best = None
    memo2 = {"ids": True} if memo2 is None else memo2
    for bm, cf in _group(d, bound):
        if bm and is_num_t(cf):
            k = (",".join(sorted("%s^%d" % (_wkey(x, bound, memo), e) for x, e in bm)),
                 ",".join(sorted("%s^%d" % (_wkey(x, bound, memo2), e) for x, e in bm)))
            if best is None or k < best[0]:
                best = (k, num_val(cf))
    return neg(d) if best is not None and best[1] < 0 else d


def is_num_t(t):
    return t.op == "poly" and is_num(t)


def _group(t, bound):
    """poly as [(bound monomial, coefficient term without bound variables)]."""
    g = {}
    for mono, c in poly_of(t).items():
        bm = tuple((x, e) for x, e in mono if x.fv & bound)
        fm = tuple((x, e) for x, e in mono if not (x.fv & bound))
        g.setdefault(bm, {})
        g[bm][fm] = g[bm].get(fm, 0) + c
    return [(bm, mk_poly(d, "R" if t.sort == "R" else "I")) for bm, d in g.items()]


class _Abs(object):
    def __init__(self, bound):
        self.bound = bound
        self.params = []
        self.pidx = {}
        self.memo = {}
        self.memo2 = {"ids": True}

    def param(self, t):
        k = (t.id)
        if k not in self.pidx:
            self.pidx[k] = len(self.params)
            self.params.append(t)
        return var("$%d" % self.pidx[k], t.sort if t.op != "lam" else "F")

    def walk(self, t):
        """Template of t: same term with parameters $k."""
        if not (t.fv & self.bound):
            if is_num_t(t) or t in (TRUE, FALSE):
                return t
            return self.param(t)
        if t.op == "var":
            return t
        wk = lambda x: _wkey(x, self.bound, self.memo)
        wk2 = lambda x: _wkey(x, self.bound, self.memo2)
        if t.op == "poly":
            parts = []
            for bm, cf in sorted(_group(t, self.bound), key=lambda p: (
                    sorted("%s^%d" % (wk(x), e) for x, e in p[0]), wk(p[1]), sorted("%s^%d" % (wk2(x), e) for x, e in p[0]))):
                fs = []
                if is_num_t(cf):
                    c0 = cf
                elif not bm:
                    c0 = self.param(cf)
                else:
                    c0 = self.param(cf)
                for x, e in sorted(bm, key=lambda p: (wk(p[0]), wk2(p[0]))):
                    y = self.walk(x)
                    if e < 0:
                        y, e = recip(y), -e
                    fs += [y] * e
                parts.append(mul(c0, *fs))
            r = add(*parts)
            return real(r) if t.sort == "R" else r
        if t.op in ("and", "or", "iff", "min", "max"):
            return rebuild_t(t, [self.walk(a) for a in sorted(t.args, key=lambda x: (wk(x), wk2(x)))])
        if t.op == "eq":
            return eq(self.walk(_sign(t.args[0], self.bound, self.memo, self.memo2)), num(0))
        if t.op == "recip":
            d = _sign(t.args[0], self.bound, self.memo, self.memo2)
            r = recip(self.walk(d))
            return r if d is t.args[0] else neg(r)
        return rebuild_t(t, [self.walk(a) for a in t.args])


def rebuild_t(t, a):
    return rebuild(t, a)


def _code(bound_n, template, nparams, sorts):
    k = (bound_n, template, nparams, sorts)
    c = CODES.get(k)
    if c is None:
        c = CODES[k] = Code(bound_n, nparams, template, sorts)
    return c


def lam(vs, body):
    """Function value: lambda vs. body  (vs: list of variable terms)."""
    body = num(body)
    m = {v.data: bvar(i, v.sort) for i, v in enumerate(vs)}
    # bound names must not clash with placeholders free in the body (they are parameters of an enclosing code)
    inner = {}
    for n in body.fv:
        if n.startswith("#") and n not in m:
            inner[n] = var("@" + n, "I")
    if inner:
        body = subst(body, inner)
    body = subst(body, m)
    ab = _Abs(frozenset(x.data for x in m.values()))
    tpl = ab.walk(body)
    ps = ab.params
    if inner:
        back = {v.data: var(k, "I") for k, v in inner.items()}
        ps = [subst(p, back) for p in ps]
    c = _code(len(vs), tpl, len(ps), tuple(v.sort for v in vs))
    return _mk("lam", tuple(ps), body.sort, c)


def apply_lam(f, args):
    """beta-reduction."""
    c = f.data
    m = {"#%d" % i: num(a) for i, a in enumerate(args)}
    for k, p in enumerate(f.args):
        m["$%d" % k] = p
    return subst_f(c.body, m)


def subst_f(t, m):
    return subst(t, m)


def lam_fn(f):
    return lambda *a: apply_lam(f, a)


def fun(n, f, sorts=None):
    """lam from a Python function of n index terms."""
    vs = [fresh("q", (sorts or ["I"] * n)[i]) for i in range(n)]
    return lam(vs, f(*vs))


# ---------------------------------------------------------------- sums
def _psum_node(code, params, h, sort):
    if is_num(h) and num_val(h) == 0:
        return num(0, sort)
    t = _mk("psum", tuple(params) + (h,), sort, code)
    if is_num(h) and 0 < num_val(h) <= 4:
        r = add(*([num(0, sort)] + [psum_body(t, num(i)) for i in range(int(num_val(h)))]))
        return real(r) if sort == "R" else r
    return t


def _base_shift(mono, v):
    """bound-free offset s such that arrays are indexed by v + s (chosen canonically)."""
    best = None
    for x, e in mono:
        for a in _index_terms(x, v):
            p = poly_of(a)
            k = ((v, 1),)
            if p.get(k) == 1 and not any(v.data in y.fv for m in p if m != k for y, _ in m):
                rest = mk_poly({m: c for m, c in p.items() if m != k}, "I")
                return rest
    return num(0)


def _index_terms(x, v):
    """Index arguments with v of the uninterpreted arrays inside x, in canonical order."""
    out = []
    st = [x]
    seen = set()
    while st:
        y = st.pop(0)
        if y.id in seen or v.data not in y.fv:
            continue
        seen.add(y.id)
        if y.op in ("app", "lam", "psum"):
            for a in y.args:
                if v.data in a.fv and a.sort == "I" and a.op in ("poly", "var"):
                    out.append(("a" + str(y.data) if y.op == "app" else "l%09d" % y.data.id, a))
        st.extend(children(y))
    out.sort(key=lambda p: str(p[0]))
    return [a for n, a in out]


def sum_(v, lo, hi, body):
    """Sum of body for v = lo .. hi-1 (lo <= hi)."""
    lo, hi, body = num(lo), num(hi), num(body)
    n = sub(hi, lo)
    if is_num(n) and 0 <= num_val(n) <= 3:
        return add(*([num(0, body.sort)] + [subst(body, {v.data: add(lo, num(i))}) for i in range(int(num_val(n)))]))
    bound = frozenset([v.data])
    total = []
    for bm, cf in _group(body, bound):
        if not bm:
            total.append(mul(cf, n))
            continue
        total.append(mul(cf, _sum_mono(v, lo, hi, bm, body.sort)))
    r = add(*([num(0, body.sort)] + total))
    return real(r) if body.sort == "R" else r


def _sum_mono(v, lo, hi, bm, sort):
    # delta rule: sum of [v == t] * rest(v)
    for i, (x, e) in enumerate(bm):
        if x.op == "ind" and x.args[0].op == "eq":
            p = poly_of(x.args[0].args[0])
            k = ((v, 1),)
            if k in p and abs(p[k]) == 1 and not any(v.data in y.fv for m in p if m != k for y, _ in m):
                t = scale(mk_poly({m: c for m, c in p.items() if m != k}, "I"), -1 / p[k])
                rest = mk_poly({tuple(q for j, q in enumerate(bm) if j != i): Fraction(1)}, sort)
                return mul(ind(and_(le(lo, t), lt(t, hi))), subst(rest, {v.data: t}))
    cut = _cut(v, lo, hi, bm, sort)
    if cut is not None:
        return cut
    sw = _swap(v, lo, hi, bm, sort)
    if sw is not None:
        return sw
    s = _base_shift(bm, v)
    mono = mk_poly({bm: Fraction(1)}, sort)
    if not is_num(s) or num_val(s) != 0:
        mono = subst(mono, {v.data: sub(v, s)})
        if mono.op == "poly" and (len(mono.args) != 1 or mono.args[0][1] != 1 or any(v.data not in x.fv for x, e in mono.args[0][0])):
            return _sum_poly_raw(v, add(lo, s), add(hi, s), mono)
        lo, hi = add(lo, s), add(hi, s)
    return _diff(v, mono, lo, hi, sort)


def _diff(v, mono, lo, hi, sort):
    """Prefix sums of a monomial; a coefficient that its normal form brings in stands before them."""
    f = lam([v], mono)
    b = f.data.body
    c = 1
    if b.op == "poly" and len(b.args) == 1 and b.args[0][1] != 1 and is_int(mono) is False:
        c = b.args[0][1]
        f = lam([v], scale(mono, 1 / c))
    elif b.op == "poly" and len(b.args) > 1:        # the normal form of the body is a sum: a sum for each of its terms
        out = []
        for bm, cf in b.args:
            one = mk_poly({bm: Fraction(1)}, sort)
            w = fresh("w", "I")
            m = {"#0": w}
            for k, p in enumerate(f.args):
                m["$%d" % k] = p
            g = lam([w], subst(one, m))
            if "#0" not in g.data.body.fv:
                out.append(mul(num(cf), subst(one, m), sub(hi, lo)))
            elif g.data.body.op == "poly" and (len(g.data.body.args) != 1 or g.data.body.args[0][1] != 1):
                break
            else:
                out.append(scale(sub(_psum_node(g.data, g.args, hi, sort), _psum_node(g.data, g.args, lo, sort)), cf))
        else:
            return add(*([num(0, sort)] + out))
    return scale(sub(_psum_node(f.data, f.args, hi, sort), _psum_node(f.data, f.args, lo, sort)), c)


def _cut(v, lo, hi, bm, sort):
    """Sum of [v < t] * rest(v) or [v >= t] * rest(v) where t is a constant away from an end of the range."""
    for i, (x, e) in enumerate(bm):
        if x.op != "ind" or x.args[0].op != "le":
            continue
        p = poly_of(x.args[0].args[0])
        k = ((v, 1),)
        c = p.get(k, 0)
        if abs(c) != 1 or any(v.data in y.fv for m in p if m != k for y, _ in m) or any(y.sort != "I" for m in p for y, _ in m):
            continue
        rest = mk_poly({tuple(q for j, q in enumerate(bm) if j != i): Fraction(1)}, sort)
        t = mk_poly({m: -cf * c for m, cf in p.items() if m != k}, "I")
        t = add(t, num(1)) if c == 1 else t           # v < t  or  v >= t
        up, dn = sub(hi, t), sub(t, lo)
        if is_num(up):
            u = int(num_val(up))
            if c == 1:
                return sum_(v, lo, hi, rest) if u <= 0 else mul(ind(le(lo, t)), sum_(v, lo, t, rest))
            if u <= 3:
                return add(*([num(0, sort)] + [mul(ind(le(lo, add(t, num(j)))), subst(rest, {v.data: add(t, num(j))})) for j in range(max(u, 0))]))
        if is_num(dn):
            u = int(num_val(dn))
            if c == -1:
                return sum_(v, lo, hi, rest) if u <= 0 else mul(ind(le(t, hi)), sum_(v, t, hi, rest))
            if u <= 3:
                return add(*([num(0, sort)] + [mul(ind(lt(add(lo, num(j)), hi)), subst(rest, {v.data: add(lo, num(j))})) for j in range(max(u, 0))]))
    return None


def _delta_in(bm, v):
    for x, e in bm:
        if x.op == "ind" and x.args[0].op == "eq":
            p = poly_of(x.args[0].args[0])
            if abs(p.get(((v, 1),), 0)) == 1 and not any(v.data in y.fv for m in p if m != ((v, 1),) for y, _ in m):
                return True
    return False


def _swap(v, lo, hi, bm, sort):
    """Sum over v of rest(v) * sum over s of b(s, v), summed over v first when that removes the sum over v."""
    for i, (x, e) in enumerate(bm):
        if x.op == "psum" and e == 1 and v.data in x.fv and v.data not in x.args[-1].fv:
            s = fresh("s", "I")
            rest = mk_poly({tuple(q for j, q in enumerate(bm) if j != i): Fraction(1)}, sort)
            body = mul(rest, psum_body(x, s))
            if all(_delta_in(m, v) for m in poly_of(body)):
                return sum_(s, num(0), x.args[-1], sum_(v, lo, hi, body))
    return None


def _sum_poly_raw(v, lo, hi, body):
    bound = frozenset([v.data])
    total = []
    for bm, cf in _group(body, bound):
        if not bm:
            total.append(mul(cf, sub(hi, lo)))
            continue
        total.append(mul(cf, _diff(v, mk_poly({bm: Fraction(1)}, body.sort), lo, hi, body.sort)))
    return add(*([num(0, body.sort)] + total))


def psum_body(t, at):
    """Body of a prefix sum at index `at`."""
    m = {"#0": at}
    for k, p in enumerate(t.args[:-1]):
        m["$%d" % k] = p
    return subst(t.data.body, m)


# ---------------------------------------------------------------- printing
SHOWN = None


def shown():
    """Bodies of the sums printed since SHOWN was set to {}."""
    out, done = [], set()
    while SHOWN and set(SHOWN) - done:
        for k in sorted(set(SHOWN) - done):
            done.add(k)
            out.append("%s: sum over #0 of %s" % (k, show(SHOWN[k].body, 8)))
    return "\n".join(out)


def show(t, depth=6):
    if depth <= 0:
        return "..."
    if t.op == "var":
        return t.data
    if t.op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args[:12]:
            fs = [show(x, depth - 1) + ("" if e == 1 else "^%d" % e) for x, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            out.append("*".join(fs))
        if len(t.args) > 12:
            out.append("...")
        return "(" + " + ".join(out) + ")"
    if t.op in ("true", "false"):
        return t.op
    if t.op == "ind":
        return "[" + show(t.args[0], depth - 1) + "]"
    if t.op in ("le", "lt", "eq"):
        return show(t.args[0], depth - 1) + {"le": "<=0", "lt": "<0", "eq": "==0"}[t.op]
    if t.op == "psum":
        if SHOWN is not None:
            SHOWN.setdefault("S%d" % t.data.id, t.data)
        return "S%d(%s)" % (t.data.id, ", ".join(show(a, depth - 1) for a in t.args))
    if t.op == "lam":
        return "L%d(%s)" % (t.data.id, ", ".join(show(a, depth - 1) for a in t.args))
    if t.op == "app":
        return "%s(%s)" % (t.data, ", ".join(show(a, depth - 1) for a in t.args))
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))

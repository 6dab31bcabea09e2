"""Contracts of Python's built-ins and of numpy/scipy (trusted: the libraries' documentation, cross-checked at run time)."""
import math
from fractions import Fraction
from dv.values import *
from dv import smt
from dv import term as tm

INF = float("inf")


class Lib(object):
    pass


# ---------------------------------------------------------------- special functions
def _fn1(name, sort="R"):
    return lambda t: app(name, (real(t),), sort)


def t_exp(t):
    return app("exp", (real(t),), "R")


EVALF = {"exp": math.exp, "tanh": math.tanh, "sin": math.sin, "cos": math.cos, "log": math.log}
for _n, _f in EVALF.items():
    def _mk1(f):
        def g(ev, a):
            try:
                return float(f(float(a[0])))
            except (OverflowError, ValueError):
                raise smt.NoEval("range")
        return g
    smt.EVAL[_n] = _mk1(_f)
smt.AXIOMS["exp"] = lambda t: [lt(num(0), t)]


def as_term(v):
    if isinstance(v, T):
        return v
    if isinstance(v, (bool, int)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            raise Unsupported("infinite or NaN value in arithmetic")
        return num(v)
    raise Unsupported("not a number: %r" % (v,))


def is_scalar(v):
    return isinstance(v, (T, bool, int, float))


def is_inf(v):
    return isinstance(v, float) and v in (INF, -INF)


def nb(t):
    """Boolean term as number."""
    return ind(t) if t.sort == "B" else t


def sort_dtype(t):
    return {"B": BOOL, "I": I8, "R": F8}[t.sort]


# ---------------------------------------------------------------- argmax & co
def _argmax_eval(ev, a):
    f, n = a[0], int(a[1])
    if n <= 0:
        raise smt.NoEval("argmax of nothing")
    best = 0
    vals = [f(i) for i in range(n)]
    for i in range(1, n):
        if vals[i] > vals[best]:
            best = i
    return best


smt.EVAL["argmax"] = _argmax_eval
smt.DOMAINS["argmax"] = {0: lambda a: [(num(0), a[1])]}


def _argmax_ax(t):
    f, n = t.args
    out = [or_(lt(n, num(1)), and_(le(num(0), t), lt(t, n)))]
    sk = tm.var("sk_am_%d" % t.id, "I")
    return out


smt.AXIOMS["argmax"] = _argmax_ax


def _argmax_simp(f, n):
    """The largest element of a 0/1 vector with a single one is that one."""
    if f.op != "lam":
        return None
    k = tm.var("k!am", "I")
    b = tm.apply_lam(f, (k,))
    if b.op == "ind" and b.args[0].op == "eq":
        p = tm.poly_of(b.args[0].args[0])
        c = p.get(((k, 1),))
        if c is not None and abs(c) == 1 and not any("k!am" in x.fv for m in p if m != ((k, 1),) for x, e in m):
            t = tm.scale(tm.mk_poly({m: v for m, v in p.items() if m != ((k, 1),)}, "I"), -1 / c)
            if le(num(0), t) is TRUE and lt(t, n) is TRUE:
                return t
    return None


tm._simplifiers["argmax"] = _argmax_simp
tm.RANGES["argmax"] = lambda t: (num(0), t.args[1]) if tm.positive(t.args[1]) else None


def argmax(f, n):
    """index of the first largest of f(0..n-1)"""
    F = fun(1, f)
    r = _argmax_simp(F, num(n))
    return r if r is not None else app("argmax", (F, n), "I")


def argmin(f, n):
    return app("argmax", (fun(1, lambda i: neg(f(i))), n), "I")


def _maxval_eval(ev, a):
    f, n = a[0], int(a[1])
    if n <= 0:
        raise smt.NoEval("max of nothing")
    return max(f(i) for i in range(n))


smt.EVAL["maxval"] = _maxval_eval
smt.DOMAINS["maxval"] = {0: lambda a: [(num(0), a[1])]}


def maxval(f, n):
    return app("maxval", (fun(1, f), n), "R")


# ---------------------------------------------------------------- linear algebra
def _mat(f, n):
    import numpy as np
    n = int(n)
    return np.array([[float(f(i, j)) for j in range(n)] for i in range(n)]).reshape(n, n)


def _pinv_eval(ev, a):
    import numpy as np
    f, n, i, j = a
    key = ("pinv", f.ident, int(n)) if f.ident is not None else None
    if key is not None and key in ev.tab:
        P = ev.tab[key]
    else:
        P = np.linalg.pinv(_mat(f, n))
        if key is not None:
            ev.tab[key] = P
    if not (0 <= i < n and 0 <= j < n):
        raise smt.NoEval("index")
    return round(float(P[int(i), int(j)]), 9)


smt.EVAL["pinv"] = _pinv_eval
smt.DOMAINS["pinv"] = {0: lambda a: [(num(0), a[1]), (num(0), a[1])]}


def pinv_fn(f, n):
    """(i, j) -> entry of the Moore-Penrose inverse of the n x n matrix f (its inverse when nonsingular)."""
    F = fun(2, lambda i, j: real(f(i, j)))
    return lambda i, j: app("pinv", (F, n, i, j), "R")


# array_split offsets
def _asoff_simp(N, n, k):
    if is_num(k) and num_val(k) == 0:
        return num(0)
    if k is n:
        return N
    return None


tm._simplifiers["asoff"] = _asoff_simp


def asoff(N, n, k):
    N, n, k = num(N), num(n), num(k)
    r = _asoff_simp(N, n, k)
    return r if r is not None else app("asoff", (N, n, k), "I")


def _asoff_ev(ev, a):
    N, n, k = [int(x) for x in a]
    if n <= 0 or k < 0 or k > n:
        raise smt.NoEval("array_split")
    q, r = divmod(N, n)
    return k * q + min(k, r)


smt.EVAL["asoff"] = _asoff_ev


def _asoff_ax(t):
    N, n, k = t.args
    ok = and_(lt(num(0), n), le(num(0), k), le(k, n), le(num(0), N))
    nxt = asoff(N, n, add(k, num(1)))
    return [implies(ok, and_(le(num(0), t), le(t, N))), implies(and_(ok, lt(k, n)), le(t, nxt)),
            implies(and_(ok, eq(k, num(0))), eq(t, num(0))), implies(and_(ok, eq(k, n)), eq(t, N)),
            implies(and_(ok, lt(num(0), k), le(n, N)), lt(num(0), t)),
            implies(and_(ok, lt(k, n), le(n, N)), lt(t, nxt))]


smt.AXIOMS["asoff"] = _asoff_ax


# ---------------------------------------------------------------- array helpers
def size_of(m, a):
    n = num(1)
    for s, k in zip(a.shape, a.masks):
        n = mul(n, k.count if k else s)
    return n


def extent(a, ax):
    return a.masks[ax].count if a.masks[ax] else a.shape[ax]


def asarray(m, v, dtype=None):
    """np.array(v) (a new array) from anything array-like."""
    if isinstance(v, Arr):
        r = m.copy_arr(v, m.dtype(v))
        return astype(m, r, dtype) if dtype else r
    if is_scalar(v):
        t = as_term(v)
        d = dtype or sort_dtype(t)
        return m.array((), lambda idx: t, d)
    if isinstance(v, tuple):
        items = list(v)
    elif isinstance(v, Ref) and m.rec(v).kind == "list":
        items = list(m.rec(v).x)
    elif isinstance(v, Ref) and m.rec(v).kind == "symlist":
        rec = m.rec(v)
        v0 = rec.d["fn"](fresh("q", "I"))
        if not isinstance(v0, T):
            raise Unsupported("np.array of a list of %r" % (v0,))
        d = dtype or sort_dtype(v0)
        fn = rec.d["fn"]
        return m.array((rec.d["n"],), lambda idx: fn(idx[0]), d, (rec.d.get("mask"),))
    elif isinstance(v, Ref) and m.rec(v).kind == "node":
        return asarray(m, m.lib.getitem(m, v, Slice(None, None, None)), dtype)
    elif isinstance(v, SymSeq):
        return m.array((v.n,), lambda idx: as_term(v.fn(idx[0])), dtype or I8)
    else:
        raise Unsupported("np.array(%r)" % (v,))
    if not items:
        return m.array((num(0),), lambda idx: num(0), dtype or F8)
    if all(is_scalar(x) for x in items):
        ts = [as_term(x) for x in items]
        d = dtype or promote(*[sort_dtype(t) for t in ts])

        def fn(idx):
            r = ts[-1]
            for i in range(len(ts) - 2, -1, -1):
                r = ite(eq(idx[0], num(i)), nb(ts[i]), nb(r)) if d is not BOOL else ite(eq(idx[0], num(i)), ts[i], r)
            return r
        return m.array((len(items),), fn, d)
    arrs = [asarray(m, x) for x in items]
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise Unsupported("ragged array")
    for a in arrs[1:]:
        for s, t in zip(arrs[0].shape, a.shape):
            if not deq(m, s, t):
                raise Unsupported("ragged array")
    rs = [m.reader(a) for a in arrs]

    def fn2(idx):
        r = nb(rs[-1](idx[1:]))
        for i in range(len(rs) - 2, -1, -1):
            r = ite(eq(idx[0], num(i)), nb(rs[i](idx[1:])), r)
        return r
    return m.array((num(len(items)),) + arrs[0].shape, fn2, dtype or promote(*[m.dtype(a) for a in arrs]))


def to_arr(m, v):
    """v itself when it is an array, else a new array."""
    if isinstance(v, Arr):
        return v
    return asarray(m, v)


def dt(m, v):
    """dtype from a dtype-like argument."""
    if v is None:
        return F8
    if isinstance(v, DType):
        return v
    if isinstance(v, Native) and v.name in ("int", "float", "bool"):
        return {"int": I8, "float": F8, "bool": BOOL}[v.name]
    if isinstance(v, str):
        t = {"float64": F8, "float32": F4, "f8": F8, "f4": F4, "int": I8, "float": F8, "double": F8, "single": F4,
             "int64": I8, "bool": BOOL}.get(v)
        if t:
            return t
    raise Unsupported("dtype %r" % (v,))


def cast_fn(frm, to, f):
    if to.kind in "iu" and frm.kind == "f":
        return lambda idx: trunc(nb(f(idx)))
    if to.kind == "b" and frm.kind != "b":
        return lambda idx: (lambda t: t if t.sort == "B" else ne(t, num(0)))(f(idx))
    if to.kind in "iuf" and frm.kind == "b":
        return lambda idx: nb(f(idx))
    return f


def astype(m, a, d, copy=True):
    s = m.dtype(a)
    if not copy and s is d:
        return a
    return m.array(a.shape, cast_fn(s, d, m.reader(a)), d, a.masks)


def deq(m, a, b):
    a, b = num(a), num(b)
    if a is b:
        return True
    if is_num(a) and is_num(b):
        return False
    return m.entails(eq(a, b))


def bshape(m, shapes, masks):
    """Broadcast shape of several shapes (list of tuples of terms)."""
    nd = max(len(s) for s in shapes)
    out, om = [], []
    for ax in range(nd):
        dim, mk = None, None
        for s, k in zip(shapes, masks):
            j = ax - (nd - len(s))
            if j < 0:
                continue
            d = s[j]
            if is_num(d) and num_val(d) == 1 and not k[j]:
                if dim is None:
                    dim = d
                continue
            if dim is None or (is_num(dim) and num_val(dim) == 1 and mk is None):
                dim, mk = d, k[j]
                continue
            if (mk is None) != (k[j] is None) or (mk is not None and not mk.same(k[j])):
                raise Unsupported("elementwise operation on differently filtered arrays")
            if deq(m, dim, d):
                continue
            if not m.branch(eq(dim, d)):
                # unequal: either a broadcast over a symbolic dimension that is 1, or an error
                if m.entails(and_(ne(d, num(1)), ne(dim, num(1)))):
                    m.raise_(ValueError, "operands could not be broadcast together")
                raise Unsupported("broadcast over a dimension of unknown size")
        out.append(dim)
        om.append(mk)
    return tuple(out), tuple(om)


def bidx(shape, nd, idx):
    """Index into an operand of `shape` for the broadcast index idx."""
    off = nd - len(shape)
    return tuple(num(0) if is_num(s) and num_val(s) == 1 else idx[off + j] for j, s in enumerate(shape))


def elementwise(m, f, args, dtype):
    """f(terms) elementwise over broadcast args; scalars allowed; scalar result when no array is involved."""
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return f(*[as_term(a) for a in args])
    shape, masks = bshape(m, [a.shape for a in arrs], [a.masks for a in arrs])
    nd = len(shape)
    rs = []
    for a in args:
        if isinstance(a, Arr):
            rd = m.reader(a)
            rs.append((lambda rd, sh: lambda idx: rd(bidx(sh, nd, idx)))(rd, a.shape))
        else:
            t = as_term(a)
            rs.append((lambda t: lambda idx: t)(t))
    if nd == 0:
        return f(*[r(()) for r in rs])
    return m.array(shape, lambda idx: f(*[r(idx) for r in rs]), dtype, masks)


def vdtype(m, v):
    if isinstance(v, Arr):
        return m.dtype(v)
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, T):
        return sort_dtype(v)
    return U1 if isinstance(v, int) else DType("weak", "f", 1)


def rdtype(m, a, b):
    """Result dtype of arithmetic; python scalars are weak."""
    da, db = vdtype(m, a), vdtype(m, b)
    if not isinstance(a, Arr) and isinstance(b, Arr):
        if da.kind == "f" and db.kind != "f":
            return F8
        return db if db.kind != "b" else (F8 if da.kind == "f" else I8)
    if not isinstance(b, Arr) and isinstance(a, Arr):
        return rdtype(m, b, a)
    return promote(da, db)


# ---------------------------------------------------------------- arithmetic
def fdiv(m, a, b):
    """Division of terms where b may be zero: cancellation only when it provably is not."""
    if is_num(b):
        if num_val(b) == 0:
            return app("div0", (real(a),), "R")
        return div(a, b)
    if m.nonzero(b):
        return div(a, b)
    return app("fdiv", (real(a), real(b)), "R")


def _fdiv_ev(ev, a):
    if a[1] == 0:
        raise smt.NoEval("division by zero")
    return a[0] / a[1] if isinstance(a[0], float) or isinstance(a[1], float) else Fraction(a[0]) / Fraction(a[1])


smt.EVAL["fdiv"] = _fdiv_ev
smt.AXIOMS["fdiv"] = lambda t: [or_(eq(t.args[1], num(0)), eq(t, div(t.args[0], t.args[1]))),
                                or_(ne(t.args[0], num(0)), eq(t.args[1], num(0)), eq(t, num(0))),
                                or_(lt(t.args[0], num(0)), le(t.args[1], num(0)), le(num(0), t))]


def tpow(m, a, b):
    if is_num(b):
        v = num_val(b)
        if v.denominator == 1 and 0 <= v <= 8:
            return power(a, int(v))
        if v == Fraction(1, 2):
            if m.nonneg(a):
                return sqrt(a)
            return app("fsqrt", (real(a),), "R")
        if v == -1:
            return fdiv(m, num(1), a)
        if v == Fraction(-1, 2) and m.positive(a):
            return div(num(1), sqrt(a))
    return app("pow", (real(a), real(b)), "R")


smt.AXIOMS["fsqrt"] = lambda t: [or_(lt(t.args[0], num(0)), eq(t, sqrt(t.args[0])))]


def _fsqrt_ev(ev, a):
    if a[0] < 0:
        raise smt.NoEval("sqrt")
    return float(a[0]) ** 0.5


smt.EVAL["fsqrt"] = _fsqrt_ev

ARITH = ("Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow", "MatMult", "BitAnd", "BitOr", "BitXor")


def arith_term(m, op, a, b):
    if op == "BitAnd" and a.sort == "B" and b.sort == "B":
        return and_(a, b)
    if op == "BitOr" and a.sort == "B" and b.sort == "B":
        return or_(a, b)
    if op == "BitXor" and a.sort == "B" and b.sort == "B":
        return not_(eq(a, b))
    if op == "Add" and a.sort == "B" and b.sort == "B":
        return add(nb(a), nb(b))
    a, b = nb(a), nb(b)
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        return fdiv(m, a, b)
    if op == "FloorDiv":
        if is_int(a) and is_int(b):
            return idiv(as_int(a), as_int(b))
        return floor(fdiv(m, a, b))
    if op == "Mod":
        if is_int(a) and is_int(b):
            return imod(as_int(a), as_int(b))
        return sub(a, mul(b, floor(fdiv(m, a, b))))
    if op == "Pow":
        return tpow(m, a, b)
    raise Unsupported("operator " + op)


PYOP = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
        "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Pow": lambda a, b: a ** b,
        "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
        "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}


def binop(m, op, a, b):
    py = (int, float, bool)
    if isinstance(a, py) and isinstance(b, py):
        try:
            if op == "Div" and b != 0 and not is_inf(a) and not is_inf(b):
                return float(a) / float(b) if Fraction(float(a) / float(b)) == Fraction(a) / Fraction(b) else num(Fraction(a) / Fraction(b), "R")
            if isinstance(a, float) or isinstance(b, float):
                if not (is_inf(a) or is_inf(b) or a != a or b != b) and op in ("Add", "Sub", "Mult"):
                    f = PYOP[op](Fraction(repr(a) if isinstance(a, float) else a), Fraction(repr(b) if isinstance(b, float) else b))
                    return num(f, "R")
            return PYOP[op](a, b)
        except ZeroDivisionError:
            m.raise_(ZeroDivisionError, "division by zero")
    if op == "MatMult":
        return dot(m, a, b)
    if isinstance(a, (str, StrVal)) or isinstance(b, (str, StrVal)):
        if op == "Mod":
            return StrVal()
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Add":
            if isinstance(a, (str, StrVal)) and isinstance(b, (str, StrVal)):
                return StrVal()
            m.raise_(TypeError, "str + other")
        if op == "Mult":
            return StrVal()
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    ra = m.rec(a) if isinstance(a, Ref) else None
    rb = m.rec(b) if isinstance(b, Ref) else None
    if op == "Add" and ra is not None and rb is not None and ra.kind == "list" and rb.kind == "list":
        return m.newlist(list(ra.x) + list(rb.x))
    if op == "Mult" and ra is not None and ra.kind == "list" and isinstance(b, int):
        return m.newlist(list(ra.x) * b)
    if op == "Mult" and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if ra is not None and ra.kind == "set" and rb is not None and rb.kind == "set":
        if op == "BitAnd":
            return m.new("set", {k: True for k in ra.d if k in rb.d})
        if op == "BitOr":
            return m.new("set", dict(ra.d, **rb.d))
        if op == "Sub":
            return m.new("set", {k: True for k in ra.d if k not in rb.d})
    if isinstance(a, Arr) or isinstance(b, Arr):
        a, b = arrlike(m, a), arrlike(m, b)
        if is_inf(a) or is_inf(b):
            raise Unsupported("infinity in array arithmetic")
        d = rdtype(m, a, b)
        if op == "Div" and d.kind != "f":
            d = F8
        if op == "Pow" and isinstance(b, float):
            d = promote(d, F4) if d.kind == "f" else F8
        if op in ("Add", "Sub", "Mult") and d is BOOL and op != "Add":
            pass
        return elementwise(m, lambda x, y: arith_term(m, op, x, y), (a, b), d)
    if is_scalar(a) and is_scalar(b):
        if is_inf(a) or is_inf(b):
            if op == "Sub" and is_inf(a):
                return a
            if op == "Add":
                return a if is_inf(a) else b
            raise Unsupported("infinity in arithmetic")
        return pyfix(arith_term(m, op, as_term(a), as_term(b)))
    if a is None or b is None:
        m.raise_(TypeError, "unsupported operand None")
    raise Unsupported("%s of %r and %r" % (op, a, b))


def arrlike(m, v):
    if isinstance(v, Ref) and m.rec(v).kind in ("list", "symlist", "node"):
        return asarray(m, v)
    if isinstance(v, tuple):
        return asarray(m, v)
    if v is None:
        m.raise_(TypeError, "unsupported operand None")
    return v


def pyfix(t):
    """Numeric constants as Python integers, for concrete control."""
    if isinstance(t, T) and t.op == "poly" and is_num(t) and t.sort == "I":
        return int(num_val(t))
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return t


def inplace(m, op, cur, v):
    if isinstance(cur, Ref):
        rec = m.rec(cur)
        if rec.kind == "list" and op == "Add":
            it = iterate(m, v)
            if not isinstance(it, list):
                raise Unsupported("extend by a symbolic sequence")
            rec.x.extend(it)
            return cur
        if rec.kind == "set" and op == "BitOr":
            rec.d.update(m.rec(v).d)
            return cur
    if isinstance(cur, Arr) and cur.ndim > 0:
        v = arrlike(m, v)
        r = binop(m, op, cur, v)
        if not isinstance(r, Arr) or len(r.shape) != cur.ndim:
            m.raise_(ValueError, "non-broadcastable output operand")
        for s, t in zip(r.shape, cur.shape):
            m.must(eq(s, t), ValueError, "non-broadcastable output operand")
        d, rd_ = m.dtype(cur), m.dtype(r)
        if d.kind in "iub" and rd_.kind == "f":
            m.raise_(TypeError, "Cannot cast output from float to integer")
        if any(cur.masks):
            if not (len(cur.bmap) == len(cur.shape)):
                raise Unsupported("in-place operation on a filtered array")
            m.heap[cur.buf].d["c"] = m.content(r.buf)
            return cur
        f = m.reader(r)
        m.write(cur, cast_fn(rd_, d, f))
        return cur
    return binop(m, op, cur, v)


def unary(m, op, v):
    if op == "Not":
        if isinstance(v, T) and v.sort == "B":
            return not_(v)
        return not m.truth(v)
    if isinstance(v, Arr):
        if op == "USub":
            return elementwise(m, lambda x: neg(nb(x)), (v,), m.dtype(v))
        if op == "Invert" and m.dtype(v) is BOOL:
            return elementwise(m, lambda x: not_(x), (v,), BOOL)
        if op == "UAdd":
            return m.copy_arr(v)
    if isinstance(v, bool) and op == "Invert":
        raise Unsupported("~bool")
    if isinstance(v, (int, float)):
        return {"USub": lambda x: -x, "UAdd": lambda x: x, "Invert": lambda x: ~x}[op](v)
    if isinstance(v, T):
        if op == "USub":
            return neg(nb(v))
        if op == "UAdd":
            return v
        if op == "Invert" and v.sort == "B":
            return not_(v)
    raise Unsupported("unary %s" % op)


def cmp_term(op, a, b):
    if op in ("Eq", "NotEq"):
        if a.sort == "B" and b.sort == "B":
            r = eq(a, b)
        else:
            r = eq_num(nb(a), nb(b))
        return r if op == "Eq" else not_(r)
    a, b = nb(a), nb(b)
    return {"Lt": lt, "LtE": le, "Gt": gt, "GtE": ge}[op](a, b)


def eq_num(a, b):
    """eq with the indicator cases resolved: [c] == 1 is c, [c] == 0 is not c, and cases of one indicator."""
    d = sub(a, b)
    inds = [x for m in poly_of(d) for x, e in m if x.op == "ind"]
    if inds and len(set(inds)) == 1 and all(len(mo) <= 1 for mo in poly_of(d)):
        x = inds[0]
        v1, v0 = replace(d, {x: num(1)}), replace(d, {x: num(0)})
        if is_num(v1) and is_num(v0):
            c = x.args[0]
            return ite(c, eq(v1, num(0)), eq(v0, num(0)))
    return eq(a, b)


def compare(m, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(m, a, b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(m, b, a)
        return r if op == "In" else (not r if isinstance(r, bool) else not_(r))
    if isinstance(a, Arr) or isinstance(b, Arr):
        a, b = arrlike(m, a) if a is not None else a, arrlike(m, b) if b is not None else b
        if (isinstance(a, Arr) or is_scalar(a)) and (isinstance(b, Arr) or is_scalar(b)):
            if is_inf(a) or is_inf(b):
                raise Unsupported("comparison with infinity")
            return elementwise(m, lambda x, y: cmp_term(op, x, y), (a, b), BOOL)
        if op == "Eq":
            return False
        if op == "NotEq":
            return True
    if is_scalar(a) and is_scalar(b):
        if not isinstance(a, T) and not isinstance(b, T):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and (x in (INF, -INF) or x != x):
                big = x == INF
                if op == "Eq":
                    return False
                if op == "NotEq":
                    return True
                less = op in ("Lt", "LtE")
                if sw:
                    less = not less
                return (not big) if less else big
        return pyfix(cmp_term(op, as_term(a), as_term(b)))
    if op in ("Eq", "NotEq"):
        r = equals(m, a, b)
        return r if op == "Eq" else (not r if isinstance(r, bool) else not_(r))
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if isinstance(a, Ref) and isinstance(b, Ref) and m.rec(a).kind == "set" and m.rec(b).kind == "set":
        sa, sb = set(m.rec(a).d), set(m.rec(b).d)
        return {"Lt": sa < sb, "LtE": sa <= sb, "Gt": sa > sb, "GtE": sa >= sb}[op]
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        m.raise_(TypeError, "'<' not supported")
    raise Unsupported("comparison %s of %r and %r" % (op, a, b))


def equals(m, a, b):
    if isinstance(a, (StrVal, Opaque)) or isinstance(b, (StrVal, Opaque)):
        if a is None or b is None:
            return False
        raise Unsupported("comparison of unknown values")
    if isinstance(a, NameVal) or isinstance(b, NameVal):
        if all(isinstance(x, (NameVal, str, Ufunc)) for x in (a, b)):
            x, y = [x.t if isinstance(x, NameVal) else name_code(x) for x in (a, b)]
            return pyfix(eq(x, y))
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        ra, rb = m.rec(a), m.rec(b)
        if ra.kind == "list" and rb.kind == "list":
            return seq_eq(m, ra.x, rb.x)
        if ra.kind in ("dict", "set") and rb.kind == ra.kind:
            if set(ra.d) != set(rb.d):
                return False
            return seq_eq(m, [ra.d[k] for k in ra.d], [rb.d[k] for k in ra.d])
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return seq_eq(m, a, b)
    if isinstance(a, (DType, PyClass, type, Ufunc, Native, Func)) or isinstance(b, (DType, PyClass, type, Ufunc, Native, Func)):
        if isinstance(a, DType) and isinstance(b, str):
            return a.name == b
        return a is b
    if isinstance(a, T) or isinstance(b, T):
        return False
    try:
        return a == b if type(a) in (str, bytes, type(None)) and type(b) in (str, bytes, type(None), int, float, bool, tuple) else a is b
    except Exception:
        raise Unsupported("equality")


def seq_eq(m, a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        e = compare(m, "Eq", x, y)
        if isinstance(e, Arr):
            raise Unsupported("array in a sequence comparison")
        if e is False:
            return False
        if e is not True:
            r = e if r is True else and_(r, e)
    return r


def is_same(m, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b       # interned literals (assumption)
    if isinstance(a, Ref) or isinstance(b, Ref):
        return a == b if isinstance(a, Ref) and isinstance(b, Ref) else False
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a is b:
                return True
            if a.buf != b.buf:
                return False
            raise Unsupported("identity of array views")
        return False
    if isinstance(a, int) and isinstance(b, int) and abs(a) < 256:
        return a == b
    if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
        raise Unsupported("identity of numbers")
    return a is b


def contains(m, c, v):
    if isinstance(c, str):
        if isinstance(v, str):
            return v in c
        if isinstance(v, StrVal):
            raise Unsupported("text search")
        m.raise_(TypeError, "'in <string>' requires string")
    if isinstance(c, StrVal):
        raise Unsupported("text search")
    if isinstance(c, Ref):
        rec = m.rec(c)
        if rec.kind in ("dict", "set"):
            if isinstance(v, (T, NameVal)):
                r = False
                for k in rec.d:
                    e = equals_any(m, v, k)
                    if e is True:
                        return True
                    if e is not False:
                        r = e if r is False else or_(r, e)
                return r
            if rec.kind == "dict" and "symkeys" in (rec.x or ()):
                raise Unsupported("symbolic dictionary")
            return m.key(v) in rec.d
        if rec.kind == "list":
            items = rec.x
        elif rec.kind == "obj":
            f = rec.x.find("__contains__")
            if f:
                return m.truth(m.call(f, [c, v]))
            raise Unsupported("in object")
        elif rec.kind == "symlist":
            return position(m, c, v) is not None
        else:
            raise Unsupported("in symbolic list")
    elif isinstance(c, tuple):
        items = c
    else:
        raise Unsupported("in %r" % (c,))
    r = False
    for x in items:
        e = equals_any(m, v, x)
        if e is True:
            return True
        if e is not False:
            r = e if r is False else or_(num(r), num(e))
    return r


def position(m, c, v):
    """First position of v in a symbolic list, None if it does not occur; known only if one position is told apart."""
    rec = m.rec(c)
    if rec.d.get("mask"):
        raise Unsupported("search in a filtered list")
    n, k = rec.d["n"], fresh("k", "I")
    e = equals_any(m, rec.d["fn"](k), v)
    e = num(e) if not isinstance(e, bool) else (TRUE if e else FALSE)
    inr = [le(num(0), k), lt(k, n)]
    if e is FALSE or smt.impossible(m.pc + inr, e, 1500):
        return None
    seen = set()
    apps = _apps(e)
    cands = [num(0), sub(n, num(1))]
    for x in apps:
        for y in apps:
            if k.data in x.fv and k.data not in y.fv and x.data == y.data and len(x.args) == len(y.args):
                cands += [w for p, q in zip(x.args, y.args) for w in [_solve(k, p, q)] if w is not None]
    if e.op == "eq":
        cands += [w for w in (_solve(k, e.args[0], num(0)), _solve(k, neg(e.args[0]), num(0))) if w is not None]
    for x in [None] + list(tm.atoms(e).values()):
        for w in (cands if x is None else _linear_vars(x)):
            if w is k or w.id in seen:
                continue
            seen.add(w.id)
            at = subst(e, {k.data: w})
            if smt.entails(m.pc, and_(le(num(0), w), lt(w, n), at)) is True and smt.impossible(m.pc + inr + [ne(k, w)], e, 1500):
                return w
    if m.trace:
        print("   position", show(e, 6), show(n, 5), seen)
    raise Unsupported("search in a symbolic list")


def _apps(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app":
            out.append(x)
        todo.extend(tm.children(x))
    return out


def _solve(k, a, b):
    """The k with a(k) = b, where a is k plus a term without k."""
    if k.data not in a.fv or a.sort != "I" or b.sort != "I":
        return None
    p = tm.poly_of(a)
    if p.get(((k, 1),)) != 1 or any(k.data in x.fv for mono in p if mono != ((k, 1),) for x, _ in mono):
        return None
    return sub(b, sub(a, k))


def _linear_vars(x):
    if x.op == "var" and x.sort == "I":
        yield x
    for y in tm.children(x):
        for z in _linear_vars(y):
            yield z


def equals_any(m, a, b):
    e = compare(m, "Eq", a, b)
    if isinstance(e, Arr):
        if e.ndim and is_num(size_of(m, e)) and num_val(size_of(m, e)) == 1:
            return m.elem(e, [num(0)] * e.ndim)
        m.raise_(ValueError, "truth value of an array is ambiguous")
    return e


# ---------------------------------------------------------------- indexing
def steps(n, k):
    """How many of 0, k, 2k, ... are below n (k at least 1)."""
    return app("steps", (n, k), "I")


def stride(n, k, r):
    """The element r of 0, k, 2k, ... below n."""
    return app("stride", (n, k, r), "I")


def _steps_ax(t):
    n, k = t.args
    return [or_(lt(k, num(1)), and_(le(num(0), t), eq(t, num(0)) if n is num(0) else or_(and_(le(n, num(0)), eq(t, num(0))), and_(le(num(1), t), le(t, n)))))]


def _stride_ax(t):
    n, k, r = t.args
    return [or_(lt(k, num(1)), lt(r, num(0)), le(steps(n, k), r), and_(le(num(0), t), lt(t, n), le(r, t))), or_(ne(r, num(0)), eq(t, num(0)))]


def _steps_ev(ev, a):
    if a[1] < 1:
        raise smt.NoEval("step")
    return max(0, -(-int(a[0]) // int(a[1])))


smt.AXIOMS["steps"] = _steps_ax
smt.EVAL["steps"] = _steps_ev
smt.AXIOMS["stride"] = _stride_ax
smt.EVAL["stride"] = lambda ev, a: int(a[1]) * int(a[2])


def clip_slice(m, s, n):
    """(start, length, step) of a slice over an axis of n elements."""
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, T):
        if is_num(step):
            step = int(num_val(step))
        elif not m.entails(le(num(1), step)):
            raise Unsupported("symbolic slice step")
    if not isinstance(step, T) and step == -1 and s.lo is None and s.hi is None:
        return sub(n, num(1)), n, -1
    if not isinstance(step, T) and step < 1:
        raise Unsupported("negative slice step")

    def bound(v, default):
        if v is None:
            return default
        v = index_value(m, v)
        if is_num(v):
            x = num_val(v)
            if x == 0:
                return v
            if x < 0:
                r = add(n, v)
                return r if m.entails(le(num(0), r)) else tmax(r, num(0))
            return v if m.entails(le(v, n)) else tmin(v, n)
        if m.entails(le(num(0), v)):
            return v if m.entails(le(v, n)) else tmin(v, n)
        if m.branch(lt(v, num(0))):
            return tmax(add(n, v), num(0))
        return v if m.entails(le(v, n)) else tmin(v, n)
    lo = bound(s.lo, num(0))
    hi = bound(s.hi, n)
    ln = sub(hi, lo)
    if not (is_num(ln) and num_val(ln) >= 0) and not m.entails(le(num(0), ln)):
        ln = tmax(ln, num(0))
    if isinstance(step, T):
        return lo, steps(ln, step), step
    if step != 1:
        ln = idiv(add(ln, num(step - 1)), num(step))
    return lo, ln, step


def index_value(m, v):
    if isinstance(v, bool):
        raise Unsupported("Boolean index")
    if isinstance(v, int):
        return num(v)
    if isinstance(v, T):
        if v.sort == "I" or is_int(v):
            return as_int(v)
        m.raise_(TypeError, "index must be an integer")
    if isinstance(v, Arr) and v.ndim == 0:
        return index_value(m, m.elem(v, ()))
    if isinstance(v, float):
        m.raise_(TypeError, "slice indices must be integers")
    if v is None:
        m.raise_(TypeError, "index None")
    raise Unsupported("index %r" % (v,))


def norm_index(m, v, n, exc=IndexError):
    """Index in [0, n), negative ones from the end; IndexError outside."""
    t = index_value(m, v)
    if is_num(t) and num_val(t) < 0:
        t2 = add(n, t)
        m.must(le(num(0), t2), exc, "index out of bounds")
        return t2
    if m.entails(and_(le(num(0), t), lt(t, n))):
        return t
    if m.branch(lt(t, num(0))):
        t = add(t, n)
        m.must(le(num(0), t), exc, "index out of bounds")
        return t
    m.must(lt(t, n), exc, "index out of bounds")
    return t


def getitem(m, o, k):
    if isinstance(o, Arr):
        return arr_getitem(m, o, k)
    if isinstance(o, (tuple, str, bytes)):
        if isinstance(k, Slice):
            return o[pyslice(m, k)]
        if isinstance(k, T) and is_num(k):
            k = int(num_val(k))
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                m.raise_(IndexError, "index out of range")
        if isinstance(o, tuple) and isinstance(k, T):
            return pick(m, list(o), k)
        raise Unsupported("tuple index")
    if isinstance(o, StrVal):
        raise Unsupported("index of unknown text")
    if isinstance(o, Ref):
        rec = m.rec(o)
        if rec.kind == "dict" and isinstance(k, NameVal):
            for key, v in list(rec.d.items()):
                if isinstance(key, (str, Ufunc)) and m.branch(eq(k.t, name_code(key))):
                    return v
            m.raise_(KeyError, "name")
        if rec.kind == "dict":
            k = m.key(k) if not isinstance(k, T) or is_num(k) else k
            if isinstance(k, T):
                raise Unsupported("symbolic key")
            if k in rec.d:
                v = rec.d[k]
                if isinstance(v, Junk):
                    raise JunkRead(v.loc)
                return v
            m.raise_(KeyError, "key")
        if rec.kind == "list":
            if isinstance(k, Slice):
                return m.newlist(rec.x[pyslice(m, k)])
            if isinstance(k, T) and is_num(k):
                k = int(num_val(k))
            if isinstance(k, int):
                try:
                    v = rec.x[k]
                except IndexError:
                    m.raise_(IndexError, "list index out of range")
                if isinstance(v, Junk):
                    raise JunkRead(v.loc)
                return v
            if isinstance(k, T):
                return pick(m, list(rec.x), k)
            m.raise_(TypeError, "list indices must be integers")
        if rec.kind == "symlist":
            if isinstance(k, Slice):
                if rec.d.get("mask"):
                    raise Unsupported("slice of a filtered list")
                lo, ln, st = clip_slice(m, k, rec.d["n"])
                fn = rec.d["fn"]
                if isinstance(st, T):
                    raw = clip_slice(m, Slice(k.lo, k.hi, None), rec.d["n"])[1]
                    return m.new("symlist", {"n": ln, "fn": lambda i: fn(add(lo, stride(raw, st, i)))})
                if st != 1:
                    return m.new("symlist", {"n": ln, "fn": lambda i: fn(add(lo, mul(i, num(st))))})
                return m.new("symlist", {"n": ln, "fn": lambda i: fn(add(i, lo))})
            if rec.d.get("mask"):
                raise Unsupported("index into a filtered list")
            i = norm_index(m, k, rec.d["n"])
            return rec.d["fn"](i)
        if rec.kind == "nat":
            f = m.lib.nat_getitem.get(rec.x)
            if f:
                return f(m, o, k)
        if rec.kind == "obj":
            f = rec.x.find("__getitem__")
            if f:
                return m.call(f, [o, k])
    if o is None:
        m.raise_(TypeError, "'NoneType' object is not subscriptable")
    raise Unsupported("subscript of %r" % (o,))


def pyslice(m, s):
    def c(v):
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, T) and is_num(v):
            return int(num_val(v))
        raise Unsupported("symbolic slice of a concrete sequence")
    return slice(c(s.lo), c(s.hi), c(s.step))


def pick(m, items, k):
    """Element k (symbolic) of a concrete list."""
    t = index_value(m, k)
    for i, v in enumerate(items):
        if m.branch(eq(t, num(i))):
            return v
    for i, v in enumerate(items):
        if m.branch(eq(t, num(i - len(items)))):
            return v
    m.raise_(IndexError, "index out of range")


class NewAxis(object):
    pass


def arr_getitem(m, a, k):
    if not isinstance(k, tuple):
        k = (k,)
    ks = []
    for x in k:
        if isinstance(x, Ref) and m.rec(x).kind in ("list", "symlist"):
            x = asarray(m, x)
            if is_num(x.shape[0]) and num_val(x.shape[0]) == 0:
                x = astype(m, x, I8)
        ks.append(x)
    if any(x is Ellipsis for x in ks):
        i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
        cnt = len([x for x in ks if x is not None and x is not Ellipsis])
        ks[i:i + 1] = [Slice(None, None, None)] * (a.ndim - cnt)
    if len(ks) == 1 and isinstance(ks[0], Arr) and m.dtype(ks[0]).kind == "b" and ks[0].ndim == a.ndim and a.ndim > 1:
        x = ks[0]
        if any(x.masks) or any(a.masks):
            raise Unsupported("Boolean mask over several axes")
        for p, q in zip(a.shape, x.shape):
            m.must(eq(p, q), IndexError, "boolean index did not match")
        nm, sk = m.symfn("masked")      # some of the elements, in an order not modelled: values unknown
        cnt = m.sym("hits", "I")
        m.assume(le(num(0), cnt))
        srt = "I" if m.dtype(a).kind in "iu" else "B" if m.dtype(a).kind == "b" else "R"
        return m.array((cnt,), lambda i: app(nm, tuple(i) + sk, srt), m.dtype(a))
    if any(isinstance(x, Ref) and m.rec(x).kind == "ix" for x in ks):
        return ix_get(m, a, ks)
    used = len([x for x in ks if x is not None])
    if used > a.ndim:
        m.raise_(IndexError, "too many indices for array")
    ks += [Slice(None, None, None)] * (a.ndim - used)
    fancy = [x for x in ks if isinstance(x, Arr) and x.ndim > 0]
    if len(fancy) > 1:
        return multi_fancy(m, a, ks)
    # basic part
    ax = 0
    spec = []       # per source axis: ('fix', t) | ('slice', out axis, lo, step) | ('fancy', arr)
    shape, masks, order = [], [], []
    far = False         # a symbolic step: the view is modelled as a copy, and neither may be written afterwards
    for x in ks:
        if x is None:
            order.append(("new",))
            continue
        n, mk = a.shape[ax], a.masks[ax]
        if isinstance(x, Slice):
            if mk is not None:
                if x.lo is None and x.hi is None and x.step is None:
                    order.append(("keep", ax))
                else:
                    raise Unsupported("slice of a filtered axis")
            else:
                lo, ln, st = clip_slice(m, x, n)
                raw = None
                if isinstance(st, T):
                    far = True
                    raw = clip_slice(m, Slice(x.lo, x.hi, None), n)[1]
                order.append(("slice", ax, lo, ln, st, raw))
        elif isinstance(x, Arr) and x.ndim > 0:
            order.append(("fancy", ax, x))
        else:
            if mk is not None:
                raise Unsupported("index into a filtered axis")
            order.append(("fix", ax, norm_index(m, x, n)))
        ax += 1
    if not fancy and not far:
        amap = {}      # source view axis -> ('fix', t) | ('ax', new axis, off, step)
        for o in order:
            if o[0] == "new":
                shape.append(num(1))
                masks.append(None)
            elif o[0] == "keep":
                amap[o[1]] = ("ax", len(shape), num(0), 1)
                shape.append(a.shape[o[1]])
                masks.append(a.masks[o[1]])
            elif o[0] == "slice":
                amap[o[1]] = ("ax", len(shape), o[2], o[4])
                shape.append(o[3])
                masks.append(None)
            else:
                amap[o[1]] = ("fix", o[2])
        if not shape:
            return pyfix_elem(m.elem(a, [amap[i][1] for i in range(a.ndim)]))
        return compose(a, amap, shape, masks)
    # one fancy index: a copy
    f = m.reader(a)
    plan = {}
    for o in order:
        if o[0] == "new":
            shape.append(num(1))
            masks.append(None)
        elif o[0] == "keep":
            plan[o[1]] = (lambda p: lambda idx: idx[p])(len(shape))
            shape.append(a.shape[o[1]])
            masks.append(a.masks[o[1]])
        elif o[0] == "slice":
            if o[5] is not None:
                plan[o[1]] = (lambda p, lo, st, raw: lambda idx: add(lo, stride(raw, st, idx[p])))(len(shape), o[2], o[4], o[5])
            else:
                plan[o[1]] = (lambda p, lo, st: lambda idx: add(lo, mul(idx[p], num(st))))(len(shape), o[2], o[4])
            shape.append(o[3])
            masks.append(None)
        elif o[0] == "fix":
            plan[o[1]] = (lambda t: lambda idx: t)(o[2])
        else:
            x = o[2]
            n = a.shape[o[1]]
            if a.masks[o[1]] is not None:
                raise Unsupported("fancy index into a filtered axis")
            g = m.reader(x)
            if m.dtype(x).kind == "b":
                if x.ndim != 1 or x.masks[0]:
                    raise Unsupported("Boolean mask")
                m.must(eq(x.shape[0], n), IndexError, "boolean index did not match")
                mk = Mask(n, lambda s: g((s,)))
                plan[o[1]] = (lambda p: lambda idx: idx[p])(len(shape))
                shape.append(n)
                masks.append(mk)
                continue
            if m.dtype(x).kind not in "iu":
                m.raise_(IndexError, "arrays used as indices must be of integer type")
            check_range(m, x, n)
            p0 = len(shape)
            neg_ok = x.ndim
            h = (lambda p0, nd, g, n: lambda idx: fix_neg(m, g(tuple(idx[p0:p0 + nd])), n))(p0, x.ndim, g, n)
            plan[o[1]] = h
            for s, mk in zip(x.shape, x.masks):
                shape.append(s)
                masks.append(mk)
    nd = a.ndim
    r = m.array(shape, lambda idx: f(tuple(plan[i](idx) for i in range(nd))), m.dtype(a), masks)
    if far and not fancy:
        m.frozen.update((a.buf, r.buf))
    return r


def fix_neg(m, t, n):
    if is_num(t) and num_val(t) < 0:
        return add(t, n)
    return t


def pyfix_elem(t):
    return pyfix(t) if t.sort == "I" and is_num(t) else t


def index_vars(m, x):
    vs = tuple(fresh("ix", "I") for _ in x.shape)
    c = []
    for v, s, k in zip(vs, x.shape, x.masks):
        c += [le(num(0), v), lt(v, s)]
        if k is not None:
            c.append(k.cond(v))
    return vs, c


def check_range(m, x, n):
    """All entries of the index array x lie in [0, n) (IndexError when provably not)."""
    vs, c = index_vars(m, x)
    t = m.reader(x)(vs)
    good = and_(le(num(0), t), lt(t, n))
    if smt.prove(m.pc + c, good, 2000, [dict(), dict(prod=1), dict(prod=1, depth=2, ext=1)])[0] == "proved":
        return
    nd = x.ndim
    if nd == 1 and is_num(x.shape[0]) and num_val(x.shape[0]) <= 8:
        for i in range(int(num_val(x.shape[0]))):
            t = m.reader(x)((num(i),))
            m.must(and_(le(neg(n), t), lt(t, n)), IndexError, "index out of bounds")
            if not m.entails(le(num(0), t)):
                raise Unsupported("negative entry in an index array")
        return
    raise Unsupported("index array whose range is not known")


def multi_fancy(m, a, ks):
    """a[i, j] with integer index vectors of one common length."""
    f = m.reader(a)
    vec = [x for x in ks if isinstance(x, Arr) and x.ndim > 0]
    if any(x is None for x in ks) or any(x.ndim != 1 for x in vec) or any(m.dtype(x).kind not in "iu" for x in vec):
        raise Unsupported("fancy indexing")
    pos = [i for i, x in enumerate(ks) if isinstance(x, Arr) and x.ndim > 0]
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("fancy indexing with a slice between")
    shape, masks = bshape(m, [x.shape for x in vec], [x.masks for x in vec])
    for x, i in zip(vec, pos):
        check_range(m, x, a.shape[i])
    outshape, outmasks, plan = [], [], []
    for i, x in enumerate(ks):
        if i in pos:
            if i == pos[0]:
                p0 = len(outshape)
                outshape += list(shape)
                outmasks += list(masks)
            g = m.reader(x)
            plan.append((lambda g, sh, p0: lambda idx: g(bidx(sh, 1, (idx[p0],))))(g, x.shape, p0))
        elif isinstance(x, Slice):
            lo, ln, st = clip_slice(m, x, a.shape[i])
            p = len(outshape)
            outshape.append(ln)
            outmasks.append(None)
            plan.append((lambda p, lo, st: lambda idx: add(lo, mul(idx[p], num(st))))(p, lo, st))
        else:
            t = norm_index(m, x, a.shape[i])
            plan.append((lambda t: lambda idx: t)(t))
    return m.array(outshape, lambda idx: f(tuple(g(idx) for g in plan)), m.dtype(a), outmasks)


def ix_get(m, a, ks):
    """a[np.ix_(I, J, ...)]: a copy."""
    if len(ks) != 1:
        raise Unsupported("np.ix_ read")
    ix = m.rec(ks[0]).x
    if len(ix) != a.ndim or any(a.masks) or any(x.ndim != 1 or any(x.masks) for x in ix):
        raise Unsupported("np.ix_ read")
    for x, n in zip(ix, a.shape):
        if m.dtype(x).kind not in "iu":
            raise Unsupported("np.ix_ read")
        check_range(m, x, n)
    f, gs = m.reader(a), [m.reader(x) for x in ix]
    return m.array([x.shape[0] for x in ix], lambda idx: f(tuple(g((i,)) for g, i in zip(gs, idx))), m.dtype(a))


def compose(a, amap, shape, masks):
    """View of a view."""
    bm = []
    for b in a.bmap:
        if b[0] == "fix":
            bm.append(b)
            continue
        _, ax, off, step = b
        s = amap[ax]
        if s[0] == "fix":
            bm.append(("fix", add(off, mul(s[1], num(step)))))
        else:
            bm.append(("ax", s[1], add(off, mul(s[2], num(step))), s[3] * step))
    return Arr(a.buf, bm, shape, masks)


def setitem(m, o, k, v):
    if isinstance(o, Arr):
        return arr_setitem(m, o, k, v)
    if isinstance(o, Ref):
        rec = m.rec(o)
        if rec.kind == "dict":
            rec.d[m.key(k)] = v
            return
        if rec.kind == "list":
            if isinstance(k, T) and is_num(k):
                k = int(num_val(k))
            if isinstance(k, int):
                try:
                    rec.x[k] = v
                except IndexError:
                    m.raise_(IndexError, "list assignment index out of range")
                return
            raise Unsupported("symbolic list assignment")
        if rec.kind == "symlist":
            cur = getitem(m, o, k)
            if isinstance(cur, Arr) and cur.same(v):
                return
            if not isinstance(v, tuple):
                raise Unsupported("assignment into a symbolic list")
            i, fn = norm_index(m, k, rec.d["n"]), rec.d["fn"]

            def f3(j):
                e = smt.entails(m.pc, eq(num(j), i))
                return v if e is True else fn(j) if e is False else m.ite_val(eq(num(j), i), v, fn(j))
            rec.d["fn"] = f3
            rec.d.pop("app", None)
            return
        if rec.kind == "nat":
            f = m.lib.nat_setitem.get(rec.x)
            if f:
                return f(m, o, k, v)
        if rec.kind == "obj":
            f = rec.x.find("__setitem__")
            if f:
                return m.call(f, [o, k, v])
    raise Unsupported("item assignment on %r" % (o,))


def arr_setitem(m, a, k, v):
    ks = k if isinstance(k, tuple) else (k,)
    ks = [asarray(m, x) if isinstance(x, Ref) and m.rec(x).kind in ("list", "symlist") else x for x in ks]
    v = arrlike(m, v)
    d = m.dtype(a)
    if len(ks) == 1 and isinstance(ks[0], Ref) and m.rec(ks[0]).kind == "ix":
        return scatter_ix(m, a, m.rec(ks[0]), v)
    fancy = [x for x in ks if isinstance(x, Arr) and x.ndim > 0]
    if fancy:
        if len(ks) == 1 and m.dtype(ks[0]).kind == "b" and ks[0].ndim == a.ndim and is_scalar(v):
            # a[mask] = scalar
            g, f, t = m.reader(ks[0]), m.reader(a), as_term(v)
            for s, q in zip(ks[0].shape, a.shape):
                m.must(eq(s, q), IndexError, "boolean index did not match")
            m.write(a, lambda idx: ite(g(idx), t, nb(f(idx))))
            return
        if len(ks) == 2 and len(fancy) == 2 and a.ndim == 2 and is_diag(m, fancy):
            # a[diag] = v
            f = m.reader(a)
            vf = (lambda i: as_term(v)) if is_scalar(v) else (lambda rd, sh: lambda i: rd(bidx(sh, 1, (i,))))(m.reader(v), v.shape)
            n = fancy[0].shape[0]
            m.write(a, lambda idx: ite(and_(eq(idx[0], idx[1]), lt(idx[0], n)), nb(vf(idx[0])), nb(f(idx))))
            return
        return scatter(m, a, ks, v)
    view = arr_getitem_view(m, a, tuple(ks))
    if isinstance(v, Arr):
        if any(v.masks):
            raise Unsupported("assignment of a filtered array")
        vs = v.shape
        while len(vs) > view.ndim:
            m.must(eq(vs[0], num(1)), ValueError, "could not broadcast input array")
            v = arr_getitem(m, v, 0)
            if not isinstance(v, Arr):
                break
            vs = v.shape
    if isinstance(v, Arr):
        off = view.ndim - v.ndim
        for j, s in enumerate(v.shape):
            t = view.shape[off + j]
            if is_num(s) and num_val(s) == 1:
                continue
            if not deq(m, s, t):
                if m.branch(eq(s, t)):
                    continue
                if not m.branch(eq(s, num(1))):
                    m.raise_(ValueError, "could not broadcast input array")
                v = arr_getitem(m, v, tuple([Slice(None, None, None)] * j + [0, None]))     # one element for all
        f = cast_fn(m.dtype(v), d, m.reader(v))
        sh, nd = v.shape, view.ndim
        m.write(view, lambda idx: f(bidx(sh, nd, idx)))
    elif is_scalar(v):
        if is_inf(v) or v != v if isinstance(v, float) else False:
            raise Unsupported("infinity in an array")
        t = as_term(v)
        f = cast_fn(sort_dtype(t), d, lambda idx: t)
        m.write(view, f)
    else:
        raise Unsupported("assignment of %r into an array" % (v,))


def arr_getitem_view(m, a, ks):
    """Basic-index view, also 0-d."""
    ks = tuple(ks)
    if not any(x is Ellipsis for x in ks):
        ks += (Slice(None, None, None),) * (a.ndim - sum(1 for x in ks if x is not None))
    r = arr_getitem(m, a, ks + (None,))
    if not isinstance(r, Arr):
        raise Unsupported("view")
    # drop the added axis
    last = r.ndim - 1
    return Arr(r.buf, r.bmap, r.shape[:last], r.masks[:last])


def is_diag(m, f):
    v = fresh("q", "I")
    return all(x.ndim == 1 and m.reader(x)((v,)) is v for x in f)


def scatter(m, a, ks, v):
    """Write through one integer index vector: only the frame is kept (content of the touched axis unknown)."""
    pos = [i for i, x in enumerate(ks) if isinstance(x, Arr) and x.ndim > 0]
    if len(pos) != 1 or any(x is None for x in ks):
        raise Unsupported("fancy assignment")
    x = ks[pos[0]]
    if m.dtype(x).kind not in "iu" or any(x.masks):
        raise Unsupported("fancy assignment")
    check_range(m, x, a.shape[pos[0]])
    nm, ks = m.symfn("scatter")
    srt = "I" if m.dtype(a).kind in "iu" else "R"
    m.write(a, lambda idx: app(nm, tuple(idx) + ks, srt))


def find_last(I, n, c):
    """The last position below n at which the index vector I holds c, or -1."""
    return app("findlast", (I, n, c), "I")


def _find_ax(t):
    I, n, c = t.args
    f = lam_fn(I)
    out = [or_(lt(n, num(0)), and_(le(num(-1), t), lt(t, n))), or_(lt(t, num(0)), eq(f(t), c))]
    cands = {}
    for x in smt.collect([c, n]):
        if x.op == "app" and x.sort == "I" and x.args and x.args[-1].sort == "I":
            cands[x.args[-1].id] = x.args[-1]
    for x in list(cands.values()) + [sub(n, num(1))]:
        out.append(or_(lt(x, num(0)), le(n, x), ne(f(x), c), le(x, t)))
    return out


def _find_ev(ev, a):
    r = -1
    for i in range(int(a[1])):
        if a[0](i) == a[2]:
            r = i
    return r


smt.AXIOMS["findlast"] = _find_ax
smt.EVAL["findlast"] = _find_ev
smt.DOMAINS["findlast"] = {0: lambda a: [(num(0), a[1])]}


def scatter_ix(m, a, rec, v):
    """a[np.ix_(I, J, ...)] = v; of equal indices the last one counts."""
    for x, s in zip(rec.x, a.shape):
        check_range(m, x, s)
    if len(rec.x) != a.ndim or any(x.ndim != 1 or any(x.masks) for x in rec.x):
        raise Unsupported("assignment through np.ix_")
    sh, gs = [x.shape[0] for x in rec.x], [m.reader(x) for x in rec.x]
    d, old = m.dtype(a), m.rreader(a) if m.dtype(a).kind == "f" else m.reader(a)
    if isinstance(v, Arr):
        if v.ndim > a.ndim or any(v.masks):
            raise Unsupported("assignment through np.ix_")
        for p, q in zip(v.shape, sh[a.ndim - v.ndim:]):
            if not deq(m, p, q) and not (is_num(p) and num_val(p) == 1):
                m.must(or_(eq(p, q), eq(p, num(1))), ValueError, "could not broadcast input array")
                if not m.entails(eq(p, q)):
                    raise Unsupported("broadcast through np.ix_")
        g = cast_fn(m.dtype(v), d, m.reader(v))
        vs = v.shape
        val = lambda pos: g(bidx(vs, a.ndim, pos))
    else:
        t = as_term(v)
        val = cast_fn(sort_dtype(t), d, lambda pos: t)
    lams = [fun(1, (lambda g: lambda i: g((i,)))(g)) for g in gs]

    def fn(idx):
        conds, pos = [], []
        for i, (n, f, g) in enumerate(zip(sh, lams, gs)):
            if is_num(n) and num_val(n) == 1:
                pos.append(num(0))
                conds.append(eq(idx[i], g((num(0),))))
            else:
                p = find_last(f, n, idx[i])
                pos.append(p)
                conds.append(le(num(0), p))
        return ite(and_(*conds), nb(val(tuple(pos))), nb(old(idx)))
    m.write(a, fn)


# ---------------------------------------------------------------- iteration
def iterate(m, v):
    """Concrete list of values, or SymSeq."""
    from dv.engine import GenVal
    if isinstance(v, GenVal):
        v = m.gen_list(v)
    if isinstance(v, (tuple, str)):
        return list(v)
    if isinstance(v, SymSeq):
        if is_num(v.n):
            return [v.fn(num(i)) for i in range(int(num_val(v.n)))]
        return v
    if isinstance(v, Ref):
        rec = m.rec(v)
        if rec.kind == "list":
            return list(rec.x)
        if rec.kind in ("dict", "set"):
            return list(rec.d)
        if rec.kind == "symlist":
            if rec.d.get("mask"):
                raise Unsupported("iteration over a filtered list")
            return SymSeq(rec.d["n"], rec.d["fn"])
        if rec.kind == "nat":
            f = m.lib.nat_iter.get(rec.x)
            if f:
                return f(m, v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            m.raise_(TypeError, "iteration over a 0-d array")
        if v.masks[0] is not None:
            raise Unsupported("iteration over a filtered array")
        n = v.shape[0]

        def el(k):
            k = num(k)
            if v.ndim == 1:
                return pyfix_elem(m.elem(v, (k,)))
            return compose(v, dict([(0, ("fix", k))] + [(i, ("ax", i - 1, num(0), 1)) for i in range(1, v.ndim)]),
                           v.shape[1:], v.masks[1:])
        return iterate(m, SymSeq(n, el))
    if v is None:
        m.raise_(TypeError, "'NoneType' object is not iterable")
    if is_scalar(v):
        m.raise_(TypeError, "not iterable")
    raise Unsupported("iteration over %r" % (v,))


def unpack(m, v, n):
    it = iterate(m, v)
    if not isinstance(it, list):
        m.must(eq(it.n, num(n)), ValueError, "unpacking")
        it = [it.fn(num(i)) for i in range(n)]
    if len(it) != n:
        m.raise_(ValueError, "unpacking")
    return it


def length(m, v):
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, Arr):
        if v.ndim == 0:
            m.raise_(TypeError, "len() of unsized object")
        return pyfix(extent(v, 0))
    if isinstance(v, SymSeq):
        return pyfix(v.n)
    if isinstance(v, Ref):
        rec = m.rec(v)
        if rec.kind == "list":
            return len(rec.x)
        if rec.kind in ("dict", "set"):
            return len(rec.d)
        if rec.kind == "symlist":
            return pyfix(rec.d["mask"].count if rec.d.get("mask") else rec.d["n"])
        if rec.kind == "nat" and "shape" in rec.d:
            return pyfix(num(rec.d["shape"][0]))
    if v is None or is_scalar(v):
        m.raise_(TypeError, "object has no len()")
    raise Unsupported("len of %r" % (v,))


# ---------------------------------------------------------------- reductions
def red_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, T) and is_num(axis):
        axis = int(num_val(axis))
    if isinstance(axis, tuple):
        return [x % a.ndim for x in axis]
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    return [axis % a.ndim if a.ndim else 0]


def reduce_sum(m, a, axis=None, keepdims=False, body=None):
    """Sum over axes; body(idx) defaults to the element."""
    f = body or m.rreader(a)
    axes = red_axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in axes]

    def fn(out):
        vs = [fresh("s", "I") for _ in axes]
        idx = [None] * a.ndim
        for i, k in enumerate(keep):
            idx[k] = out[i]
        for v, k in zip(vs, axes):
            idx[k] = v
        t = nb(f(tuple(idx)))
        for v, k in zip(vs, axes):
            if a.masks[k] is not None:
                t = mul(ind(a.masks[k].cond(v)), t)
        for v, k in reversed(list(zip(vs, axes))):
            t = sum_(v, num(0), a.shape[k], t)
        return t
    d = m.dtype(a)
    d = I8 if d.kind in "biu" else d
    if not keep:
        return pyfix_elem(fn(()))
    return m.array([a.shape[k] for k in keep], fn, d, [a.masks[k] for k in keep])


def mean(m, a, axis=None, **kw):
    a = to_arr(m, a)
    axes = red_axes(a, axis)
    s = reduce_sum(m, a, axis)
    r = s
    for ax in axes:
        n = extent(a, ax)
        if isinstance(r, Arr):
            f = m.reader(r)
            g = (lambda f, n: lambda idx: fdiv(m, f(idx), n))(f, n)
            nzero = m.nonzero(n)
            r = m.array(r.shape, (lambda f, n: (lambda idx: div(f(idx), n)) if nzero else g)(f, n), promote(F4, m.dtype(r)) if m.dtype(r).kind == "f" else F8, r.masks)
        else:
            r = fdiv(m, as_term(r), n)
    return r if isinstance(r, Arr) else (real(r) if isinstance(r, T) else r)


def arg_red(m, a, axis, fn):
    a = to_arr(m, a)
    f = m.rreader(a)
    if axis is None:
        if a.ndim != 1:
            if a.ndim == 0:
                return 0
            raise Unsupported("argmax over a whole matrix")
        axis = 0
    ax = red_axes(a, axis)[0]
    if a.masks[ax] is not None:
        raise Unsupported("argmax over a filtered axis")
    m.must(lt(num(0), a.shape[ax]), ValueError, "attempt to get argmax of an empty sequence")
    keep = [i for i in range(a.ndim) if i != ax]

    def el(out):
        def g(v):
            idx = list(out[:ax]) + [v] + list(out[ax:])
            return f(tuple(idx))
        return fn(g, a.shape[ax])
    if not keep:
        return el(())
    return m.array([a.shape[k] for k in keep], el, I8, [a.masks[k] for k in keep])


def minmax_red(m, a, axis, sign):
    a = to_arr(m, a)
    f = m.rreader(a)
    if axis is None and a.ndim == 1:
        axis = 0
    if axis is None or any(a.masks):
        raise Unsupported("max over a whole matrix")
    ax = red_axes(a, axis)[0]
    m.must(lt(num(0), a.shape[ax]), ValueError, "zero-size array to reduction operation")
    keep = [i for i in range(a.ndim) if i != ax]

    def el(out):
        g = lambda v: f(tuple(list(out[:ax]) + [v] + list(out[ax:])))
        if sign > 0:
            return maxval(g, a.shape[ax])
        return neg(maxval(lambda v: neg(g(v)), a.shape[ax]))
    if not keep:
        return el(())
    return m.array([a.shape[k] for k in keep], el, m.dtype(a), [a.masks[k] for k in keep])


def dot(m, a, b):
    a, b = arrlike(m, a), arrlike(m, b)
    if is_scalar(a) or is_scalar(b):
        return binop(m, "Mult", a, b)
    if a.ndim == 0 or b.ndim == 0:
        return binop(m, "Mult", a, b)
    k1, k2 = a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0]
    ka, kb = a.masks[-1], b.masks[-2] if b.ndim > 1 else b.masks[0]
    if ka is not None or kb is not None:
        if ka is None or kb is None or not ka.same(kb):
            raise Unsupported("product over a filtered axis")
    m.must(eq(k1, k2), ValueError, "shapes not aligned")
    f, g = m.rreader(a), m.rreader(b)
    na, nbm = a.ndim - 1, b.ndim - 1
    if na > 1 or nbm > 1:
        raise Unsupported("dot of higher dimensions")

    def fn(idx):
        v = fresh("k", "I")
        ia = tuple(idx[:na]) + (v,)
        ib = ((v,) + tuple(idx[na:]))
        t = mul(f(ia), g(ib))
        if ka is not None:
            t = mul(ind(ka.cond(v)), t)
        return sum_(v, num(0), k1, t)
    shape = list(a.shape[:-1]) + (list(b.shape[1:]) if b.ndim > 1 else [])
    masks = list(a.masks[:-1]) + (list(b.masks[1:]) if b.ndim > 1 else [])
    if not shape:
        return fn(())
    return m.array(shape, fn, promote(m.dtype(a), m.dtype(b)), masks)


# ---------------------------------------------------------------- array attributes and methods
def reshape(m, a, *shape, **kw):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if any(a.masks) and tuple(shape) not in ((-1, 1), (1, -1), (-1,)):
        raise Unsupported("reshape of a filtered array")
    shape = [pyfix(s) if isinstance(s, T) else s for s in shape]
    nz = [i for i in range(a.ndim) if not (is_num(a.shape[i]) and num_val(a.shape[i]) == 1)]
    if len(nz) <= 1 or (a.ndim == 1):
        ax = nz[0] if nz else (0 if a.ndim else None)
        n = a.shape[ax] if ax is not None else num(1)
        mk = a.masks[ax] if ax is not None else None
        out = []
        tgt = None
        if -1 in [x for x in shape if isinstance(x, int)] and any(not isinstance(s, int) and deq(m, num(s), n) for s in shape) and m.entails(lt(num(0), n)):
            shape = [1 if isinstance(s, int) and s == -1 else s for s in shape]      # all elements are on the axis given
        for j, s in enumerate(shape):
            if isinstance(s, int) and s == 1:
                out.append(num(1))
            elif tgt is None and ((isinstance(s, int) and s == -1) or deq(m, num(s), n)):
                tgt = j
                out.append(n)
            elif tgt is None:
                m.must(eq(num(s), n), ValueError, "cannot reshape")
                tgt = j
                out.append(n)
            else:
                raise Unsupported("reshape")
        if tgt is None and ax is not None and not (is_num(n) and num_val(n) == 1):
            m.must(eq(n, num(1)), ValueError, "cannot reshape")
        f = m.reader(a)
        if a.ndim == 1 or True:
            amap = {i: ("fix", num(0)) for i in range(a.ndim)}
            masks = [None] * len(out)
            if tgt is not None and ax is not None:
                amap[ax] = ("ax", tgt, num(0), 1)
                masks[tgt] = mk
            return compose(a, amap, out, masks)
    if len(shape) == a.ndim and all(isinstance(s, int) and s == -1 or deq(m, num(s), t) for s, t in zip(shape, a.shape)):
        return Arr(a.buf, a.bmap, a.shape, a.masks)
    raise Unsupported("reshape")


def ravel(m, a):
    nz = [i for i in range(a.ndim) if not (is_num(a.shape[i]) and num_val(a.shape[i]) == 1)]
    if len(nz) <= 1:
        return reshape(m, a, -1)
    if a.ndim == 2 and not any(a.masks):
        f, c = m.reader(a), a.shape[1]
        return m.array((mul(a.shape[0], c),), lambda idx: f((idiv(idx[0], c), imod(idx[0], c))), m.dtype(a))
    raise Unsupported("ravel")


def transpose(m, a, *axes, **kw):
    if a.ndim < 2:
        return a
    p = list(reversed(range(a.ndim)))
    if axes:
        ax = axes[0] if isinstance(axes[0], tuple) else axes
        p = list(ax)
    amap = {p[j]: ("ax", j, num(0), 1) for j in range(a.ndim)}
    return compose(a, amap, [a.shape[i] for i in p], [a.masks[i] for i in p])


def kwargs_axis(args, kw):
    ax = args[0] if args else kw.get("axis")
    for k in kw:
        if k not in ("axis", "dtype", "keepdims"):
            raise Unsupported("keyword " + k)
    if kw.get("keepdims"):
        raise Unsupported("keepdims")
    return ax


ARR_METHODS = {}


def am(name):
    def deco(f):
        ARR_METHODS[name] = f
        return f
    return deco


@am("astype")
def _astype(m, a, args, kw):
    return astype(m, a, dt(m, args[0] if args else kw.get("dtype")), m.truth(kw.get("copy", True)))


@am("copy")
def _copy(m, a, args, kw):
    return m.copy_arr(a)


@am("sum")
def _sum(m, a, args, kw):
    return reduce_sum(m, a, kwargs_axis(args, kw))


@am("mean")
def _mean(m, a, args, kw):
    return mean(m, a, kwargs_axis(args, kw))


@am("argmax")
def _argmax(m, a, args, kw):
    return arg_red(m, a, kwargs_axis(args, kw), argmax)


@am("argmin")
def _argmin(m, a, args, kw):
    return arg_red(m, a, kwargs_axis(args, kw), argmin)


@am("max")
def _max(m, a, args, kw):
    return minmax_red(m, a, kwargs_axis(args, kw), 1)


@am("min")
def _min(m, a, args, kw):
    return minmax_red(m, a, kwargs_axis(args, kw), -1)


@am("reshape")
def _reshape(m, a, args, kw):
    return reshape(m, a, *args, **{k: v for k, v in kw.items() if k != "order"})


@am("ravel")
def _ravel(m, a, args, kw):
    return ravel(m, a)


@am("flatten")
def _flatten(m, a, args, kw):
    return m.copy_arr(ravel(m, a))


@am("transpose")
def _transpose(m, a, args, kw):
    return transpose(m, a, *args)


@am("dot")
def _dot(m, a, args, kw):
    return dot(m, a, args[0])


@am("diagonal")
def _diagonal(m, a, args, kw):
    f = m.reader(a)
    n = a.shape[0] if deq(m, a.shape[0], a.shape[1]) else tmin(a.shape[0], a.shape[1])
    return m.array((n,), lambda idx: f((idx[0], idx[0])), m.dtype(a))


@am("take")
def _take(m, a, args, kw):
    ax = args[1] if len(args) > 1 else kw.get("axis")
    return take(m, a, args[0], ax)


@am("any")
def _any(m, a, args, kw):
    t = reduce_sum(m, a, kwargs_axis(args, kw), body=lambda idx: (lambda t: ind(t if t.sort == "B" else ne(t, num(0))))(m.reader(a)(idx)))
    return lt(num(0), as_term(t)) if not isinstance(t, Arr) else elementwise(m, lambda x: lt(num(0), x), (t,), BOOL)


@am("all")
def _all(m, a, args, kw):
    rd = m.reader(a)
    t = reduce_sum(m, a, kwargs_axis(args, kw), body=lambda idx: (lambda t: ind(not_(t) if t.sort == "B" else eq(t, num(0))))(rd(idx)))
    return eq(num(0), as_term(t)) if not isinstance(t, Arr) else elementwise(m, lambda x: eq(num(0), x), (t,), BOOL)


@am("nonzero")
def _nonzero(m, a, args, kw):
    return where1(m, a)


@am("fill")
def _fill(m, a, args, kw):
    t = as_term(args[0])
    m.write(a, lambda idx: t)


@am("item")
def _item(m, a, args, kw):
    return m.elem(a, [num(0)] * a.ndim)


@am("tolist")
def _tolist(m, a, args, kw):
    if a.ndim != 1:
        raise Unsupported("tolist")
    f = m.reader(a)
    return m.new("symlist", {"n": a.shape[0], "fn": lambda i: f((num(i),)), "mask": a.masks[0]})


@am("squeeze")
def _squeeze(m, a, args, kw):
    keep = [i for i in range(a.ndim) if not (is_num(a.shape[i]) and num_val(a.shape[i]) == 1)]
    amap = {i: ("fix", num(0)) for i in range(a.ndim)}
    for j, i in enumerate(keep):
        amap[i] = ("ax", j, num(0), 1)
    return compose(a, amap, [a.shape[i] for i in keep], [a.masks[i] for i in keep])


def take(m, a, idx, ax):
    a = to_arr(m, a)
    if ax is None:
        if a.ndim != 1:
            raise Unsupported("take without axis")
        ax = 0
    k = [Slice(None, None, None)] * a.ndim
    if isinstance(idx, SymSeq):
        idx = asarray(m, idx)
    k[ax % a.ndim] = idx
    return arr_getitem(m, a, tuple(k))


def where1(m, a):
    """np.where(mask)."""
    f = m.reader(a)
    if m.dtype(a).kind != "b":
        g = f
        f = lambda idx: ne(g(idx), num(0))
    if a.ndim == 1:
        if a.masks[0] is not None:
            raise Unsupported("where on a filtered array")
        mk = Mask(a.shape[0], lambda s: f((s,)))
        return (m.array((a.shape[0],), lambda idx: idx[0], I8, (mk,)),)
    if a.ndim == 2 and not any(a.masks):
        # rows with exactly one true entry: row r holds it in column g(r)
        r, c = fresh("r", "I"), fresh("c", "I")
        t = f((r, c))
        if t.op == "eq":
            p = poly_of(t.args[0])
            k = ((c, 1),)
            if abs(p.get(k, 0)) == 1 and not any(c.data in x.fv for mo in p if mo != k for x, e in mo):
                gcol = scale(mk_poly({mo: q for mo, q in p.items() if mo != k}, "I"), -1 / p[k])
                ok = and_(le(num(0), gcol), lt(gcol, a.shape[1]))
                if smt.prove(m.pc + [le(num(0), r), lt(r, a.shape[0])], ok, 2000)[0] == "proved":
                    return (m.array((a.shape[0],), lambda idx: idx[0], I8),
                            m.array((a.shape[0],), lambda idx: subst(gcol, {r.data: idx[0]}), I8))
        raise Unsupported("np.where on a matrix that is not known to have one hit per row")
    raise Unsupported("np.where")


def arr_getattr(m, a, name):
    if name == "shape":
        return tuple(pyfix(extent(a, i)) for i in range(a.ndim))
    if name == "T":
        return transpose(m, a)
    if name == "ndim":
        return a.ndim
    if name == "dtype":
        return m.dtype(a)
    if name == "size":
        return pyfix(size_of(m, a))
    if name == "flags":
        return Opaque("flags")
    f = ARR_METHODS.get(name)
    if f:
        return Native("array." + name, lambda m_, args, kw: f(m_, a, args, kw))
    raise Unsupported("array attribute " + name)


# ---------------------------------------------------------------- attribute access
def getattr_(m, o, name):
    if isinstance(o, Ref):
        rec = m.rec(o)
        if rec.kind == "obj":
            if name in rec.d:
                v = rec.d[name]
                if isinstance(v, Junk):
                    raise JunkRead(v.loc)
                return v
            f = rec.x.find(name)
            if f is not None:
                if isinstance(f, PropVal):
                    return m.call(f.fn, [o])
                if isinstance(f, (Func, Native)):
                    return f if isinstance(f, StaticVal) else Bound(f, o)
                if isinstance(f, StaticVal):
                    return f.fn
                return f
            if name == "__class__":
                return rec.x
            if name == "__dict__":
                return m.new("dict", dict(rec.d))
            m.raise_(AttributeError, name)
        if rec.kind == "nat":
            if name in rec.d and not name.startswith("_"):
                v = rec.d[name]
                if isinstance(v, Junk):
                    raise JunkRead(v.loc)
                return v
            h = m.lib.nat_getattr.get(rec.x)
            if h:
                r = h(m, o, name)
                if r is not NotImplemented:
                    return r
            f = m.lib.nat_methods.get(rec.x, {}).get(name)
            if f:
                return Native("%s.%s" % (rec.x, name), lambda m_, args, kw: f(m_, o, args, kw))
            raise Unsupported("attribute %s of %s" % (name, rec.x))
        if rec.kind in ("list", "symlist", "dict", "set"):
            f = m.lib.cont_methods.get((rec.kind, name))
            if f:
                return Native("%s.%s" % (rec.kind, name), lambda m_, args, kw: f(m_, o, args, kw))
            if not hasattr({"list": list, "symlist": list, "dict": dict, "set": set}[rec.kind], name):
                m.raise_(AttributeError, name)
            raise Unsupported("%s.%s" % (rec.kind, name))
    if isinstance(o, Arr):
        return arr_getattr(m, o, name)
    if isinstance(o, NativeModule):
        if name in o.d:
            return o.d[name]
        if name.startswith("__"):
            return Opaque(o.name + "." + name)
        raise Unsupported("%s.%s" % (o.name, name))
    if isinstance(o, PyModule):
        d = m.heap[o.frame].d
        if name in d:
            return d[name]
        try:
            return m.load(o.name + "." + name)
        except PyRaise:
            m.raise_(AttributeError, name)
    if isinstance(o, PyClass):
        f = o.find(name)
        if f is not None:
            return f.fn if isinstance(f, StaticVal) else f
        if name == "__name__":
            return o.name
        m.raise_(AttributeError, name)
    if isinstance(o, SuperVal):
        mro = m.rec(o.obj).x.mro()
        for c in mro[mro.index(o.cls) + 1:]:
            if name in c.d:
                return Bound(c.d[name], o.obj)
        if name == "__init__":
            return Native("object.__init__", lambda m_, a, k: None)
        m.raise_(AttributeError, name)
    if isinstance(o, (str, StrVal)):
        return str_method(m, o, name)
    if isinstance(o, DType):
        if name == "kind":
            return o.kind
        if name == "itemsize":
            return o.size
        if name in ("name", "__name__"):
            return o.name
        if name == "type":
            return o
    if isinstance(o, T) or isinstance(o, (int, float)):
        t = o
        if name in ("shape",):
            return ()
        if name == "ndim":
            return 0
        if name == "dtype":
            return sort_dtype(as_term(t))
        if name in ("astype",):
            return Native("scalar.astype", lambda m_, a, k: cast_scalar(m_, dt(m_, a[0]), t))
        if name in ("sum", "mean", "copy", "max", "min", "item", "ravel") and isinstance(t, T):
            return Native("scalar." + name, lambda m_, a, k: nb(t) if name != "ravel" else asarray(m_, m_.newlist([t])))
        if name in ("lower", "upper", "shape"):
            m.raise_(AttributeError, name)
    if isinstance(o, ExcVal):
        if name == "args":
            return tuple(o.args)
        return Opaque("exception." + name)
    if isinstance(o, Ufunc):
        if name == "__name__":
            return o.name
    if isinstance(o, Func):
        if name == "__name__":
            return o.name
    if o is None:
        m.raise_(AttributeError, "'NoneType' object has no attribute '%s'" % name)
    if isinstance(o, tuple) and name in ("index", "count"):
        return Native("tuple." + name, lambda m_, a, k: list_index(m_, list(o), a[0]))
    if isinstance(o, Native) and name == "__name__":
        return o.name
    if isinstance(o, Native) and o.name == "str" and not name.startswith("_") and hasattr(str, name):
        return Native("str." + name, lambda m_, a, k: m_.call(m_.getattr(a[0], name), list(a[1:]), k)
                      if a and isinstance(a[0], (str, StrVal)) else m_.raise_(TypeError, "not a text"))
    if isinstance(o, Native) and (o.name, name) in m.lib.native_attrs:
        return m.lib.native_attrs[(o.name, name)]
    raise Unsupported("attribute %s of %r" % (name, o))


class PropVal(object):
    def __init__(self, fn):
        self.fn = fn


class StaticVal(object):
    def __init__(self, fn):
        self.fn = fn


class SuperVal(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def str_method(m, s, name):
    def f(m_, args, kw):
        if isinstance(s, str) and all(isinstance(a, (str, int, tuple)) for a in args):
            if name == "join":
                pass
            elif name == "format":
                return StrVal()
            else:
                r = getattr(s, name)(*args)
                return m_.newlist(r) if isinstance(r, list) else r
        if name == "join":
            it = iterate(m_, args[0])
            if isinstance(it, list) and isinstance(s, str) and all(isinstance(x, str) for x in it):
                return s.join(it)
            return StrVal()
        if name in ("format", "strip", "lower", "upper", "replace"):
            return StrVal()
        raise Unsupported("text method " + name)
    if not hasattr(str, name):
        m.raise_(AttributeError, name)
    return Native("str." + name, f)


def list_index(m, items, v):
    for i, x in enumerate(items):
        if m.truth(equals_any(m, x, v)):
            return i
    m.raise_(ValueError, "not in list")


def cast_scalar(m, d, v):
    if isinstance(v, Arr):
        if v.ndim == 0:
            v = m.elem(v, ())
        else:
            return astype(m, v, d)
    if is_inf(v) or (isinstance(v, float) and v != v):
        if d.kind == "f":
            return v
        m.raise_(OverflowError, "cannot convert infinity to integer")
    if isinstance(v, (str, StrVal)) or v is None:
        m.raise_(ValueError, "could not convert")
    t = as_term(v)
    if d.kind == "f":
        return real(nb(t))
    if d.kind in "iu":
        return pyfix(trunc(nb(t)))
    if d.kind == "b":
        return t if t.sort == "B" else ne(t, num(0))
    raise Unsupported("cast to " + d.name)


def ufunc_call(m, u, args, kw):
    if kw.get("out") is not None or any(k not in ("out", "dtype", "axis") for k in kw):
        raise Unsupported("ufunc keyword")
    args = [arrlike(m, a) for a in args]
    if any(is_inf(a) for a in args):
        if u.name in ("minimum", "maximum"):
            return builtin_minmax(m, args, "min" if u.name == "minimum" else "max")
        raise Unsupported("infinity in " + u.name)
    for a in args:
        if not (isinstance(a, Arr) or is_scalar(a)):
            m.raise_(TypeError, "ufunc %s not supported for the input type" % u.name)
    ds = [vdtype(m, a) for a in args]
    if u.out is not None:
        d = u.out
    else:
        d = ds[0] if len(args) == 1 else rdtype(m, args[0], args[1])
        if u.name in FLOATING:
            d = d if d.kind == "f" and d.name != "weak" else F8
    if d.name == "weak":
        d = F8
    return elementwise(m, lambda *ts: u.f(m, *ts), args, d)


FLOATING = {"exp", "tanh", "log", "sqrt", "sin", "cos", "arctan", "true_divide", "divide", "float_power", "expm1", "log10", "log2"}


def builtin_minmax(m, vals, op):
    r = None
    for v in vals:
        if is_inf(v):
            if (v > 0) == (op == "min"):
                if r is None and len(vals) == 1:
                    return v
                continue
            return v
        t = as_term(v)
        r = t if r is None else tm.tmin(nb(r), nb(t), op)
    if r is None:
        return vals[0]
    return pyfix(r)


# ---------------------------------------------------------------- the library object
def build(m0):
    L = Lib()
    L.cast_scalar, L.ufunc_call, L.inplace, L.getitem, L.setitem = cast_scalar, ufunc_call, inplace, getitem, setitem
    L.mask_of, L.iterate_masked = mask_of, iterate_masked
    L.unpack, L.iterate, L.getattr, L.unary, L.binop, L.compare = unpack, iterate, getattr_, unary, binop, compare
    L.nat_setattr, L.nat_getattr, L.nat_methods, L.nat_getitem, L.nat_setitem, L.nat_iter = {}, {}, {}, {}, {}, {}
    L.native_attrs = {}
    L.cont_methods = _container_methods()
    L.builtins = _builtins()
    L.modules = {}
    np_ = _numpy()
    L.np = np_
    L.modules["numpy"] = np_
    _others(L, np_)
    return L


def _nonzero(self, b):
    b = num(b)
    if is_num(b):
        return num_val(b) != 0
    c = getattr(self, "_nzcache", None)
    if c is None:
        c = self._nzcache = {}
    k = (b.id, tuple(x.id for x in self.pc))
    if k not in c:
        c[k] = self.entails(ne(b, num(0)))
    return c[k]


def _nonneg(self, a):
    a = num(a)
    if is_num(a):
        return num_val(a) >= 0
    if a.op == "app" and a.data in NONNEG:
        return True
    return self.entails(le(num(0), a))


NONNEG = {"wt", "exp"}


def once(m, base):
    """A new name (not inside a loop: one value per execution)."""
    if m.loopks:
        raise Unsupported("%s inside a loop" % base)
    return fresh(base, "I").data


def logspace(m, a, k):
    """np.logspace over the reals: positive values from base**start to base**stop (the end included)."""
    start, stop = real(as_term(a[0])), real(as_term(a[1]))
    n = as_term(a[2] if len(a) > 2 else k.get("num", 50))
    if any(x not in ("num", "base", "endpoint") for x in k) or len(a) > 3:
        raise Unsupported("np.logspace")
    base = k.get("base", 10.0)
    if k.get("endpoint", True) is not True:
        raise Unsupported("np.logspace without its end")

    def pw(x):
        if base == math.e:
            if x.op == "app" and x.data == "log":
                y = x.args[0]
                return ite(lt(num(0), y), real(y), t_exp(x))
            return t_exp(x)
        return app("pow~%r" % float(base), (x,), "R")
    name = once(m, "lsp")
    first, last = pw(start), pw(stop)
    smt.AXIOMS[name] = lambda t: [lt(num(0), t), implies(eq(t.args[0], num(0)), eq(t, first)),
                                  implies(and_(eq(t.args[0], sub(n, num(1))), lt(num(1), n)), eq(t, last))]
    m.must(le(num(0), n), ValueError, "number of samples")
    return m.array((n,), lambda i: app(name, (i[0],), "R"), F8)


def unique(m, x):
    """np.unique: the distinct values in increasing order."""
    n = x.shape[0]
    if any(x.masks):
        raise Unsupported("np.unique of a filtered vector")
    dty = m.dtype(x)
    sort = "I" if dty.kind in "iu" else "R"
    f = m.rreader(x)
    tag = once(m, "uq")
    k = var("nuq~" + tag, "I")
    u = lambda j: app("uq~" + tag, (num(j),), sort)
    src = lambda j: app("uqsrc~" + tag, (num(j),), "I")
    p = var("uqlast~" + tag, "I")

    def ax(t):
        j = t.args[0]
        inr = and_(le(num(0), j), lt(j, k))
        out = [implies(inr, and_(eq(t, f((src(j),))), le(num(0), src(j)), lt(src(j), n))),
               implies(inr, and_(le(u(num(0)), t), le(t, u(sub(k, num(1))))))]
        if j.op == "poly" and tm.poly_of(j).get((), 0) >= 1:
            out.append(implies(and_(inr, le(num(1), j)), lt(u(sub(j, num(1))), t)))
        return out
    smt.AXIOMS["uq~" + tag] = ax
    m.assume(implies(lt(num(0), n), and_(le(num(1), k), le(num(0), p), lt(p, k), eq(u(p), f((sub(n, num(1)),))))))
    m.assume(and_(le(k, n), le(num(0), k)))
    if sort == "I":        # bounds that hold for every value hold for the distinct ones
        g = fresh("i", "I")
        x0 = f((g,))
        ins = [le(num(0), g), lt(g, n)]
        low = [b for b in (1, 0) if smt.prove(m.pc + ins, le(num(b), x0), 2000)[0] == "proved"]
        high = [b for b in (tm.children(x0) if x0.op in ("min", "ite") else []) if b.sort != "B" and g.data not in b.fv
                and smt.prove(m.pc + ins, le(x0, b), 2000)[0] == "proved"]
        if low and high:
            tm.RANGES["uq~" + tag] = (num(low[0]), add(high[0], num(1)))
    return m.array((k,), lambda i: u(i[0]), dty)


def install(cls):
    cls.nonzero = _nonzero
    cls.nonneg = _nonneg
    cls.positive = lambda self, a: self.entails(lt(num(0), num(a)))


def _container_methods():
    M = {}

    def d(kind, name):
        def deco(f):
            M[(kind, name)] = f
            return f
        return deco

    @d("list", "append")
    def _(m, o, a, k):
        m.rec(o).x.append(a[0])

    @d("list", "extend")
    def _(m, o, a, k):
        it = iterate(m, a[0])
        if not isinstance(it, list):
            raise Unsupported("extend by a symbolic sequence")
        m.rec(o).x.extend(it)

    @d("list", "index")
    def _(m, o, a, k):
        return list_index(m, list(m.rec(o).x), a[0])

    @d("list", "count")
    def _(m, o, a, k):
        return sum(1 for x in m.rec(o).x if m.truth(equals_any(m, x, a[0])))

    @d("list", "pop")
    def _(m, o, a, k):
        x = m.rec(o).x
        try:
            return x.pop(*a)
        except IndexError:
            m.raise_(IndexError, "pop from empty list")

    @d("list", "remove")
    def _(m, o, a, k):
        x = m.rec(o).x
        i = list_index(m, list(x), a[0])
        del x[i]

    @d("list", "insert")
    def _(m, o, a, k):
        m.rec(o).x.insert(a[0], a[1])

    @d("list", "copy")
    def _(m, o, a, k):
        return m.newlist(m.rec(o).x)

    @d("list", "clear")
    def _(m, o, a, k):
        m.rec(o).x[:] = []

    @d("list", "reverse")
    def _(m, o, a, k):
        m.rec(o).x.reverse()

    @d("symlist", "append")
    def _(m, o, a, k):
        rec = m.rec(o)
        n, fn, mk, v = rec.d["n"], rec.d["fn"], rec.d.get("mask"), a[0]
        if mk:
            raise Unsupported("append to a filtered list")

        def f2(i):
            i = num(i)
            e = m.entails(lt(i, n))
            if e:
                return fn(i)
            if m.entails(eq(i, n)):
                return v
            return m.ite_val(lt(i, n), fn(i), v)
        rec.d["n"], rec.d["fn"] = add(n, num(1)), f2
        rec.d["app"] = list(rec.d.get("app") or []) + [(n, v)]

    @d("dict", "keys")
    def _(m, o, a, k):
        return m.new("set", {x: True for x in m.rec(o).d})

    @d("dict", "values")
    def _(m, o, a, k):
        return m.newlist(m.rec(o).d.values())

    @d("dict", "items")
    def _(m, o, a, k):
        return m.newlist([(x, y) for x, y in m.rec(o).d.items()])

    @d("dict", "get")
    def _(m, o, a, k):
        return m.rec(o).d.get(m.key(a[0]), a[1] if len(a) > 1 else None)

    @d("dict", "pop")
    def _(m, o, a, k):
        dd = m.rec(o).d
        kk = m.key(a[0])
        if kk in dd:
            return dd.pop(kk)
        if len(a) > 1:
            return a[1]
        m.raise_(KeyError, "key")

    @d("dict", "update")
    def _(m, o, a, k):
        dd = m.rec(o).d
        if a:
            dd.update(m.rec(a[0]).d)
        dd.update(k)

    @d("dict", "setdefault")
    def _(m, o, a, k):
        return m.rec(o).d.setdefault(m.key(a[0]), a[1] if len(a) > 1 else None)

    @d("dict", "copy")
    def _(m, o, a, k):
        return m.new("dict", dict(m.rec(o).d))

    def toset(m, v):
        it = iterate(m, v)
        if not isinstance(it, list):
            raise Unsupported("set of a symbolic sequence")
        return [m.key(x) for x in it]

    @d("set", "intersection")
    def _(m, o, a, k):
        s = toset(m, a[0])
        return m.new("set", {x: True for x in m.rec(o).d if x in s})

    @d("set", "union")
    def _(m, o, a, k):
        dd = dict(m.rec(o).d)
        dd.update({x: True for x in toset(m, a[0])})
        return m.new("set", dd)

    @d("set", "difference")
    def _(m, o, a, k):
        s = toset(m, a[0])
        return m.new("set", {x: True for x in m.rec(o).d if x not in s})

    @d("set", "add")
    def _(m, o, a, k):
        m.rec(o).d[m.key(a[0])] = True

    @d("set", "isdisjoint")
    def _(m, o, a, k):
        s = toset(m, a[0])
        return not any(x in s for x in m.rec(o).d)

    @d("set", "issubset")
    def _(m, o, a, k):
        s = toset(m, a[0])
        return all(x in s for x in m.rec(o).d)

    @d("symlist", "remove")
    def _(m, o, a, k):
        p = position(m, o, a[0])
        if p is None:
            m.raise_(ValueError, "list.remove(x): x not in list")
        rec = m.rec(o)
        n, fn = rec.d["n"], rec.d["fn"]

        def f2(i):
            i = num(i)
            e = smt.entails(m.pc, lt(i, p))
            return fn(i) if e is True else fn(add(i, num(1))) if e is False else fn(add(i, ind(le(p, i))))
        rec.d = {"n": sub(n, num(1)), "fn": f2}

    @d("symlist", "pop")
    def _(m, o, a, k):
        rec = m.rec(o)
        if rec.d.get("mask"):
            raise Unsupported("pop from a filtered list")
        n, fn = rec.d["n"], rec.d["fn"]
        p = norm_index(m, a[0] if a else -1, n)
        rec.d = {"n": sub(n, num(1)), "fn": lambda i: fn(add(num(i), ind(le(p, num(i)))))}
        return fn(p)

    @d("symlist", "index")
    def _(m, o, a, k):
        p = position(m, o, a[0])
        if p is None:
            m.raise_(ValueError, "not in list")
        return p

    @d("symlist", "copy")
    def _(m, o, a, k):
        return m.new("symlist", dict(m.rec(o).d))
    return M


EXC = [BaseException, Exception, ValueError, TypeError, AssertionError, IOError, OSError, KeyError, IndexError, AttributeError,
       RuntimeError, ImportError, NameError, ZeroDivisionError, ArithmeticError, OverflowError, StopIteration,
       NotImplementedError, FileNotFoundError, PermissionError, LookupError, MemoryError, KeyboardInterrupt]


def _builtins():
    B = {"None": None, "True": True, "False": False, "Ellipsis": Ellipsis, "NotImplemented": Opaque("NotImplemented")}
    for e in EXC:
        B[e.__name__] = e
    B["IOError"] = OSError
    B["EnvironmentError"] = OSError

    def d(name):
        def deco(f):
            B[name] = Native(name, f)
            return f
        return deco

    @d("len")
    def _(m, a, k):
        return length(m, a[0])

    @d("print")
    def _(m, a, k):
        return None

    @d("isinstance")
    def _(m, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(isinst(m, a[0], c) for c in cs)

    @d("min")
    def _(m, a, k):
        return _mm(m, a, "min")

    @d("max")
    def _(m, a, k):
        return _mm(m, a, "max")

    def _mm(m, a, op):
        vals = list(a)
        if len(vals) == 1:
            vals = iterate(m, vals[0])
            if not isinstance(vals, list):
                n, fn = vals.n, vals.fn
                m.must(lt(num(0), n), ValueError, "empty sequence")
                if op == "max":
                    return maxval(lambda i: as_term(fn(i)), n)
                return neg(maxval(lambda i: neg(as_term(fn(i))), n))
            if not vals:
                m.raise_(ValueError, "arg is an empty sequence")
        if any(isinstance(v, Arr) and v.ndim > 0 for v in vals):
            raise Unsupported("min of arrays")
        vals = [m.elem(v, ()) if isinstance(v, Arr) else v for v in vals]
        for v in vals:
            if not is_scalar(v):
                if v is None or isinstance(v, str):
                    m.raise_(TypeError, "'<' not supported")
                raise Unsupported("min of %r" % (v,))
        if all(isinstance(v, (int, float)) for v in vals):
            return (min if op == "min" else max)(vals)
        return builtin_minmax(m, vals, op)

    @d("sum")
    def _(m, a, k):
        it = iterate_masked(m, a[0])
        s = a[1] if len(a) > 1 else 0
        if isinstance(it, list):
            for v in it:
                s = binop(m, "Add", s, v)
            return s
        n, fn, mk = it
        v = fresh("s", "I")
        x = fn(v)
        if not is_scalar(x):
            raise Unsupported("sum of a symbolic sequence of non-numbers")
        t = nb(as_term(x))
        if mk:
            t = mul(ind(mk.cond(v)), t)
        return binop(m, "Add", s, sum_(v, num(0), n, t))

    @d("range")
    def _(m, a, k):
        a = [index_value(m, x) if not isinstance(x, float) else m.raise_(TypeError, "float range") for x in a]
        lo, hi, st = (num(0), a[0], num(1)) if len(a) == 1 else ((a[0], a[1], num(1)) if len(a) == 2 else a)
        if is_num(lo) and is_num(hi) and is_num(st):
            return m.newlist([int(x) for x in range(int(num_val(lo)), int(num_val(hi)), int(num_val(st)))])
        if not is_num(st):
            if not m.entails(lt(num(0), st)):
                raise Unsupported("range step")
            n = ceil(div(sub(hi, lo), st))
        elif num_val(st) == 1:
            n = sub(hi, lo)
        elif num_val(st) > 0:
            n = idiv(add(sub(hi, lo), sub(st, num(1))), st)
        else:
            n = idiv(add(sub(lo, hi), sub(neg(st), num(1))), neg(st))
        if not m.entails(le(num(0), n)):
            n = tmax(n, num(0))
        return SymSeq(n, lambda i: add(lo, mul(num(i), st)))

    B["xrange"] = B["range"]

    @d("enumerate")
    def _(m, a, k):
        s = a[1] if len(a) > 1 else k.get("start", 0)
        from dv.engine import GenVal
        if isinstance(a[0], GenVal) and a[0].counter is None:
            return GenVal(a[0].f, a[0].env, a[0].state, m.alloc(Rec("frame", {"n": s}, None)))
        it = iterate(m, a[0])
        if isinstance(it, list):
            return m.newlist([(binop(m, "Add", i, s), v) for i, v in enumerate(it)])
        return SymSeq(it.n, lambda i: (add(num(i), num(s)), it.fn(i)))

    @d("zip")
    def _(m, a, k):
        its = [iterate(m, x) for x in a]
        if all(isinstance(i, list) for i in its):
            return m.newlist(list(zip(*its)))
        its2 = []
        for i in its:
            if isinstance(i, list):
                raise Unsupported("zip of a concrete and a symbolic sequence")
            its2.append(i)
        n = its2[0].n
        for i in its2[1:]:
            if not deq(m, i.n, n):
                n = tmin(n, i.n)
        return SymSeq(n, lambda j: tuple(i.fn(j) for i in its2))

    @d("reversed")
    def _(m, a, k):
        it = iterate(m, a[0])
        if isinstance(it, list):
            return m.newlist(it[::-1])
        return SymSeq(it.n, lambda j: it.fn(sub(sub(it.n, num(1)), num(j))))

    @d("map")
    def _(m, a, k):
        it = iterate(m, a[1])
        if isinstance(it, list) and len(a) == 2:
            return m.newlist([m.call(a[0], [x]) for x in it])
        raise Unsupported("map")

    @d("list")
    def _(m, a, k):
        if not a:
            return m.newlist([])
        if isinstance(a[0], Ref) and m.rec(a[0]).kind == "symlist":
            return m.new("symlist", dict(m.rec(a[0]).d))
        if isinstance(a[0], Arr) and a[0].ndim == 1:
            f = m.reader(a[0])
            if not is_num(a[0].shape[0]):
                return m.new("symlist", {"n": a[0].shape[0], "fn": lambda i: f((num(i),)), "mask": a[0].masks[0]})
        it = iterate(m, a[0])
        if isinstance(it, list):
            return m.newlist(it)
        return m.new("symlist", {"n": it.n, "fn": it.fn})

    @d("tuple")
    def _(m, a, k):
        it = iterate(m, a[0]) if a else []
        if not isinstance(it, list):
            raise Unsupported("tuple of a symbolic sequence")
        return tuple(it)

    @d("set")
    def _(m, a, k):
        it = iterate(m, a[0]) if a else []
        if not isinstance(it, list):
            raise Unsupported("set of a symbolic sequence")
        return m.new("set", {m.key(x): True for x in it})

    B["frozenset"] = Native("set", B["set"].fn)

    @d("dict")
    def _(m, a, k):
        dd = {}
        if a:
            r = m.rec(a[0]) if isinstance(a[0], Ref) else None
            if r is not None and r.kind == "dict":
                dd.update(r.d)
            else:
                for kv in iterate(m, a[0]):
                    x, y = unpack(m, kv, 2)
                    dd[m.key(x)] = y
        dd.update(k)
        return m.new("dict", dd)

    @d("int")
    def _(m, a, k):
        v = a[0]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            try:
                return int(v)
            except (OverflowError, ValueError) as e:
                m.raise_(type(e), "int()")
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                m.raise_(ValueError, "int()")
        return cast_scalar(m, I8, v)

    @d("float")
    def _(m, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return float(v)
        return cast_scalar(m, F8, v)

    @d("bool")
    def _(m, a, k):
        return m.truth(a[0])

    @d("abs")
    def _(m, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, Arr):
            return elementwise(m, lambda x: tabs(nb(x)), (v,), m.dtype(v))
        return tabs(nb(as_term(v)))

    @d("round")
    def _(m, a, k):
        if isinstance(a[0], (int, float)):
            return round(*a)
        raise Unsupported("round")

    @d("divmod")
    def _(m, a, k):
        return (binop(m, "FloorDiv", a[0], a[1]), binop(m, "Mod", a[0], a[1]))

    @d("pow")
    def _(m, a, k):
        return binop(m, "Pow", a[0], a[1])

    @d("any")
    def _(m, a, k):
        it = iterate(m, a[0])
        if isinstance(it, list):
            return any(m.truth(x) for x in it)
        v = fresh("s", "I")
        return lt(num(0), sum_(v, num(0), it.n, ind(as_term(it.fn(v)))))

    @d("all")
    def _(m, a, k):
        it = iterate(m, a[0])
        if isinstance(it, list):
            return all(m.truth(x) for x in it)
        v = fresh("s", "I")
        return eq(num(0), sum_(v, num(0), it.n, ind(not_(as_term(it.fn(v))))))

    @d("sorted")
    def _(m, a, k):
        it = iterate(m, a[0])
        if isinstance(it, list) and all(isinstance(x, (int, str)) for x in it) and not k:
            return m.newlist(sorted(it))
        raise Unsupported("sorted")

    @d("str")
    def _(m, a, k):
        if a and isinstance(a[0], str):
            return a[0]
        if a and isinstance(a[0], int):
            return str(a[0])
        return StrVal()

    B["repr"] = Native("repr", lambda m, a, k: StrVal())

    @d("type")
    def _(m, a, k):
        v = a[0]
        if isinstance(v, Ref) and m.rec(v).kind == "obj":
            return m.rec(v).x
        if isinstance(v, str):
            return B["str"]
        if v is None:
            return Opaque("NoneType") if "NoneType" not in B else B["NoneType"]
        if isinstance(v, Arr):
            return m.lib.np.d["ndarray"]
        if isinstance(v, bool):
            return B["bool"]
        if isinstance(v, int) or (isinstance(v, T) and v.sort == "I"):
            return B["int"]
        raise Unsupported("type()")

    B["NoneType"] = Native("NoneType", lambda m, a, k: None)

    @d("super")
    def _(m, a, k):
        return SuperVal(a[0], a[1])

    @d("getattr")
    def _(m, a, k):
        try:
            return m.getattr(a[0], a[1])
        except PyRaise as e:
            if len(a) > 2 and e.exc.cls is AttributeError:
                return a[2]
            raise

    @d("hasattr")
    def _(m, a, k):
        try:
            m.getattr(a[0], a[1])
            return True
        except PyRaise as e:
            if e.exc.cls is AttributeError:
                return False
            raise

    @d("setattr")
    def _(m, a, k):
        m.setattr(a[0], a[1], a[2])

    @d("callable")
    def _(m, a, k):
        return isinstance(a[0], (Func, Native, Bound, PyClass, Ufunc))

    @d("id")
    def _(m, a, k):
        raise Unsupported("id()")

    @d("slice")
    def _(m, a, k):
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    @d("iter")
    def _(m, a, k):
        raise Unsupported("iter()")

    @d("staticmethod")
    def _(m, a, k):
        return StaticVal(a[0])

    @d("property")
    def _(m, a, k):
        return PropVal(a[0])
    B["object"] = PyClass("object", [], {})
    B["bytes"] = Native("bytes", lambda m, a, k: StrVal())
    B["open"] = Native("open", lambda m, a, k: m.lib.open_(m, a, k))
    B["__name__"] = "module"
    return B


def mask_of(m, v):
    """The filter of a filtered list or vector, None if it has none."""
    if isinstance(v, Ref) and m.rec(v).kind == "symlist":
        return m.rec(v).d.get("mask")
    return v.masks[0] if isinstance(v, Arr) and v.ndim == 1 else None


def iterate_masked(m, v):
    if isinstance(v, Ref) and m.rec(v).kind == "symlist":
        r = m.rec(v).d
        return (r["n"], r["fn"], r.get("mask"))
    if isinstance(v, Arr) and v.ndim == 1 and v.masks[0] is not None:
        f = m.reader(v)
        return (v.shape[0], lambda i: f((i,)), v.masks[0])
    it = iterate(m, v)
    return it if isinstance(it, list) else (it.n, it.fn, None)


def isinst(m, v, c):
    if isinstance(c, tuple):
        return any(isinst(m, v, x) for x in c)
    if isinstance(c, type):
        return isinstance(v, ExcVal) and issubclass(v.cls, c)
    if isinstance(c, PyClass):
        if c.name == "object":
            return True
        return isinstance(v, Ref) and m.rec(v).kind == "obj" and c in m.rec(v).x.mro()
    if isinstance(c, Native):
        n = c.name
        if n == "str":
            return isinstance(v, (str, StrVal))
        if n == "int":
            return isinstance(v, int) or (isinstance(v, T) and v.sort == "I")
        if n == "float":
            return isinstance(v, float) or (isinstance(v, T) and v.sort == "R")
        if n == "bool":
            return isinstance(v, bool) or (isinstance(v, T) and v.sort == "B")
        if n == "list":
            return isinstance(v, Ref) and m.rec(v).kind in ("list", "symlist")
        if n == "tuple":
            return isinstance(v, tuple)
        if n == "dict":
            return isinstance(v, Ref) and m.rec(v).kind == "dict"
        if n == "set":
            return isinstance(v, Ref) and m.rec(v).kind == "set"
        if n == "ndarray":
            return isinstance(v, Arr)
        if n == "ufunc":
            return isinstance(v, Ufunc)
        if n == "NoneType":
            return v is None
        if n == "bytes":
            return isinstance(v, bytes)
        if n in ("integer",):
            return isinstance(v, T) and v.sort == "I"
    if isinstance(c, DType):
        return False
    raise Unsupported("isinstance with %r" % (c,))


# ---------------------------------------------------------------- numpy
def _u(name, f, nin=1, out=None):
    return Ufunc(name, f, nin, out)


def _numpy():
    D = {}
    for n, x in DTYPES.items():
        D[n] = x
    D["bool_"] = BOOL
    D["float_"] = F8
    D["double"] = F8
    D["single"] = F4
    D["int_"] = I8
    D["inf"] = INF
    D["pi"] = math.pi
    D["e"] = math.e
    D["nan"] = float("nan")
    D["newaxis"] = None
    D["ndarray"] = Native("ndarray", lambda m, a, k: (_ for _ in ()).throw(Unsupported("np.ndarray()")))
    D["ufunc"] = Native("ufunc", lambda m, a, k: None)
    D["integer"] = Native("integer", lambda m, a, k: None)

    def fn1(name):
        D[name] = _u(name, lambda m, x: app(name, (real(nb(x)),), "R"))
    for n in ("tanh", "log", "sin", "cos", "arctan", "expm1", "log10", "log2", "sinh", "cosh"):
        fn1(n)
    D["exp"] = _u("exp", lambda m, x: t_exp(nb(x)))
    D["abs"] = D["absolute"] = D["fabs"] = _u("absolute", lambda m, x: tabs(nb(x)))
    D["sqrt"] = _u("sqrt", lambda m, x: tpow(m, nb(x), num(Fraction(1, 2))))
    D["square"] = _u("square", lambda m, x: mul(nb(x), nb(x)))
    D["negative"] = _u("negative", lambda m, x: neg(nb(x)))
    D["ceil"] = _u("ceil", lambda m, x: real(ceil(nb(x))))
    D["floor"] = _u("floor", lambda m, x: real(floor(nb(x))))
    D["reciprocal"] = _u("reciprocal", lambda m, x: fdiv(m, num(1), nb(x)))
    for n, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
                  ("power", "Pow"), ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod")):
        D[n] = _u(n, (lambda op: lambda m, x, y: arith_term(m, op, x, y))(op), 2)
    for n, op in (("equal", "Eq"), ("not_equal", "NotEq"), ("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"),
                  ("greater_equal", "GtE")):
        D[n] = _u(n, (lambda op: lambda m, x, y: cmp_term(op, x, y))(op), 2, BOOL)
    tb = lambda t: t if t.sort == "B" else ne(t, num(0))
    D["logical_and"] = _u("logical_and", lambda m, x, y: and_(tb(x), tb(y)), 2, BOOL)
    D["logical_or"] = _u("logical_or", lambda m, x, y: or_(tb(x), tb(y)), 2, BOOL)
    D["logical_not"] = _u("logical_not", lambda m, x: not_(tb(x)), 1, BOOL)
    D["minimum"] = _u("minimum", lambda m, x, y: tm.tmin(nb(x), nb(y)), 2)
    D["maximum"] = _u("maximum", lambda m, x, y: tm.tmin(nb(x), nb(y), "max"), 2)
    D["isnan"] = _u("isnan", lambda m, x: FALSE, 1, BOOL)
    D["isfinite"] = _u("isfinite", lambda m, x: TRUE, 1, BOOL)
    D["isinf"] = _u("isinf", lambda m, x: FALSE, 1, BOOL)

    def d(*names):
        def deco(f):
            for n in names:
                D[n] = Native("np." + n, f)
            return f
        return deco

    def shape_of(m, s):
        if isinstance(s, Ref):
            s = tuple(iterate(m, s))
        if not isinstance(s, tuple):
            s = (s,)
        out = []
        for x in s:
            t = index_value(m, x) if not is_inf(x) else m.raise_(OverflowError, "shape")
            m.must(le(num(0), t), ValueError, "negative dimensions are not allowed")
            out.append(t)
        return tuple(out)

    def dtk(m, a, k, i=1):
        v = a[i] if len(a) > i else k.get("dtype")
        return dt(m, v)

    @d("zeros")
    def _(m, a, k):
        dd = dtk(m, a, k)
        return m.array(shape_of(m, a[0] if a else k["shape"]), lambda idx: FALSE if dd is BOOL else num(0, "R" if dd.kind == "f" else "I"), dd)

    @d("ones")
    def _(m, a, k):
        dd = dtk(m, a, k)
        return m.array(shape_of(m, a[0] if a else k["shape"]), lambda idx: TRUE if dd is BOOL else num(1), dd)

    @d("full")
    def _(m, a, k):
        t = as_term(a[1] if len(a) > 1 else k["fill_value"])
        v = a[2] if len(a) > 2 else k.get("dtype")
        return m.array(shape_of(m, a[0]), lambda idx: t, dt(m, v) if v is not None else sort_dtype(t))

    @d("empty")
    def _(m, a, k):
        dd = dtk(m, a, k)
        nm, ks = m.symfn("empty")
        srt = {"f": "R", "i": "I", "u": "I", "b": "B"}[dd.kind]
        return m.array(shape_of(m, a[0]), lambda idx: app(nm, tuple(idx) + ks, srt), dd)

    @d("zeros_like")
    def _(m, a, k):
        x = to_arr(m, a[0])
        return m.array(x.shape, lambda idx: num(0), dt(m, k["dtype"]) if "dtype" in k else m.dtype(x), x.masks)

    @d("ones_like")
    def _(m, a, k):
        x = to_arr(m, a[0])
        return m.array(x.shape, lambda idx: num(1), dt(m, k["dtype"]) if "dtype" in k else m.dtype(x), x.masks)

    @d("empty_like")
    def _(m, a, k):
        x = to_arr(m, a[0])
        nm, ks = m.symfn("empty")
        return m.array(x.shape, lambda idx: app(nm, tuple(idx) + ks, "R"), m.dtype(x))

    @d("eye", "identity")
    def _(m, a, k):
        n = index_value(m, a[0])
        c = index_value(m, a[1]) if len(a) > 1 and a[1] is not None and not isinstance(a[1], DType) else n
        return m.array(shape_of(m, (n, c)), lambda idx: ind(eq(idx[0], idx[1])), dt(m, k.get("dtype")))

    def array_(m, a, k):
        v = a[0]
        dd = a[1] if len(a) > 1 else k.get("dtype")
        dd = dt(m, dd) if dd is not None else None
        return v, dd

    @d("array")
    def _(m, a, k):
        v, dd = array_(m, a, k)
        if k.get("copy", True) is False and isinstance(v, Arr) and (dd is None or dd is m.dtype(v)):
            return v
        if isinstance(v, (StrVal, str)):
            return m.array((), lambda idx: num(0), STR)
        if v is None:
            return m.array((), lambda idx: num(0), OBJ)
        if isinstance(v, Ref) and m.rec(v).kind == "nat":
            v = m.lib.getitem(m, v, Slice(None, None, None))
        return asarray(m, v, dd)

    @d("asarray", "ascontiguousarray", "asanyarray", "asfortranarray", "atleast_1d")
    def _(m, a, k):
        v, dd = array_(m, a, k)
        if isinstance(v, Arr):
            return v if dd is None or dd is m.dtype(v) else astype(m, v, dd)
        if isinstance(v, Ref) and m.rec(v).kind == "nat":
            v = m.lib.getitem(m, v, Slice(None, None, None))
        return asarray(m, v, dd)

    @d("copy")
    def _(m, a, k):
        return m.copy_arr(to_arr(m, a[0]))

    @d("arange")
    def _(m, a, k):
        args = [index_value(m, x) for x in a if not isinstance(x, DType)]
        lo, hi, st = (num(0), args[0], num(1)) if len(args) == 1 else ((args[0], args[1], num(1)) if len(args) == 2 else args)
        if not is_num(st) and m.entails(le(num(1), st)):
            raw = sub(hi, lo)
            return m.array((steps(raw, st),), lambda idx: add(lo, stride(raw, st, idx[0])), dt(m, k["dtype"]) if "dtype" in k else I8)
        if not is_num(st) or num_val(st) < 1:
            raise Unsupported("arange step")
        n = sub(hi, lo) if num_val(st) == 1 else idiv(add(sub(hi, lo), sub(st, num(1))), st)
        if not m.entails(le(num(0), n)):
            n = tmax(n, num(0))
        return m.array((n,), lambda idx: add(lo, mul(idx[0], st)), dt(m, k["dtype"]) if "dtype" in k else I8)

    @d("dot", "matmul")
    def _(m, a, k):
        return dot(m, a[0], a[1])

    @d("inner")
    def _(m, a, k):
        x, y = to_arr(m, a[0]), to_arr(m, a[1])
        return dot(m, x, transpose(m, y) if y.ndim > 1 else y)

    @d("outer")
    def _(m, a, k):
        x, y = to_arr(m, a[0]), to_arr(m, a[1])
        f, g = m.rreader(x), m.rreader(y)
        return m.array((x.shape[0], y.shape[0]), lambda i: mul(f((i[0],)), g((i[1],))), promote(m.dtype(x), m.dtype(y)))

    @d("sum")
    def _(m, a, k):
        if isinstance(a[0], Ref) and m.rec(a[0]).kind in ("list",):
            pass
        return reduce_sum(m, to_arr(m, a[0]), kwargs_axis(a[1:], k))

    @d("mean", "average")
    def _(m, a, k):
        if k.get("weights") is not None:
            raise Unsupported("weighted average")
        return mean(m, a[0], kwargs_axis(a[1:], k))

    @d("count_nonzero")
    def _(m, a, k):
        x = to_arr(m, a[0])
        rd = m.reader(x)
        return reduce_sum(m, x, kwargs_axis(a[1:], k), body=lambda idx: (lambda t: ind(t if t.sort == "B" else ne(t, num(0))))(rd(idx)))

    @d("argmax")
    def _(m, a, k):
        return arg_red(m, a[0], kwargs_axis(a[1:], k), argmax)

    @d("argmin")
    def _(m, a, k):
        return arg_red(m, a[0], kwargs_axis(a[1:], k), argmin)

    @d("max", "amax")
    def _(m, a, k):
        return minmax_red(m, a[0], kwargs_axis(a[1:], k), 1)

    @d("min", "amin")
    def _(m, a, k):
        return minmax_red(m, a[0], kwargs_axis(a[1:], k), -1)

    @d("any")
    def _(m, a, k):
        return _any(m, to_arr(m, a[0]), a[1:], k)

    @d("all")
    def _(m, a, k):
        return _all(m, to_arr(m, a[0]), a[1:], k)

    @d("where")
    def _(m, a, k):
        if len(a) == 1:
            return where1(m, to_arr(m, a[0]))
        c = to_arr(m, a[0]) if not isinstance(a[0], T) else a[0]
        x, y = arrlike(m, a[1]), arrlike(m, a[2])
        return elementwise(m, lambda cc, p, q: ite(tb(cc), nb(p), nb(q)), (c, x, y), rdtype(m, x, y) if isinstance(x, Arr) or isinstance(y, Arr) else F8)

    @d("nonzero", "flatnonzero")
    def _(m, a, k):
        return where1(m, to_arr(m, a[0]))

    @d("take")
    def _(m, a, k):
        return take(m, a[0], a[1], a[2] if len(a) > 2 else k.get("axis"))

    @d("transpose")
    def _(m, a, k):
        return transpose(m, to_arr(m, a[0]))

    @d("reshape")
    def _(m, a, k):
        return reshape(m, to_arr(m, a[0]), a[1])

    @d("ravel")
    def _(m, a, k):
        return ravel(m, to_arr(m, a[0]))

    @d("ndim")
    def _(m, a, k):
        v = a[0]
        if isinstance(v, Arr):
            return v.ndim
        if is_scalar(v):
            return 0
        return to_arr(m, v).ndim

    @d("shape")
    def _(m, a, k):
        return arr_getattr(m, to_arr(m, a[0]), "shape")

    @d("size")
    def _(m, a, k):
        return pyfix(size_of(m, to_arr(m, a[0])))

    @d("diag")
    def _(m, a, k):
        x = to_arr(m, a[0])
        if x.ndim == 2:
            return _diagonal(m, x, (), {})
        f, n = m.reader(x), x.shape[0]
        return m.array((n, n), lambda i: mul(ind(eq(i[0], i[1])), nb(f((i[0],)))), m.dtype(x))

    @d("diagonal")
    def _(m, a, k):
        return _diagonal(m, to_arr(m, a[0]), (), {})

    @d("trace")
    def _(m, a, k):
        return reduce_sum(m, _diagonal(m, to_arr(m, a[0]), (), {}))

    @d("triu")
    def _(m, a, k):
        x = to_arr(m, a[0])
        kk = num(a[1] if len(a) > 1 else k.get("k", 0))
        f = m.reader(x)
        return m.array(x.shape, lambda i: mul(ind(le(add(i[0], kk), i[1])), nb(f(i))), m.dtype(x))

    @d("tril")
    def _(m, a, k):
        x = to_arr(m, a[0])
        kk = num(a[1] if len(a) > 1 else k.get("k", 0))
        f = m.reader(x)
        return m.array(x.shape, lambda i: mul(ind(le(i[1], add(i[0], kk))), nb(f(i))), m.dtype(x))

    @d("fill_diagonal")
    def _(m, a, k):
        x, v = a[0], a[1]
        f = m.reader(x)
        if isinstance(v, Arr):
            raise Unsupported("fill_diagonal with an array")
        t = as_term(v)
        m.write(x, lambda i: ite(eq(i[0], i[1]), t, nb(f(i))))

    @d("diag_indices_from")
    def _(m, a, k):
        x = a[0]
        m.must(eq(x.shape[0], x.shape[1]), ValueError, "All dimensions of input must be of equal length")
        ar = lambda: m.array((x.shape[0],), lambda i: i[0], I8)
        return (ar(), ar())

    @d("diag_indices")
    def _(m, a, k):
        n = index_value(m, a[0])
        ar = lambda: m.array((n,), lambda i: i[0], I8)
        return (ar(), ar())

    def concat(m, items, axis):
        from dv import concat as cc
        return cc.concat(m, items, axis)

    @d("hstack")
    def _(m, a, k):
        items = seq_items(m, a[0])
        if isinstance(items, list):
            items = [to_arr(m, x) for x in items]
            if not items:
                m.raise_(ValueError, "need at least one array to concatenate")
            return concat(m, items, 1 if items[0].ndim > 1 else 0)
        return concat(m, items, "h")

    @d("vstack")
    def _(m, a, k):
        items = [to_arr(m, x) for x in seq_items(m, a[0])]
        items = [arr_getitem(m, x, (None,)) if x.ndim == 1 else x for x in items]
        return concat(m, items, 0)

    @d("concatenate")
    def _(m, a, k):
        items = seq_items(m, a[0])
        ax = a[1] if len(a) > 1 else k.get("axis", 0)
        if isinstance(items, list):
            items = [to_arr(m, x) for x in items]
        return concat(m, items, ax)

    @d("column_stack")
    def _(m, a, k):
        items = [to_arr(m, x) for x in seq_items(m, a[0])]
        items = [arr_getitem(m, x, (Slice(None, None, None), None)) if x.ndim == 1 else x for x in items]
        return concat(m, items, 1)

    @d("append")
    def _(m, a, k):
        x, y = to_arr(m, a[0]), to_arr(m, a[1])
        if y.ndim == 0:
            t = m.elem(y, ())
            y = m.array((1,), lambda i: t, m.dtype(y))
        return concat(m, [x, y], 0)

    @d("delete")
    def _(m, a, k):
        x, i = to_arr(m, a[0]), index_value(m, a[1])
        ax = a[2] if len(a) > 2 else k.get("axis")
        if ax is None:
            if x.ndim != 1:
                raise Unsupported("delete without axis")
            ax = 0
        i = norm_index(m, i, x.shape[ax])
        f = m.reader(x)
        sh = list(x.shape)
        sh[ax] = sub(sh[ax], num(1))

        def fn(idx):
            idx = list(idx)
            idx[ax] = add(idx[ax], ind(le(i, idx[ax])))
            return f(tuple(idx))
        return m.array(sh, fn, m.dtype(x))

    @d("array_split")
    def _(m, a, k):
        x = to_arr(m, a[0])
        n = index_value(m, a[1])
        ax = a[2] if len(a) > 2 else k.get("axis", 0)
        if ax != 0 or x.masks[0] is not None:
            raise Unsupported("array_split axis")
        m.must(lt(num(0), n), ValueError, "number sections must be larger than 0")
        N = x.shape[0]

        def part(j):
            j = num(j)
            lo, hi = asoff(N, n, j), asoff(N, n, add(j, num(1)))
            amap = {i: ("ax", i, num(0), 1) for i in range(x.ndim)}
            amap[0] = ("ax", 0, lo, 1)
            return compose(x, amap, [sub(hi, lo)] + list(x.shape[1:]), x.masks)
        return m.new("symlist", {"n": n, "fn": part}) if not is_num(n) else m.newlist([part(num(i)) for i in range(int(num_val(n)))])

    @d("einsum")
    def _(m, a, k):
        return einsum(m, a[0], [to_arr(m, x) for x in a[1:]])

    @d("unique")
    def _(m, a, k):
        x = to_arr(m, a[0])
        if x.ndim != 1 or k:
            raise Unsupported("np.unique")
        return unique(m, x)

    @d("logspace")
    def _(m, a, k):
        return logspace(m, a, k)

    @d("array_equal")
    def _(m, a, k):
        raise Unsupported("array_equal")

    @d("vdot")
    def _(m, a, k):
        return dot(m, ravel(m, to_arr(m, a[0])), ravel(m, to_arr(m, a[1])))

    @d("clip")
    def _(m, a, k):
        lo, hi = a[1], a[2]
        r = a[0]
        if lo is not None:
            r = ufunc_call(m, D["maximum"], [r, lo], {})
        if hi is not None:
            r = ufunc_call(m, D["minimum"], [r, hi], {})
        return r

    @d("ix_")
    def _(m, a, k):
        return m.new("ix", {}, [to_arr(m, x) for x in a])

    @d("finfo")
    def _(m, a, k):
        return m.new("nat", {"eps": app("eps", (num(dt(m, a[0]).size),), "R"), "tiny": app("tiny", (), "R")}, "finfo")

    @d("dtype")
    def _(m, a, k):
        return dt(m, a[0])

    @d("issubdtype")
    def _(m, a, k):
        raise Unsupported("issubdtype")

    @d("float64")
    def _(m, a, k):
        return cast_scalar(m, F8, a[0])
    D["float64"] = F8

    @d("log1p")
    def _(m, a, k):
        raise Unsupported("log1p")

    @d("errstate")
    def _(m, a, k):
        return m.new("nat", {}, "nullctx")

    @d("seterr")
    def _(m, a, k):
        return m.new("dict", {})

    # linear algebra
    lin = {}
    D["linalg"] = NativeModule("np.linalg", lin)
    LinAlgError = type("LinAlgError", (ValueError,), {})
    lin["LinAlgError"] = LinAlgError

    def dl(name):
        def deco(f):
            lin[name] = Native("np.linalg." + name, f)
            return f
        return deco

    def square(m, x):
        if x.ndim != 2 or any(x.masks):
            raise Unsupported("linear algebra on such an array")
        m.must(eq(x.shape[0], x.shape[1]), LinAlgError, "must be square")

    @dl("pinv")
    def _(m, a, k):
        x = to_arr(m, a[0])
        f = m.rreader(x)
        if x.ndim != 2 or not deq(m, x.shape[0], x.shape[1]):
            raise Unsupported("pinv of a rectangular matrix")
        p = pinv_fn(lambda i, j: f((i, j)), x.shape[0])
        return m.array((x.shape[1], x.shape[0]), lambda i: p(i[0], i[1]), m.dtype(x) if m.dtype(x).kind == "f" else F8)

    @dl("inv")
    def _(m, a, k):
        x = to_arr(m, a[0])
        square(m, x)
        f = m.rreader(x)
        if m.decide_lib("singular matrix"):
            m.raise_(LinAlgError, "Singular matrix")
        p = pinv_fn(lambda i, j: f((i, j)), x.shape[0])
        return m.array(x.shape, lambda i: p(i[0], i[1]), m.dtype(x) if m.dtype(x).kind == "f" else F8)

    def solve_with(m, A, b):
        f, g = m.rreader(A), m.rreader(b)
        p = pinv_fn(lambda i, j: f((i, j)), A.shape[0])
        n = A.shape[0]

        def el(i):
            v = fresh("k", "I")
            return sum_(v, num(0), n, mul(p(i[0], v), g((v,) + tuple(i[1:]))))
        return m.array(b.shape, el, promote(m.dtype(A), m.dtype(b), F4), b.masks)

    m_solve = solve_with

    @dl("solve")
    def _(m, a, k):
        A, b = to_arr(m, a[0]), to_arr(m, a[1])
        square(m, A)
        m.must(eq(A.shape[0], b.shape[0]), ValueError, "shapes")
        if m.decide_lib("singular matrix"):
            m.raise_(LinAlgError, "Singular matrix")
        return solve_with(m, A, b)

    @dl("lstsq")
    def _(m, a, k):
        A, b = to_arr(m, a[0]), to_arr(m, a[1])
        if not deq(m, A.shape[0], A.shape[1]):
            raise Unsupported("lstsq of a rectangular system")
        m.must(eq(A.shape[0], b.shape[0]), LinAlgError, "Incompatible dimensions")
        return (solve_with(m, A, b), Opaque("residuals"), Opaque("rank"), Opaque("s"))

    @dl("norm")
    def _(m, a, k):
        x = to_arr(m, a[0])
        if x.ndim != 1:
            raise Unsupported("norm of a matrix")
        o = a[1] if len(a) > 1 else k.get("ord")
        f = m.rreader(x)
        if o is None or (isinstance(o, int) and o == 2):
            s = reduce_sum(m, x, None, body=lambda i: mul(f(i), f(i)))
            return app("norm2", (real(as_term(s)),), "R")
        if isinstance(o, int) and o == 1:
            return reduce_sum(m, x, None, body=lambda i: tabs(f(i)))
        raise Unsupported("norm order")
    smt.AXIOMS["norm2"] = lambda t: [le(num(0), t)]
    lin["linalg"] = Opaque("np.linalg.linalg")

    rnd = {}
    D["random"] = NativeModule("np.random", rnd)

    def randarr(m, shape, nonzero=False):
        nm, ks = m.symfn("rnd")
        if nonzero:
            smt.AXIOMS[nm] = lambda t: [ne(t, num(0))]
            smt.EVAL[nm] = lambda ev, a: ev.tab.setdefault((nm,) + tuple(a), ev.rnd.choice([-2, -1, 1, 3]))
        return m.array(shape, lambda i: app(nm, tuple(i) + ks, "R"), F8)
    rnd["randn"] = Native("np.random.randn", lambda m, a, k: randarr(m, shape_of(m, tuple(a)), True) if a else m.sym("rnd", "R"))
    rnd["rand"] = Native("np.random.rand", lambda m, a, k: randarr(m, shape_of(m, tuple(a))) if a else m.sym("rnd", "R"))
    rnd["normal"] = Native("np.random.normal", lambda m, a, k: randarr(m, shape_of(m, k.get("size", a[2] if len(a) > 2 else ()))))

    def permute(m, x):
        """The array x in a random order."""
        f, n = m.reader(x), x.shape[0]
        nm, ks = m.symfn("perm")
        register_perm(nm)
        return lambda i: f((app(nm, (n, i[0]) + ks, "I"),) + tuple(i[1:]))

    def shuffle(m, a, k):
        x = a[0]
        if isinstance(x, Ref):
            raise Unsupported("shuffle of a list")
        fn = permute(m, x)
        m.write(x, fn)
    rnd["shuffle"] = Native("np.random.shuffle", shuffle)

    def permutation(m, a, k):
        if isinstance(a[0], Arr):
            x = a[0]
        else:
            n = index_value(m, a[0])
            x = m.array((n,), lambda i: i[0], I8)
        fn = permute(m, x)
        return m.array(x.shape, fn, m.dtype(x))
    rnd["permutation"] = Native("np.random.permutation", permutation)

    def choice(m, a, k):
        rep = a[2] if len(a) > 2 else k.get("replace", True)
        if rep is not False:
            raise Unsupported("random choice with replacement")
        r = permutation(m, a[:1], {})
        size = a[1] if len(a) > 1 else k.get("size")
        return arr_getitem(m, r, Slice(None, size, None))
    rnd["choice"] = Native("np.random.choice", choice)
    return NativeModule("numpy", D)


PERMS = {}


def register_perm(nm):
    """nm(n, i): a bijection of [0, n); nm^-1(n, v) its inverse."""
    inv = nm + "^"
    PERMS[nm] = inv

    def ax(t):
        n, i = t.args[:2]
        ok = and_(le(num(0), i), lt(i, n))
        back = app(inv, (n, t) + t.args[2:], "I")
        return [implies(ok, and_(le(num(0), t), lt(t, n), eq(back, i)))]

    def axi(t):
        n, v = t.args[:2]
        ok = and_(le(num(0), v), lt(v, n))
        fw = app(nm, (n, t) + t.args[2:], "I")
        return [implies(ok, and_(le(num(0), t), lt(t, n), eq(fw, v)))]
    smt.AXIOMS[nm] = ax
    smt.AXIOMS[inv] = axi

    def table(ev, n, ks):
        k = ("perm", nm, n, tuple(ks))
        if k not in ev.tab:
            p = list(range(n))
            ev.rnd.shuffle(p)
            ev.tab[k] = p
        return ev.tab[k]

    def evf(ev, a):
        n, i = int(a[0]), int(a[1])
        if not 0 <= i < n:
            raise smt.NoEval("permutation index")
        return table(ev, n, a[2:])[i]

    def evi(ev, a):
        n, i = int(a[0]), int(a[1])
        if not 0 <= i < n:
            raise smt.NoEval("permutation index")
        return table(ev, n, a[2:]).index(i)
    smt.EVAL[nm] = evf
    smt.EVAL[inv] = evi


def seq_items(m, v):
    if isinstance(v, Ref) and m.rec(v).kind == "symlist":
        return m.rec(v).d
    it = iterate(m, v)
    if not isinstance(it, list):
        return {"n": it.n, "fn": it.fn}
    return it


def einsum(m, spec, arrs):
    if not isinstance(spec, str) or "->" not in spec:
        raise Unsupported("einsum")
    lhs, out = spec.replace(" ", "").split("->")
    ins = lhs.split(",")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim or any(a.masks):
            raise Unsupported("einsum")
        for c, n in zip(s, a.shape):
            if c in dims:
                m.must(eq(dims[c], n), ValueError, "einsum shapes")
            else:
                dims[c] = n
    rs = [m.rreader(a) for a in arrs]
    red = [c for c in dims if c not in out]

    def fn(idx):
        e = dict(zip(out, idx))
        vs = {c: fresh("k", "I") for c in red}
        e.update(vs)
        t = num(1)
        for s, r in zip(ins, rs):
            t = mul(t, r(tuple(e[c] for c in s)))
        for c in red:
            t = sum_(vs[c], num(0), dims[c], t)
        return t
    if not out:
        return fn(())
    return m.array([dims[c] for c in out], fn, promote(*[m.dtype(a) for a in arrs]))


def _others(L, np_):
    mods = L.modules
    B = L.builtins
    six = {"integer_types": (B["int"],), "string_types": (B["str"],), "text_type": B["str"]}
    moves = {"xrange": B["range"], "range": B["range"], "cPickle": NativeModule("pickle", {}), "zip": B["zip"], "map": B["map"]}
    six["moves"] = NativeModule("six.moves", moves)
    mods["six"] = NativeModule("six", six)
    mods["os"] = NativeModule("os", {"path": NativeModule("os.path", {}), "getpid": Native("getpid", lambda m, a, k: 1)})
    mods["platform"] = NativeModule("platform", {"system": Native("system", lambda m, a, k: "Linux")})
    mods["math"] = NativeModule("math", {"ceil": Native("math.ceil", lambda m, a, k: pyfix(ceil(nb(as_term(a[0]))))),
                                         "floor": Native("math.floor", lambda m, a, k: pyfix(floor(nb(as_term(a[0]))))),
                                         "sqrt": Native("math.sqrt", lambda m, a, k: tpow(m, as_term(a[0]), num(Fraction(1, 2)))),
                                         "inf": INF, "pi": math.pi})

    def now(m, a, k):
        return m.sym("time", "R")
    mods["time"] = NativeModule("time", {"time": Native("time", now), "perf_counter": Native("time", now)})
    mods["csv"] = NativeModule("csv", {})
    mods["sys"] = NativeModule("sys", {"stdout": Opaque("stdout")})
    mods["warnings"] = NativeModule("warnings", {"warn": Native("warn", lambda m, a, k: None)})
    from dv import scilib
    scilib.install(L)

"""Values of the verifier's interpreter and the explicit heap they live in.

Numbers are mathematical (integers, reals); an array is a view of a buffer, a buffer's content is a function from index
terms to an element term.  Heap records are copied on snapshot, so states can be compared and restored.
"""
from dv.term import *
from dv import term as tm


class Unsupported(Exception):
    """Outside the verifier's subset: the obligation stays undecided."""


class Hint(Exception):
    """Guess for the change of locations over one iteration (location, value at its end); verified like any invariant."""

    def __init__(self, pairs):
        self.pairs = pairs


class JunkRead(Exception):
    def __init__(self, loc):
        Exception.__init__(self, "value not known: %s" % (loc,))
        self.loc = loc


class PyRaise(Exception):
    """An exception of the interpreted program."""

    def __init__(self, exc):
        Exception.__init__(self, str(exc))
        self.exc = exc


class ExcVal(object):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, tuple(self.args))


class Junk(object):
    """A location whose value is not known; reading it is an error of the summary, not of the program."""

    def __init__(self, loc):
        self.loc = loc


class Ref(object):
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "<ref %d>" % self.id


class Rec(object):
    __slots__ = ("kind", "d", "x")

    def __init__(self, kind, d, x=None):
        self.kind, self.d, self.x = kind, d, x

    def copy(self):
        return Rec(self.kind, dict(self.d), list(self.x) if isinstance(self.x, list) else self.x)


class DType(object):
    """np.float64 & co: dtype object and scalar type in one."""

    def __init__(self, name, kind, size):
        self.name, self.kind, self.size = name, kind, size

    def __repr__(self):
        return "np." + self.name


F8 = DType("float64", "f", 8)
F4 = DType("float32", "f", 4)
I8 = DType("int64", "i", 8)
I4 = DType("int32", "i", 4)
U1 = DType("int8", "i", 1)
BOOL = DType("bool", "b", 1)
OBJ = DType("object", "O", 8)
STR = DType("str", "U", 4)
BYTES = DType("bytes", "S", 1)
DTYPES = {d.name: d for d in (F8, F4, I8, I4, U1, BOOL, OBJ)}


def promote(*ds):
    k = "".join(d.kind for d in ds)
    if "O" in k:
        return OBJ
    if "f" in k:
        if all(d is F4 or d.kind == "b" or d.size < 4 for d in ds):
            return F4
        return F8 if any(d is F8 or (d.kind in "iu" and d.size >= 4) for d in ds) else F4
    if "i" in k or "u" in k:
        return max([d for d in ds if d.kind in "iu"], key=lambda d: d.size)
    return BOOL


class Content(object):
    """Immutable content of a buffer: base function, or a rectangle written over another content."""
    __slots__ = ("fn", "base", "region", "val", "memo")

    def __init__(self, fn=None, base=None, region=None, val=None):
        self.fn, self.base, self.region, self.val = fn, base, region, val
        self.memo = {}

    def __call__(self, idx):
        k = tuple(i.id for i in idx)
        r = self.memo.get(k)
        if r is None:
            if self.base is None:
                r = num(self.fn(idx))
            else:
                c = region_cond(self.region, idx)
                if c is TRUE:
                    r = num(self.val(idx))
                elif c is FALSE:
                    r = self.base(idx)
                else:
                    v, o = num(self.val(idx)), self.base(idx)
                    if v.sort == "B" and o.sort != "B":
                        v = ind(v)
                    r = ite(c, v, o)
            self.memo[k] = r
        return r


def region_cond(region, idx):
    cs = []
    for r, j in zip(region, idx):
        if r[0] == "eq":
            cs.append(eq(j, r[1]))
        elif r[0] == "rng":
            cs += [le(r[1], j), lt(j, r[2])]
        elif r[0] == "cond":
            cs.append(r[1](j))
    return and_(*cs)


class Mask(object):
    """Axis enumerating, in order, the base indices s in [0, n) with cond(s)."""

    def __init__(self, n, cond):
        self.n, self.cond = n, cond
        v = fresh("q", "I")
        self.count = sum_(v, num(0), n, ind(cond(v)))

    def same(self, o):
        if self is o:
            return True
        if o is None or self.n is not o.n:
            return False
        v = fresh("q", "I")
        return self.cond(v) is o.cond(v)


class Arr(object):
    """View of a buffer.  bmap: per buffer axis ('fix', t) or ('ax', a, off, step); masks: per view axis Mask or None."""
    __slots__ = ("buf", "bmap", "shape", "masks")

    def __init__(self, buf, bmap, shape, masks=None):
        self.buf, self.bmap, self.shape = buf, tuple(bmap), tuple(num(s) for s in shape)
        self.masks = tuple(masks) if masks else (None,) * len(self.shape)

    @property
    def ndim(self):
        return len(self.shape)

    def bidx(self, idx):
        out = []
        for b in self.bmap:
            if b[0] == "fix":
                out.append(b[1])
            else:
                t = idx[b[1]]
                if b[3] != 1:
                    t = mul(t, num(b[3]))
                out.append(add(t, b[2]))
        return tuple(out)

    def same(self, o):
        if not isinstance(o, Arr) or self.buf != o.buf or self.shape != o.shape or len(self.bmap) != len(o.bmap):
            return False
        return all(a == b for a, b in zip(self.bmap, o.bmap))

    def __repr__(self):
        return "<array %s>" % (self.shape,)


class SymSeq(object):
    """Iterable of n values fn(k)."""

    def __init__(self, n, fn):
        self.n, self.fn = num(n), fn


class Native(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class NativeModule(object):
    def __init__(self, name, d):
        self.name, self.d = name, d


class PyModule(object):
    def __init__(self, name, frame, package):
        self.name, self.frame, self.package = name, frame, package


class PyClass(object):
    def __init__(self, name, bases, d):
        self.name, self.bases, self.d = name, bases, d

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.d:
                return c.d[name]
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class Func(object):
    def __init__(self, node, frame, module, defaults, kwdefaults, name, cls=None):
        self.node, self.frame, self.module, self.defaults, self.kwdefaults = node, frame, module, defaults, kwdefaults
        self.name, self.cls = name, cls

    def __repr__(self):
        return "<function %s>" % self.name


class Bound(object):
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Ufunc(object):
    """np.ufunc value: elementwise function; f(terms) -> term."""

    def __init__(self, name, f, nin=1, out=None):
        self.name, self.f, self.nin, self.out = name, f, nin, out

    def __repr__(self):
        return "<ufunc %s>" % self.name


class Opaque(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class StrVal(object):
    """A string the verifier does not follow (formatted message)."""

    def __repr__(self):
        return "<str>"


NAME_CODES = {}


def name_code(v):
    """Number that stands for a name (text or function) in terms."""
    k = v if isinstance(v, str) else id(v)
    if k not in NAME_CODES:
        NAME_CODES[k] = (len(NAME_CODES), v)
    return num(NAME_CODES[k][0])


for _n in ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf"):
    name_code(_n)


class NameVal(object):
    """One of a set of names (texts or functions), told by a term."""

    def __init__(self, t):
        self.t = num(t)

    def __repr__(self):
        return "<name %s>" % (self.t,)


class Slice(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def veq(a, b):
    """Same value for certain."""
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        try:
            return num(a) is num(b) if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)) else False
        except ValueError:
            return False
    if isinstance(a, Arr):
        return a.same(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, Ref):
        return a == b
    if isinstance(a, NameVal):
        return isinstance(b, NameVal) and a.t is b.t
    if type(a) is type(b) and isinstance(a, (int, float, str, bytes, bool, type(None))):
        return a == b or (a != a and b != b)
    return False


def vsubst(v, name, t, m=None):
    """Value with the integer variable `name` replaced by t."""
    if isinstance(v, T):
        return subst(v, {name: t})
    if isinstance(v, NameVal):
        return NameVal(subst(v.t, {name: t}))
    if isinstance(v, tuple):
        return tuple(vsubst(x, name, t, m) for x in v)
    if isinstance(v, (Arr, SymSeq)):
        return m.subst_arr(v, name, t)
    if isinstance(v, Ref) and m is not None:
        return m.subst_ref(v, name, t)
    return v

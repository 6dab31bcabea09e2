"""Small programs for tools/conform.py: (name, arguments, source of f). Sizes in capitals are at least 1, small letters at least 0."""
import textwrap
SNIPPETS = []


def s(name, args, src):
    src = textwrap.dedent(src).strip("\n")
    if "def f" not in src:
        src = "def f(%s):\n%s" % (", ".join(a.split(":")[0] for a in args.split()), textwrap.indent(src, "    "))
    SNIPPETS.append((name, args, "import numpy as np\n" + src + "\n"))


# loops
s("sum loop", "x:fN", "t = 0\nfor i in range(x.shape[0]):\n    t += x[i] * i\nreturn t")
s("batch loop", "x:fNxK b:pos", """
out = np.zeros((x.shape[0], x.shape[1]))
nb = int(np.ceil(float(x.shape[0]) / b))
for i in range(nb):
    a, e = i * b, min((i + 1) * b, x.shape[0])
    out[a:e] = x[a:e] * 2
return out""")
s("batch sum", "x:fNxK b:pos", """
t = np.zeros(x.shape[1])
for i in range(0, x.shape[0], b):
    t += x[i:i+b].sum(axis=0)
return t""")
s("batch while", "x:fN b:pos", """
i, t, n = 0, 0.0, 0
while i < len(x):
    e = min(i + b, len(x))
    t += x[i:e].sum()
    i = e
    n += 1
return t, n, i""")
s("append loop", "x:iN", "out = []\nfor v in x:\n    out.append(v + 1)\nreturn np.array(out)")
s("filter comp", "x:iN k:int", "return [i for i in x if i < k]")
s("filter comp shift", "x:iN k:int", "a = [i for i in x if i < k]\nb = [i - k for i in x if i >= k]\nreturn len(a), len(b)")
s("first match", "x:iN k:int", "r = -1\nfor i in range(len(x)):\n    if x[i] == k:\n        r = i\n        break\nreturn r")
s("first match else", "x:iN k:int", "for i, v in enumerate(x):\n    if v == k:\n        return i\nelse:\n    return -7")
s("early raise", "x:iN", "for v in x:\n    if v < 0:\n        raise ValueError('neg')\nreturn x.sum()")
s("continue", "x:iN", "t = 0\nfor v in x:\n    if v < 0:\n        continue\n    t += v\nreturn t")
s("count", "x:iN y:iN", "t = 0\nfor i in range(len(x)):\n    if x[i] == y[i]:\n        t += 1\nreturn t")
s("nested count", "x:iN y:iN c:pos", """
m = np.zeros((c, c))
for i in range(c):
    for j in range(c):
        m[i, j] += np.logical_and(x == i, y == j).sum()
return m""")
s("last value", "x:fN", "v = None\nfor v in x:\n    pass\nreturn v")
s("prefix assign", "x:fN k:int", "y = np.zeros(x.shape[0])\nfor i in range(min(k, len(x))):\n    y[i] = x[i]\nreturn y")
s("running", "x:fN", "a = 0\nout = np.zeros(len(x))\nfor i in range(len(x)):\n    a = a + x[i]\n    out[i] = a\nreturn out")
s("generator", "x:fN b:pos", """
def parts(n, b):
    for i in range(0, n, b):
        yield i, min(i + b, n)

def f(x, b):
    t = np.zeros(x.shape[0])
    for a, e in parts(len(x), b):
        t[a:e] = x[a:e] + a
    return t""")
s("generator break", "x:iN", """
def items(x):
    for v in x:
        if v != 0:
            yield v

def f(x):
    for v in items(x):
        if v < 0:
            return v
    return 5""")
s("generator finally", "k:int", """
def g(log):
    try:
        yield 1
        yield 2
        yield 3
    finally:
        log.append('end')

def f(k):
    log = []
    for v in g(log):
        log.append(v)
        if v > k:
            break
    return log""")
s("generator list", "k:int", "def g():\n    yield 1\n    yield 2\n\ndef f(k):\n    return list(g()), [v + k for v in g()]")
s("enumerate generator", "k:int", """
def g():
    yield 4
    yield 5

def f(k):
    t = []
    for i, v in enumerate(g(), k):
        t.append(i * v)
    return t""")
s("array_split", "x:fN b:pos", """
nb = int(np.ceil(float(x.shape[0]) / b))
t = 0
n = 0
for p in np.array_split(x, nb, axis=0):
    t += p.sum()
    n += p.shape[0]
return t, n""")
s("zip split", "x:fNxK y:fNxK b:pos", """
nb = int(np.ceil(float(x.shape[0]) / b))
h = np.zeros((x.shape[1], y.shape[1]))
for p, q in zip(np.array_split(x, nb, axis=0), np.array_split(y, nb, axis=0)):
    h += np.dot(p.T, q)
return h""")
s("while halving", "n:int", "k = 0\nwhile n > 2 and k < 3:\n    n = n // 2\n    k += 1\nreturn n, k")
s("dict loop", "k:int", "d = {}\nfor i in range(3):\n    d[i] = i * k\nreturn d")
# indexing
s("slice", "x:fN a:int b:int", "return x[a:b]")
s("slice 2", "x:fNxK a:int b:int", "return x[a:b, :b]")
s("strided", "x:fN k:pos", "return np.arange(x.shape[0])[1::k]")
s("strided rows", "x:fNxK k:pos", "return x[np.arange(len(x))[0::k]]")
s("negative index", "x:fN", "return x[-1]")
s("index", "x:fN k:int", "return x[k]")
s("fancy", "x:fNxK", "return x[[0, 0]]")
s("mask", "x:iN", "return x[x > 0]")
s("mask rows", "x:fNxK y:iN", "return x[y == 1].sum()")
s("mask count", "x:iN", "return len(x[x == 1]), (x == 1).sum()")
s("where", "x:iN", "i = np.where(x == 1)[0]\nreturn len(i), i")
s("where 2", "x:iNx3", "return np.where(x == 1)[1].shape[0]")
s("where rows", "x:iN y:fNxK", "i = np.where(x == 1)[0]\nreturn y[i].argmax(1)")
s("where mean", "x:iN y:iN", "i = np.where(x == 1)[0]\nif len(i) > 0:\n    return np.not_equal(y[i], 1).sum()\nreturn -1")
s("set slice", "x:fN k:int", "y = x.copy()\ny[:k] = 0\nreturn y")
s("set column", "x:fNxK", "x[:, 0] = 5\nreturn x[:, 0]")
s("set fancy", "x:fNxK", "y = x.copy()\ny[[0]] = 7\nreturn y")
s("set mask", "x:fN", "x[x < 0] = 0\nreturn x.sum()")
s("diag add", "x:fNxN", "y = x.copy()\ny[np.diag_indices_from(y)] += 3\nreturn y")
s("fill diag", "n:pos", "y = np.zeros((n, n))\nnp.fill_diagonal(y, 2)\nreturn y")
s("diag ravel", "x:fNxN", "x.ravel()[::x.shape[0] + 1] += 1\nreturn x")
s("ellipsis none", "x:fN", "return x[:, None] * x[None, :]")
s("two fancy", "x:fNxN k:int", "r = np.arange(x.shape[0])[:k]\nreturn x[r, :][:, r]")
s("ix_", "x:fNxN k:int", "r = np.arange(x.shape[0])[:k]\nreturn x[np.ix_(r, r)]")
s("permuted", "x:fNxK", "i = np.arange(x.shape[0])[::-1]\nreturn x[i]")
# aliasing
s("view write", "x:fNxK", "y = x[:, 0]\ny[0] = 9\nreturn x")
s("copy write", "x:fNxK", "y = x[:, 0].copy()\ny[0] = 9\nreturn x")
s("iadd", "x:fN", "y = x\ny += 1\nreturn x")
s("add new", "x:fN", "y = x\ny = y + 1\nreturn x")
s("astype copy", "x:fN", "y = x.astype(np.float64)\ny[0] = 4\nreturn x")
s("asarray alias", "x:fN", "y = np.asarray(x)\ny[0] = 4\nreturn x")
s("array copy", "x:fN", "y = np.array(x)\ny[0] = 4\nreturn x")
s("reshape alias", "x:fN", "y = x.reshape(-1, 1)\ny[0, 0] = 4\nreturn x")
s("T alias", "x:fNxK", "y = x.T\ny[0, 0] = 4\nreturn x")
s("ravel", "x:fNxK", "return x.ravel()")
s("swap", "x:fN", "a = x[0]\nx[0] = x[-1]\nx[-1] = a\nreturn x")
s("shift overlap", "x:fN", "x[1:] = x[:-1].copy()\nreturn x")
s("rows swap", "x:fNxK", "x[[0, -1]] = x[[-1, 0]]\nreturn x")
# functions
s("sum axes", "x:fNxK", "return x.sum(), x.sum(axis=0), x.sum(1), np.sum(x, axis=1)")
s("mean", "x:fNxK", "return x.mean(), x.mean(axis=0), np.mean(x)")
s("mean bool", "x:iN", "return np.mean(x == 1), (x > 0).mean()")
s("argmax", "x:fNxK", "return x.argmax(1)")
s("argmax 1d", "x:fN", "return x.argmax(), np.argmin(x)")
s("argmax eq", "x:fNxK y:fNxK", "return np.mean(x.argmax(1) != y.argmax(1))")
s("maximum", "x:fN k:int", "return np.maximum(x, k), np.minimum(x, 1)")
s("min max", "x:fN", "return min(x[0], x[-1]), max(3, x[0], 1)")
s("dot", "x:fNxK y:fKxM", "return np.dot(x, y)")
s("dot vec", "x:fNxK y:fK", "return np.dot(x, y)")
s("dot T", "x:fNxK", "return np.dot(x.T, x)")
s("matmul", "x:fNxK y:fKxM", "return x @ y")
s("hstack", "x:fNxK y:fNxM", "return np.hstack((x, y))")
s("hstack 1", "x:fN y:fM", "return np.hstack((x, y))")
s("vstack", "x:fNxK y:fMxK", "return np.vstack((x, y))")
s("concatenate", "x:fNxK y:fMxK", "return np.concatenate([x, y], axis=0)")
s("broadcast", "x:fNxK y:fK", "return (x - y) / 2")
s("broadcast bad", "x:fNxK y:fM", "return x + y")
s("dot bad", "x:fNxK y:fMxK", "return np.dot(x, y)")
s("power", "x:fN", "return x ** 2, (x * x) ** 1")
s("logic", "x:iN y:iN", "return np.logical_and(x == 1, y == 1), (x == 1) & ~(y == 1), np.logical_or(x > 0, y > 0)")
s("any all", "x:iN", "return (x > 0).any(), (x > 0).all(), np.any(x < -5)")
s("unique like", "n:pos", "return np.arange(n)[::-1]")
s("linspace", "n:int", "return np.arange(2, n + 3)")
s("zeros ones", "n:int k:int", "return np.zeros((n, k)), np.ones((n,)) * -1, np.ones(n)[:, None]")
s("eye", "n:pos", "return np.eye(n) * 3")
s("astype int", "x:fN", "return x.astype(int), x.astype(np.int64)")
s("bool num", "x:iN", "return (x == 1) * 2, (x == 1).astype(float)")
s("floor div", "n:int k:pos", "return n // k, n % k, -n // k, 3 * n // 4")
s("ceil", "n:int k:pos", "return int(np.ceil(float(n) / k)), int(np.floor(float(n) / k)), int(float(n) / k)")
s("div mod neg", "n:int k:pos", "return (-n) % k, int(-n / k)")
s("abs", "x:fN", "return np.abs(x), abs(x[0])")
s("outer", "x:fN y:fM", "return np.outer(x, y)")
s("triu", "x:fNxN", "return np.triu(x)")
s("symm from triu", "x:fNxN", "return np.triu(x) + np.triu(x, 1).T")
s("tril idx", "x:fNxN", "y = x.copy()\nfor i in range(len(y)):\n    for j in range(i):\n        y[i, j] = y[j, i]\nreturn y")
s("diagonal", "x:fNxN", "return x.diagonal(), np.diag(x)")
s("trace-like", "x:fNxN", "return x.sum(axis=1) - x.diagonal()")
s("tile", "x:fN", "return x.reshape(1, -1) * np.ones((2, 1))")
s("clip", "x:fN", "return np.minimum(np.maximum(x, 0), 1)")
s("list index", "k:int", "l = ['a', 'b', 'c']\nreturn l.index('b') + k, 'b' in l, l[-1]")
s("list ops", "k:int", "l = [1, 2]\nl.append(k)\nl2 = list(l)\nl2[0] = 9\nreturn l, l2, l + l2, len(l)")
s("list alias", "k:int", "l = [1, 2]\nm = l\nm.append(k)\nl += [3]\nreturn m")
s("tuple unpack", "k:int", "a, (b, c) = k, (1, 2)\na, b = b, a\nreturn a, b, c")
s("star args", "k:int", "def g(a, *b, **c):\n    return a, len(b), sorted(c)\n\ndef f(k):\n    return g(k, 1, 2, z=1, y=2)")
s("closure", "k:int", "def f(k):\n    fs = [lambda x: x + k, lambda x: x * k]\n    return [g(3) for g in fs]")
s("late closure", "k:int", "def f(k):\n    fs = []\n    for i in range(2):\n        fs.append(lambda: i)\n    return [g() for g in fs]")
s("default arg", "k:int", "def g(x, l=[]):\n    l.append(x)\n    return l\n\ndef f(k):\n    g(1)\n    return g(k)")
s("try finally", "k:int", "l = []\ntry:\n    if k > 2:\n        raise KeyError('x')\n    l.append(1)\nexcept (ValueError, KeyError):\n    l.append(2)\nelse:\n    l.append(3)\nfinally:\n    l.append(4)\nreturn l")
s("try return", "k:int", "def g(l, k):\n    try:\n        return k\n    finally:\n        l.append(1)\n\ndef f(k):\n    l = []\n    return g(l, k), l")
s("class", "k:int", """
class A(object):
    n = 3
    def __init__(self, v):
        self.v = v
    @property
    def twice(self):
        return self.v * 2
    def add(self, o):
        self.v += o
        return self

class B(A):
    def add(self, o):
        return super(B, self).add(o + 1)

def f(k):
    b = B(k)
    return b.add(2).v, b.twice, b.n, isinstance(b, A)""")
s("with", "k:int", """
class C(object):
    def __init__(self, l):
        self.l = l
    def __enter__(self):
        self.l.append('in')
        return self
    def __exit__(self, *a):
        self.l.append('out')

def f(k):
    l = []
    try:
        with C(l):
            if k > 2:
                raise ValueError('x')
            l.append(1)
    except ValueError:
        l.append(2)
    return l""")
s("chained", "k:int", "return 1 < k <= 3, 1 if k else 2, k or 7, k and 8, not k")
s("string ops", "k:int", "a = 'Ab'.lower()\nreturn a == 'ab', a.upper() in ('AB', 'C'), 'x' + a")
s("slices of slices", "x:fN a:int b:int", "y = x[a:]\nz = y[:b]\nreturn z.shape[0], z")
s("negative slice", "x:fN", "return x[:-1], x[-2:]")
s("assert", "x:fNxK y:fM", "assert x.shape[1] == len(y), 'bad'\nreturn 1")
s("len checks", "x:fN", "if len(x.shape) == 1:\n    x = x.reshape(-1, 1)\nreturn x.shape, x.ndim, x.size")
s("concat empty", "x:fN k:int", "return np.hstack((x[:k], x[k:]))")
s("sorted idx", "k:int", "return sorted([3, 1, 2]), sum([1, k]), max([1, 3])")
s("cumsum by group", "k:pos", "ns = [2, 3]\nt = 0\nout = []\nfor n in ns:\n    out.append((t, t + n * k))\n    t += n * k\nreturn out")
s("bool sum by column", "x:iNxK", "return (x == 1).sum(axis=0), np.sum(x > 0)")
s("std", "x:fN", "m = x.mean()\nreturn ((x - m) ** 2).sum() / len(x)")
s("select", "x:fN", "return np.where(x > 0, x, 0)")
s("in-place column scale", "x:fNxK w:fN", "h = x.copy()\nh *= w[:, None]\nreturn h")
s("scatter add", "x:iN c:int", "t = np.zeros(4)\nfor v in x:\n    if 0 <= v < 4:\n        t[v] += 1\nreturn t")
s("arange array rank", "n:pos k:pos", "r = np.arange(n)\nk = min(k, n)\nreturn r[:k].sum(), r[k - 1]")

"""Generators of models and data, and the mathematical oracles, written from the documentation (not from the code)."""
import numpy as np
import tables
from rt.base import *

FUNCS = ["lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf"]
UF = {"np.sin": np.sin, "np.arctan": np.arctan, "np.cos": np.cos}


def column(func, X, w, b):
    X = np.asarray(X, dtype=float)
    w = np.asarray(w, dtype=float)
    b = float(b)
    d = np.abs(X - w[None, :])
    if func == "rbf_l1":
        return np.exp(-d.sum(1) ** 2 / b)
    if func == "rbf_l2":
        return np.exp(-(d ** 2).sum(1) / b)
    if func == "rbf_linf":
        return np.exp(-d.max(1) ** 2 / b)
    z = X.dot(w) + b
    if func == "lin":
        return z
    if func == "sigm":
        return 1 / (1 + np.exp(z))
    if func == "tanh":
        return np.tanh(z)
    return func(z)


def layer_matrix(layer, X):
    cols = [column(f, X, W[:, j], B[j]) for f, W, B in layer for j in range(W.shape[1])]
    return np.array(cols).T if cols else np.zeros((len(X), 0))


class Layer(list):
    """[(func, W, B)] merged by type, in order of first addition."""

    def add(self, func, W, B):
        for i, (f, W0, B0) in enumerate(self):
            if f is func or f == func:
                self[i] = (f, np.hstack((W0, W)), np.hstack((B0, B)))
                return
        self.append((func, W.copy(), B.copy()))

    @property
    def L(self):
        return sum(W.shape[1] for _, W, _ in self)

    def pick(self, idx):
        """The layer left by the neurons idx, in the given order inside each type."""
        out = []
        off = 0
        for f, W, B in self:
            k = W.shape[1]
            ii = [i - off for i in idx if off <= i < off + k]
            out.append((f, W[:, ii], B[ii]))
            off += k
        return Layer(out)


def same_layer(neurons, layer, what="neurons", empty_ok=True):
    got = [n for n in neurons if n[0] > 0 or not empty_ok]
    exp = [n for n in layer if n[1].shape[1] > 0 or not empty_ok]
    check(len(got) == len(exp), "%s: %d neuron types, expected %d", what, len(got), len(exp))
    for (n, f, W, B), (f2, W2, B2) in zip(got, exp):
        check(f is f2 or f == f2, "%s: type %s, expected %s", what, f, f2)
        check(n == W2.shape[1], "%s: count %s, expected %d", what, n, W2.shape[1])
        check(W.shape == W2.shape and np.array_equal(W, W2), "%s: weights of %s changed", what, f)
        check(B.shape == B2.shape and np.array_equal(B, B2), "%s: biases of %s changed", what, f)


def new_model(g, kind=None, solver=None, prec=None, inputs=None, outputs=None, norm="?", batch=None, cls="", w=None, tag=""):
    from hpelm import ELM, HPELM
    kind = kind or g.choice("kind" + tag, ["ELM", "HPELM"])
    solver = solver or g.choice("solver" + tag, ["python", "basic"])
    prec = prec or g.choice("prec" + tag, ["double", "double", "double", "single"])
    inputs = inputs or g.int("inputs", 1, 4)
    outputs = outputs or g.int("outputs", 1, 3)
    if norm == "?":
        norm = g.choice("norm" + tag, [None, 0.01, 0.5, 3.0, 20.0])
    if norm is None and prec == "single":
        norm = 0.5
    batch = batch or g.int("batch" + tag, 1, 12)
    C = ELM if kind == "ELM" else HPELM
    if solver == "basic":
        m = C(inputs, outputs, classification=cls, w=w, batch=batch, accelerator="basic", precision=prec, norm=norm)
    else:
        m = C(inputs, outputs, classification=cls, w=w, batch=batch, precision=prec, norm=norm)
    m._p = np.float32 if prec == "single" else np.float64
    return m


def rand_neurons(g, inputs, k, func, p=np.float64):
    W = g.np.uniform(-1.5, 1.5, (inputs, k)).astype(p)
    B = g.np.uniform(-1, 1, k)
    if isinstance(func, str) and func.startswith("rbf"):
        B = np.abs(B) + 0.5
    return W, B.astype(p)


def add_layer(g, m, maxtypes=3, maxper=3, types=None, repeat=True, total=None, tag=""):
    lay = Layer()
    inputs = m.nnet.inputs
    n = g.int("types" + tag, 1, maxtypes)
    pool = types or (FUNCS + ["np.sin", "np.arctan"])
    for i in range(n):
        t = g.choice("type" + tag, pool)
        k = g.int("count" + tag, 1, maxper)
        f = UF.get(t, t)
        W, B = rand_neurons(g, inputs, k, f, m._p)
        m.add_neurons(k, f, W.copy(), B.copy())
        lay.add(f, W, B)
    return lay


def build(g, maxtypes=3, maxper=3, types=None, **kw):
    m = new_model(g, **kw)
    lay = add_layer(g, m, maxtypes, maxper, types)
    return m, lay


def inputs_matrix(g, N, d, p=np.float64, odd=True):
    X = g.np.uniform(-1.5, 1.5, (N, d)).astype(p)
    if odd:
        f = g.choice("layout", ["C", "C", "F", "strided", "int"])
        if f == "F":
            X = np.asfortranarray(X)
        elif f == "strided":
            X = np.repeat(X, 2, axis=0)[::2]
        elif f == "int":
            X = np.round(X * 2).astype(int)
    return X


def onehot(g, N, c, every=False):
    k = g.np.randint(0, c, N)
    if every and N >= c:
        k[g.np.permutation(N)[:c]] = np.arange(c)
    T = np.zeros((N, c))
    T[np.arange(N), k] = 1
    return T


def targets(g, N, c, mode, p=np.float64, every=False):
    if mode in ("c", "wc"):
        T = onehot(g, N, c, every)
    elif mode == "ml":
        T = (g.np.uniform(size=(N, c)) > 0.5).astype(float)
    else:
        T = g.np.uniform(-1, 1, (N, c))
    return T.astype(p)


def gram(layer, X, T, norm, w=None):
    H = layer_matrix(layer, X)
    T = np.asarray(T, dtype=float)
    if w is not None:
        HW = H * np.asarray(w, dtype=float)[:, None]
    else:
        HW = H
    return HW.T.dot(H) + norm * np.eye(H.shape[1]), HW.T.dot(T)


def solves(A, C, B, tol, what="weights"):
    """B is a solution (or a least-squares solution) of A B = C."""
    B = np.asarray(B, dtype=float)
    check(B.shape == C.shape, "%s: shape %s, expected %s", what, B.shape, C.shape)
    check(bool(np.all(np.isfinite(B))), "%s are not finite", what)
    cond = np.linalg.cond(A)
    if not cond < (1e10 if tol < 1e-7 else 3e3):
        return    # accuracy on ill-conditioned systems is a floating-point question (C25), not decided here
    s = np.linalg.norm(A) * np.linalg.norm(B) + np.linalg.norm(C) + 1e-300
    r = np.linalg.norm(A.dot(B) - C) / s
    check(r <= tol * max(1.0, cond * 1e-6), "%s do not solve the system: relative residual %.3g", what, r)
    if cond < 1e5:
        close(B, np.linalg.solve(A, C), tol * 1e5 if tol < 1e-7 else 0.05, what)


def tol_of(m):
    return 1e-9 if m._p is np.float64 else 1e-4


def h5write(path, A):
    with tables.open_file(path, "w") as h5:
        a = tables.Atom.from_dtype(np.dtype(A.dtype), dflt=0)
        d = h5.create_carray(h5.root, "whatever", a, A.shape)
        d[:] = A
    return path


def h5read(path):
    with tables.open_file(path, "r") as h5:
        nodes = [n for n in h5.walk_nodes() if isinstance(n, tables.Array)]
        check(len(nodes) == 1, "%s holds %d arrays", path, len(nodes))
        return nodes[0][:]


_n = [0]


def as_source(g, A, name, file_p=0.5):
    """The array itself or an HDF5 file with it."""
    if g.bool("file_" + name, file_p):
        _n[0] += 1
        return h5write("src_%s_%d.h5" % (name, _n[0]), np.ascontiguousarray(A))
    return A


def closefiles(m):
    for h5 in m.opened_hdf5:
        try:
            h5.close()
        except Exception:
            pass
    m.opened_hdf5[:] = []


def class_weights(T):
    ns = np.asarray(T, dtype=float).sum(0)
    return ns.sum() / ns


def sample_weights(T, wc):
    return np.asarray(wc, dtype=float)[np.argmax(T, 1)]


def snapshot(m):
    """Observable state of a model."""
    n = m.nnet
    cp = lambda a: None if a is None else np.array(a)
    return dict(neurons=[(k, f, W.copy(), B.copy()) for k, f, W, B in n.neurons], L=n.L, B=cp(n.B), HH=cp(n.HH),
                HT=cp(n.HT), norm=n.norm, inputs=n.inputs, outputs=n.outputs, precision=n.precision,
                classification=m.classification, wc=cp(m.wc), batch=m.batch, ranking=m.ranking, kmax_op=m.kmax_op,
                mprec=m.precision)


def same_state(a, b, what="model", ignore=()):
    for k in a:
        if k in ignore:
            continue
        if k == "neurons":
            check(len(a[k]) == len(b[k]), "%s: neurons changed", what)
            for x, y in zip(a[k], b[k]):
                check(x[0] == y[0] and (x[1] is y[1] or x[1] == y[1]) and same(x[2], y[2]) and same(x[3], y[3]),
                      "%s: neurons changed", what)
        elif isinstance(a[k], np.ndarray) or isinstance(b[k], np.ndarray):
            check(isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray) and same(a[k], b[k]),
                  "%s: %s changed", what, k)
        else:
            check(a[k] is b[k] or a[k] == b[k], "%s: %s changed from %s to %s", what, k, a[k], b[k])


def error_oracle(mode, T, Y, w=None):
    T = np.asarray(T, dtype=float)
    Y = np.asarray(Y, dtype=float)
    if mode == "c":
        return float(np.mean([a.argmax() != b.argmax() for a, b in zip(Y, T)]))
    if mode == "ml":
        return float(((Y > 0.5) != (T > 0.5)).mean())
    if mode == "wc":
        tot = 0.0
        for i in range(T.shape[1]):
            rows = [r for r in range(len(T)) if T[r, i] == 1]
            if rows:
                tot += float(w[i]) * np.mean([Y[r].argmax() != i for r in rows])
        return tot / float(np.sum(w))
    return float(((T - Y) ** 2).mean())


def confusion_oracle(mode, T, Y):
    c = T.shape[1]
    C = np.zeros((c, c))
    for t, y in zip(T, Y):
        if mode == "ml":
            C += np.outer(t > 0.5, y > 0.5)
        else:
            C[np.argmax(t), np.argmax(y)] += 1
    return C

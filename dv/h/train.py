"""C01, C02, C03 (data feeding), C23: statistics and solution."""
from dv.spec import *


def stats(m, c, X, T, lo, hi, wt=None, norm=True):
    """Specification: (HH, HT) of samples lo..hi-1; wt(s) the weight of sample s."""
    w = (lambda s: wt(s)) if wt else (lambda s: num(1))
    H = lambda s, i: hid(m, X, s, c.inputs, i)
    HH = lambda ij: add(sumrows(lo, hi, lambda s: mul(w(s), H(s, ij[0]), H(s, ij[1]))),
                        mul(c.norm, ind(eq(ij[0], ij[1]))) if norm else num(0))
    HT = lambda ij: sumrows(lo, hi, lambda s: mul(w(s), H(s, ij[0]), T((s, ij[1]))))
    return HH, HT


def check_corr(m, c, HH, HT, name=""):
    r = m.call(m.getattr(c.nnet, "get_corr"), [])
    a, b = m.lib.unpack(m, r, 2)
    same_elements(m, name + "HH is norm*I + sum h'wh over the samples", a, HH, (c.L, c.L))
    same_elements(m, name + "HT is sum h'wt over the samples", b, HT, (c.L, c.outputs))


def setup(m, cls, solver, prec, weights, src, dtype=F8, **kw):
    """-> (context, value for X, value for T, reader of X, reader of T, N, weight function or None)

    weights: None | 'given' (class weights given) | 'auto' (computed) | 'c' | 'ml' (no weights)."""
    cl = {None: "", "given": "wc", "auto": "wc"}.get(weights, weights)
    w = None
    if weights == "given":
        w = 0  # placeholder
    c = Ctx()
    if weights == "given":
        outs = I(m, "outputs", 2)
        w = m.array((outs,), lambda i: app("wt", (i[0],), "R"), F8)
    c = model(m, cls, solver, prec, cl, w, **kw)
    N = I(m, "N", 1)
    X = matrix(m, "X", (N, c.inputs), dtype)
    T = onehot(m, "T", N, c.outputs, dtype) if cl in ("c", "wc") else matrix(m, "T", (N, c.outputs), dtype)
    fx, ft = m.rreader(X), m.rreader(T)
    if src == "file":
        scilib.h5store(m, "x.h5", X)
        scilib.h5store(m, "t.h5", T)
        X, T = "x.h5", "t.h5"
    return c, X, T, fx, ft, N


def weight(m, c, weights, ft, lo, hi):
    """Weight of a sample, as documented."""
    if weights not in ("given", "auto"):
        return None
    cls = lambda s: app("Tcls", (s,), "I")
    if weights == "given":
        return lambda s: app("wt", (cls(s),), "R")
    cnt = lambda k: sumrows(lo, hi, lambda s: ind(eq(cls(s), k)))
    return lambda s: mul(sub(hi, lo), recip(real(cnt(cls(s)))))


def lab(cls, solver, prec, weights, src):
    return "%s solver=%s precision=%s weights=%s data=%s" % (cls, solver or "python", prec, weights or "none", src)


# ---------------------------------------------------------------- C02: accumulation
CONFIGS = [(cls, solver, prec, weights, src)
           for cls in ("ELM", "HPELM") for solver in (None, "basic") for prec in ("double", "single")
           for weights in (None, "given", "auto") for src in (("array",) if cls == "ELM" else ("array", "file"))
           if not (prec == "single" and (weights == "auto" or src == "file"))]


def _add(cls, solver, prec, weights, src):
    @harness("C02", "add_data " + lab(cls, solver, prec, weights, src))
    def h(m):
        c, X, T, fx, ft, N = setup(m, cls, solver, prec, weights, src)
        m.call(m.getattr(c.elm, "add_data"), [X, T])
        check_corr(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)))


for k in CONFIGS:
    _add(*k)


def _twice(cls, solver, prec, weights, src):
    @harness("C02", "two calls of add_data with a prefix and the rest, " + lab(cls, solver, prec, weights, src))
    def h(m):
        c, X, T, fx, ft, N = setup(m, cls, solver, prec, weights, src)
        cut = I(m, "cut", 1)
        m.assume(lt(cut, N))
        m.call(m.getattr(c.elm, "add_data"), [m.lib.getitem(m, X, Slice(None, cut, None)), m.lib.getitem(m, T, Slice(None, cut, None))])
        m.call(m.getattr(c.elm, "add_data"), [m.lib.getitem(m, X, Slice(cut, None, None)), m.lib.getitem(m, T, Slice(cut, None, None))])
        check_corr(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)))


for k in CONFIGS:
    if k[2] == "double" and k[3] != "auto" and k[4] == "array":
        _twice(*k)


# ---------------------------------------------------------------- C01: the trained weights
def solution(m, c, HH, HT, size=None):
    """B(i, j) = sum_k inv(HH)(i, k) HT(k, j); inv is the Moore-Penrose inverse, so that HH B = HT (least squares)."""
    n = c.L if size is None else size
    P = nl.pinv_fn(lambda i, j: HH((i, j)), n)
    return lambda ij: sumrows(num(0), n, lambda k: mul(P(ij[0], k), HT((k, ij[1]))))


def trained(m, c, HH, HT, name="B"):
    B = m.getattr(c.nnet, "B")
    same_elements(m, "%s solves (H'WH + norm*I) B = H'WT" % name, B, solution(m, c, HH, HT), (c.L, c.outputs))


def targets(m, c, kind, N, name="T", dtype=F8):
    return onehot(m, name, N, c.outputs, dtype) if kind in ("c", "wc") else matrix(m, name, (N, c.outputs), dtype)


MODES = {"r": ("r", None), "none": (None, None), "c": ("c", None), "ml": ("ML", None), "wc given": ("wc", "given"),
         "wc auto": ("WC", "auto")}


def train_setup(m, cls, solver, prec, mode, src, dtype=F8, **kw):
    word, weights = MODES[mode]
    c = model(m, cls, solver, prec, "c" if mode not in ("r", "none") else "", None, **kw)
    N = I(m, "N", 1)
    X = matrix(m, "X", (N, c.inputs), dtype)
    T = targets(m, c, (word or "").lower(), N, dtype=dtype)
    fx, ft = m.rreader(X), m.rreader(T)
    opts = {}
    if weights == "given":
        opts["w"] = m.array((c.outputs,), lambda i: app("wt", (i[0],), "R"), F8)
    args = [word] if word else []
    if src == "file":
        scilib.h5store(m, "x.h5", X)
        scilib.h5store(m, "t.h5", T)
        X, T = "x.h5", "t.h5"
    return c, X, T, fx, ft, N, args, opts, weights


TRAIN = [("ELM", s, p, mode, "array", F8) for s in (None, "basic") for p in ("double",) for mode in MODES] + \
        [("HPELM", s, "double", mode, "file", F8) for s in (None, "basic") for mode in MODES] + \
        [("HPELM", None, "double", "wc given", "array", F8), ("HPELM", None, "double", "c", "array", F8),
         ("ELM", None, "single", "wc given", "array", F4), ("ELM", None, "double", "c", "array", I8), ("HPELM", None, "double", "c", "file", I8),
         ("ELM", "basic", "single", "wc auto", "array", F4), ("HPELM", None, "single", "r", "file", F4)]


def _train(cls, solver, prec, mode, src, dtype):
    @harness("C01", "train %s solver=%s precision=%s %s data=%s %s" % (cls, solver or "python", prec, mode, dtype, src))
    def h(m):
        c, X, T, fx, ft, N, args, opts, weights = train_setup(m, cls, solver, prec, mode, src, dtype)
        m.call(m.getattr(c.elm, "train"), [X, T] + args, opts)
        trained(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)))


for k in TRAIN:
    _train(*k)

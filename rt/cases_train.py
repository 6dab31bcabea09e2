from rt.models import *


def setup_mode(g, modes=("", "", "c", "wc", "wcw", "ml")):
    mode = g.choice("mode", modes)
    c = g.int("outputs", 2, 4) if mode else g.int("outputs", 1, 3)
    w = g.np.uniform(0.2, 4.0, c) if mode == "wcw" else None
    return mode[:2], c, w


def train_args(g, mode, w):
    a = [g.choice("case", [mode, mode.upper()])] if mode else []
    kw = {"w": w} if w is not None else {}
    return a, kw


@case("C01", weight=3)
def train_solves_weighted_least_squares(g):
    mode, c, w = setup_mode(g)
    m, lay = build(g, outputs=c)
    lo = max(2, c)
    N = g.int("N", lo, 60)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, mode, every=True)
    a, kw = train_args(g, mode, w)
    hp = type(m).__name__ == "HPELM"
    sx = as_source(g, X, "X", 0.5 if hp else 0.1)
    st = as_source(g, T, "T", 0.5 if hp else 0.1)
    if not hp:
        sx, st = X, T
    if g.bool("batch_arg"):
        kw["batch"] = g.int("batch2", 1, 80)
    m.train(sx, st, *a, **kw)
    sw = None
    if mode == "wc":
        sw = sample_weights(T, w if w is not None else class_weights(T))
    A, C = gram(lay, X, T, m.nnet.norm, sw)
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")
    closefiles(m)


@case("C01")
def train_default_batch(g):
    """Many samples and the default batch size."""
    from hpelm import ELM, HPELM
    C = g.choice("cls", [ELM, HPELM])
    N = g.int("N", 900, 3300)
    d = g.int("inputs", 1, 3)
    m = C(d, 2, norm=g.choice("norm", [0.5, 30.0])) if g.bool("fast") else C(d, 2, norm=0.7, accelerator="basic")
    m._p = np.float64
    lay = add_layer(g, m)
    X = inputs_matrix(g, N, d)
    T = targets(g, N, 2, "")
    m.train(X, T)
    A, C_ = gram(lay, X, T, m.nnet.norm)
    solves(A, C_, m.nnet.get_B(), 1e-9, "B")


@case("C01", "C23")
def singular_system(g):
    m, lay = build(g, norm=0.0, prec="double", types=["lin", "tanh"], maxtypes=1)
    # duplicate all neurons
    for f, W, B in list(lay):
        m.add_neurons(W.shape[1], f, W.copy(), B.copy())
        lay.add(f, W, B)
    N = g.int("N", 2, 12)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, m.nnet.outputs, "")
    m.train(X, T)
    A, C = gram(lay, X, T, 0.0)
    B = np.asarray(m.nnet.get_B(), dtype=float)
    check(B.shape == C.shape and bool(np.all(np.isfinite(B))), "B is not finite")
    r = np.linalg.norm(A.dot(B) - C) / (np.linalg.norm(A) * max(np.linalg.norm(B), 1e-300) + np.linalg.norm(C))
    check(r < 1e-6, "singular system: relative residual %.3g", r)


@case("C01")
def weights_given_to_constructor(g):
    """add_data + solve with the class weights of the constructor."""
    c = g.int("outputs", 2, 4)
    w = g.np.uniform(0.2, 4.0, c)
    m, lay = build(g, outputs=c, cls=g.choice("case", ["wc", "WC"]), w=w)
    N = g.int("N", 2, 40)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, "wc")
    m.add_data(X, T)
    m.nnet.solve()
    A, C = gram(lay, X, T, m.nnet.norm, sample_weights(T, w))
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")


def corr_of(m):
    HH, HT = m.nnet.get_corr()
    return np.array(HH, dtype=float), np.array(HT, dtype=float)


@case("C02", weight=3)
def splits_and_batches(g):
    c = g.int("outputs", 1, 3)
    wmode = c > 1 and g.bool("weighted")
    w = g.np.uniform(0.2, 4.0, c) if wmode else None
    m, lay = build(g, outputs=c, cls="wc" if wmode else "", w=w)
    N = g.int("N", 1, 70)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, "wc" if wmode else "")
    A, C = gram(lay, X, T, m.nnet.norm, sample_weights(T, w) if wmode else None)
    hp = type(m).__name__ == "HPELM"
    calls = g.int("calls", 1, 4)
    cuts = sorted(g.int("cut", 0, N) for _ in range(calls - 1))
    cuts = [0] + [x for x in cuts if 0 < x < N] + [N]
    cuts = sorted(set(cuts))
    how = g.choice("how", ["slice", "range"]) if hp else "slice"
    src = (as_source(g, X, "X"), as_source(g, T, "T")) if how == "range" else None
    for a, b in zip(cuts[:-1], cuts[1:]):
        m.batch = g.int("bsz", 1, g.choice("bmax", [3, 12, 100]))
        if how == "range":
            m.add_data(src[0], src[1], istart=a, icount=b - a)
        elif hp:
            m.add_data(as_source(g, X[a:b], "X", 0.3), as_source(g, T[a:b], "T", 0.3))
        else:
            m.add_data(X[a:b], T[a:b])
    HH, HT = corr_of(m)
    t = 1e-9 if m._p is np.float64 else 1e-4
    close(HH, A, t, "HH")
    close(HT, C, t, "HT")
    m.nnet.solve()
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")
    closefiles(m)


@case("C02")
def large_batches(g):
    from hpelm import ELM, HPELM
    for C in (ELM, HPELM):
        N = g.int("N", 990, 2100)
        m = C(2, 1, norm=1.0)
        m._p = np.float64
        lay = add_layer(g, m)
        if g.bool("setb"):
            m.batch = g.int("batch", 1, 1500)
        X = inputs_matrix(g, N, 2)
        T = targets(g, N, 1, "")
        m.add_data(X, T)
        A, B = gram(lay, X, T, 1.0)
        HH, HT = corr_of(m)
        close(HH, A, 1e-9, "HH")
        close(HT, B, 1e-9, "HT")


def rng(g, N):
    istart = g.choice("istart0", [0, None, None])
    istart = g.int("istart", 0, N - 1) if istart is None else 0
    k = g.choice("icountkind", ["inf", "in", "in", "exact", "beyond"])
    if k == "inf":
        return istart, np.inf, N - istart
    if k == "exact":
        return istart, N - istart, N - istart
    if k == "beyond":
        return istart, N - istart + g.int("over", 1, 30), N - istart
    n = g.int("icount", 1, N - istart)
    return istart, n, n


def rkw(g, istart, icount):
    kw = {}
    if istart or g.bool("give0"):
        kw["istart"] = istart
    if icount != np.inf or g.bool("giveinf"):
        kw["icount"] = icount
    return kw


@case("C03", weight=2)
def range_training(g):
    mode, c, w = setup_mode(g, ("", "", "c", "wc", "wcw"))
    m, lay = build(g, kind="HPELM", outputs=c)
    N = g.int("N", 1, 60)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, mode, every=True)
    istart, icount, n = rng(g, N)
    X1, T1 = X[istart:istart + n], T[istart:istart + n]
    if mode == "wc" and w is None and (T1.sum(0) == 0).any():
        raise Skip()
    kw = rkw(g, istart, icount)
    a, wk = train_args(g, mode, w)
    sw = None
    if g.bool("use_train"):
        kw.update(wk)
        m.train(as_source(g, X, "X"), as_source(g, T, "T"), *a, **kw)
    else:
        if mode == "wc":
            m.classification = "wc"
            m.wc = w
        m.add_data(as_source(g, X, "X"), as_source(g, T, "T"), **kw)
        m.nnet.solve()
    if mode == "wc":
        sw = sample_weights(T1, w if w is not None else class_weights(T1))
    A, C = gram(lay, X1, T1, m.nnet.norm, sw)
    HH, HT = corr_of(m)
    t = 1e-9 if m._p is np.float64 else 1e-4
    close(HH, A, t, "HH of rows %d..%d" % (istart, istart + n))
    close(HT, C, t, "HT")
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")
    closefiles(m)


def trained(g, m, lay, big=False):
    B = g.np.uniform(-1, 1, (lay.L, m.nnet.outputs)).astype(m._p)
    m.nnet.set_B(B.copy())
    return B


@case("C03", weight=2)
def range_predict_project(g):
    m, lay = build(g, kind="HPELM")
    B = trained(g, m, lay)
    N = g.int("N", 1, 60)
    X = inputs_matrix(g, N, m.nnet.inputs)
    istart, icount, n = rng(g, N)
    H = layer_matrix(lay, X[istart:istart + n])
    op = g.choice("op", ["predict", "project"])
    exp = H.dot(np.asarray(B, dtype=float)) if op == "predict" else H
    dest = g.choice("dest", ["none", "file", "array"])
    f = m.predict if op == "predict" else m.project
    kw = rkw(g, istart, icount)
    sx = as_source(g, X, "X")
    t = 1e-8 if m._p is np.float64 else 1e-4
    if dest == "none":
        got = f(sx, **kw)
    elif dest == "file":
        if g.bool("existing", 0.3):
            h5write("out.h5", np.ones((3, 2)))
        f(sx, "out.h5", **kw)
        got = h5read("out.h5")
    else:
        extra = g.int("extra_rows", 1, 30) if g.bool("larger", 0.4) else 0
        got = np.full((exp.shape[0] + extra, exp.shape[1]), 7.0)
        f(sx, got, **kw)
        check(np.all(got[n:] == 7.0), "rows behind the range are changed")
        got = got[:n]
    close(got, exp, t, "%s of rows %d..%d into %s" % (op, istart, istart + n, dest))
    closefiles(m)


@case("C03", "C11", weight=2)
def range_error(g):
    mode, c, w = setup_mode(g, ("", "c", "wcw", "ml"))
    m = new_model(g, kind="HPELM", outputs=c, cls=mode, w=w)
    N = g.int("N", 1, 60)
    T = targets(g, N, c, mode)
    Y = g.np.uniform(-1, 2, (N, c))
    istart, icount, n = rng(g, N)
    e = m.error(as_source(g, T, "T"), as_source(g, Y, "Y"), **rkw(g, istart, icount))
    close(e, error_oracle(mode, T[istart:istart + n], Y[istart:istart + n], w), 1e-9, "error of rows %d..%d" % (istart, istart + n))
    closefiles(m)


@case("C04", weight=3)
def predict_is_projection_times_B(g):
    from hpelm import ELM, HPELM
    m, lay = build(g)
    B = trained(g, m, lay)
    N = g.int("N", 1, 60)
    X = inputs_matrix(g, N, m.nnet.inputs)
    exp = layer_matrix(lay, X).dot(np.asarray(B, dtype=float))
    t = 1e-8 if m._p is np.float64 else 1e-4
    hp = type(m).__name__ == "HPELM"
    before = snapshot(m)
    X0 = np.array(X)
    if hp:
        dest = g.choice("dest", ["none", "file", "array"])
        sx = as_source(g, X, "X")
        if dest == "none":
            got = m.predict(sx)
        elif dest == "file":
            m.predict(sx, "y.h5")
            got = h5read("y.h5")
        else:
            extra = g.int("extra_rows", 1, 30) if g.bool("larger", 0.4) else 0
            got = np.full((N + extra, exp.shape[1]), 9.0, dtype=m._p)
            m.predict(sx, got)
            check(np.all(got[N:] == 9.0), "rows behind those of the data are changed")
            got = got[:N]
    else:
        got = m.predict(X)
    same_state(before, snapshot(m), "predicting model")
    check(same(X, X0), "predict changed X")
    close(got, exp, t, "prediction")
    close(np.dot(np.asarray(m.project(X), dtype=float), np.asarray(m.nnet.get_B(), dtype=float)), got, t, "project(X) . B")
    i = g.int("row", 0, N - 1)
    close(m.predict(X[i:i + 1]), got[i:i + 1], t, "prediction of a single row")
    closefiles(m)


@case("C04")
def predict_large(g):
    from hpelm import ELM, HPELM
    N = g.int("N", 990, 2100)
    m1, lay = build(g, kind="ELM", prec="double")
    B = trained(g, m1, lay)
    m2 = HPELM(m1.nnet.inputs, m1.nnet.outputs)
    for f, W, b in lay:
        m2.add_neurons(W.shape[1], f, W, b)
    m2.nnet.set_B(B)
    if g.bool("setb"):
        m2.batch = g.int("b", 1, 1400)
    X = inputs_matrix(g, N, m1.nnet.inputs)
    exp = layer_matrix(lay, X).dot(B)
    close(m1.predict(X), exp, 1e-8, "ELM prediction")
    close(m2.predict(X), exp, 1e-8, "HPELM prediction")


@case("C04")
def predict_after_training(g):
    m, lay = build(g)
    N = g.int("N", 2, 40)
    X = inputs_matrix(g, N, m.nnet.inputs)
    m.train(X, targets(g, N, m.nnet.outputs, ""))
    B = np.asarray(m.nnet.get_B(), dtype=float)
    X2 = inputs_matrix(g, g.int("N2", 1, 30), m.nnet.inputs)
    close(m.predict(X2), layer_matrix(lay, X2).dot(B), (1e-8 if m._p is np.float64 else 1e-3) * max(1, np.abs(B).max()), "prediction")


@case("C05", weight=3)
def projection_formulas(g):
    m, lay = build(g, maxtypes=6, maxper=3, types=FUNCS + list(UF))
    N = g.int("N", 1, 40)
    X = inputs_matrix(g, N, m.nnet.inputs)
    if g.bool("wide", 0.3):
        X = X * 3
    H = m.project(X)
    close(H, layer_matrix(lay, X), 1e-9 if m._p is np.float64 else 1e-4, "projection")


@case("C05")
def projection_large(g):
    m, lay = build(g, prec="double", maxper=40)
    N = g.int("N", 100, 2100)
    X = inputs_matrix(g, N, m.nnet.inputs)
    close(m.project(X), layer_matrix(lay, X), 1e-9, "projection")


@case("C05")
def projection_other_ops_keep_neurons(g):
    m, lay = build(g, maxtypes=4)
    N = g.int("N", 3, 30)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, m.nnet.outputs, "")
    m.train(X, T)
    m.predict(X)
    m.error(T, T)
    close(m.project(X), layer_matrix(lay, X), 1e-9 if m._p is np.float64 else 1e-4, "projection after training")
    same_layer(m.nnet.neurons, lay)


@case("C06", weight=3)
def add_neurons_given(g):
    m = new_model(g)
    lay = Layer()
    p = m._p
    inputs = m.nnet.inputs
    for step in range(g.int("steps", 1, 7)):
        t = g.choice("type", FUNCS + list(UF))
        f = UF.get(t, t)
        k = g.int("count", 1, 4)
        W, B = rand_neurons(g, inputs, k, f, g.choice("wprec", [np.float64, np.float32]))
        m.add_neurons(k, f, W, B)
        lay.add(f, W.astype(p), B.astype(p))
        check(m.nnet.L == lay.L, "L is %s, expected %d", m.nnet.L, lay.L)
        same_layer(m.nnet.neurons, lay, empty_ok=False)
        check(all(n[2].dtype == p and n[3].dtype == p for n in m.nnet.neurons), "neurons are not in model precision")
        check(m.nnet.B is None and m.nnet.HH is None and m.nnet.HT is None, "old solution survives new neurons")
        check(len(m.nnet.neurons) == len(lay), "types not merged")
        if g.bool("train", 0.4):
            N = g.int("N", 3, 15)
            X = inputs_matrix(g, N, inputs)
            T = targets(g, N, m.nnet.outputs, "")
            if g.bool("only_add", 0.3):
                m.add_data(X, T)
            else:
                m.train(X, T)
    X = inputs_matrix(g, 5, inputs)
    close(m.project(X), layer_matrix(lay, X), 1e-8 if p is np.float64 else 1e-4, "projection")


@case("C06", weight=2)
def add_neurons_default(g):
    m = new_model(g)
    lay = Layer()
    p = m._p
    d = m.nnet.inputs
    for step in range(g.int("steps", 1, 5)):
        t = g.choice("type", FUNCS + ["np.sin"])
        f = UF.get(t, t)
        k = g.int("count", 1, 6)
        before = snapshot(m)
        W = B = None
        kk = min(k, d) if t == "lin" else k
        if g.bool("giveW", 0.25):
            kk = k
            W = g.np.uniform(-1, 1, (d, k))
        if g.bool("giveB", 0.25):
            B = np.abs(g.np.uniform(-1, 1, kk)) + 0.3
        m.add_neurons(k, f, W, B)
        old = [n for n in before["neurons"]]
        total = sum(n[0] for n in old) + kk
        check(m.nnet.L == total, "L is %s, expected %d", m.nnet.L, total)
        i = [j for j, n in enumerate(m.nnet.neurons) if n[1] is f or n[1] == f]
        check(len(i) == 1, "type %s stored %d times", t, len(i))
        n = m.nnet.neurons[i[0]]
        o = [x for x in old if x[1] is f or x[1] == f]
        n0 = o[0][0] if o else 0
        check(n[0] == n0 + kk and n[2].shape == (d, n0 + kk) and n[3].shape == (n0 + kk,), "shapes of new neurons")
        check(n[2].dtype == p and n[3].dtype == p, "precision of new neurons")
        if o:
            check(same(n[2][:, :n0], o[0][2]) and same(n[3][:n0], o[0][3]), "old neurons of the type changed")
        Wn, Bn = n[2][:, n0:], n[3][n0:]
        check(bool(np.all(np.isfinite(Wn)) and np.all(np.isfinite(Bn))), "default neurons are not finite")
        if W is not None:
            check(same(Wn, W.astype(p)), "given W not stored")
        elif t == "lin":
            check(same(Wn, np.eye(d, kk).astype(p)), "linear neurons do not copy input features")
        else:
            check(d * kk < 3 or len(np.unique(Wn)) > 1, "random W is constant")
        if B is not None:
            check(same(Bn, B.astype(p)), "given B not stored")
        elif t == "lin":
            check(bool(np.all(Bn == 0)), "bias of linear neurons is not zero")
        elif t.startswith("rbf"):
            check(bool(np.all(Bn > 0)), "RBF width is not positive")
        same_others = [x for x in m.nnet.neurons if not (x[1] is f or x[1] == f)]
        oth = [x for x in old if not (x[1] is f or x[1] == f)]
        check(len(same_others) == len(oth) and all(a[0] == b[0] and a[1] == b[1] and same(a[2], b[2]) and same(a[3], b[3])
              for a, b in zip(same_others, oth)), "other neurons changed")
        check(m.nnet.B is None and m.nnet.HH is None and m.nnet.HT is None, "old solution survives new neurons")


@case("C06", "C22")
def add_neurons_discards(g):
    m, lay = build(g)
    N = g.int("N", 4, 25)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, m.nnet.outputs, "")
    m.train(X, T)
    if g.bool("more"):
        m.add_data(X, T)
    k = g.int("k", 1, 3)
    t = g.choice("t", ["tanh", "sigm"])
    W, B = rand_neurons(g, m.nnet.inputs, k, t, m._p)
    m.add_neurons(k, t, W, B)
    lay.add(t, W, B)
    check(raises(lambda: m.predict(X)), "a model with new neurons predicts with the old weights")
    m.add_data(X, T)
    m.nnet.solve()
    A, C = gram(lay, X, T, m.nnet.norm)
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")

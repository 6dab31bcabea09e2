from rt.models import *
from rt.cases_train import setup_mode, train_args, corr_of
from rt.cases_select import select_setup


@case("C11", weight=3)
def error_measure(g):
    mode, c, w = setup_mode(g, ("", "c", "wcw", "ml"))
    m = new_model(g, outputs=c, cls=mode, w=w)
    N = g.int("N", 1, 60)
    T = targets(g, N, c, mode)
    k = g.choice("Y", ["random", "good", "exact", "half", "neg"])
    Y = g.np.uniform(-1, 2, (N, c))
    if k == "good":
        Y = T + 0.4 * g.np.uniform(-1, 1, (N, c))
    if k == "exact":
        Y = T.copy()
    if k == "half" and mode != "ml":
        Y = np.round(Y * 2) / 2
    elif k == "half":
        Y = np.where(g.np.uniform(size=Y.shape) < 0.3, 0.5, Y)
    if k == "neg":
        Y = -np.abs(Y)
    T0, Y0 = T.copy(), Y.copy()
    hp = type(m).__name__ == "HPELM"
    e = m.error(as_source(g, T, "T") if hp else T, as_source(g, Y, "Y") if hp else Y)
    exp = error_oracle(mode, T, Y, w)
    close(e, exp, 1e-9, "error (%s)" % (mode or "regression"))
    check(e >= 0, "negative error")
    check(same(T, T0) and same(Y, Y0), "error() changed its arguments")
    if hp:
        m.batch = g.int("batch_other", 1, 80)
        close(m.error(T, Y), exp, 1e-9, "error with another batch size")
    closefiles(m)


@case("C11")
def error_large(g):
    mode, c, w = setup_mode(g, ("", "c", "wcw", "ml"))
    m = new_model(g, outputs=c, cls=mode, w=w)
    if g.bool("default_batch"):
        m.batch = 1000
    N = g.int("N", 900, 2500)
    T = targets(g, N, c, mode)
    Y = g.np.uniform(-1, 2, (N, c))
    close(m.error(T, Y), error_oracle(mode, T, Y, w), 1e-9, "error (%s)" % mode)


@case("C11")
def error_1d(g):
    m = new_model(g, outputs=1)
    N = g.int("N", 1, 40)
    T = g.np.uniform(-1, 1, N)
    Y = g.np.uniform(-1, 1, (N, 1))
    close(m.error(T, Y), float(np.mean((T - Y[:, 0]) ** 2)), 1e-9, "error of one-dimensional targets")


@case("C12", weight=3)
def confusion_counts(g):
    mode, c, w = setup_mode(g, ("c", "wcw", "ml"))
    m = new_model(g, outputs=c, cls=mode, w=w)
    N = g.int("N", 1, g.choice("Nmax", [12, 60, 60, 2100]))
    if N > 200 and g.bool("default_batch"):
        m.batch = 1000
    T = targets(g, N, c, mode)
    Y = g.np.uniform(-1, 2, (N, c))
    if g.bool("ties"):
        Y = np.round(Y)
    if mode == "ml" and g.bool("half"):
        Y = np.where(g.np.uniform(size=Y.shape) < 0.3, 0.5, Y)
    T0, Y0 = T.copy(), Y.copy()
    C = m.confusion(T, Y)
    check(np.array_equal(C, confusion_oracle(mode, T, Y)), "confusion matrix is\n%s, expected\n%s", C, confusion_oracle(mode, T, Y))
    if mode != "ml":
        check(C.sum() == N, "entries sum to %s, not to %d samples", C.sum(), N)
    check(same(T, T0) and same(Y, Y0), "confusion() changed its arguments")
    m.batch = g.int("batch_other", 1, 80)
    check(np.array_equal(m.confusion(T, Y), C), "confusion depends on the batch size")


@case("C13", weight=3)
def option_selects_mode(g):
    hp = g.bool("hp")
    past = g.choice("past", [None, "c", "wc", "ml", "r"])
    opt = g.choice("opt", ["c", "wc", "wcw", "ml", "mc", "r", ""])
    c = g.int("outputs", 2, 4)
    w = g.np.uniform(0.2, 4.0, c) if opt == "wcw" else None
    ini = g.choice("ini", ["", "c", "WC", "Ml", "mc"])
    m, lay = build(g, kind="HPELM" if hp else "ELM", outputs=c, cls=ini)
    exp_ini = ini.lower().replace("mc", "ml") or None
    check(m.classification == exp_ini, "constructor option %s gives %s", ini, m.classification)
    N = g.int("N", 3 * c, 40)
    X = inputs_matrix(g, N, m.nnet.inputs)
    if past:
        m.train(X, targets(g, N, c, past, every=True), past)
    mode = {"wcw": "wc", "mc": "ml", "r": "", "": ""}.get(opt, opt)
    T = targets(g, N, c, mode, every=True)
    name = opt[:2]
    name = g.choice("case", [name, name.upper(), name.capitalize()])
    kw = {"w": w} if w is not None else {}
    m.train(X, T, *([name] if name else []), **kw)
    check(m.classification == (mode or None), "option %r gives mode %s", name, m.classification)
    Y = g.np.uniform(-1, 2, (N, c))
    wc = w if w is not None else class_weights(T)
    close(m.error(T, Y), error_oracle(mode, T, Y, wc), 1e-6, "error in force after option %r" % name)
    if mode == "wc":
        close(m.wc, wc, 1e-5, "class weights")
    sw = sample_weights(T, wc) if mode == "wc" else None
    A, C = gram(lay, X, T, m.nnet.norm, sw)
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")


@case("C13")
def option_conflicts(g):
    c = 3
    m, lay = build(g, outputs=c)
    N = 12
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, "c", every=True)
    kw = dict(Xv=X, Tv=T, k=3)
    a, b = g.choice("pair", [("V", "CV"), ("V", "LOO"), ("CV", "LOO"), ("c", "wc"), ("c", "ml"), ("wc", "ml"), ("c", "mc"), ("wc", "mc")])
    f = lambda s: g.choice("case", [s.upper(), s.lower()])
    args = [f(a), f(b)]
    g.rnd.shuffle(args)
    check(raises(lambda: m.train(X, T, *args, **kw)), "%s together with %s is accepted", a, b)


@case("C13", weight=2)
def selection_option_used(g):
    """V / CV / LOO / OP in any case really select neurons."""
    m, lay, mode, w, meth, op, X, T, a, kw = select_setup(g, modes=("", "c", "wc", "wcw", "ml"))
    calls = []
    p = m.nnet._prune
    e = m._error

    def err(*aa, **k):
        calls.append(m.classification)
        return e(*aa, **k)
    m._error = err
    ret = m.train(X, T, *a, **kw)
    if meth == "CV":
        check(ret is not None, "cross-validation returned no error")
    check(len(calls) > 0, "no model was evaluated with option %s", meth)
    check(set(calls) == {mode or None}, "selection ran with mode %s instead of %s", set(calls), mode)
    check(m.classification == (mode or None), "mode after training is %s", m.classification)
    check(m.ranking == ("OP" if op else None) , "ranking is %s", m.ranking)
    if op:
        check(m.kmax_op == kw.get("kmax"), "kmax is %s", m.kmax_op)


@case("C13")
def auto_weights(g):
    c = g.int("outputs", 2, 5)
    hp = g.bool("hp")
    m, lay = build(g, kind="HPELM" if hp else "ELM", outputs=c)
    N = g.int("N", 2 * c, 70)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, "wc", every=True)
    if g.bool("intT"):
        T = T.astype(int)
    m.train(as_source(g, X, "X") if hp else X, as_source(g, T, "T") if hp else T, g.choice("case", ["wc", "WC"]))
    close(m.wc, class_weights(T), 1e-5, "automatic class weights")
    A, C = gram(lay, X, T, m.nnet.norm, sample_weights(T, class_weights(T)))
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")
    closefiles(m)


def bad_data(g, m, N):
    """(X, T, what) that must be rejected."""
    d, c = m.nnet.inputs, m.nnet.outputs
    X = g.np.uniform(-1, 1, (N, d))
    T = g.np.uniform(-1, 1, (N, c))
    what = g.choice("bad", ["Xcols", "Tcols", "rows", "X3d", "T3d", "Xstr", "Tstr", "Xobj", "Tobj", "X0d", "rows_less"])
    if what == "Xcols":
        X = g.np.uniform(-1, 1, (N, max(1, d + g.choice("dd", [-1, 1, 2])) if d > 1 else d + 1))
        if X.shape[1] == d:
            X = X[:, :0]
    elif what == "Tcols":
        T = g.np.uniform(-1, 1, (N, c + 1 if c == 1 or g.bool("m") else c - 1))
    elif what == "rows":
        X = np.vstack((X, X[:1]))
    elif what == "rows_less":
        if N < 2:
            raise Skip()
        X = X[:-1]
    elif what == "X3d":
        X = X[:, :, None]
    elif what == "T3d":
        T = T[:, :, None]
    elif what == "Xstr":
        X = X.astype(str)
    elif what == "Tstr":
        T = T.astype("S8")
    elif what == "Xobj":
        X = X.astype(object)
    elif what == "Tobj":
        T = T.astype(object)
    elif what == "X0d":
        X = np.array(1.0)
    return X, T, what


@case("C14", weight=3)
def bad_data_rejected(g):
    m, lay = build(g)
    N = g.int("N", 1, 25)
    d, c = m.nnet.inputs, m.nnet.outputs
    Xok = g.np.uniform(-1, 1, (N, d))
    Tok = g.np.uniform(-1, 1, (N, c))
    st = g.choice("state", ["trained", "new", "accumulated"])
    if st == "trained":
        m.train(Xok, Tok)
    if st == "accumulated":
        m.add_data(Xok, Tok)
    if g.bool("mode") and c > 1:
        m.classification = "c"
    X, T, what = bad_data(g, m, N)
    ops = ["train"]
    hp = type(m).__name__ == "HPELM"
    if what.startswith("X"):
        ops += ["project"] + (["predict"] if st == "trained" else [])
    if what.startswith("T"):
        ops += ["error1", "error2"]
    if hp:
        ops += ["add_data"]
    elif what in ("Xcols", "Tcols", "rows"):
        ops += ["trainV"]
    op = g.choice("op", ops)
    before = snapshot(m)
    f = {"train": lambda: m.train(X, T), "project": lambda: m.project(X), "predict": lambda: m.predict(X),
         "error1": lambda: m.error(T, Tok), "error2": lambda: m.error(Tok, T), "add_data": lambda: m.add_data(X, T),
         "trainV": lambda: m.train(Xok, Tok, "V", Xv=X, Tv=T)}[op]
    check(raises(f), "%s accepts bad data (%s)", op, what)
    same_state(before, snapshot(m), "model after rejected %s (%s)" % (op, what))


@case("C14", weight=2)
def bad_neurons_rejected(g):
    m = new_model(g)
    lay = add_layer(g, m) if g.bool("have") else None
    d = m.nnet.inputs
    k = g.int("k", 1, 4)
    t = g.choice("type", FUNCS)
    W = g.np.uniform(-1, 1, (d, k))
    B = g.np.uniform(0.1, 1, k)
    bad = g.choice("bad", ["float", "str", "type", "none", "callable", "Wlist", "Blist", "Wrows", "Wcols", "WT", "B2d", "Blen", "Wcols_less", "W1d"])
    a = [k, t, W, B]
    if bad == "float":
        a[0] = float(k)
    elif bad == "str":
        a[0] = str(k)
    elif bad == "type":
        a[1] = g.choice("tname", ["sigmoid", "rbf", "linear", "", "RBF_L2", "rbf_l3"])
    elif bad == "none":
        a[1] = None
    elif bad == "callable":
        a[1] = lambda x: x
    elif bad == "Wlist":
        a[2] = W.tolist()
    elif bad == "Blist":
        a[3] = B.tolist()
    elif bad == "Wrows":
        a[2] = g.np.uniform(-1, 1, (d + 1, k))
    elif bad == "Wcols":
        a[2] = g.np.uniform(-1, 1, (d, k + 1))
    elif bad == "Wcols_less":
        a[0] = k + 1
        a[3] = g.np.uniform(0.1, 1, k + 1)
    elif bad == "WT":
        if d == k:
            raise Skip()
        a[2] = W.T
    elif bad == "B2d":
        a[3] = B[:, None]
    elif bad == "Blen":
        a[3] = g.np.uniform(0.1, 1, k + 1)
    elif bad == "W1d":
        a[2] = W.ravel()
    before = snapshot(m)
    check(raises(lambda: m.add_neurons(*a)), "add_neurons accepts bad arguments (%s)", bad)
    same_state(before, snapshot(m), "model after rejected neurons (%s)" % bad)


@case("C14")
def one_dimensional_data(g):
    m = new_model(g, inputs=1, outputs=1)
    lay = add_layer(g, m)
    N = g.int("N", 2, 30)
    x = g.np.uniform(-1, 1, N)
    t = g.np.uniform(-1, 1, N)
    m.train(x, t)
    A, C = gram(lay, x[:, None], t[:, None], m.nnet.norm)
    solves(A, C, m.nnet.get_B(), tol_of(m), "B")
    close(m.project(x), layer_matrix(lay, x[:, None]), 1e-8 if m._p is np.float64 else 1e-4, "projection")


def dtype_of(g, name):
    return g.choice(name, [np.float64, np.float64, np.float32])


@case("C15", weight=4)
def arguments_unchanged(g):
    mode, c, w = setup_mode(g, ("", "c", "wc", "wcw", "ml"))
    m, lay = build(g, outputs=c)
    hp = type(m).__name__ == "HPELM"
    N = g.int("N", 3 * c + lay.L, 3 * c + lay.L + 20)
    X = inputs_matrix(g, N, m.nnet.inputs, dtype_of(g, "dtX"))
    T = targets(g, N, c, mode, dtype_of(g, "dtT"), every=True)
    if mode and g.bool("intT", 0.3):
        T = T.astype(g.choice("inttype", [int, bool]))
    Xv = inputs_matrix(g, N, m.nnet.inputs, dtype_of(g, "dtX"))
    Tv = targets(g, N, c, mode, dtype_of(g, "dtT"), every=True)
    a, kw = train_args(g, mode, w)
    ops = ["train", "add_data", "predict", "project", "error", "confusion"] + ([] if hp else ["V", "CV", "LOO", "VOP", "LOOOP"])
    op = g.choice("op", ops)
    keep = [x.copy() for x in (X, T, Xv, Tv)] + [None if w is None else w.copy()]
    if op in ("V", "VOP"):
        kw.update(Xv=Xv, Tv=Tv)
    if op == "CV":
        kw.update(k=3)
    if T.dtype == bool and op in ("error",) or (T.dtype == bool and mode == ""):
        raise Skip()
    if op in ("predict", "confusion"):
        m.train(X, T, *a, **kw)
    if op == "train":
        m.train(X, T, *a, **kw)
    elif op == "add_data":
        if mode == "wc":
            m.classification, m.wc = "wc", w
        m.add_data(X, T)
        m.add_data(X, T)
    elif op == "predict":
        Y = m.predict(X)
    elif op == "project":
        m.project(X)
    elif op == "error":
        m.classification, m.wc = mode or None, (w if w is not None else np.ones(c))
        m.error(T, Tv)
    elif op == "confusion":
        m.classification = mode if mode else "c"
        m.confusion(T, Tv)
    else:
        if T.dtype == bool:
            raise Skip()
        m.train(X, T, *(a + [op[:-2], "OP"] if op.endswith("OP") else a + [op]), **kw)
    for name, x, k in zip(("X", "T", "Xv", "Tv", "w"), (X, T, Xv, Tv, w), keep):
        check(x is None or same(x, k), "%s changed its argument %s", op, name)


@case("C15", weight=2)
def model_does_not_alias(g):
    """Changing arrays after they were given must not change the model."""
    m = new_model(g, outputs=g.int("outputs", 1, 3))
    p, d, c = m._p, m.nnet.inputs, m.nnet.outputs
    what = g.choice("what", ["neurons", "neurons_merge", "set_B", "set_corr", "w_ctor", "w_train", "data", "corr_out"])
    t = g.choice("t", FUNCS)
    k = g.int("k", 1, 4)
    W, B = rand_neurons(g, d, k, t, g.choice("dtW", [np.float64, np.float32]))
    W0, B0 = W.copy(), B.copy()
    m.add_neurons(k, t, W, B)
    check(same(W, W0) and same(B, B0), "add_neurons changed its arguments")
    N = g.int("N", 3, 12)
    X = inputs_matrix(g, N, d, p, odd=False)
    T = targets(g, N, c, "", p)
    if what.startswith("neurons"):
        if what == "neurons_merge":
            m.add_neurons(k, t, W, B)
        before = snapshot(m)
        W += 5
        B += 5
    elif what == "set_B":
        b = g.np.uniform(-1, 1, (k, c)).astype(g.choice("dtB", [np.float64, np.float32]))
        b0 = b.copy()
        m.nnet.set_B(b)
        before = snapshot(m)
        m.predict(X)
        check(same(b, b0), "set_B changed its argument")
        b += 3
    elif what == "set_corr":
        q = g.choice("dtH", [np.float64, np.float32])
        A = g.np.uniform(-1, 1, (k, k))
        HH = (A.dot(A.T) + np.eye(k)).astype(q)
        HT = g.np.uniform(-1, 1, (k, c)).astype(q)
        h0, t0 = HH.copy(), HT.copy()
        m.nnet.set_corr(HH, HT)
        if g.bool("cont"):
            m.add_data(X, T)
            m.nnet.solve()
        before = snapshot(m)
        check(same(HH, h0) and same(HT, t0), "the model modified the matrices it was given")
        HH += 1
        HT += 1
    elif what in ("w_ctor", "w_train"):
        c2 = 3
        w = g.np.uniform(0.5, 2, c2)
        w0 = w.copy()
        Tc = targets(g, N + 6, c2, "wc", every=True)
        Xc = inputs_matrix(g, N + 6, d, odd=False)
        m2 = new_model(g, kind=type(m).__name__, outputs=c2, cls="wc", w=w if what == "w_ctor" else None, inputs=d)
        m2.add_neurons(2, "tanh")
        if what == "w_train":
            m2.train(Xc, Tc, "wc", w=w)
        else:
            m2.add_data(Xc, Tc)
        before = snapshot(m2)
        check(same(w, w0), "class weights changed")
        w *= 3
        m = m2
    elif what == "corr_out":
        m.add_data(X, T)
        HH, HT = m.nnet.get_corr()
        h0, t0 = HH.copy(), HT.copy()
        nn = m.nnet
        B_ = nn.solve_corr(HH, HT)
        check(same(HH, h0) and same(HT, t0), "solve_corr changed its arguments")
        before = snapshot(m)
    else:
        m.train(X, T)
        before = snapshot(m)
        X += 1
        T += 1
    same_state(before, snapshot(m), "model after changing an array given before (%s)" % what)


@case("C15")
def input_files_unchanged(g):
    m, lay = build(g, kind="HPELM", outputs=g.int("outputs", 1, 3))
    N = g.int("N", 3, 30)
    X = inputs_matrix(g, N, m.nnet.inputs, odd=False)
    T = targets(g, N, m.nnet.outputs, "")
    h5write("X.h5", X)
    h5write("T.h5", T)
    op = g.choice("op", ["train", "predict", "project", "error", "add_data", "corr"])
    if op == "train":
        m.train("X.h5", "T.h5")
    elif op == "predict":
        m.train(X, T)
        m.predict("X.h5", "Y.h5")
    elif op == "project":
        m.project("X.h5", "H.h5")
    elif op == "error":
        m.error("T.h5", "T.h5")
    elif op == "add_data":
        m.add_data("X.h5", "T.h5", fHH="HH.h5", fHT="HT.h5")
    else:
        m.add_data("X.h5", "T.h5", fHH="HH.h5", fHT="HT.h5")
        a, b = h5read("HH.h5"), h5read("HT.h5")
        m.solve_corr("HH.h5", "HT.h5")
        m.validation_corr("HH.h5", "HT.h5", "X.h5", "T.h5", steps=3)
        check(same(a, h5read("HH.h5")) and same(b, h5read("HT.h5")), "correlation files changed")
    closefiles(m)
    check(same(h5read("X.h5"), X) and same(h5read("T.h5"), T), "%s changed an input file", op)


@case("C22", weight=4)
def training_starts_afresh(g):
    hp = g.bool("hp")
    mode, c, w = setup_mode(g, ("", "c", "wc", "wcw", "ml"))
    m, lay = build(g, kind="HPELM" if hp else "ELM", outputs=c)
    N = g.int("N", 3 * c + lay.L, 3 * c + lay.L + 25)

    def data(md):
        n = g.int("n_", 3 * c + lay.L, 3 * c + lay.L + 10)
        return inputs_matrix(g, n, m.nnet.inputs), targets(g, n, c, md, every=True)
    keepL = lay.L
    for i in range(g.int("history", 1, 4)):
        h = g.choice("past", ["train", "train", "add", "wc", "wcw", "c", "ml", "OPLOO", "corr", "predict", "train_async"])
        if c == 1 and h in ("wc", "wcw", "c", "ml"):
            h = "train"
        if h == "train":
            m.train(*data(""))
        elif h == "add":
            m.classification_before = m.classification
            md = m.classification or ""
            m.add_data(*data(md))
        elif h in ("wc", "c", "ml"):
            x, t = data(h)
            m.train(x, t, h)
        elif h == "wcw":
            x, t = data("wc")
            m.train(x, t, "wc", w=g.np.uniform(0.5, 5, c))
        elif h == "corr":
            A = g.np.uniform(-1, 1, (lay.L, lay.L))
            m.nnet.set_corr(A.dot(A.T), g.np.uniform(-1, 1, (lay.L, c)))
            m.nnet.solve()
        elif h == "OPLOO" and not hp:
            # selection that keeps everything: kmax = L has no effect on the layer unless neurons are dropped
            m.ranking, m.kmax_op = "OP", 1
        elif h == "predict" and m.nnet.B is not None:
            m.predict(data("")[0])
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, mode, every=True)
    a, kw = train_args(g, mode, w)
    m.train(X, T, *a, **kw)
    wc = None
    if mode == "wc":
        wc = w if w is not None else class_weights(T)
    A, C = gram(lay, X, T, m.nnet.norm, sample_weights(T, wc) if wc is not None else None)
    HH, HT = corr_of(m)
    t_ = 1e-9 if m._p is np.float64 else 1e-4
    close(HH, A, t_, "HH after retraining")
    close(HT, C, t_, "HT after retraining")
    solves(A, C, m.nnet.get_B(), tol_of(m), "B after retraining")
    check(m.classification == (mode or None), "mode after retraining is %s", m.classification)
    check((m.wc is None) == (wc is None), "class weights after retraining: %s", m.wc)
    if wc is not None:
        close(m.wc, wc, 1e-5, "class weights after retraining")
    check(m.ranking is None and m.kmax_op is None, "ranking options of an earlier training survive")
    same_layer(m.nnet.neurons, lay)
    # adding data accumulates; reset keeps the solution
    X2 = inputs_matrix(g, N, m.nnet.inputs)
    T2 = targets(g, N, c, mode, every=True)
    B0 = np.array(m.nnet.get_B())
    m.add_data(X2, T2)
    A2, C2 = gram(lay, X2, T2, m.nnet.norm, sample_weights(T2, wc) if wc is not None else None)
    HH, HT = corr_of(m)
    close(HH, A + A2 - m.nnet.norm * np.eye(lay.L), t_, "HH accumulated after training")
    close(HT, C + C2, t_, "HT accumulated after training")
    check(same(m.nnet.get_B(), B0), "feeding data changed the solution")
    Y = m.predict(X)
    m.nnet.reset()
    check(same(m.nnet.get_B(), B0) and same(m.predict(X), Y), "reset changed the solution")
    m.add_data(X2, T2)
    HH, HT = corr_of(m)
    close(HH, A2, t_, "HH accumulated after reset")


@case("C22")
def selection_starts_afresh(g):
    """The same selection call on a used model and on a new model gives the same model."""
    m, lay, mode, w, meth, op, X, T, a, kw = select_setup(g)
    import copy
    m2 = new_model(g, kind="ELM", prec="double", solver="basic" if type(m.nnet).__name__ == "SLFN" else "python",
                   inputs=m.nnet.inputs, outputs=m.nnet.outputs, norm=m.nnet.norm, batch=m.batch)
    m2.batch = m.batch
    for f, W, B in lay:
        m2.add_neurons(W.shape[1], f, W, B)
    c = m.nnet.outputs
    n = 3 * c + lay.L
    for i in range(g.int("history", 1, 3)):
        h = g.choice("past", ["train", "add", "wcw", "opt"])
        Xp = inputs_matrix(g, n, m.nnet.inputs)
        if h == "train":
            m.train(Xp, targets(g, n, c, "", every=True))
        elif h == "add":
            if m.classification != "wc":
                m.add_data(Xp, targets(g, n, c, m.classification or "", every=True))
        elif h == "wcw" and c > 1:
            m.train(Xp, targets(g, n, c, "wc", every=True), "wc", w=g.np.uniform(0.5, 4, c))
        elif h == "opt":
            m.ranking, m.kmax_op = "OP", 1
    s = g.seed % 1000003
    np.random.seed(s)
    r1 = m.train(X, T, *a, **kw)
    np.random.seed(s)
    r2 = m2.train(X, T, *a, **kw)
    same_layer(m.nnet.neurons, Layer([(f, W, B) for _, f, W, B in m2.nnet.neurons]), "neurons of the retrained model")
    close(m.nnet.get_B(), m2.nnet.get_B(), 1e-6, "weights of the retrained model")
    if r1 is not None or r2 is not None:
        close(r1, r2, 1e-6, "returned error")
    check(m.classification == m2.classification and m.ranking == m2.ranking and m.kmax_op == m2.kmax_op, "mode differs")


@case("C23", weight=3)
def corr_roundtrip(g):
    m, lay = build(g)
    L, c = lay.L, m.nnet.outputs
    p = m._p
    A = g.np.uniform(-1, 1, (L, L))
    kind = g.choice("HH", ["spd", "indef", "singular", "psd", "zero_diag"])
    HH = {"spd": A.dot(A.T) + np.eye(L), "indef": A + A.T, "singular": np.outer(A[0], A[0]), "psd": A.dot(A.T),
          "zero_diag": A + A.T - np.diag(np.diag(A + A.T))}[kind].astype(p)
    HH = np.triu(HH) + np.triu(HH, 1).T
    HT = g.np.uniform(-1, 1, (L, c)).astype(p)
    if kind == "singular":
        HT = HH.dot(g.np.uniform(-1, 1, (L, c))).astype(p)
    if g.bool("before"):
        m.train(inputs_matrix(g, 9, m.nnet.inputs), targets(g, 9, c, ""))
    arg = (HH.copy(), HT.copy())
    if g.bool("fort"):
        arg = (np.asfortranarray(arg[0]), np.asfortranarray(arg[1]))
    m.nnet.set_corr(*arg)
    h, t = m.nnet.get_corr()
    check(np.array_equal(h, HH) and np.array_equal(t, HT), "matrices read back differ from those set")
    if kind in ("spd", "singular") and p is np.float64:
        m.nnet.solve()
        B = m.nnet.get_B()
        s = np.linalg.norm(HH) * np.linalg.norm(B) + np.linalg.norm(HT)
        check(np.linalg.norm(HH.dot(B) - HT) / s < 1e-8, "solution does not solve the matrices set (%s)", kind)
        B2 = m.nnet.solve_corr(HH.copy(), HT.copy())
        close(HH.dot(B2), HH.dot(B), 1e-6, "solve_corr")
        if kind == "spd":
            close(B, np.linalg.solve(HH, HT), 1e-6, "solution")
    h, t = m.nnet.get_corr()
    check(np.array_equal(h, HH) and np.array_equal(t, HT), "matrices changed by solving")
    # continue feeding
    N = g.int("N", 1, 20)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, "")
    m.add_data(X, T)
    Am, C = gram(lay, X, T, 0.0)
    h, t = m.nnet.get_corr()
    tt = 1e-9 if p is np.float64 else 1e-4
    close(h, HH + Am, tt, "HH continued")
    close(t, HT + C, tt, "HT continued")
    # mixing: take out, put into the other solver
    from hpelm import ELM
    m2 = ELM(m.nnet.inputs, c, accelerator="basic", norm=m.nnet.norm) if g.bool("basic2") else ELM(m.nnet.inputs, c, norm=m.nnet.norm)
    for f, W, B in lay:
        m2.add_neurons(W.shape[1], f, W, B)
    m2.nnet.set_corr(h, t)
    h2, t2 = m2.nnet.get_corr()
    check(np.array_equal(np.asarray(h2), h) and np.array_equal(np.asarray(t2), t), "round trip through the other solver")


@case("C23", weight=2)
def corr_after_data(g):
    c = g.int("outputs", 1, 3)
    wm = c > 1 and g.bool("weighted")
    w = g.np.uniform(0.5, 3, c) if wm else None
    m, lay = build(g, outputs=c, cls="wc" if wm else "", w=w)
    N = g.int("N", 1, 30)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, "wc" if wm else "")
    m.add_data(X, T)
    A, C = gram(lay, X, T, m.nnet.norm, sample_weights(T, w) if wm else None)
    h, t = m.nnet.get_corr()
    tt = 1e-9 if m._p is np.float64 else 1e-4
    close(h, A, tt, "HH")
    close(h, np.asarray(h).T, 1e-300, "symmetry of HH")
    close(t, C, tt, "HT")
    # put back into a fresh model of any solver and continue
    m2 = new_model(g, kind="ELM", inputs=m.nnet.inputs, outputs=c, prec="double" if m._p is np.float64 else "single", norm=m.nnet.norm, cls="wc" if wm else "", w=w, tag="2")
    for f, W, B in lay:
        m2.add_neurons(W.shape[1], f, W, B)
    m2.nnet.set_corr(h, t)
    m2.add_data(X, T)
    h2, t2 = m2.nnet.get_corr()
    close(h2, 2 * A - m.nnet.norm * np.eye(lay.L), tt, "HH after continuing in another model")
    close(t2, 2 * C, tt, "HT after continuing in another model")
    m2.nnet.solve()
    solves(2 * A - m.nnet.norm * np.eye(lay.L), 2 * C, m2.nnet.get_B(), tol_of(m), "B")


@case("C23")
def corr_wrong_size(g):
    m, lay = build(g)
    L, c = lay.L, m.nnet.outputs
    m.train(inputs_matrix(g, 9, m.nnet.inputs), targets(g, 9, c, ""))
    bad = g.choice("bad", ["big", "rect", "rect2", "HTrows", "HTcols", "small"])
    HH, HT = np.eye(L), np.ones((L, c))
    if bad == "big":
        HH, HT = np.eye(L + 1), np.ones((L + 1, c))
    elif bad == "rect":
        HH = np.ones((L, L + 1))
    elif bad == "rect2":
        HH = np.ones((L + 1, L))
    elif bad == "HTrows":
        HT = np.ones((L + 1, c))
    elif bad == "HTcols":
        HT = np.ones((L, c + 1))
    elif bad == "small":
        HH, HT = np.eye(L - 1), np.ones((L - 1, c))
    before = snapshot(m)
    check(raises(lambda: m.nnet.set_corr(HH, HT)), "set_corr accepts matrices of a wrong size (%s)", bad)
    same_state(before, snapshot(m), "model after rejected matrices")

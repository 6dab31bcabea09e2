from rt.models import *
from rt.cases_train import setup_mode, train_args


class Watch(object):
    """Records rankings, error values and the pruning of one training call, from outside (instance attributes)."""

    def __init__(self, m, table=None):
        self.ranks, self.errs, self.pruned, self.n_err = [], [], [], 0
        self.m = m
        r, e, p = m._ranking, m._error, m.nnet._prune

        def _ranking(*a, **k):
            res = r(*a, **k)
            self.ranks.append((np.array(res[0]), res[1]))
            return res

        def _error(*a, **k):
            self.n_err += 1
            if self.n_err > 20000:
                raise Fail("the search does not terminate")
            v = e(*a, **k) if table is None else table(*a, **k)
            self.errs.append(float(v))
            return v

        def _prune(idx):
            self.pruned.append([int(i) for i in idx])
            return p(idx)
        m._ranking, m._error, m.nnet._prune = _ranking, _error, _prune


def select_setup(g, modes=("", "", "c", "wc", "wcw", "ml"), maxtypes=3, maxper=4, solver=None, outputs=None, norm=None):
    mode, c, w = setup_mode(g, modes)
    if outputs:
        c = outputs
    m, lay = build(g, kind="ELM", prec="double", outputs=c, maxtypes=maxtypes, maxper=maxper, solver=solver,
                   norm=norm or g.choice("norm_", [0.3, 1.0, 5.0]))
    meth = g.choice("method", ["V", "CV", "LOO"])
    op = g.bool("OP")
    lo = max(6, lay.L + 2 if op else 0, 3 * c)
    N = g.int("N", lo, lo + 30)
    X = inputs_matrix(g, N, m.nnet.inputs, odd=False)
    T = targets(g, N, c, mode, every=True)
    a, kw = train_args(g, mode, w)
    a = a + [g.choice("mcase", [meth, meth.lower()])]
    if op:
        a.append(g.choice("opcase", ["OP", "op"]))
        if g.bool("kmax_"):
            kw["kmax"] = g.int("kmax", 1, lay.L + 2)
    if meth == "V":
        Nv = g.int("Nv", 3 * c, 3 * c + 20)
        kw["Xv"] = inputs_matrix(g, Nv, m.nnet.inputs, odd=False)
        kw["Tv"] = targets(g, Nv, c, mode, every=True)
    if meth == "CV":
        kw["k"] = g.int("k", 3, 5)
    g.rnd.shuffle(a)
    return m, lay, mode, w, meth, op, X, T, a, kw


def final_weights(mode, w, T):
    if mode != "wc":
        return None
    return sample_weights(T, w if w is not None else class_weights(T))


@case("C07", weight=3)
def selection_keeps_selected_and_retrains(g):
    m, lay, mode, w, meth, op, X, T, a, kw = select_setup(g)
    if g.bool("small_batch"):
        kw["batch"] = g.int("batch2", 1, 9)
    wt = Watch(m)
    m.train(X, T, *a, **kw)
    left = [(f, W, B) for n, f, W, B in m.nnet.neurons if n > 0]
    if wt.pruned:
        idx = wt.pruned[-1]
        check(len(set(idx)) == len(idx), "the selection has duplicates: %s", idx)
        same_layer(m.nnet.neurons, lay.pick(idx), "neurons after selection")
        if wt.ranks:
            r = list(wt.ranks[-1][0])
            check(sorted(idx) == sorted(r[:len(idx)]), "not the best-ranked neurons are kept")
    # every neuron is one of the original ones, none twice
    cols = [(repr(f), W[:, j].tobytes(), B[j].tobytes()) for f, W, B in lay for j in range(W.shape[1])]
    got = [(repr(f), W[:, j].tobytes(), np.asarray(B)[j].tobytes()) for f, W, B in left for j in range(W.shape[1])]
    for x in got:
        check(x in cols, "a neuron after selection is not one of the original neurons")
        cols.remove(x)
    check(sum(n[0] for n in m.nnet.neurons) == m.nnet.L and m.nnet.L == len(got), "neuron count is wrong")
    lay2 = Layer(left)
    A, C = gram(lay2, X, T, m.nnet.norm, final_weights(mode, w, T))
    solves(A, C, m.nnet.get_B(), 1e-9, "B after selection")
    check(m.predict(X).shape == T.shape, "prediction after selection")


@case("C07", weight=2)
def prune_keeps_exactly(g):
    m, lay = build(g, maxtypes=5, maxper=4)
    L = lay.L
    idx = list(g.np.permutation(L)[:g.int("keep", 1, L)])
    if g.bool("sorted"):
        idx.sort()
    arg = g.choice("argtype", [list, np.array, tuple])(idx)
    N = g.int("N", 3, 12)
    X = inputs_matrix(g, N, m.nnet.inputs)
    m.train(X, targets(g, N, m.nnet.outputs, ""))
    m.nnet._prune(arg)
    same_layer(m.nnet.neurons, lay.pick([int(i) for i in idx]), "neurons after pruning")
    check(m.nnet.L == len(idx), "L after pruning is %s", m.nnet.L)
    check(m.nnet.B is None and m.nnet.HH is None and m.nnet.HT is None, "old solution survives pruning")
    close(m.project(X), layer_matrix(lay.pick([int(i) for i in idx]), X), 1e-8 if m._p is np.float64 else 1e-4, "projection")


def press_error(mode, T, Y, R, w):
    if mode == "c":
        return float(np.mean((np.not_equal(Y.argmax(1), T.argmax(1)) / R) ** 2))
    if mode == "wc":
        e = np.zeros(T.shape[1])
        for i in range(T.shape[1]):
            ix = [r for r in range(len(T)) if T[r, i] == 1]
            if ix:
                e[i] = np.mean([((Y[r].argmax() != i) / R[r]) ** 2 for r in ix])
        return float(np.mean(e * w))
    if mode == "ml":
        return float(np.mean((((Y > 0.5) != (T > 0.5)) / R[:, None]) ** 2))
    return float(np.mean(((Y - T) / R[:, None]) ** 2))


def sub_solve(A, C, ix):
    return np.linalg.solve(A[np.ix_(ix, ix)], C[ix])


@case("C08", weight=3, tmo=30)
def selected_size_is_best_evaluated(g):
    m, lay, mode, w, meth, op, X, T, a, kw = select_setup(g, maxtypes=4, maxper=g.choice("maxper", [1, 4, 9]))
    wt = Watch(m)
    ret = m.train(X, T, *a, **kw)
    if not wt.pruned or not wt.ranks:
        raise Skip()
    norm = m.nnet.norm
    L0 = lay.L
    Lr = wt.ranks[-1][1]
    kept = wt.pruned[-1]
    n_sel = len(kept)
    check(1 <= n_sel <= Lr <= L0, "selected %d of %d ranked neurons", n_sel, Lr)
    if op and "kmax" in kw:
        check(n_sel <= kw["kmax"], "more neurons than kmax")
        check(Lr == min(kw["kmax"], L0), "kmax=%s but %s neurons are ranked", kw["kmax"], Lr)
    else:
        check(Lr == L0, "only %s of %s neurons are ranked", Lr, L0)
    for r, l in wt.ranks:
        check(len(set(r.tolist())) == len(r) == l and r.min() >= 0 and r.max() < L0, "invalid ranking %s", r)
    wc = None
    if mode == "wc":
        wc = w if w is not None else class_weights(T)
    err = {}
    if meth == "V":
        rank = wt.ranks[-1][0]
        A, C = gram(lay, X, T, norm, final_weights(mode, w, T))
        Hv = layer_matrix(lay, kw["Xv"])
        for n in range(1, Lr + 1):
            ix = rank[:n]
            err[n] = [error_oracle(mode, kw["Tv"], Hv[:, ix].dot(sub_solve(A, C, ix)), wc)]
    elif meth == "LOO":
        rank = wt.ranks[-1][0]
        A, C = gram(lay, X, T, norm, final_weights(mode, w, T))
        H = layer_matrix(lay, X)
        for n in range(1, Lr + 1):
            ix = rank[:n]
            P = np.linalg.inv(A[np.ix_(ix, ix)])
            R = 1 - np.einsum("ij,jk,ik->i", H[:, ix], P, H[:, ix])
            err[n] = [press_error(mode, T, H[:, ix].dot(P).dot(C[ix]), R, wc)]
    else:
        k = kw["k"]
        N = len(X)
        parts = [np.arange(N)[i::k] for i in range(k)]
        if len(wt.ranks) != k:
            raise Skip()
        test = {n: 0.0 for n in range(1, Lr + 1)}
        for i in range(k):
            it = [(i + j) % k for j in range(k)]
            tr = np.hstack([parts[j] for j in it[:-2]])
            vl, ts = parts[it[-2]], parts[it[-1]]
            sw = None if mode != "wc" else sample_weights(T[tr], wc)
            A, C = gram(lay, X[tr], T[tr], norm, sw)
            Hv, Ht = layer_matrix(lay, X[vl]), layer_matrix(lay, X[ts])
            rank = wt.ranks[i][0]
            for n in range(1, Lr + 1):
                B = sub_solve(A, C, rank[:n])
                err.setdefault(n, []).append(error_oracle(mode, T[vl], Hv[:, rank[:n]].dot(B), wc))
                test[n] += error_oracle(mode, T[ts], Ht[:, rank[:n]].dot(B), wc) / k
        vals = test[n_sel]
        disc = mode in ("c", "wc", "ml")
        if not disc:
            close(ret, vals, 1e-6, "cross-validation test error")
        else:   # outputs that are equal up to rounding may be classified differently
            check(abs(ret - vals) <= 1e-9 or abs(ret - vals) <= 1.01 / max(1, len(T) // k) * (max(wc) / min(wc) if wc is not None else 1),
                  "cross-validation test error is %s, expected %s", ret, vals)
    e = {n: float(np.mean(v)) for n, v in err.items()}
    pen = e[Lr] * 0.01 / Lr
    full = {n: e[n] + n * pen for n in e}
    disc = mode in ("c", "wc", "ml")
    # sizes the search certainly evaluated: their error values were observed
    seen = set()
    obs = np.array(wt.errs)
    for n, v in err.items():
        if all(np.any(np.abs(obs - x) <= 1e-9 * max(1, abs(x))) for x in v):
            seen.add(n)
    if not disc:
        allv = np.array([x for v in err.values() for x in v])
        if meth != "CV":
            for o in obs:
                check(bool(np.any(np.abs(allv - o) <= 1e-6 * max(1, abs(o)))),
                      "an evaluated error (%s) is not that of a model with the best-ranked neurons on held-out data", o)
        for n in seen:
            check(full[n_sel] <= full[n] + 1e-9 * max(1, abs(full[n])),
                  "size %d (penalised error %g) was evaluated, but size %d (%g) is selected", n, full[n], n_sel, full[n_sel])
    elif meth != "CV":
        # equal error values are common here: only sizes with a unique error value are known to be evaluated
        for n in seen:
            uniq = all(abs(e[x] - e[n]) > 1e-9 or x == n for x in e)
            if uniq:
                check(full[n_sel] <= full[n] + 1e-9, "size %d (%g) was evaluated, but size %d (%g) is selected",
                      n, full[n], n_sel, full[n_sel])


class Table(object):
    """Scripted error function: e(n), n found from the number of rows of the last solved system."""

    def __init__(self, m, table):
        self.n = None
        s = m.nnet.solve_corr
        self.seen = {}

        def solve_corr(HH, HT):
            self.n = np.shape(HH)[0]
            return s(HH, HT)
        m.nnet.solve_corr = solve_corr
        self.inv = np.linalg.inv
        self.table = table

        def inv(A):
            self.n = np.shape(A)[0]
            return self.inv(A)
        np.linalg.inv = inv

    def __call__(self, *a, **k):
        v = self.table[self.n]
        self.seen[self.n] = v
        return np.float64(v)

    def close(self):
        np.linalg.inv = self.inv


@case("C08", weight=3, tmo=30)
def scripted_errors(g):
    """Any error values, ties included: the search ends at an evaluated size that no evaluated size beats."""
    L = g.int("L", 1, 40)
    m = new_model(g, kind="ELM", prec="double", outputs=1, norm=0.5, inputs=2)
    lay = Layer()
    W, B = rand_neurons(g, 2, L, "tanh")
    m.add_neurons(L, "tanh", W, B)
    shape = g.choice("table", ["random", "ties", "decreasing", "increasing", "valley", "zero", "two"])
    n = np.arange(L + 1, dtype=float)
    t = {"random": g.np.uniform(0, 1, L + 1), "ties": g.np.randint(0, 3, L + 1) / 2.0, "decreasing": 1 / (1 + n),
         "increasing": n, "valley": np.abs(n - g.int("valley", 0, L)), "zero": n * 0, "two": np.where(n % 2 == 0, 1.0, 0.0)}[shape]
    meth = g.choice("method", ["V", "CV", "LOO"])
    N = g.int("N", 6, 20)
    X = inputs_matrix(g, N, 2, odd=False)
    T = targets(g, N, 1, "")
    kw = {}
    if meth == "V":
        kw = dict(Xv=X, Tv=T)
    if meth == "CV":
        kw = dict(k=3)
    tab = Table(m, t)
    try:
        wt = Watch(m, tab)
        ret = m.train(X, T, meth, **kw)
    finally:
        tab.close()
    if not wt.pruned or not tab.seen:
        raise Skip()
    sel = len(wt.pruned[-1])
    check(1 <= sel <= L, "selected %d of %d", sel, L)
    pen = t[L] * 0.01 / L
    full = {k: v + k * pen for k, v in tab.seen.items() if k is not None}
    if sel not in full or L not in full:
        raise Skip()
    best = min(full.values())
    check(full[sel] <= best + 1e-12, "size %d (penalised error %g) selected, evaluated sizes: %s", sel, full[sel], full)
    if meth == "CV":
        close(ret, t[sel], 1e-9, "returned test error")


@case("C09", weight=3, tmo=60)
def rankings(g):
    from hpelm.modules import mrsr, mrsr2
    many = g.bool("many")
    m_ = g.int("m", 1, 12)
    p = g.int("p", 10, 13) if many else g.int("p", 1, 6)
    n = g.int("n", max(3, m_), m_ + 25)
    kind = g.choice("data", ["random", "dup", "zero col", "exact", "corr", "const T"])
    X = g.np.uniform(-1, 1, (n, m_))
    T = g.np.uniform(-1, 1, (n, p))
    if kind == "dup" and m_ > 1:
        X[:, g.int("dup", 1, m_ - 1)] = X[:, 0]
    if kind == "zero col":
        if many:
            raise Skip()
        X[:, g.int("zc", 0, m_ - 1)] = 0.0
        if m_ == 1:
            raise Skip()
    if kind == "exact":
        T = X.dot(g.np.uniform(-1, 1, (m_, p)))
    if kind == "corr":
        X = X + 2 * g.np.uniform(-1, 1, (n, 1))
    if kind == "const T":
        T = T * 0 + 1
    kmax = g.int("kmax", 1, m_)
    f = mrsr2 if many and g.bool("two", 0.7) else (mrsr if not many else mrsr2)
    X0, T0 = X.copy(), T.copy()
    r = [int(i) for i in f(X, T, kmax)]
    check(len(r) == min(kmax, m_), "%s: %d neurons ranked, expected %d", f.__name__, len(r), min(kmax, m_))
    check(len(set(r)) == len(r) and min(r) >= 0 and max(r) < m_, "%s: invalid ranking %s of %d", f.__name__, r, m_)
    check(same(X, X0) and same(T, T0), "ranking changed its data")


@case("C09", weight=2)
def ranking_method(g):
    op = g.bool("op")
    L = g.int("L", 1, 14)
    c = g.int("c", 1, 12)
    m = new_model(g, kind="ELM", outputs=c)
    W, B = rand_neurons(g, m.nnet.inputs, L, "tanh", m._p)
    m.add_neurons(L, "tanh", W, B)
    N = g.int("N", 1, L + 1) if op and c >= 10 and g.bool("few rows") else g.int("N", L + 2, L + 30)
    H = g.np.uniform(-1, 1, (N, L))
    T = g.np.uniform(-1, 1, (N, c))
    kmax = None
    if op:
        m.ranking = "OP"
        if g.bool("km"):
            kmax = g.int("kmax", 1, L + 3)
            m.kmax_op = kmax
    r, l = m._ranking(L, H, T)
    r = [int(i) for i in r]
    exp = L if kmax is None else min(kmax, L)
    if op and c >= 10:
        exp = min(exp, N)
    check(l == exp and len(r) == exp, "%d neurons ranked (reported %d), expected %d", len(r), l, exp)
    check(len(set(r)) == len(r) and min(r) >= 0 and max(r) < L, "invalid ranking %s", r)


def ranking_by_definition(X, T, kmax, sure=1e-6):
    """Neurons in the order of their correlation with the residual, as far as it is clear cut."""
    n, m_ = X.shape
    p = T.shape[1]
    signs = np.array([[1.0 if (b >> j) & 1 else -1.0 for j in range(p)] for b in range(2 ** p)])
    Y = np.zeros(T.shape)
    left, rank = list(range(m_)), []
    scale = np.abs(X.T.dot(T)).sum(1).max()
    for k in range(kmax):
        power = np.abs(X[:, left].T.dot(T - Y)).sum(1)
        order = np.argsort(-power)
        if power[order[0]] < 1e-6 * scale or (len(left) > 1 and power[order[0]] - power[order[1]] < sure * scale):
            break
        new = left.pop(int(order[0]))
        rank.append(new)
        best = power[order[0]]
        if np.linalg.cond(X[:, rank]) > 1e4:
            break
        F = X[:, rank].dot(np.linalg.lstsq(X[:, rank], T, rcond=None)[0])
        if not left:
            break
        a = signs.dot((T - Y).T.dot(X[:, left]))
        b = signs.dot((F - Y).T.dot(X[:, left]))
        with np.errstate(all="ignore"):
            r = (best - a) / (best - b)
        r = r[r >= 0]
        if len(r) == 0:
            break
        Y = Y + r.min() * (F - Y)
    return rank


@case("C26", weight=3, tmo=60)
def ranking_order(g):
    from hpelm.modules import mrsr
    m_ = g.int("m", 1, 9)
    p = g.choice("p", [1, 1, 2, 3, 4, 5])
    n = g.int("n", m_ + 3, 3 * m_ + 20)
    X = g.np.uniform(-1, 1, (n, m_)) * g.np.choice([0.5, 1.0, 2.0], m_)
    if g.bool("offset"):
        X = X + g.np.uniform(-0.5, 0.5)
    if g.bool("model"):
        T = X.dot(g.np.uniform(-1, 1, (m_, p))) + g.choice("noise", [0.01, 0.3]) * g.np.uniform(-1, 1, (n, p))
    else:
        T = g.np.uniform(-1, 1, (n, p))
    kmax = g.choice("k", [m_, m_, g.int("kmax", 1, m_)])
    exp = ranking_by_definition(X, T, kmax)
    if g.bool("model method"):
        m = new_model(g, kind="ELM", outputs=p)
        W, B = rand_neurons(g, m.nnet.inputs, m_, "tanh", m._p)
        m.add_neurons(m_, "tanh", W, B)
        m.ranking, m.kmax_op = "OP", kmax
        r = m._ranking(m_, X, T)[0]
    else:
        r = mrsr(X, T, kmax)
    r = [int(i) for i in r]
    check(r[:len(exp)] == exp, "ranked %s, by definition %s", r, exp)


@case("C10", weight=3)
def save_load_roundtrip(g):
    mode, c, w = setup_mode(g)
    m, lay = build(g, outputs=c, cls=mode, w=w)
    N = g.int("N", 2 * c, 30)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, mode, every=True)
    st = g.choice("state", ["trained", "trained", "untrained", "accumulated"])
    if st == "trained":
        a, kw = train_args(g, mode, w)
        m.train(X, T, *a, **kw)
    elif st == "accumulated":
        m.add_data(X, T)
    # the loading object, with a past of its own
    from hpelm import ELM, HPELM
    kind2 = g.choice("kind2", ["ELM", "HPELM"])
    p2 = g.choice("prec2", ["double", "single"])
    C2 = ELM if kind2 == "ELM" else HPELM
    i2, o2 = g.int("inputs2", 1, 4), g.int("outputs2", 1, 4)
    n2 = g.choice("norm2", [None, 0.1, 2.0])
    if g.bool("basic2"):
        m2 = C2(i2, o2, accelerator="basic", precision=p2, norm=n2, batch=7)
    else:
        m2 = C2(i2, o2, precision=p2, norm=n2, batch=7)
    m2._p = np.float32 if p2 == "single" else np.float64
    if g.bool("past2"):
        add_layer(g, m2, tag="2")
        X2 = inputs_matrix(g, 9, i2)
        T2 = targets(g, 9, o2, "")
        m2.train(X2, T2)
        if g.bool("cls2"):
            m2.classification = "c"
            m2.wc = np.ones(o2)
    nn_type = type(m2.nnet)
    before = snapshot(m)
    if g.bool("file"):
        m.save("model.pkl")
        m2.load("model.pkl")
    else:
        m2.loads(m.dumps())
    same_state(before, snapshot(m), "saved model")
    n = m2.nnet
    check(n.inputs == m.nnet.inputs and n.outputs == c, "inputs/outputs not loaded")
    check(m2.classification == m.classification, "classification is %s, saved %s", m2.classification, m.classification)
    check((m2.wc is None) == (m.wc is None) and (m.wc is None or np.array_equal(m2.wc, m.wc)), "class weights not loaded")
    check(n.norm == m.nnet.norm, "norm is %s, saved %s", n.norm, m.nnet.norm)
    p = m2._p
    check(m2.precision is p and n.precision is p, "precision of the loading object changed")
    check(m2.batch == 7 and type(m2.nnet) is nn_type, "batch size or solver of the loading object changed")
    check(len(n.neurons) == len(m.nnet.neurons), "%d neuron types loaded, %d saved", len(n.neurons), len(m.nnet.neurons))
    for a, b in zip(n.neurons, m.nnet.neurons):
        check(a[0] == b[0] and (a[1] is b[1] or a[1] == b[1]), "neuron type not loaded")
        check(same(a[2], b[2].astype(p)) and same(a[3], b[3].astype(p)), "neuron weights not loaded")
    check(n.L == m.nnet.L, "L is %s, saved %s", n.L, m.nnet.L)
    check(n.HH is None and n.HT is None, "accumulated data in the loaded model")
    B = m.nnet.get_B()
    if B is None:
        check(n.get_B() is None, "a solution appeared by loading")
    else:
        check(same(n.get_B(), np.asarray(B).astype(p)), "output weights not loaded")
        close(m2.predict(X), m.predict(X), (1e-9 if p is np.float64 and m._p is np.float64 else 1e-3) *
              max(1, float(np.abs(B).max())), "prediction of the loaded model")
    # and it trains like the saved one
    if g.bool("retrain"):
        a, kw = train_args(g, mode, w)
        m2.train(X, T, *a, **kw)
        sw = final_weights(mode, w, T)
        A, C = gram(lay, X, T, m.nnet.norm, sw)
        solves(A, C, m2.nnet.get_B(), 1e-4 if p is np.float32 or m._p is np.float32 else 1e-9, "B")

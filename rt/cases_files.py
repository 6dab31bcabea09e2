import os, time, multiprocessing as mp
import tables
from rt.models import *
from rt.cases_train import setup_mode, train_args, corr_of, rng, rkw


def disk_model(g, lay=None, inputs=None, outputs=None, cls="", w=None, tag="", norm="?", prec=None):
    m = new_model(g, kind="HPELM", inputs=inputs, outputs=outputs, cls=cls, w=w, tag=tag, norm=norm, prec=prec)
    if lay is None:
        lay = add_layer(g, m, tag=tag)
    else:
        for f, W, B in lay:
            m.add_neurons(W.shape[1], f, W, B)
    return m, lay


@case("C16", weight=3)
def statistics_on_disk(g):
    c = g.int("outputs", 1, 3)
    wm = c > 1 and g.bool("weighted", 0.3)
    w = g.np.uniform(0.3, 3, c) if wm else None
    norm = g.choice("norm0", [0.01, 0.5, 3.0, 20.0])
    prec = g.choice("prec0", ["double", "double", "single"])
    m, lay = disk_model(g, outputs=c, cls="wc" if wm else "", w=w, norm=norm, prec=prec)
    d = m.nnet.inputs
    A = norm * np.eye(lay.L)
    C = np.zeros((lay.L, c))
    HHf, HTf = "HH.h5", "HT.h5"
    if g.bool("preexisting", 0.3):
        A0 = g.np.uniform(-1, 1, (lay.L, lay.L))
        A = A0.dot(A0.T) + np.eye(lay.L)
        C = g.np.uniform(-1, 1, (lay.L, c))
        h5write(HHf, A)
        h5write(HTf, C)
    tt = 1e-9 if prec == "double" else 1e-4
    for i in range(g.int("calls", 1, 4)):
        how = g.choice("model", ["same", "same", "fresh", "fresh"])
        if how == "fresh":
            m, _ = disk_model(g, lay, inputs=d, outputs=c, cls="wc" if wm else "", w=w, tag=str(i), norm=norm, prec=prec)
        if g.bool("used", 0.3):
            xx, t2 = inputs_matrix(g, 7, d), targets(g, 7, c, "wc" if wm else "")
            m.add_data(xx, t2)
            m.nnet.solve()
        N = g.int("N", 1, 40)
        X = inputs_matrix(g, N, d)
        T = targets(g, N, c, "wc" if wm else "")
        istart, icount, n = rng(g, N)
        kw = rkw(g, istart, icount)
        if g.bool("async", 0.15):
            X1, T1 = h5write("Xa.h5", np.ascontiguousarray(X)), h5write("Ta.h5", T)
            m.add_data_async(X1, T1, fHH=HHf, fHT=HTf, **kw)
        else:
            m.add_data(as_source(g, X, "X", 0.3), as_source(g, T, "T", 0.3), fHH=HHf, fHT=HTf, **kw)
        Xr, Tr = X[istart:istart + n], T[istart:istart + n]
        dA, dC = gram(lay, Xr, Tr, 0.0, sample_weights(Tr, w) if wm else None)
        A, C = A + dA, C + dC
        close(h5read(HHf), A, tt, "HH on disk after call %d" % (i + 1))
        close(h5read(HTf), C, tt, "HT on disk after call %d" % (i + 1))
        # the model's own statistics are those of this call's data with its norm
        HH, HT = corr_of(m)
        close(HH, dA + norm * np.eye(lay.L), tt, "the model's own HH after storing")
        closefiles(m)
    m, _ = disk_model(g, lay, inputs=d, outputs=c, tag="last", norm=norm, prec=prec)
    m.solve_corr(HHf, HTf)
    solves(A, C, m.nnet.get_B(), 1e-9 if prec == "double" else 1e-4, "B solved from files")
    X = inputs_matrix(g, 5, d)
    close(m.predict(X), layer_matrix(lay, X).dot(np.asarray(m.nnet.get_B(), dtype=float)),
          (1e-7 if prec == "double" else 1e-2) * max(1, float(np.abs(m.nnet.get_B()).max())), "prediction")


@case("C16")
def mismatched_files_rejected(g):
    m, lay = disk_model(g)
    c = m.nnet.outputs
    L = lay.L
    bad = g.choice("bad", ["HHbig", "HTcols", "HTrows", "both", "HHrect"])
    HH, HT = np.eye(L), np.ones((L, c))
    if bad in ("HHbig", "both"):
        HH = np.eye(L + 1)
    if bad == "HHrect":
        HH = np.ones((L, L + 1))
    if bad == "HTcols":
        HT = np.ones((L, c + 1))
    if bad in ("HTrows", "both"):
        HT = np.ones((L + 2, c))
    h5write("HH.h5", HH)
    h5write("HT.h5", HT)
    N = g.int("N", 1, 15)
    X, T = inputs_matrix(g, N, m.nnet.inputs), targets(g, N, c, "")
    f = (lambda: m.add_data(X, T, fHH="HH.h5", fHT="HT.h5")) if g.bool("add") else (lambda: m.solve_corr("HH.h5", "HT.h5"))
    check(raises(f), "files of wrong sizes are accepted (%s)", bad)
    check(same(h5read("HH.h5"), HH) and same(h5read("HT.h5"), HT), "rejected files were changed")


class Monitor(object):
    """Records lock and file operations on the correlation files of this process."""

    def __init__(self, paths):
        self.paths = {os.path.abspath(p): p for p in paths}
        self.locks = {os.path.abspath(p + ".lock"): p for p in paths}
        self.held = {}
        self.open = {}
        self.bad = []
        self.events = []
        self.section = 0

    def _p(self, path):
        try:
            return self.paths.get(os.path.abspath(os.fspath(path)))
        except Exception:
            return None

    def access(self, path, what):
        p = self._p(path)
        if p is None:
            return
        self.events.append((what, p, self.held.get(p)))
        if not self.held.get(p):
            self.bad.append("%s of %s without its lock" % (what, p))

    def acquire(self, lockpath):
        p = self.locks.get(os.path.abspath(os.fspath(lockpath)))
        if p:
            self.section += 1
            self.held[p] = self.section
            self.events.append(("acquire", p, self.section))

    def release(self, lockpath):
        p = self.locks.get(os.path.abspath(os.fspath(lockpath)))
        if p and self.held.get(p):
            if self.open.get(p):
                self.bad.append("lock of %s released while the file is open" % p)
            self.held[p] = None
            self.events.append(("release", p, None))

    def __enter__(self):
        import fasteners, hpelm.modules.hdf5_tools as ht, hpelm.hp_elm as hp
        mon = self
        Lock = fasteners.InterProcessLock
        self.saved = []

        def put(obj, name, val):
            self.saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)

        class L(Lock):
            def __init__(s, path, *a, **k):
                s.__path = path
                super().__init__(path, *a, **k)

            def acquire(s, *a, **k):
                r = super().acquire(*a, **k)
                if r:
                    mon.acquire(s.__path)
                return r

            def release(s, *a, **k):
                mon.release(s.__path)
                return super().release(*a, **k)
        of = tables.open_file

        def open_file(path, mode="r", *a, **k):
            p = mon._p(path)
            mon.access(path, "open '%s'" % mode)
            h = of(path, mode, *a, **k)
            if p is not None:
                mon.open[p] = mon.open.get(p, 0) + 1
                sec = mon.held.get(p)
                close = h.close

                def close2():
                    if h.isopen:
                        mon.open[p] -= 1
                        if sec is not None and mon.held.get(p) != sec:
                            mon.bad.append("%s closed outside the critical section that opened it" % p)
                    return close()
                try:
                    h.close = close2
                except Exception:
                    pass
            return h
        for mod in (tables, ht, hp):
            for n, v in list(vars(mod).items()):
                if v is of:
                    put(mod, n, open_file)
        for mod in (fasteners, ht, hp):
            for n, v in list(vars(mod).items()):
                if v is Lock:
                    put(mod, n, L)
        for n in ("isfile", "exists"):
            f = getattr(os.path, n)
            put(os.path, n, lambda p, f=f, n=n: (mon.access(p, "existence check"), f(p))[1])
        return self

    def __exit__(self, *a):
        for obj, name, val in reversed(self.saved):
            setattr(obj, name, val)


@case("C17", weight=3)
def lock_discipline(g):
    m, lay = disk_model(g)
    c = m.nnet.outputs
    L = lay.L
    st = g.choice("files", ["none", "both", "HHonly", "HTonly", "badHH", "badHT"])
    if st in ("both", "HHonly", "badHT"):
        h5write("HH.h5", np.eye(L))
    if st in ("both", "HTonly", "badHH"):
        h5write("HT.h5", np.ones((L, c)))
    if st == "badHH":
        h5write("HH.h5", np.eye(L + 1))
    if st == "badHT":
        h5write("HT.h5", np.ones((L + 1, c)))
    N = g.int("N", 1, 20)
    X, T = inputs_matrix(g, N, m.nnet.inputs), targets(g, N, c, "")
    a = g.bool("async", 0.15)
    if a:
        X, T = h5write("X.h5", np.ascontiguousarray(X)), h5write("T.h5", T)
    with Monitor(["HH.h5", "HT.h5"]) as mon:
        try:
            (m.add_data_async if a else m.add_data)(X, T, fHH="HH.h5", fHT="HT.h5")
            ok = True
        except Exception:
            ok = False
    check(ok == (not st.startswith("bad")), "add_data with files %s: %s", st, "accepted" if ok else "failed")
    check(not mon.bad, "%s (files before: %s)", "; ".join(mon.bad[:3]), st)
    check(not any(mon.held.values()), "a lock is still held after the call")
    check(not any(mon.open.values()), "a correlation file is still open after the call")
    if ok:   # exactly one writing section per file, which reads and writes inside
        for f in ("HH.h5", "HT.h5"):
            check(any(e[1] == f and e[0].startswith("open") for e in mon.events), "%s was never opened", f)
    import fasteners
    for f in ("HH.h5", "HT.h5"):
        lk = fasteners.InterProcessLock(f + ".lock")
        r = lk.acquire(blocking=False)
        check(r, "the lock of %s is not released", f)
        lk.release()


def _adder(start, lay, inputs, outputs, norm, batch, X, T, delay, seed):
    import hpelm.modules.hdf5_tools as ht
    from hpelm import HPELM
    r = np.random.RandomState(seed % 2 ** 31)
    of = tables.open_file
    isf = os.path.isfile

    def slow(*a, **k):
        h = of(*a, **k)
        time.sleep(delay * r.uniform())
        return h

    def slow_isfile(p):
        v = isf(p)
        time.sleep(delay * r.uniform())
        return v
    for n, v in list(vars(ht).items()):
        if v is of:
            setattr(ht, n, slow)
    os.path.isfile = slow_isfile
    m = HPELM(inputs, outputs, norm=norm, batch=batch)
    for f, W, B in lay:
        m.add_neurons(W.shape[1], f, W, B)
    start.wait(10)
    try:
        m.add_data(X, T, fHH="HH.h5", fHT="HT.h5")
    except BaseException:
        os._exit(3)
    os._exit(0)


@case("C17", tmo=40)
def parallel_additions(g):
    m, lay = disk_model(g, norm=0.5, prec="double")
    d, c = m.nnet.inputs, m.nnet.outputs
    k = g.int("procs", 2, 5)
    A, C = 0.5 * np.eye(lay.L), np.zeros((lay.L, c))
    ev = mp.get_context("fork").Event()
    ps = []
    for i in range(k):
        N = g.int("N", 1, 12)
        X, T = inputs_matrix(g, N, d, odd=False), targets(g, N, c, "")
        dA, dC = gram(lay, X, T, 0.0)
        A, C = A + dA, C + dC
        p = mp.get_context("fork").Process(target=_adder, args=(ev, lay, d, c, 0.5, m.batch, X, T, 0.02, g.seed + i))
        p.start()
        ps.append(p)
    ev.set()
    for p in ps:
        p.join()
    check(all(p.exitcode == 0 for p in ps), "a parallel addition failed")
    close(h5read("HH.h5"), A, 1e-9, "HH after %d parallel additions" % k)
    close(h5read("HT.h5"), C, 1e-9, "HT after %d parallel additions" % k)


def norm_marks(path):
    with tables.open_file(path, "r") as h5:
        n = [n for n in h5.walk_nodes() if isinstance(n, tables.Array)][0]
        a = n.attrs
        return ("mean" in a and a.mean is None) and ("std" in a and a.std is None)


@case("C18", weight=3)
def conversion(g):
    from hpelm.modules import make_hdf5
    src = g.choice("src", ["array", "array1d", "npy", "npy1d", "txt", "csv", "txt_dl", "gz", "bz2", "shape"])
    N = g.int("N", 1, g.choice("Nmax", [3, 25]))
    d = g.int("d", 1, 6)
    dt = g.choice("dtype", [np.float64, np.float64, np.float32, np.int32, np.int64])
    kw = {}
    if dt is not np.float64 or g.bool("gived"):
        kw["dtype"] = dt
    if g.bool("comp", 0.4):
        kw["comp_level"] = g.int("complevel", 0, 9)
    A = np.round(g.np.uniform(-50, 50, (N, d)), 3)
    if np.dtype(dt).kind == "i":
        A = np.round(A)
    if src in ("array1d", "npy1d"):
        A = A[:, 0]
    if src == "array":
        f = g.choice("layout", ["C", "F", "strided", "f32", "int"])
        if f == "F":
            A = np.asfortranarray(A)
        elif f == "strided":
            A = np.repeat(A, 2, axis=1)[:, ::2]
        elif f == "f32":
            A = A.astype(np.float32)
        elif f == "int":
            A = A.astype(np.int16)
    arg = A
    skip = 0
    if src in ("npy", "npy1d"):
        np.save("data.npy", A)
        arg = "data.npy"
    elif src in ("txt", "csv", "txt_dl", "gz", "bz2"):
        delim = " " if src == "txt" else ("," if src == "csv" else g.choice("delim", [";", "\t", ",", " "]))
        skip = g.int("skip", 0, 3)
        fmt = "%d" if np.dtype(dt).kind == "i" else "%.3f"
        text = "".join("header line %d, not data\n" % i for i in range(skip)) + \
               "".join(delim.join(fmt % x for x in r) + "\n" for r in A)
        if g.bool("noeol", 0.2):
            text = text.rstrip("\n")
        if src in ("gz", "bz2"):
            import gzip, bz2
            arg = "data.txt." + src
            (gzip if src == "gz" else bz2).open(arg, "wt").write(text)
            if N * d == 1 or N == 1:
                pass
        else:
            arg = "data.csv" if src == "csv" else "data.txt"
            open(arg, "w").write(text)
        if delim != " ":
            kw["delimiter"] = delim
        if skip:
            kw["skiprows"] = skip
    elif src == "shape":
        arg = (N, d)
        A = np.zeros((N, d))
    if src in ("gz", "bz2") and (N == 1 or d == 1):
        raise Skip()   # np.loadtxt squeezes a single row or column
    keep = arg.copy() if isinstance(arg, np.ndarray) else None
    if g.bool("existing", 0.3):
        h5write("out.h5", np.ones((3, 2)))
    make_hdf5(arg, "out.h5", **kw)
    got = h5read("out.h5")
    exp = A[:, None] if A.ndim == 1 else A
    check(got.shape == exp.shape, "converted shape %s, expected %s (%s)", got.shape, exp.shape, src)
    check(got.dtype == np.dtype(dt), "converted type %s, expected %s", got.dtype, np.dtype(dt))
    check(np.array_equal(got, exp.astype(dt)), "converted data differ (%s)", src)
    check(norm_marks("out.h5"), "the file is not marked as not normalised")
    check(len(tables.file._open_files._name_mapping) == 0 if hasattr(tables.file._open_files, "_name_mapping") else True,
          "a file is left open")
    if keep is not None:
        check(same(keep, arg), "conversion changed its argument")


@case("C18")
def bad_source(g):
    from hpelm.modules import make_hdf5
    bad = g.choice("bad", ["3d", "list", "name", "tuple3", "comp"])
    a = {"3d": np.zeros((2, 2, 2)), "list": [[1, 2]], "name": "file.xyz", "tuple3": (1, 2, 3), "comp": np.ones((2, 2))}[bad]
    kw = {"comp_level": 10} if bad == "comp" else {}
    check(raises(lambda: make_hdf5(a, "o.h5", **kw)), "bad source %s is accepted", bad)


@case("C19", weight=3)
def normalisation(g):
    from hpelm.modules import make_hdf5, normalize_hdf5
    N = g.int("N", 1, g.choice("Nmax", [6, 60]))
    d = g.int("d", 1, 5)
    dt = g.choice("dtype", [np.float64, np.float64, np.float32])
    A = (g.np.uniform(-2, 2, (N, d)) * g.np.uniform(0.5, 10, d) + g.np.uniform(-5, 5, d)).astype(dt)
    if g.bool("const", 0.4):
        A[:, g.int("cc", 0, d - 1)] = g.choice("cv", [0.0, 1.0, -2.5, 0.1])
    make_hdf5(A, "d.h5", dtype=dt)
    A64 = A.astype(float)
    bkw = {} if g.bool("nobatch", 0.3) else {"batch": g.int("batch", 1, 70)}
    tt = 1e-7 if dt is np.float64 else 1e-3
    given = g.bool("given", 0.4)
    mu, sd = A64.mean(0), A64.std(0)
    if given:
        mu, sd = g.np.uniform(-1, 1, d), np.abs(g.np.uniform(0.5, 2, d))
        if g.bool("zero", 0.4):
            sd[g.int("zc", 0, d - 1)] = 0
        lst = g.bool("aslist", 0.3)
        a1, a2 = (mu.tolist(), sd.tolist()) if lst else (mu.copy(), sd.copy())
        r = normalize_hdf5("d.h5", mean=a1, std=a2, **bkw)
        check(np.array_equal(np.asarray(a1), mu) and np.array_equal(np.asarray(a2), sd), "given parameters were modified")
        close(r[0], mu, 1e-12, "returned mean")
    else:
        r = normalize_hdf5("d.h5", **bkw)
        close(r[0], mu, tt, "returned mean")
        sd0 = np.where(np.ptp(A64, axis=0) == 0, 1, sd)
        close(np.where(np.ptp(A64, axis=0) == 0, 1, np.asarray(r[1])), sd0, 1e-5 if dt is np.float64 else 1e-2, "returned standard deviation")
    const = (sd == 0) if given else (np.ptp(A64, axis=0) == 0)
    s1 = np.where(const, 1, sd)
    got = h5read("d.h5")
    if given:
        close(got, (A64 - mu) / s1, tt, "normalised data")
    else:   # a constant column may have a tiny computed deviation
        close(got[:, ~const], ((A64 - mu) / s1)[:, ~const], tt if dt is np.float64 else 1e-2, "normalised data")
        check(bool(np.all(np.isfinite(got))), "normalised data are not finite")
        if const.any():
            check(bool(np.all(np.abs(got[:, const]) <= 1.5)), "constant column after normalisation: %s", np.abs(got[:, const]).max())
    check(got.dtype == dt, "type changed")
    with tables.open_file("d.h5", "r") as h5:
        n = [n for n in h5.walk_nodes() if isinstance(n, tables.Array)][0]
        am, as_ = np.asarray(n.attrs.mean, dtype=float), np.asarray(n.attrs.std, dtype=float)
    close(am, np.asarray(r[0], dtype=float), 1e-12, "recorded mean")
    check(as_.shape == (d,), "recorded standard deviation has shape %s", as_.shape)
    close(np.where(const, 1, as_), np.where(const, 1, np.asarray(r[1], dtype=float)), 1e-12, "recorded standard deviation")
    # again: nothing to do
    bkw = {} if g.bool("nobatch2", 0.3) else {"batch": g.int("batch2", 1, 70)}
    r2 = normalize_hdf5("d.h5", **bkw)
    check(same(h5read("d.h5"), got), "normalising again changed the data")
    close(r2[0], am, 1e-12, "mean returned by the second call")
    close(r2[1], as_, 1e-12, "standard deviation returned by the second call")
    # given parameters are applied anyway
    if g.bool("third"):
        m3, s3 = g.np.uniform(-1, 1, d), np.abs(g.np.uniform(0.5, 2, d))
        normalize_hdf5("d.h5", mean=m3, std=s3)
        close(h5read("d.h5"), (got.astype(float) - m3) / s3, tt, "data after applying given parameters")


@case("C20", weight=2, tmo=40)
def async_prediction(g):
    m, lay = disk_model(g)
    B = g.np.uniform(-1, 1, (lay.L, m.nnet.outputs)).astype(m._p)
    m.nnet.set_B(B)
    N = g.int("N", 1, 50)
    X = inputs_matrix(g, N, m.nnet.inputs)
    h5write("X.h5", np.ascontiguousarray(X))
    istart, icount, n = rng(g, N)
    kw = rkw(g, istart, icount)
    m.predict("X.h5", "Ys.h5", **kw)
    m.predict_async("X.h5", "Ya.h5", **kw)
    check(not mp.active_children(), "a reader or writer process was not waited for")
    a, s = h5read("Ya.h5"), h5read("Ys.h5")
    check(a.dtype == s.dtype, "output type differs: %s, %s", a.dtype, s.dtype)
    close(a, s, 1e-12, "asynchronous prediction")
    close(a, layer_matrix(lay, X[istart:istart + n]).dot(B.astype(float)), 1e-8 if m._p is np.float64 else 1e-4, "prediction")
    closefiles(m)


@case("C20", weight=2, tmo=40)
def async_training(g):
    mode, c, w = setup_mode(g, ("", "c", "wc", "wcw", "ml"))
    m, lay = disk_model(g, outputs=c, prec="double")
    N = g.int("N", 3 * c, 50)
    X = inputs_matrix(g, N, m.nnet.inputs)
    T = targets(g, N, c, mode, every=True)
    istart, icount, n = rng(g, N)
    if mode == "wc" and w is None and (T[istart:istart + n].sum(0) == 0).any():
        raise Skip()
    h5write("X.h5", np.ascontiguousarray(X))
    h5write("T.h5", T)
    m2, _ = disk_model(g, lay, inputs=m.nnet.inputs, outputs=c, prec="double", norm=m.nnet.norm, tag="2")
    m2.batch = m.batch
    kw = rkw(g, istart, icount)
    op = g.choice("op", ["train", "add", "add_disk"])
    a, wk = train_args(g, mode, w)
    if op == "train":
        kw.update(wk)
        if g.bool("giveb"):
            kw["batch"] = g.int("batch3", 1, 30)
        if g.bool("past", 0.3):
            m.add_data(X, T)
        m.train_async("X.h5", "T.h5", *a, **kw)
        m2.train("X.h5", "T.h5", *a, **kw)
        close(m.nnet.get_B(), m2.nnet.get_B(), 1e-6 if m.nnet.norm > 1e-3 else 1e9, "weights of asynchronous training")
    else:
        for x in (m, m2):
            x.classification, x.wc = mode or None, w
        if op == "add":
            m.add_data_async("X.h5", "T.h5", **kw)
            m2.add_data("X.h5", "T.h5", **kw)
            m.add_data_async("X.h5", "T.h5", **kw)
            m2.add_data("X.h5", "T.h5", **kw)
        else:
            m.add_data_async("X.h5", "T.h5", fHH="a1.h5", fHT="a2.h5", **kw)
            m2.add_data("X.h5", "T.h5", fHH="s1.h5", fHT="s2.h5", **kw)
            close(h5read("a1.h5"), h5read("s1.h5"), 1e-9, "HH on disk")
            close(h5read("a2.h5"), h5read("s2.h5"), 1e-9, "HT on disk")
    check(not mp.active_children(), "a reader process was not waited for")
    for x, y, nme in zip(corr_of(m), corr_of(m2), ("HH", "HT")):
        close(x, y, 1e-9, "%s of asynchronous %s" % (nme, op))
    check(m.classification == m2.classification and m.batch == m2.batch, "options differ")
    check((m.wc is None) == (m2.wc is None) and (m.wc is None or np.allclose(m.wc, m2.wc)), "class weights differ")
    closefiles(m)
    closefiles(m2)


@case("C21", weight=3)
def validation_over_statistics(g):
    mode, c, w = setup_mode(g, ("", "", "c", "wcw", "ml"))
    m, lay = disk_model(g, outputs=c, cls=mode, w=w, prec="double", norm=g.choice("norm0", [0.1, 1.0, 5.0]))
    if g.bool("more"):
        k = g.int("extra", 1, 12)
        W, B = rand_neurons(g, m.nnet.inputs, k, "tanh")
        m.add_neurons(k, "tanh", W, B)
        lay.add("tanh", W, B)
    L = lay.L
    N = g.int("N", 2, 40)
    X, T = inputs_matrix(g, N, m.nnet.inputs), targets(g, N, c, mode)
    m.add_data(X, T, fHH="HH.h5", fHT="HT.h5")
    A, C = h5read("HH.h5"), h5read("HT.h5")
    Nv = g.int("Nv", 1, 40)
    Xv, Tv = inputs_matrix(g, Nv, m.nnet.inputs), targets(g, Nv, c, mode)
    steps = g.choice("steps_", [None, "n", "vec"])
    kw = {}
    if steps == "n":
        kw["steps"] = g.int("steps", 2, 15)
    elif steps == "vec":
        v = sorted(set([g.int("v", 1, L) for _ in range(4)] + [L]))
        kw["steps"] = g.choice("vt", [list, np.array, tuple])(v)
    r = m.validation_corr("HH.h5", "HT.h5", as_source(g, Xv, "Xv"), as_source(g, Tv, "Tv"), **kw)
    Ls, errs, confs = r
    Ls = [int(x) for x in Ls]
    check(all(a < b for a, b in zip(Ls, Ls[1:])), "sizes are not increasing: %s", Ls)
    check(max(Ls) == L and min(Ls) >= 1, "sizes %s of %d neurons", Ls, L)
    if steps == "vec":
        check(Ls == v, "sizes %s evaluated, %s given", Ls, v)
    H = layer_matrix(lay, Xv)
    Bs = []
    disc = mode != ""
    for i, l in enumerate(Ls):
        B = np.linalg.solve(A[:l, :l], C[:l])
        Bs.append(B)
        Y = H[:, :l].dot(B)
        margin = np.min(np.abs(Y - 0.5)) if mode == "ml" else (np.min(np.diff(np.sort(Y, 1), axis=1)) if disc else 1)
        if margin > 1e-7:
            close(errs[i], error_oracle(mode, Tv, Y, w), 1e-7, "error with %d neurons" % l)
            if disc:
                check(np.array_equal(confs[i], confusion_oracle(mode, Tv, Y)), "confusion matrix with %d neurons", l)
    check(len(confs) == (len(Ls) if disc else 0), "%d confusion matrices", len(confs))
    L2 = m.nnet.L
    check(L2 in Ls, "%d neurons left, sizes %s", L2, Ls)
    j = Ls.index(L2)
    check(errs[j] <= np.min(errs) + 1e-12, "error %s of the kept model, smallest is %s", errs[j], np.min(errs))
    same_layer(m.nnet.neurons, lay.pick(range(L2)), "neurons left")
    if np.linalg.cond(A) < 1e8:
        close(m.nnet.get_B(), Bs[j], 1e-6, "weights of the kept model")
    close(m.predict(Xv[:1]), H[:1, :L2].dot(np.asarray(m.nnet.get_B())), 1e-6, "prediction")
    closefiles(m)

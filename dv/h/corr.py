"""C23 (correlation matrices in and out), C16 (matrices on disk), C17 (locks)."""
from dv.spec import *
from dv.h.train import stats, weight, check_corr, setup, solution, lab


def given(m, c, prec=None, names=("Hgiven", "Tgiven")):
    """A symmetric matrix and a second one, as a user has them."""
    dt = prec or c.prec
    HH = m.array((c.L, c.L), lambda i: app(names[0], (tmin(i[0], i[1]), tmax(i[0], i[1])), "R"), dt)
    HT = matrix(m, names[1], (c.L, c.outputs), dt)
    return HH, HT, m.rreader(HH), m.rreader(HT)


# ---------------------------------------------------------------- C23
def _handed(cls, solver, weights):
    @harness("C23", "get_corr after add_data is symmetric, %s solver=%s weights=%s" % (cls, solver or "python", weights or "none"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, cls, solver, "double", weights, "array")
        m.call(m.getattr(c.elm, "add_data"), [X, T])
        check_corr(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)))
        a, b = m.lib.unpack(m, m.call(m.getattr(c.nnet, "get_corr"), []), 2)
        f = m.rreader(a)
        same_elements(m, "HH is symmetric", a, lambda ij: f((ij[1], ij[0])), (c.L, c.L))
        check_corr(m, c, *stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N)), name="a second time ")


for k in (("ELM", None, None), ("ELM", "basic", None), ("HPELM", None, "given"), ("HPELM", "basic", None)):
    _handed(*k)


def _inout(cls, solver, prec, dt):
    @harness("C23", "matrices put in are read back, %s solver=%s precision=%s given=%s" % (cls, solver or "python", prec, dt))
    def h(m):
        c = model(m, cls, solver, prec)
        HH, HT, f, g = given(m, c, dt)
        m.call(m.getattr(c.nnet, "set_corr"), [HH, HT])
        a, b = m.lib.unpack(m, m.call(m.getattr(c.nnet, "get_corr"), []), 2)
        same_elements(m, "HH read back is HH given", a, f, (c.L, c.L))
        same_elements(m, "HT read back is HT given", b, g, (c.L, c.outputs))
        a, b = m.lib.unpack(m, m.call(m.getattr(c.nnet, "get_corr"), []), 2)
        same_elements(m, "a second time HH", a, f, (c.L, c.L))
        same_elements(m, "a second time HT", b, g, (c.L, c.outputs))
        m.prove("precision of the stored matrices", TRUE if m.dtype(a) is c.prec and m.dtype(b) is c.prec else FALSE)


for cls in ("ELM", "HPELM"):
    for s in (None, "basic"):
        _inout(cls, s, "double", F8)
        _inout(cls, s, "single", F4)


def _solve(cls, solver):
    @harness("C23", "solving after putting matrices in, %s solver=%s" % (cls, solver or "python"))
    def h(m):
        c = model(m, cls, solver)
        HH, HT, f, g = given(m, c)
        m.call(m.getattr(c.nnet, "set_corr"), [HH, HT])
        m.call(m.getattr(c.nnet, "solve"), [])
        same_elements(m, "B solves HH B = HT of the matrices given", m.getattr(c.nnet, "B"), solution(m, c, f, g), (c.L, c.outputs))


def _feed(cls, solver, weights):
    @harness("C23", "feeding data after putting matrices in, %s solver=%s weights=%s" % (cls, solver or "python", weights or "none"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, cls, solver, "double", weights, "array")
        HH, HT, f, g = given(m, c)
        m.call(m.getattr(c.nnet, "set_corr"), [HH, HT])
        m.call(m.getattr(c.elm, "add_data"), [X, T])
        S, R = stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N), norm=False)
        check_corr(m, c, lambda ij: add(f(ij), S(ij)), lambda ij: add(g(ij), R(ij)), name="given matrices plus the data: ")


for cls in ("ELM", "HPELM"):
    for s in (None, "basic"):
        _solve(cls, s)
        _feed(cls, s, None)
_feed("HPELM", None, "given")


def _round(cls, solver):
    @harness("C23", "matrices moved to another model behave as if it had seen the data, %s solver=%s" % (cls, solver or "python"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, cls, solver, "double", None, "array")
        cut = I(m, "cut", 1)
        m.assume(lt(cut, N))
        part = lambda A, a, b: m.lib.getitem(m, A, Slice(a, b, None))
        m.call(m.getattr(c.elm, "add_data"), [part(X, None, cut), part(T, None, cut)])
        a, b = m.lib.unpack(m, m.call(m.getattr(c.nnet, "get_corr"), []), 2)
        m.call(m.getattr(c.nnet, "reset"), [])
        m.call(m.getattr(c.nnet, "set_corr"), [a, b])
        m.call(m.getattr(c.elm, "add_data"), [part(X, cut, None), part(T, cut, None)])
        check_corr(m, c, *stats(m, c, fx, ft, num(0), N))


for k in (("ELM", None), ("HPELM", None), ("HPELM", "basic")):
    _round(*k)


def _wrong(what):
    @harness("C23", "set_corr rejects %s" % what)
    def h(m):
        c = model(m, "ELM")
        r, k, r2, k2 = I(m, "rows", 0), I(m, "cols", 0), I(m, "rows2", 0), I(m, "cols2", 0)
        HH, HT = matrix(m, "Hgiven", (r, k)), matrix(m, "Tgiven", (r2, k2))
        m.assume({"a HH that is not square": ne(r, k), "a HH of another size": and_(eq(r, k), ne(r, c.L)),
                  "a HT with other rows": and_(eq(r, k), eq(r, c.L), ne(r2, c.L)),
                  "a HT with other columns": and_(eq(r, k), eq(r, c.L), eq(r2, c.L), ne(k2, c.outputs))}[what])
        rejects(m, lambda: m.call(m.getattr(c.nnet, "set_corr"), [HH, HT]))


for w in ("a HH that is not square", "a HH of another size", "a HT with other rows", "a HT with other columns"):
    _wrong(w)


# ---------------------------------------------------------------- C16
def stored(m, c, HH, HT, name=""):
    a, b = h5read(m, "hh.h5"), h5read(m, "ht.h5")
    same_elements(m, name + "the HH file holds norm*I once plus the sum over all samples added", a, HH, (c.L, c.L))
    same_elements(m, name + "the HT file holds the sum over all samples added", b, HT, (c.L, c.outputs))


def _disk(solver, prec, weights, src, first):
    @harness("C16", "add_data to files, %s, %s" % ("new files" if first == "new" else "files with earlier data", lab("HPELM", solver, prec, weights, src)))
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", solver, prec, weights, src)
        S, R = stats(m, c, fx, ft, num(0), N, weight(m, c, weights, ft, num(0), N), norm=first == "new")
        if first == "old":
            HH, HT, f, g = given(m, c)
            scilib.h5store(m, "hh.h5", HH)
            scilib.h5store(m, "ht.h5", HT)
            S0, R0 = S, R
            S, R = lambda ij: add(f(ij), S0(ij)), lambda ij: add(g(ij), R0(ij))
        m.call(m.getattr(c.elm, "add_data"), [X, T], dict(fHH="hh.h5", fHT="ht.h5"))
        stored(m, c, S, R)


for s in (None, "basic"):
    for first in ("new", "old"):
        _disk(s, "double", None, "file", first)
        _disk(s, "double", "given", "array", first)
_disk(None, "single", None, "array", "new")
_disk(None, "double", "auto", "array", "new")


def _two(solver, between):
    @harness("C16", "two additions to the same files, solver=%s%s" % (solver or "python", between))
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", solver, "double", None, "array")
        cut = I(m, "cut", 1)
        m.assume(lt(cut, N))
        part = lambda A, a, b: m.lib.getitem(m, A, Slice(a, b, None))
        ad = lambda a, b, **k: m.call(m.getattr(c.elm, "add_data"), [part(X, a, b), part(T, a, b)], k)
        ad(None, cut, fHH="hh.h5", fHT="ht.h5")
        if "memory" in between:
            ad(None, cut)
        ad(cut, None, fHH="hh.h5", fHT="ht.h5")
        stored(m, c, *stats(m, c, fx, ft, num(0), N))


for k in ((None, ""), ("basic", ""), (None, ", data fed into memory in between")):
    _two(*k)


def _ranges(solver):
    @harness("C16", "additions of two ranges of a file, solver=%s" % (solver or "python"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", solver, "double", None, "file")
        cut = I(m, "cut", 1)
        m.assume(lt(cut, N))
        m.call(m.getattr(c.elm, "add_data"), [X, T], dict(icount=cut, fHH="hh.h5", fHT="ht.h5"))
        m.call(m.getattr(c.elm, "add_data"), [X, T], dict(istart=cut, icount=N, fHH="hh.h5", fHT="ht.h5"))
        stored(m, c, *stats(m, c, fx, ft, num(0), N))


_ranges(None)


@harness("C16", "solving from the files")
def _from_files(m):
    c = model(m, "HPELM", None)
    HH, HT, f, g = given(m, c)
    scilib.h5store(m, "hh.h5", HH)
    scilib.h5store(m, "ht.h5", HT)
    m.call(m.getattr(c.elm, "solve_corr"), ["hh.h5", "ht.h5"])
    same_elements(m, "B solves HH B = HT of the files", m.getattr(c.nnet, "B"), solution(m, c, f, g), (c.L, c.outputs))
    same_elements(m, "the HH file is not changed", h5read(m, "hh.h5"), f, (c.L, c.L))
    same_elements(m, "the HT file is not changed", h5read(m, "ht.h5"), g, (c.L, c.outputs))


def _mismatch(which):
    @harness("C16", "files of another size are rejected (%s)" % which)
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", None, "double", None, "array")
        r, k = I(m, "rows", 1), I(m, "cols", 1)
        HH, HT, f, g = given(m, c)
        bad = matrix(m, "bad", (r, k))
        m.assume(or_(ne(r, c.L), ne(k, c.L if which == "HH" else c.outputs)))
        scilib.h5store(m, "hh.h5", bad if which == "HH" else HH)
        scilib.h5store(m, "ht.h5", bad if which == "HT" else HT)
        rejects(m, lambda: m.call(m.getattr(c.elm, "add_data"), [X, T], dict(fHH="hh.h5", fHT="ht.h5")))


_mismatch("HH")
_mismatch("HT")


# ---------------------------------------------------------------- C17
def _locks(first, size):
    @harness("C17", "add_data holds the lock of each file at every access, %s%s" % (first, "" if size == "right" else ", wrong size"))
    def h(m):
        c, X, T, fx, ft, N = setup(m, "HPELM", None, "double", None, "array")
        HH, HT, f, g = given(m, c)
        if size != "right":
            r, k = I(m, "rows", 1), I(m, "cols", 1)
            m.assume(or_(ne(r, c.L), ne(k, c.L)))
            HH = matrix(m, "bad", (r, k))
        if first in ("both exist", "only HH exists"):
            scilib.h5store(m, "hh.h5", HH)
        if first in ("both exist", "only HT exists"):
            scilib.h5store(m, "ht.h5", HT)
        m.watch |= {"hh.h5", "ht.h5"}
        try:
            m.call(m.getattr(c.elm, "add_data"), [X, T], dict(fHH="hh.h5", fHT="ht.h5"))
        except PyRaise:
            if size == "right":
                raise
        d = m.rec(m.fs).d
        held, ok, n = [], True, 0
        opened = {}
        for kind, path in d.get("#log", ()):
            if kind == "lock":
                held.append(path)
            elif kind == "unlock":
                held = [x for x in held if x != path]
                f_ = path[:-5]
                if opened.get(f_):
                    m.prove("a file is closed before its lock is given back", FALSE)
            else:
                n += 1
                m.prove("every access (check, creation, reading, writing) of %s happens under its own lock" % path,
                        TRUE if path + ".lock" in held else FALSE)
                if kind.startswith("open"):
                    opened[path] = True
                if kind == "close":
                    opened[path] = False
        m.prove("the files are accessed at all", TRUE if n else FALSE)
        m.prove("all locks are given back", TRUE if not held else FALSE)
        if size == "right":
            m.prove("all files are closed", TRUE if not any(opened.values()) else FALSE)
            # the new content is computed from the content read in the same locked section
            for p in ("hh.h5", "ht.h5"):
                sec, last = [], None
                for kind, path in d.get("#log", ()):
                    if path == p + ".lock":
                        if kind == "lock":
                            sec.append([])
                    elif path == p and sec:
                        sec[-1].append(kind)
                w = [s for s in sec if "write" in s]
                m.prove("the last locked section of %s reads and writes it" % p, TRUE if w and w[-1].index("access") <= w[-1].index("write") else FALSE)


for first in ("no file exists", "both exist", "only HH exists", "only HT exists"):
    _locks(first, "right")
_locks("both exist", "wrong")

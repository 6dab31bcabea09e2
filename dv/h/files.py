"""C18 (conversion to HDF5) and C19 (normalisation of HDF5 files)."""
from dv.spec import *
from dv.h.train import lab


def tools(m):
    return lambda name: m.get("hpelm.modules.hdf5_tools", name)


def attrs_of(m, path):
    return {k[2:]: v for k, v in m.rec(m.rec(m.rec(m.rec(m.fs).d[path]).d["node"]).d["attrs"]).d.items() if k.startswith("a:")}


# ---------------------------------------------------------------- C18
def converted(m, f, rows, cols, dtype, path="out.h5"):
    a = h5read(m, path)
    same_elements(m, "the file holds the given data", a, f, (rows, cols))
    m.prove("the file has the requested type", TRUE if m.dtype(a) is dtype else FALSE)
    at = attrs_of(m, path)
    m.prove("the file is marked as not normalised", TRUE if "mean" in at and "std" in at and at["mean"] is None and at["std"] is None else FALSE)


def convert(m, arg, dtype, given=True, **kw):
    """The call a user makes: the type may be left out when it is the default, any compression level."""
    lev = I(m, "level", 0)
    m.assume(le(lev, num(9)))
    kw["comp_level"] = lev
    if given:
        kw["dtype"] = dtype
    m.call(m.get("hpelm.modules.hdf5_tools", "make_hdf5"), [arg, "out.h5"], kw)



def _conv_array(src, ndim, sdt, dt, given):
    @harness("C18", "%s with %d dimension(s) of type %s, requested type %s" % (src, ndim, sdt, dt if given else "not given"))
    def h(m):
        N, d = I(m, "N", 1), I(m, "d", 1)
        A = matrix(m, "A", (N, d) if ndim == 2 else (N,), sdt)
        f = m.rreader(A)
        arg = A
        if src == ".npy file":
            scilib.npy_file(m, "data.npy", A)
            arg = "data.npy"
        snap = take(m)
        convert(m, arg, dt, given)
        if ndim == 2:
            converted(m, lambda i: f(tuple(i)), N, d, dt)
        else:
            converted(m, lambda i: f((i[0],)), N, num(1), dt)
        same_elements(m, "the given array is not changed", A, f, A.shape)
    return h


for src in ("array", ".npy file"):
    for nd in (1, 2):
        _conv_array(src, nd, F8, F8, False)
        _conv_array(src, nd, F8, F4, True)
        _conv_array(src, nd, F4, F8, True)


def _conv_text(ext, delim, dt, given, plain=False):
    @harness("C18", "%s file delimited by %r, requested type %s%s" % (ext, delim, dt if given else "not given", ", default options" if plain else ""))
    def h(m):
        n, d, hd = I(m, "lines", 1), I(m, "d", 1), I(m, "header", 0)
        if plain:
            m.assume(eq(hd, num(0)))
        m.assume(lt(hd, n))
        scilib.text_file(m, "data" + ext, n, d, num(0) if plain else hd, delim)
        kw = {} if plain else dict(delimiter=delim, skiprows=hd)
        convert(m, "data" + ext, dt, given, **kw)
        converted(m, lambda i: app("cell", tuple(i), "R"), sub(n, hd), d, dt)
    return h


for k in ((".txt", " ", F8, False, True), (".txt", ",", F4, True), (".csv", ",", F8, True), (".csv", ";", F8, False), (".txt.gz", " ", F8, False, True),
          (".txt.gz", ";", F4, True), (".txt.bz2", ",", F8, True)):
    _conv_text(*k)


def _conv_shape(dt, given):
    @harness("C18", "shape, requested type %s" % (dt if given else "not given"))
    def h(m):
        N, d = I(m, "N", 1), I(m, "d", 1)
        convert(m, (N, d), dt, given)
        converted(m, lambda i: num(0, "R"), N, d, dt)


_conv_shape(F8, False)
_conv_shape(F4, True)


@harness("C18", "data with three dimensions is rejected")
def _conv_3d(m):
    A = matrix(m, "A", (I(m, "N", 1), I(m, "d", 1), I(m, "e", 1)))
    rejects(m, lambda: convert(m, A, F8, False))


@harness("C18", "an existing file is replaced")
def _conv_again(m):
    N, d = I(m, "N", 1), I(m, "d", 1)
    A = matrix(m, "A", (N, d))
    f = m.rreader(A)
    scilib.h5store(m, "out.h5", matrix(m, "old", (I(m, "oldN", 1), I(m, "oldd", 1))), dict(mean=3, std=4))
    convert(m, A, F8, False)
    converted(m, lambda i: f(tuple(i)), N, d, F8)


# ---------------------------------------------------------------- C19
def disk(m, dt, attrs):
    N, d = I(m, "N", 1), I(m, "d", 1)
    A = matrix(m, "A", (N, d), dt)
    f = m.rreader(A)
    scilib.h5store(m, "d.h5", A, attrs)
    return N, d, f


def colmean(f, N, j):
    return div(sumrows(num(0), N, lambda s: f((s, j))), real(N))


def colstd(f, N, j):
    x2 = div(sumrows(num(0), N, lambda s: mul(f((s, j)), f((s, j)))), real(N))
    mu = colmean(f, N, j)
    return tm.sqrt(tm.tmax(sub(x2, mul(mu, mu)), num(0, "R")))


def one_for_zero(s):
    return ite(eq(s, num(0, "R")), num(1, "R"), s)


def norm_call(m, batch, kw=None, name=""):
    kw = dict(kw or {})
    if batch == "given":
        kw["batch"] = I(m, "batch" + name, 1)
    return m.lib.unpack(m, m.call(m.get("hpelm.modules.hdf5_tools", "normalize_hdf5"), ["d.h5"], kw), 2)


def normalised(m, f, N, d, mu, sd, dt, r, name=""):
    """What the file holds and records and what is returned, for means mu(j) and deviations sd(j)."""
    got = h5read(m, "d.h5")
    same_elements(m, name + "the data are (x - mean) / std", got,
                  lambda i: div(sub(f(i), mu(i[1])), one_for_zero(sd(i[1]))), (N, d))
    m.prove(name + "the type of the data is kept", TRUE if m.dtype(got) is dt else FALSE)
    recorded(m, d, mu, sd, name)
    returned(m, d, mu, sd, r, name)


def recorded(m, d, mu, sd, name=""):
    at = attrs_of(m, "d.h5")
    same_elements(m, name + "the mean is recorded", nl.to_arr(m, at["mean"]), lambda i: mu(i[0]), (d,))
    g = m.rreader(nl.to_arr(m, at["std"]))
    both(m, name + "the deviation is recorded", at["std"], d, sd)


def both(m, name, v, d, sd):
    """A deviation of zero may be written as the 1 it counts as."""
    a = nl.to_arr(m, v)
    m.prove(name + " (size)", eq(a.shape[0], d))
    j = var("j", "I")
    g = m.rreader(a)((j,))
    m.prove(name, implies(and_(le(num(0), j), lt(j, d)), eq(one_for_zero(g), one_for_zero(sd(j)))))


def returned(m, d, mu, sd, r, name=""):
    same_elements(m, name + "the mean is returned", nl.to_arr(m, r[0]), lambda i: mu(i[0]), (d,))
    both(m, name + "the deviation is returned", r[1], d, sd)


def _compute(dt, batch, again):
    @harness("C19", "normalising new data, type %s, batch %s%s" % (dt, batch, ", then again" if again else ""))
    def h(m):
        N, d, f = disk(m, dt, dict(mean=None, std=None))
        r = norm_call(m, batch)
        mu, sd = lambda j: colmean(f, N, j), lambda j: colstd(f, N, j)
        normalised(m, f, N, d, mu, sd, dt, r)
        if again:
            r = norm_call(m, batch, name="2")
            normalised(m, f, N, d, mu, sd, dt, r, "again: ")


for dt in (F8, F4):
    for b in ("given", "native"):
        _compute(dt, b, dt is F8)


def _second(batch):
    @harness("C19", "data normalised before are left alone, batch %s" % batch)
    def h(m):
        d = I(m, "d", 1)
        mu, sd = matrix(m, "mu", (d,)), matrix(m, "sd", (d,))
        N, d, f = disk(m, F8, dict(mean=mu, std=sd))
        r = norm_call(m, batch)
        same_elements(m, "the data are left alone", h5read(m, "d.h5"), f, (N, d))
        same_elements(m, "the recorded mean is returned", nl.to_arr(m, r[0]), m.rreader(mu), (d,))
        same_elements(m, "the recorded deviation is returned", nl.to_arr(m, r[1]), m.rreader(sd), (d,))
        at = attrs_of(m, "d.h5")
        same_elements(m, "the mean stays recorded", nl.to_arr(m, at["mean"]), m.rreader(mu), (d,))
        same_elements(m, "the deviation stays recorded", nl.to_arr(m, at["std"]), m.rreader(sd), (d,))


for b in ("given", "native"):
    _second(b)


def _given(dt, batch, before):
    @harness("C19", "normalising with given parameters, type %s, batch %s, %s" % (dt, batch, before))
    def h(m):
        d = I(m, "d", 1)
        at = dict(mean=None, std=None) if before == "new data" else dict(mean=matrix(m, "mu0", (d,)), std=matrix(m, "sd0", (d,)))
        N, d, f = disk(m, dt, at)
        mu, sd = matrix(m, "mu", (d,)), matrix(m, "sd", (d,))
        fm, fs = m.rreader(mu), m.rreader(sd)
        r = norm_call(m, batch, dict(mean=mu, std=sd))
        normalised(m, f, N, d, lambda j: fm((j,)), lambda j: fs((j,)), dt, r)
        same_elements(m, "the given mean is not modified", mu, fm, (d,))
        same_elements(m, "the given deviation is not modified", sd, fs, (d,))


for k in ((F8, "given", "new data"), (F8, "native", "new data"), (F4, "given", "new data"), (F8, "given", "data normalised before")):
    _given(*k)

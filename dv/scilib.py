"""Contracts of scipy, PyTables, fasteners, multiprocessing, pickle, csv and the file system (trusted; ghost state in m.fs).

m.fs is a record: path -> store.  A store is an HDF5 file {node: reference or None} or a text / npy / pickle file.
m.fs.d['#log'] holds, in order, the events on watched paths (m.watch): locks taken and released, accesses.
"""
from fractions import Fraction
from dv.values import *
from dv import smt
from dv import term as tm
from dv import nplib as nl


def N(name):
    def deco(f):
        return Native(name, f)
    return deco


def install(L):
    mods = L.modules
    B = L.builtins
    np_ = mods["numpy"].d
    linalg(L, mods)
    files(L, mods, np_)
    processes(L, mods)
    pickles(L, mods)


# ---------------------------------------------------------------- scipy
def _arr2(m, v):
    a = nl.to_arr(m, v)
    if a.ndim != 2 or any(a.masks):
        raise Unsupported("matrix argument")
    return a


def flag(m, a, k, i, name, default):
    v = a[i] if len(a) > i else k.get(name, default)
    if isinstance(v, T):
        if not is_num(v):
            raise Unsupported("symbolic BLAS flag")
        v = int(num_val(v))
    return v


def linalg(L, mods):
    scipy = {}
    lin = {}
    blas, lapack = {}, {}
    lin["blas"], lin["lapack"] = NativeModule("scipy.linalg.blas", blas), NativeModule("scipy.linalg.lapack", lapack)
    scipy["linalg"] = NativeModule("scipy.linalg", lin)

    def garbage(m, a):
        nm, ks = m.symfn("overwritten")
        m.write(a, lambda i: app(nm, tuple(i) + ks, "R"))

    def syrk(dty):
        def f(m, a, k):
            alpha, x = nl.as_term(a[0]), _arr2(m, a[1])
            beta = nl.as_term(a[2] if len(a) > 2 else k.get("beta", 0))
            c = a[3] if len(a) > 3 else k.get("c")
            trans = flag(m, a, k, 4, "trans", 0)
            lower = flag(m, a, k, 5, "lower", 0)
            over = flag(m, a, k, 6, "overwrite_c", 0)
            r = m.rreader(x)
            n, kk = (x.shape[0], x.shape[1]) if not trans else (x.shape[1], x.shape[0])
            g = None
            if c is not None:
                c = _arr2(m, c)
                m.must(eq(c.shape[0], n), ValueError, "syrk: c")
                m.must(eq(c.shape[1], n), ValueError, "syrk: c")
                g = m.rreader(c)

            def el(i):
                v = fresh("s", "I")
                p = mul(r((i[0], v)), r((i[1], v))) if not trans else mul(r((v, i[0])), r((v, i[1])))
                full = add(mul(alpha, sum_(v, num(0), kk, p)), mul(beta, g(i)) if g else num(0))
                tri = le(i[0], i[1]) if not lower else le(i[1], i[0])
                return ite(tri, full, g(i) if g else num(0))
            out = m.array((n, n), el, dty)
            if over and c is not None:
                q = (fresh("q", "I"), fresh("q", "I"))
                m.content(out.buf)(q)
                garbage(m, c)
            return out
        return f
    for p, dty in (("s", F4), ("d", F8)):
        blas[p + "syrk"] = Native("blas.%ssyrk" % p, syrk(dty))

    def gemm(dty):
        def f(m, a, k):
            alpha = nl.as_term(a[0])
            x, y = _arr2(m, a[1]), _arr2(m, a[2])
            if len(a) > 3 or set(k) - {"trans_a", "trans_b"}:
                raise Unsupported("gemm")
            x = nl.transpose(m, x) if k.get("trans_a") else x
            y = nl.transpose(m, y) if k.get("trans_b") else y
            return nl.binop(m, "Mult", alpha, nl.astype(m, nl.dot(m, x, y), dty))
        return f
    for p, dty in (("s", F4), ("d", F8)):
        blas[p + "gemm"] = Native("blas.%sgemm" % p, gemm(dty))

    def posv(dty):
        def f(m, a, k):
            A, b = _arr2(m, a[0]), nl.to_arr(m, a[1])
            lower = flag(m, a, k, 2, "lower", 0)
            oa, ob = flag(m, a, k, 3, "overwrite_a", 0), flag(m, a, k, 4, "overwrite_b", 0)
            m.must(eq(A.shape[0], A.shape[1]), ValueError, "posv")
            m.must(eq(A.shape[0], b.shape[0]), ValueError, "posv")
            r, g = m.rreader(A), m.rreader(b)
            n = A.shape[0]
            if lower:
                s = lambda i, j: ite(le(j, i), r((i, j)), r((j, i)))
            else:
                s = lambda i, j: ite(le(i, j), r((i, j)), r((j, i)))
            m.positive_diag = True
            bad = m.decide_lib("matrix not positive definite")
            if bad:
                nm, ks = m.symfn("posvjunk")
                x = m.array(b.shape, lambda i: app(nm, tuple(i) + ks, "R"), dty)
                info = m.sym("info", "I")
                m.assume(lt(num(0), info))
            else:
                p = nl.pinv_fn(s, n)

                def el(i):
                    v = fresh("k", "I")
                    return sum_(v, num(0), n, mul(p(i[0], v), g((v,) + tuple(i[1:]))))
                x = m.array(b.shape, el, dty)
                q = tuple(fresh("q", "I") for _ in b.shape)
                m.content(x.buf)(q)
                info = 0
            for over, arr in ((oa, A), (ob, b)):
                if over:
                    arr_c = m.heap[arr.buf].d["c"]
                    nm, ks = m.symfn("overwritten")
                    m.write(arr, lambda i, nm=nm, ks=ks: app(nm, tuple(i) + ks, "R"))
            nm2, ks2 = m.symfn("chol")
            c = m.array(A.shape, lambda i: app(nm2, tuple(i) + ks2, "R"), dty)
            return (c, x, info)
        return f
    for p, dty in (("s", F4), ("d", F8)):
        lapack[p + "posv"] = Native("lapack.%sposv" % p, posv(dty))

    def lu_factor(m, a, k):
        A = _arr2(m, a[0])
        m.must(eq(A.shape[0], A.shape[1]), ValueError, "expected square matrix")
        nm, ks = m.symfn("lu")
        return (m.array(A.shape, lambda i: app(nm, tuple(i) + ks, "R"), F8),
                m.array((A.shape[0],), lambda i: app(nm + "p", tuple(i) + ks, "I"), I4))

    def lu_solve(m, a, k):
        b = nl.to_arr(m, a[1])
        lu = m.lib.unpack(m, a[0], 2)[0]
        m.must(eq(lu.shape[0], b.shape[0]), ValueError, "incompatible dimensions")
        nm, ks = m.symfn("lusolve")
        return m.array(b.shape, lambda i: app(nm, tuple(i) + ks, "R"), F8)
    lin["lu_factor"], lin["lu_solve"] = Native("lu_factor", lu_factor), Native("lu_solve", lu_solve)
    lin["solve"], lin["pinv"] = m_np(mods, "solve"), m_np(mods, "pinv")
    lin["lstsq"], lin["inv"] = m_np(mods, "lstsq"), m_np(mods, "inv")

    def brentq(m, a, k):
        if m.decide_lib("no sign change"):
            m.raise_(ValueError, "f(a) and f(b) must have different signs")
        return m.sym("root", "R")
    scipy["optimize"] = NativeModule("scipy.optimize", {"brentq": Native("brentq", brentq)})

    def cdist(m, a, k):
        X, W = _arr2(m, a[0]), _arr2(m, a[1])
        metric = a[2] if len(a) > 2 else k.get("metric", "euclidean")
        m.must(eq(X.shape[1], W.shape[1]), ValueError, "XA and XB must have the same number of columns")
        f, g = m.rreader(X), m.rreader(W)
        d = X.shape[1]

        def el(i):
            v = fresh("c", "I")
            df = sub(f((i[0], v)), g((i[1], v)))
            if metric == "cityblock":
                return sum_(v, num(0), d, tabs(df))
            if metric == "sqeuclidean":
                return sum_(v, num(0), d, mul(df, df))
            if metric == "euclidean":
                return sqrt(sum_(v, num(0), d, mul(df, df)))
            if metric == "chebyshev":
                return nl.maxval(lambda c: tabs(sub(f((i[0], c)), g((i[1], c)))), d)
            raise Unsupported("metric")
        return m.array((X.shape[0], W.shape[0]), el, F8)
    scipy["spatial"] = NativeModule("scipy.spatial", {"distance": NativeModule("scipy.spatial.distance", {
        "cdist": Native("cdist", cdist)})})
    mods["scipy"] = NativeModule("scipy", scipy)


def m_np(mods, name):
    return mods["numpy"].d["linalg"].d[name]


# ---------------------------------------------------------------- files
def store(m, path):
    if not isinstance(path, str):
        raise Unsupported("file name")
    return m.rec(m.fs).d.get(path)


def event(m, kind, path):
    if path in m.watch:
        d = m.rec(m.fs).d
        d["#log"] = d.get("#log", ()) + ((kind, path),)


def h5store(m, path, arr=None, attrs=None, chunk=None):
    """Puts an HDF5 file into the file system (used by harnesses too)."""
    st = m.new("nat", {"node": None}, "h5store")
    m.rec(m.fs).d[path] = st
    if arr is not None:
        m.rec(st).d["node"] = mknode(m, path, arr, attrs, chunk)
    return st


def mknode(m, path, arr, attrs=None, chunk=None):
    at = m.new("nat", {"a:" + k: v for k, v in (attrs or {}).items()}, "h5attrs")
    n = m.new("nat", {"_arr": arr, "attrs": at, "_path": path, "_handle": None, "name": "data", "_rows": None,
                         "_chunk": chunk}, "h5node")
    m.rec(at).d["_node"] = n
    return n


def settled(m, o):
    """Content of a node; an extendable array is the rows appended to it."""
    rec = m.rec(o)
    if rec.d["_rows"] is None or isinstance(rec.d["_arr"], Junk):
        return rec.d["_arr"]
    rows, a0 = m.rec(rec.d["_rows"]), rec.d["_arr"]
    dty = m.dtype(a0)
    if rows.kind == "list":
        rd = [m.rreader(x) for x in rows.x]

        def el(i):
            v = num(0, "R")
            for k in range(len(rd) - 1, -1, -1):
                v = ite(eq(i[0], num(k)), rd[k]((num(0), i[1])), v)
            return v
        return m.array((num(len(rd)), a0.shape[1]), el, dty)
    if rows.kind != "symlist" or rows.d.get("mask"):
        raise Unsupported("rows of a growing array")
    q, j = fresh("q", "I"), fresh("q", "I")
    body = m.rreader(rows.d["fn"](q))((num(0), j))
    return m.array((rows.d["n"], a0.shape[1]), lambda i: subst(body, {q.data: num(i[0]), j.data: num(i[1])}), dty)


def node_arr(m, o):
    rec = m.rec(o)
    h = rec.d["_handle"]
    if h is None or not m.rec(h).d["open"]:
        m.raise_(RuntimeError, "closed node")
    event(m, "access", rec.d["_path"])
    a = rec.d["_arr"]
    if isinstance(a, Junk):
        raise JunkRead(a.loc)
    if rec.d["_rows"] is not None:
        return settled(m, o)
    return a


def node_write(m, o):
    a = node_arr(m, o)
    h = m.rec(o).d["_handle"]
    if m.rec(h).d["mode"] == "r":
        m.raise_(RuntimeError, "file is not writable")
    event(m, "write", m.rec(o).d["_path"])
    return a


def files(L, mods, np_):
    tables = {}
    mods["tables"] = NativeModule("tables", tables)

    def open_file(m, a, k):
        path = a[0] if a else k["filename"]
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(path, str):
            if isinstance(path, StrVal):
                raise Unsupported("file name")
            m.raise_(TypeError, "file name")
        st = store(m, path)
        if mode in ("r", "r+") and (st is None or m.rec(st).x != "h5store"):
            event(m, "check", path)
            m.raise_(OSError, "file does not exist")
        for h in list(m.heap.values()):
            if h.kind == "nat" and h.x == "h5file" and h.d.get("_path") == path and h.d["open"] is True and (mode == "w" or (mode != h.d["mode"])):
                m.raise_(ValueError, "the file is already opened")
        event(m, "open-" + mode, path)
        if mode == "w" or st is None:
            st = h5store(m, path)
        h = m.new("nat", {"_path": path, "mode": mode, "open": True, "_store": st}, "h5file")
        m.rec(h).d["root"] = Opaque("h5 root of " + path)
        n = m.rec(st).d["node"]
        if n is not None:
            m.rec(n).d["_handle"] = h
        return h
    tables["open_file"] = Native("open_file", open_file)

    def chk(m, o):
        if m.rec(o).d["open"] is not True:
            m.raise_(RuntimeError, "the file is closed")

    def walk(m, o, a, k):
        chk(m, o)
        event(m, "access", m.rec(o).d["_path"])
        n = m.rec(m.rec(o).d["_store"]).d["node"]
        kind = a[1] if len(a) > 1 else k.get("classname")
        return m.newlist(([] if kind in ("Array", "Leaf", "CArray", "EArray") else [Opaque("h5 group")]) + ([n] if n is not None else []))

    def close(m, o, a, k):
        rec = m.rec(o)
        if rec.d["open"] is True:
            rec.d["open"] = False
            event(m, "close", rec.d["_path"])

    def flush(m, o, a, k):
        return None

    def atom_dtype(m, a, k):
        at = a[2] if len(a) > 2 else k.get("atom")
        if not (isinstance(at, Ref) and m.rec(at).x == "atom"):
            raise Unsupported("atom")
        return m.rec(at).d["dtype"]

    def create(m, o, a, k, grow):
        chk(m, o)
        if m.rec(o).d["mode"] == "r":
            m.raise_(RuntimeError, "file is not writable")
        rec = m.rec(o)
        event(m, "write", rec.d["_path"])
        name = a[1] if len(a) > 1 else k.get("name")
        shape = a[3] if len(a) > 3 else k.get("shape")
        obj = a[4] if len(a) > 4 and False else k.get("obj")
        if m.rec(rec.d["_store"]).d["node"] is not None:
            raise Unsupported("second array in a file")
        if obj is not None and shape is None:
            src = nl.to_arr(m, obj)
            dty = atom_dtype(m, a, k) if (len(a) > 2 or "atom" in k) else m.dtype(src)
            arr = nl.astype(m, src, dty)
            if arr.buf == src.buf:
                arr = m.copy_arr(src)
        else:
            dty = atom_dtype(m, a, k)
            sh = tuple(nl.index_value(m, x) for x in m.lib.unpack(m, shape, len(shape) if isinstance(shape, tuple) else 2))
            arr = m.array(sh, lambda i: num(0, "R" if dty.kind == "f" else "I"), dty)
        n = mknode(m, rec.d["_path"], arr)
        nr = m.rec(n)
        nr.d["_handle"] = o
        nr.d["name"] = name
        if grow:
            nr.d["_rows"] = m.newlist([])
            if not (is_num(arr.shape[0]) and num_val(arr.shape[0]) == 0):
                raise Unsupported("shape of an extendable array")
        m.rec(rec.d["_store"]).d["node"] = n
        return n
    L.nat_methods["h5file"] = {
        "walk_nodes": walk, "close": close, "flush": flush,
        "create_carray": lambda m, o, a, k: create(m, o, a, k, False),
        "create_array": lambda m, o, a, k: create(m, o, list(a[:2]) + [], dict(k, obj=a[2] if len(a) > 2 else k.get("obj")), False),
        "create_earray": lambda m, o, a, k: create(m, o, a, k, True),
        "__enter__": lambda m, o, a, k: o,
        "__exit__": lambda m, o, a, k: close(m, o, a, k),
    }

    # nodes
    def node_get(m, o, key):
        a = node_arr(m, o)
        v = nl.arr_getitem(m, a, key)
        if isinstance(v, Arr):
            c = m.copy_arr(v)
            return c
        return v

    def node_set(m, o, key, v):
        a = node_write(m, o)
        if m.rec(o).d["_rows"] is not None:
            raise Unsupported("assignment to a growing array")
        nl.arr_setitem(m, a, key, v)

    def node_attr(m, o, name):
        rec = m.rec(o)
        if name in ("shape", "dtype", "nrows", "ndim", "chunkshape"):
            a = node_arr(m, o)
            if name == "shape":
                return tuple(nl.pyfix(s) for s in a.shape)
            if name == "dtype":
                return m.dtype(a)
            if name == "ndim":
                return a.ndim
            if name == "chunkshape":
                ch = rec.d["_chunk"]
                if ch is None:
                    ch = m.sym("chunk", "I")
                    m.assume(le(num(1), ch))
                    rec.d["_chunk"] = ch
                return (nl.pyfix(num(ch)),) + tuple(nl.pyfix(s) for s in a.shape[1:])
            return nl.pyfix(a.shape[0])
        if name in ("reshape", "T", "sum", "mean", "astype", "argmax", "copy", "ravel"):
            m.raise_(AttributeError, name)
        return NotImplemented
    L.nat_getitem["h5node"], L.nat_setitem["h5node"], L.nat_getattr["h5node"] = node_get, node_set, node_attr

    def node_append(m, o, a, k):
        rec = m.rec(o)
        if rec.d["_rows"] is None:
            m.raise_(AttributeError, "append")
        h = rec.d["_handle"]
        if not m.rec(h).d["open"]:
            m.raise_(RuntimeError, "closed node")
        v = nl.to_arr(m, a[0])
        if v.ndim != 2 or not m.entails(eq(v.shape[0], num(1))):
            raise Unsupported("append of more than a row")
        m.must(eq(v.shape[1], rec.d["_arr"].shape[1]), ValueError, "the ranks of the appended object and the array differ")
        event(m, "write", rec.d["_path"])
        m.lib.cont_methods[(m.rec(rec.d["_rows"]).kind, "append")](m, rec.d["_rows"], [nl.astype(m, v, m.dtype(rec.d["_arr"]))], {})
    L.nat_methods["h5node"] = {"append": node_append, "flush": flush, "read": lambda m, o, a, k: node_get(m, o, Slice(None, None, None)),
                               "close": flush, "__len__": lambda m, o, a, k: nl.pyfix(node_arr(m, o).shape[0])}
    L.nat_iter["h5node"] = lambda m, o: m.lib.iterate(m, node_arr(m, o))

    # attributes are stored by value
    def keep(m, v):
        if isinstance(v, Arr):
            return m.copy_arr(v)
        if isinstance(v, Ref):
            if m.rec(v).kind == "list":
                return m.newlist([keep(m, x) for x in m.rec(v).x])
            if m.rec(v).kind == "symlist":
                return m.new("symlist", dict(m.rec(v).d))
            raise Unsupported("attribute value")
        return v

    def attrs_open(m, o, write):
        d = m.rec(m.rec(o).d["_node"]).d
        h = d["_handle"]
        if h is None or m.rec(h).d["open"] is not True:
            m.raise_(RuntimeError, "closed node")
        event(m, "write" if write else "access", d["_path"])
        if write and m.rec(h).d["mode"] == "r":
            m.raise_(RuntimeError, "file is not writable")

    def attrs_get(m, o, name):
        attrs_open(m, o, False)
        d = m.rec(o).d
        if "a:" + name not in d:
            m.raise_(AttributeError, name)
        v = d["a:" + name]
        if isinstance(v, Junk):
            raise JunkRead(v.loc)
        return keep(m, v)

    def attrs_set(m, o, name, v):
        attrs_open(m, o, True)
        m.rec(o).d["a:" + name] = keep(m, v)
    L.nat_getattr["h5attrs"], L.nat_setattr["h5attrs"] = attrs_get, attrs_set

    def atom(m, a, k):
        return m.new("nat", {"dtype": nl.dt(m, a[0])}, "atom")
    tables["Atom"] = NativeModule("tables.Atom", {"from_dtype": Native("Atom.from_dtype", atom)})
    for nm_, d_ in (("Float64Atom", F8), ("Float32Atom", F4)):
        tables[nm_] = Native(nm_, (lambda d_: lambda m, a, k: m.new("nat", {"dtype": d_}, "atom"))(d_))

    def filters(m, a, k):
        return m.new("nat", {}, "filters")
    tables["Filters"] = Native("Filters", filters)

    # os.path
    path = mods["os"].d["path"].d

    def isfile(m, a, k):
        if not isinstance(a[0], str):
            raise Unsupported("file name")
        event(m, "check", a[0])
        return store(m, a[0]) is not None
    path["isfile"] = path["exists"] = Native("isfile", isfile)
    mods["os"].d["system"] = Native("os.system", lambda m, a, k: 0)

    def remove(m, a, k):
        if store(m, a[0]) is None:
            m.raise_(OSError, "no such file")
        event(m, "write", a[0])
        m.rec(m.fs).d.pop(a[0])
    mods["os"].d["remove"] = mods["os"].d["unlink"] = Native("os.remove", remove)

    # locks
    def lock(m, a, k):
        return m.new("nat", {"_path": a[0], "acquired": False}, "lock")
    mods["fasteners"] = NativeModule("fasteners", {"InterProcessLock": Native("InterProcessLock", lock)})

    def acquire(m, o, a, k):
        rec = m.rec(o)
        if not isinstance(rec.d["_path"], str):
            raise Unsupported("lock name")
        if k.get("blocking") is False or (a and a[0] is False):
            ok = m.decide_lib("lock is free")
            if not ok:
                return False
        elif "timeout" in k or len(a) > 3:
            if not m.decide_lib("lock in time"):
                return False
        d = m.rec(m.fs).d
        if rec.d["_path"] in d.get("#held", ()):
            raise Unsupported("lock taken twice")
        d["#held"] = d.get("#held", ()) + (rec.d["_path"],)
        d["#log"] = d.get("#log", ()) + (("lock", rec.d["_path"]),)
        rec.d["acquired"] = True
        return True

    def release(m, o, a, k):
        rec = m.rec(o)
        if rec.d["acquired"] is not True:
            m.raise_(RuntimeError, "unable to release an unacquired lock")
        d = m.rec(m.fs).d
        d["#held"] = tuple(x for x in d.get("#held", ()) if x != rec.d["_path"])
        d["#log"] = d.get("#log", ()) + (("unlock", rec.d["_path"]),)
        rec.d["acquired"] = False

    def lenter(m, o, a, k):
        if not acquire(m, o, [], {}):
            m.raise_(RuntimeError, "lock")
        return o
    L.nat_methods["lock"] = {"acquire": acquire, "release": release, "__enter__": lenter,
                             "__exit__": lambda m, o, a, k: release(m, o, a, k)}

    # text files: a store {"n": lines, "c": columns, "cell": name of the function (line, column) -> number}
    def open_(m, a, k):
        p = a[0]
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(p, str):
            raise Unsupported("file name")
        st = store(m, p)
        if "U" in mode:
            m.raise_(ValueError, "invalid mode: 'U'")
        if "r" in mode and st is None:
            m.raise_(OSError, "no such file")
        if "w" in mode:
            st = m.new("nat", {"obj": None}, "blob")
            m.rec(m.fs).d[p] = st
        return m.new("nat", {"_store": st, "mode": mode, "pos": 0, "open": True}, "file")
    L.open_ = open_

    def fclose(m, o, a, k):
        m.rec(o).d["open"] = False

    def readline(m, o, a, k):
        rec = m.rec(o)
        pos = rec.d["pos"]
        if isinstance(pos, Junk):
            raise JunkRead(pos.loc)
        rec.d["pos"] = nl.pyfix(add(num(pos), num(1)))      # beyond the end: counted, yields no lines
        return StrVal()
    L.nat_methods["file"] = {"close": fclose, "__enter__": lambda m, o, a, k: o, "__exit__": fclose, "readline": readline,
                             "flush": fclose, "readlines": lambda m, o, a, k: m.raise_(Unsupported, "readlines")}

    def next_(m, a, k):
        if isinstance(a[0], Ref) and m.rec(a[0]).kind == "nat" and m.rec(a[0]).x == "file":
            st = m.rec(m.rec(a[0]).d["_store"]).d
            if not m.branch(lt(num(m.rec(a[0]).d["pos"]), st["n"])):
                if len(a) > 1:
                    return a[1]
                m.raise_(StopIteration, "")
            return readline(m, a[0], [], {})
        raise Unsupported("next()")
    L.builtins["next"] = Native("next", next_)

    def lines(m, o):
        """Lines from the current position; a line is ('line', number)."""
        rec = m.rec(o)
        st = m.rec(rec.d["_store"]).d
        pos = num(rec.d["pos"])
        return SymSeq(tm.tmax(sub(st["n"], pos), num(0)), lambda i: mkline(m, rec.d["_store"], add(pos, num(i))))

    def mkline(m, st, i, dl=None):
        d = m.rec(st).d
        return m.new("nat", {"_store": st, "_i": i, "_dl": dl}, "line")

    def reader(m, a, k):
        f = a[0]
        if not (isinstance(f, Ref) and m.rec(f).kind == "nat" and m.rec(f).x == "file"):
            raise Unsupported("csv.reader of such a source")
        dl = a[1] if len(a) > 1 else k.get("delimiter", ",")
        st = m.rec(m.rec(f).d["_store"]).d
        if dl != st["delimiter"]:
            m.raise_(ValueError, "could not convert string to float")
        return m.new("nat", {"_file": f, "_dl": dl}, "csvreader")
    mods["csv"].d["reader"] = Native("csv.reader", reader)
    L.nat_iter["csvreader"] = lambda m, o: rows(m, m.rec(o).d["_file"])

    def rows(m, f):
        s = lines(m, f)
        return s
    L.nat_iter["file"] = lambda m, o: lines(m, o)

    def fromiter(m, a, k):
        v = a[0]
        if isinstance(v, Ref) and m.rec(v).kind == "nat" and m.rec(v).x == "line":
            d = m.rec(v).d
            st = m.rec(d["_store"]).d
            dd = nl.dt(m, a[1] if len(a) > 1 else k.get("dtype"))
            i = d["_i"]
            m.must(le(st["header"], i), ValueError, "could not convert string to float")
            return m.array((st["c"],), lambda j: app(st["cell"], (sub(i, st["header"]), j[0]), "R"), dd)
        return nl.asarray(m, v, nl.dt(m, a[1] if len(a) > 1 else k.get("dtype")))
    np_["fromiter"] = Native("np.fromiter", fromiter)
    L.line_array = fromiter

    def loadtxt(m, a, k):
        st = store(m, a[0]) if isinstance(a[0], str) else None
        if st is None:
            m.raise_(OSError, "not found")
        d = m.rec(st).d
        if m.rec(st).x != "text":
            raise Unsupported("loadtxt of such a file")
        dl = k.get("delimiter", None)
        if dl is not None and dl != d["delimiter"]:
            m.raise_(ValueError, "could not convert string to float")
        if dl is None and d["delimiter"] != " ":
            m.raise_(ValueError, "could not convert string to float")
        skip = nl.as_term(k.get("skiprows", 0))
        m.must(le(d["header"], skip), ValueError, "could not convert string to float")
        dd = nl.dt(m, k.get("dtype"))
        nd = k.get("ndmin", 0)
        n = tm.tmax(sub(d["n"], skip), num(0))
        off = sub(skip, d["header"])
        cell, c = d["cell"], d["c"]
        full = m.array((n, c), lambda i: app(cell, (add(i[0], off), i[1]), "R"), dd)
        if isinstance(nd, int) and nd == 2:
            return full
        if m.branch(eq(n, num(1))):
            if m.branch(eq(c, num(1))):
                return m.array((), lambda i: app(cell, (off, num(0)), "R"), dd)
            return m.array((c,), lambda i: app(cell, (off, i[0]), "R"), dd)
        if m.branch(eq(c, num(1))):
            return m.array((n,), lambda i: app(cell, (add(i[0], off), num(0)), "R"), dd)
        return full
    np_["loadtxt"] = np_["genfromtxt"] = Native("np.loadtxt", loadtxt)

    def load(m, a, k):
        st = store(m, a[0]) if isinstance(a[0], str) else None
        if st is None:
            m.raise_(OSError, "not found")
        if m.rec(st).x != "npy":
            raise Unsupported("np.load of such a file")
        return m.copy_arr(m.rec(st).d["arr"])
    np_["load"] = Native("np.load", load)


def text_file(m, path, n, c, header, delimiter, cell="cell"):
    st = m.new("nat", {"n": num(n), "c": num(c), "header": num(header), "delimiter": delimiter, "cell": cell}, "text")
    m.rec(m.fs).d[path] = st
    return st


def npy_file(m, path, arr):
    st = m.new("nat", {"arr": arr}, "npy")
    m.rec(m.fs).d[path] = st
    return st


# ---------------------------------------------------------------- processes
def processes(L, mods):
    """Queues and processes.  The children's behaviour is their contract (m.children: function name -> role), proved apart.

    Reader contract: answers the i-th request (start, stop) with rows start..stop-1 of its file as long as every request up
    to i is non-empty, and ends at the first empty one.  Writer contract: writes each (rows, start, stop) there and ends
    at None."""
    def queue(m, a, k):
        return m.new("nat", {"cap": a[0] if a else k.get("maxsize", 0), "nput": 0, "ngot": 0, "s1": 0, "e1": 0, "s2": 0, "e2": 0,
                             "alive": True, "role": None, "proc": None, "file": None}, "queue")

    def process(m, a, k):
        t = k.get("target")
        args = k.get("args", ())
        args = tuple(m.lib.iterate(m, args)) if args is not None else ()
        p = m.new("nat", {"target": t, "args": args, "daemon": False, "started": False, "joined": False}, "process")
        return p
    mods["multiprocessing"] = NativeModule("multiprocessing", {"Queue": Native("Queue", queue), "Process": Native("Process", process)})

    def start(m, o, a, k):
        rec = m.rec(o)
        t = rec.d["target"]
        role = m.children.get(getattr(t, "name", None))
        if role is None:
            raise Unsupported("process with an unknown target")
        path, qs = rec.d["args"][0], rec.d["args"][1:]
        names = {"reader": ("rin", "rout"), "writer": ("win",)}[role]
        if len(qs) != len(names):
            raise Unsupported("arguments of a process")
        for q, r in zip(qs, names):
            m.rec(q).d["role"] = r
            m.rec(q).d["proc"] = o
            m.rec(q).d["file"] = path
        rec.d["qs"] = tuple(qs)
        rec.d["started"] = True
        m.rec(m.fs).d.setdefault("#procs", ())
        m.rec(m.fs).d["#procs"] = m.rec(m.fs).d["#procs"] + (o,)
        if role == "writer":
            from dv import scilib
            h = m.call(mods["tables"].d["open_file"], [path, "a"])
            rec.d["handle"] = h

    def join(m, o, a, k):
        rec = m.rec(o)
        if rec.d["started"] is not True:
            m.raise_(AssertionError, "can only join a started process")
        qs = rec.d["qs"]
        q = m.rec(qs[0]).d
        if q["role"] == "rin":
            out = m.rec(qs[1]).d
            m.prove("the reader of %s received its end marker" % q["file"], eq(num(q["alive"]), FALSE))
            m.prove("every block of %s was taken before waiting for its reader" % q["file"], eq(num(out["ngot"]), sub(num(q["nput"]), num(1))))
        else:
            m.prove("the writer of %s received its end marker" % q["file"], eq(num(q["alive"]), FALSE))
            h = rec.d["handle"]
            m.rec(h).d["open"] = False
        rec.d["joined"] = True
    L.nat_methods["process"] = {"start": start, "join": join, "is_alive": lambda m, o, a, k: m.decide_lib("alive"),
                                "terminate": lambda m, o, a, k: m.prove("no process is killed", FALSE)}

    def rd(m, d, key):
        v = d[key]
        if isinstance(v, Junk):
            raise JunkRead(v.loc)
        return num(v)

    def put(m, o, a, k):
        d = m.rec(o).d
        role = d["role"]
        if role == "rin":
            s, e = [nl.as_term(x) for x in m.lib.unpack(m, a[0], 2)]
            alive = rd(m, d, "alive")
            m.prove("nothing is requested from %s after the end marker" % d["file"], alive)
            out = m.rec(m.rec(d["proc"]).d["qs"][1]).d
            ci, co = num(d["cap"]), num(out["cap"])
            # the reader holds one answer while its outgoing queue is full
            m.prove("a request to the reader of %s cannot block for ever" % d["file"],
                    or_(le(ci, num(0)), le(co, num(0)), le(sub(rd(m, d, "nput"), rd(m, out, "ngot")), add(ci, co))))
            s1, e1 = rd(m, d, "s1"), rd(m, d, "e1")
            d["s2"], d["e2"], d["s1"], d["e1"] = s1, e1, s, e
            d["alive"] = lt(s, e)      # it is alive before, as the obligation says
            d["nput"] = nl.pyfix(add(rd(m, d, "nput"), num(1)))
            return
        if role == "win":
            alive = rd(m, d, "alive")
            m.prove("nothing is sent to the writer after its end marker", alive)
            if a[0] is None:
                d["alive"] = FALSE
                return
            rows, s, e = m.lib.unpack(m, a[0], 3)
            st = store(m, d["file"])
            node = m.rec(st).d["node"]
            m.lib.setitem(m, node, Slice(s, e, None), rows)
            d["nput"] = nl.pyfix(add(rd(m, d, "nput"), num(1)))
            return
        raise Unsupported("put into such a queue")

    def get(m, o, a, k):
        d = m.rec(o).d
        if d["role"] != "rout":
            raise Unsupported("get from such a queue")
        qin = m.rec(m.rec(d["proc"]).d["qs"][0]).d
        g, p = rd(m, d, "ngot"), rd(m, qin, "nput")
        m.prove("a block of %s that is waited for was requested" % d["file"], lt(g, p))
        if m.entails(eq(g, sub(p, num(1)))):
            s, e = rd(m, qin, "s1"), rd(m, qin, "e1")
        elif m.entails(eq(g, sub(p, num(2)))):
            s, e = rd(m, qin, "s2"), rd(m, qin, "e2")
        else:
            iq = m.rec(d["proc"]).d["qs"][0].id
            raise Hint([((iq, x), qin[x]) for x in ("nput", "s1", "e1", "alive")] + [((o.id, "ngot"), add(g, num(1)))])
        m.prove("a block of %s that is waited for is not the end marker" % d["file"], lt(s, e))
        m.assume(lt(s, e))
        d["ngot"] = nl.pyfix(add(g, num(1)))
        st = store(m, d["file"])
        node = m.rec(st).d["node"]
        return m.copy_arr(nl.arr_getitem(m, m.rec(node).d["_arr"], Slice(s, e, None)))
    L.nat_methods["queue"] = {"put": put, "get": get, "close": lambda m, o, a, k: None,
                              "cancel_join_thread": lambda m, o, a, k: None, "join_thread": lambda m, o, a, k: None}


# ---------------------------------------------------------------- pickle
def deep(m, v, memo):
    if isinstance(v, Arr):
        return m.copy_arr(v)
    if isinstance(v, tuple):
        return tuple(deep(m, x, memo) for x in v)
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        rec = m.rec(v)
        if rec.kind == "list":
            r = memo[v.id] = m.newlist([])
            m.rec(r).x.extend(deep(m, x, memo) for x in rec.x)
            return r
        if rec.kind == "dict":
            r = memo[v.id] = m.new("dict", {})
            m.rec(r).d.update({k: deep(m, x, memo) for k, x in rec.d.items()})
            return r
        if rec.kind == "symlist" and not rec.d.get("mask"):
            fn = rec.d["fn"]
            return m.new("symlist", {"n": rec.d["n"], "fn": lambda i: deep(m, fn(i), {})})
        raise Unsupported("pickle of %s" % rec.kind)
    if isinstance(v, (Func, Bound)):
        m.raise_(TypeError, "cannot pickle a function")
    return v


def pickles(L, mods):
    P = mods["six"].d["moves"].d["cPickle"].d
    mods["pickle"] = mods["six"].d["moves"].d["cPickle"]

    def dumps(m, a, k):
        return m.new("nat", {"obj": deep(m, a[0], {})}, "pickled")

    def loads(m, a, k):
        if not (isinstance(a[0], Ref) and m.rec(a[0]).kind == "nat" and m.rec(a[0]).x == "pickled"):
            m.raise_(ValueError, "not a pickle")
        return deep(m, m.rec(a[0]).d["obj"], {})

    def dump(m, a, k):
        f = m.rec(a[1])
        m.rec(f.d["_store"]).d["obj"] = deep(m, a[0], {})

    def load(m, a, k):
        f = m.rec(a[0])
        return deep(m, m.rec(f.d["_store"]).d["obj"], {})
    P["dumps"], P["loads"] = Native("dumps", dumps), Native("loads", loads)
    P["dump"], P["load"] = Native("dump", dump), Native("load", load)
    P["HIGHEST_PROTOCOL"] = -1

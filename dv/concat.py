"""Concatenation of arrays: of a known number of arrays, or of a sequence of symbolic length."""
from dv.values import *
from dv import smt
from dv import term as tm


def concat(m, items, axis):
    from dv import nplib as nl
    if isinstance(items, dict):
        return concat_sym(m, items, axis)
    if not items:
        m.raise_(ValueError, "need at least one array to concatenate")
    nd = items[0].ndim
    if any(x.ndim != nd for x in items) or nd == 0:
        m.raise_(ValueError, "all the input array dimensions must match exactly")
    if any(any(x.masks) for x in items):
        raise Unsupported("concatenation of filtered arrays")
    if isinstance(axis, T):
        axis = int(num_val(axis)) if is_num(axis) else None
    if axis is None:
        raise Unsupported("concatenation axis")
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        m.raise_(ValueError, "axis")
    for x in items[1:]:
        for a in range(nd):
            if a != axis:
                m.must(eq(x.shape[a], items[0].shape[a]), ValueError, "dimensions must match exactly")
    dtp = promote(*[m.dtype(x) for x in items])
    isb = dtp.kind == "b"
    rs = [m.reader(x) if isb else m.rreader(x) for x in items]
    offs = [num(0)]
    for x in items:
        offs.append(add(offs[-1], x.shape[axis]))

    def fn(idx):
        j = idx[axis]
        t = None
        for i in range(len(items) - 1, -1, -1):
            ii = tuple(idx[:axis]) + (sub(j, offs[i]),) + tuple(idx[axis + 1:])
            v = rs[i](ii)
            t = v if t is None else ite(lt(j, offs[i + 1]), v, t)
        return t
    shape = [offs[-1] if a == axis else items[0].shape[a] for a in range(nd)]
    return m.array(shape, fn, dtp)


def blk(W, n, j):
    """Index of the block that holds position j when blocks of widths W(0), W(1) .. W(n-1) follow one another."""
    return app("blk", (W, n, j), "I")


def _blk_ax(t):
    W, n, j = t.args
    w = lam_fn(W)
    v = fresh("q", "I")
    off = lambda h: sum_(v, num(0), h, w(v))
    inside = and_(le(num(0), j), lt(j, off(n)))
    return [or_(not_(inside), and_(le(num(0), t), lt(t, n), le(off(t), j), lt(j, add(off(t), w(t)))))]


def _blk_ev(ev, a):
    W, n, j = a
    acc = 0
    for t in range(int(n)):
        acc += W(t)
        if j < acc:
            if j < 0:
                break
            return t
    raise smt.NoEval("position outside the blocks")


smt.AXIOMS["blk"] = _blk_ax
smt.EVAL["blk"] = _blk_ev
smt.DOMAINS["blk"] = {0: lambda a: [(num(0), a[1])]}


def concat_sym(m, items, axis):
    n, fn = items["n"], items["fn"]
    m.must(lt(num(0), n), ValueError, "need at least one array to concatenate")
    k = m.sym("q", "I")
    probe = m.explore_one(lambda: fn(k), and_(le(num(0), k), lt(k, n))) if hasattr(m, "explore_one") else fn(k)
    if not isinstance(probe, Arr) or any(probe.masks):
        raise Unsupported("concatenation of a sequence of such values")
    nd = probe.ndim
    ax = (1 if nd > 1 else 0) if axis == "h" else axis
    s = lambda t, i: subst(t, {k.data: i}) if k.op == "var" else replace(t, {k: i})
    first = [s(x, num(0)) for x in probe.shape]
    for a in range(nd):
        if a != ax:
            m.must(or_(not_(and_(le(num(0), k), lt(k, n))), eq(probe.shape[a], first[a])), ValueError, "dimensions")
    width = fun(1, lambda i: s(probe.shape[ax], i))
    r = m.rreader(probe)
    v = fresh("q", "I")
    w = lam_fn(width)
    off = lambda h: sum_(v, num(0), h, w(v))

    def el(idx):
        j = idx[ax]
        b = blk(width, n, j)
        ii = tuple(idx[:ax]) + (sub(j, off(b)),) + tuple(idx[ax + 1:])
        q = fresh("q", "I")
        qs = [fresh("q", "I") for _ in ii]
        body = s(r(tuple(qs)), q)
        mp = {x.data: y for x, y in zip(qs, ii)}
        mp[q.data] = b
        return subst(body, mp)
    shape = [off(n) if a == ax else first[a] for a in range(nd)]
    return m.array(shape, el, m.dtype(probe))

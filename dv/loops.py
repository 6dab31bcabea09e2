"""Loops over symbolic ranges: invariants are derived from a generic iteration and then verified.

A loop body is executed once at an arbitrary iteration k.  Every location it changes gets a closed form (its value at the
head of iteration k); candidates come from solving the recurrence post(k) = head(k+1), and are accepted only after
init, step and exit conditions are proved.  A location without a proved closed form is havocked.
"""
import os
from dv.values import *
from dv import smt
from dv import term as tm

ABSENT = object()


class Peel(Exception):
    pass


# ---------------------------------------------------------------- values at another iteration
class Lifter(object):
    """Moves values from the heap of a generic iteration k to the current heap, with k replaced."""

    def __init__(self, m, heap, base, k):
        self.m, self.heap, self.base, self.k = m, heap, base, k
        self.cc = {}
        self.fams = {}

    def content(self, b):
        """(index variables, term) of the content of a buffer."""
        r = self.cc.get(b)
        if r is None:
            rec = self.heap[b]
            c = rec.d["c"]
            if isinstance(c, Junk):
                raise JunkRead(c.loc)
            q = tuple(fresh("q", "I") for _ in rec.x[0])
            r = self.cc[b] = (q, c(q))
        return r

    def content_fn(self, b, t):
        """Content function of buffer b at iteration t."""
        q, body = self.content(b)
        kn = self.k.data

        def fn(idx):
            s = {v.data: i for v, i in zip(q, idx)}
            s[kn] = t
            return subst(body, s)
        return fn

    def at(self, v, t, memo=None):
        if memo is None:
            memo = {}
        m, kn = self.m, self.k.data
        S = lambda x: subst(x, {kn: t})
        if isinstance(v, T):
            return S(v)
        if isinstance(v, NameVal):
            return NameVal(S(v.t))
        if isinstance(v, tuple):
            return tuple(self.at(x, t, memo) for x in v)
        if isinstance(v, Arr):
            shape = [S(x) for x in v.shape]
            masks = [self.mask(x, t) for x in v.masks]
            bmap = [("fix", S(b[1])) if b[0] == "fix" else ("ax", b[1], S(b[2]), b[3]) for b in v.bmap]
            if v.buf in self.base:
                return Arr(v.buf, bmap, shape, masks)
            if v.buf not in memo:
                rec = self.heap[v.buf]
                c = rec.d["c"]
                memo[v.buf] = m.alloc(Rec("buf", {"c": Junk(c.loc) if isinstance(c, Junk) else Content(self.content_fn(v.buf, t))},
                                          (tuple(S(x) for x in rec.x[0]), rec.x[1])))
                if v.buf in m.frozen:
                    m.frozen.add(memo[v.buf])
            return Arr(memo[v.buf], bmap, shape, masks)
        if isinstance(v, SymSeq):
            return SymSeq(S(v.n), lambda i: self.at(v.fn(i), t, {}))
        if isinstance(v, MergedArr):
            kk = ("merged", id(v))
            if kk not in memo:
                q = tuple(fresh("q", "I") for _ in v.shape)
                body = v.fn(q)
                memo[kk] = m.array([S(x) for x in v.shape],
                                   lambda idx: subst(body, dict([(a.data, i) for a, i in zip(q, idx)] + [(kn, t)])), v.dtype)
            return memo[kk]
        if isinstance(v, Ref):
            if v.id in self.base:
                return v
            if v.id not in memo:
                rec = self.heap[v.id]
                nr = memo[v.id] = Ref(m.alloc(Rec(rec.kind, {}, None)))
                self.fill(nr.id, rec, t, memo)
            return memo[v.id]
        if isinstance(v, Func) and v.frame is not None and v.frame not in self.base:
            return Func(v.node, self.frame(v.frame, t, memo), v.module, v.defaults, v.kwdefaults, v.name, v.cls)
        if isinstance(v, Bound):
            return Bound(self.at(v.fn, t, memo), self.at(v.obj, t, memo))
        return v

    def frame(self, fid, t, memo):
        if fid is None or fid in self.base:
            return fid
        if fid not in memo:
            rec = self.heap[fid]
            memo[fid] = self.m.alloc(Rec(rec.kind, {}, self.frame(rec.x, t, memo)))
            self.m.heap[memo[fid]].d = {a: self.at(b, t, memo) for a, b in rec.d.items()}
        return memo[fid]

    def fill(self, nid, rec, t, memo):
        r = self.m.heap[nid]
        if rec.kind == "symlist":
            fn, n = rec.d["fn"], subst(rec.d["n"], {self.k.data: t})
            r.d = {"n": n, "fn": (lambda fn: lambda i: self.generic(fn, i, t))(fn)}
            if rec.d.get("mask"):
                r.d["mask"] = self.mask(rec.d["mask"], t)
        else:
            r.d = {a: self.at(b, t, memo) for a, b in rec.d.items()}
        r.x = [self.at(b, t, memo) for b in rec.x] if isinstance(rec.x, list) else rec.x

    def generic(self, fn, i, t):
        """fn(i) at iteration t, where i itself may mention k."""
        x = fresh("x", "I")
        m, cur = self.m, self.m.heap
        hp = dict(cur)
        hp.update(self.heap)
        m.heap = hp             # arrays of the iteration
        try:
            v = fn(x)
        finally:
            m.heap = cur
        return vsubst2(Lifter(m, hp, self.base, self.k), v, x, i, t)

    def mask(self, mk, t):
        if mk is None:
            return None
        kn = self.k.data
        return Mask(subst(mk.n, {kn: t}), lambda s: subst_at(mk.cond, s, kn, t))

    # a value of every iteration at once: arrays made in iteration k become slices of one array with k as first index
    def family(self, v, memo):
        m = self.m
        if isinstance(v, Arr) and v.buf not in self.base:
            fb = memo.get(v.buf)
            if fb is None:
                rec = self.heap[v.buf]
                q, body = self.content(v.buf)
                kn = self.k.data

                def fn(idx):
                    s = {a.data: i for a, i in zip(q, idx[1:])}
                    s[kn] = idx[0]
                    return subst(body, s)
                shp = tuple(x if kn not in x.fv else fresh("sz", "I") for x in rec.x[0])
                fb = memo[v.buf] = m.alloc(Rec("buf", {"c": Content(fn)}, ((fresh("sz", "I"),) + shp, rec.x[1])))
                if v.buf in m.frozen:
                    m.frozen.add(fb)
            return FamArr(fb, v, self)
        if isinstance(v, MergedArr):
            fb = memo.get(id(v))
            if fb is None:
                q = tuple(fresh("q", "I") for _ in v.shape)
                body = v.fn(q)
                kn = self.k.data

                def fn2(idx):
                    s = {a.data: i for a, i in zip(q, idx[1:])}
                    s[kn] = idx[0]
                    return subst(body, s)
                fb = memo[id(v)] = m.alloc(Rec("buf", {"c": Content(fn2)}, (tuple(fresh("sz", "I") for _ in range(len(v.shape) + 1)), v.dtype)))
            return FamArr(fb, Arr(fb, [("ax", i, num(0), 1) for i in range(len(v.shape))], v.shape), self)
        if isinstance(v, tuple):
            return tuple(self.family(x, memo) for x in v)
        return v

    def member(self, f, t):
        """The family's value at iteration t."""
        if isinstance(f, FamArr):
            S = lambda x: subst(x, {self.k.data: t})
            v = f.v
            bmap = [("fix", t)] + [("fix", S(b[1])) if b[0] == "fix" else ("ax", b[1], S(b[2]), b[3]) for b in v.bmap]
            return Arr(f.buf, bmap, [S(x) for x in v.shape], [self.mask(x, t) for x in v.masks])
        if isinstance(f, tuple):
            return tuple(self.member(x, t) for x in f)
        return self.at(f, t, {})


class FamArr(object):
    def __init__(self, buf, v, lifter):
        self.buf, self.v = buf, v


class MergedArr(object):
    """Array value that differs between the paths of a loop body."""

    def __init__(self, shape, fn, dtype):
        self.shape, self.fn, self.dtype = shape, fn, dtype


def subst_at(cond, s, kn, t):
    x = fresh("x", "I")
    return subst(cond(x), {x.data: num(s), kn: t})


def vsubst2(lf, v, x, i, t):
    if isinstance(v, T):
        return subst(v, {x.data: num(i), lf.k.data: t})
    if isinstance(v, NameVal):
        return NameVal(subst(v.t, {x.data: num(i), lf.k.data: t}))
    if isinstance(v, tuple):
        return tuple(vsubst2(lf, y, x, i, t) for y in v)
    if isinstance(v, Arr):
        s = lambda y: subst(y, {x.data: num(i), lf.k.data: t})
        bmap = [("fix", s(b[1])) if b[0] == "fix" else ("ax", b[1], s(b[2]), b[3]) for b in v.bmap]
        if v.buf in lf.base:
            return Arr(v.buf, bmap, [s(y) for y in v.shape])
        heap = lf.heap if v.buf in lf.heap else lf.m.heap
        rec = heap[v.buf]
        c = rec.d["c"]
        q = tuple(fresh("q", "I") for _ in rec.x[0])
        body = c(q)
        if not ({x.data, lf.k.data} & body.fv) and v.buf in lf.m.heap:
            return Arr(v.buf, bmap, [s(y) for y in v.shape])
        nb = lf.m.alloc(Rec("buf", {"c": Content(lambda idx: subst(body, dict([(a.data, j) for a, j in zip(q, idx)] +
                                                                            [(x.data, num(i)), (lf.k.data, t)])))},
                            (tuple(s(y) for y in rec.x[0]), rec.x[1])))
        if v.buf in lf.m.frozen:
            lf.m.frozen.add(nb)
        return Arr(nb, bmap, [s(y) for y in v.shape])
    if isinstance(v, Ref):
        if v.id in lf.base:
            return v
        raise Unsupported("object in a symbolic list")
    return v


# ---------------------------------------------------------------- locations
def getloc(heap, loc):
    rec = heap[loc[0]]
    if loc[1] == "#x":
        return rec
    return rec.d.get(loc[1], ABSENT)


def diff(h0, h1):
    """Locations of records of h0 that differ in h1."""
    out = []
    for rid, r0 in h0.items():
        r1 = h1[rid]
        if r0 is r1:
            continue
        if r0.kind != r1.kind:
            out.append((rid, "#x"))
            continue
        if r0.kind == "symlist":
            if r0.d["n"] is not r1.d["n"] or r0.d["fn"] is not r1.d["fn"] or r0.d.get("mask") is not r1.d.get("mask"):
                out.append((rid, "#x"))
            continue
        if isinstance(r0.x, list):
            if len(r0.x) != len(r1.x) or not all(veq(a, b) or a is b for a, b in zip(r0.x, r1.x)):
                out.append((rid, "#x"))
        elif r0.x is not r1.x and r0.x != r1.x:
            raise Unsupported("record changes its nature in a loop")
        for key, v in r1.d.items():
            if key not in r0.d:
                out.append((rid, key))
            elif r0.d[key] is not v and not veq(r0.d[key], v):
                out.append((rid, key))
        for key in r0.d:
            if key not in r1.d:
                raise Unsupported("deletion in a loop")
    return out


def is_numeric(v):
    return isinstance(v, (T, bool, int)) or (isinstance(v, float) and v == v and abs(v) != float("inf"))


SORTS = {"f": "R", "i": "I", "u": "I", "b": "B"}


class Summary(object):
    def __init__(self, m, k0, n, body, what="loop"):
        self.m, self.k0, self.n, self.body, self.what = m, num(k0), num(n), body, what
        self.k = fresh("k", "I")
        self.S0 = m.snapshot()
        self.h0 = self.S0[0]
        self.base = set(self.h0)
        self.range = [le(self.k0, self.k), lt(self.k, self.n)]
        self.pc = self.S0[1] + [c for c in self.range if c not in self.S0[1] and c is not TRUE]
        self.pcn = self.S0[1] + [le(self.k0, self.k), lt(add(self.k, num(1)), self.n)]
        self.pce = self.S0[1]
        self.st = {}        # loc -> status
        self.head = {}      # loc -> symbol name / closed form
        self.rounds = 0
        self.tried = set()
        self.syms = {}
        self.extra = {}     # loc -> further facts about iterations k and k+1, for the step condition of loc

    # ---------------------------------------------------------- trial
    def trial(self):
        m = self.m
        m.restore(self.S0)
        for c in self.range:
            m.assume(c)
        self.npc = len(m.pc)
        self.syms = {l: self.head[l] for l, s in self.st.items() if s == "sym"}
        for loc, s in self.st.items():
            self.install(loc, s, self.k)
        self.hh = {i: r.copy() for i, r in m.heap.items()}
        self.heads = dict((loc, getloc(self.hh, loc)) for loc in self.st)
        m.loopks.append(self.k)
        try:
            outs = m.explore(lambda: self.body(self.k))
        finally:
            m.loopks.pop()
            m.restore(self.S0)
        return outs

    def install(self, loc, s, t):
        """Sets location loc of the current heap to its value at the head of iteration t."""
        m = self.m
        rec = m.heap[loc[0]]
        if s == "junk":
            rec.d[loc[1]] = Junk(loc)
        elif s == "list":
            rec.kind, rec.d, rec.x = "symlist", {"n": self.head[loc].data if False else self.head[loc], "fn": self.junkfn(loc)}, None
        elif s == "sym":
            rec.d[loc[1]] = self.symbolic(loc)
        elif s in ("solved", "havoc"):
            self.head[loc][0](t)
        elif s == "frozen":
            pass
        else:
            raise AssertionError(s)

    def junkfn(self, loc):
        def fn(i):
            raise JunkRead(loc)
        return fn

    def init(self, loc):
        return getloc(self.h0, loc)

    def symbolic(self, loc):
        """Symbolic head value."""
        m = self.m
        v0, nm = self.init(loc), self.head[loc]
        if loc[1] == "c" and m.heap[loc[0]].kind == "buf":
            s = SORTS[m.heap[loc[0]].x[1].kind]
            ks = tuple(m.loopks)
            return Content(lambda idx: app(nm, tuple(idx) + ks, s))
        if is_numeric(v0):
            return app(nm, tuple(m.loopks), num(v0).sort) if m.loopks else tm.var(nm, num(v0).sort)
        s = SORTS[m.dtype(v0).kind]
        ks = tuple(m.loopks)
        return m.array(v0.shape, lambda idx: app(nm, tuple(idx) + ks, s), m.dtype(v0))

    def probe(self):
        """Guesses invariants of numbers from a trial that leaves out what it cannot execute; they are verified later."""
        m = self.m
        todo = [l for l, s in self.st.items() if s == "sym" and is_numeric(self.init(l))]
        if not todo or m.lenient or (self.deadline_near()):
            return False
        m.lenient = True
        try:
            outs = self.trial()
        except (Unsupported, JunkRead, Hint):
            return False
        finally:
            m.lenient = False
        self.normal = [o for o in outs if o[0] == "normal"]
        if not self.normal:
            return False
        cs, done = self.conds(), False
        for loc in todo:
            v, _ = self.merge_vals([getloc(o[2], loc) for o in self.normal], cs, loc)
            if is_numeric(v) and v is not self.heads[loc] and self.solve_num(loc, num(v)):
                done = True
        return done

    def deadline_near(self):
        import time
        return bool(self.m.deadline) and time.time() > self.m.deadline

    def guess(self, e):
        done = False
        for loc, p in e.pairs:
            if self.st.get(loc) == "sym" and self.solve_num(loc, num(p)):
                done = True
        return done

    def promote(self, loc):
        v0 = self.init(loc)
        isbuf = loc[1] == "c" and self.h0[loc[0]].kind == "buf"
        if not isbuf and not is_numeric(v0) and not (isinstance(v0, Arr) and not any(v0.masks)):
            raise Peel()
        if isinstance(v0, Junk):
            raise JunkRead(v0.loc)
        self.st[loc] = "sym"
        self.head[loc] = fresh("hd", "I").data

    # ---------------------------------------------------------- the algorithm
    def run(self):
        m = self.m
        try:
            self.outs = self.solve()
        except BaseException:
            m.restore(self.S0)
            del m.obls[self.n0:]
            raise
        m.restore(self.S0)
        self.finish()

    def solve(self):
        m = self.m
        n0 = self.n0 = len(m.obls)
        while True:
            del m.obls[n0:]         # obligations of the body count for the final invariants only
            self.rounds += 1
            if self.rounds > 40:
                raise Unsupported("loop not summarised")
            m.check_time()
            try:
                outs = self.trial()
            except JunkRead as e:
                if self.st.get(e.loc) == "junk":
                    self.promote(e.loc)
                    continue
                if self.st.get(e.loc) == "list":
                    raise Peel()
                raise
            except Hint as e:
                if not self.guess(e):
                    raise
                continue
            except Unsupported:
                if not self.probe():
                    raise
                continue
            new = False
            for kind, v, heap, pc in outs:
                for loc in diff(self.hh, heap):
                    if kind != "normal" and loc[1] == "#x":
                        continue        # applied where the loop is left
                    if loc not in self.st:
                        new = True
                        rec = self.h0[loc[0]]
                        if loc[1] == "#x":
                            if rec.kind not in ("list", "symlist") or rec.d.get("mask"):
                                raise Unsupported("change of a %s in a loop" % rec.kind)
                            self.st[loc] = "list"
                            self.head[loc] = fresh("ln", "I")
                        else:
                            self.st[loc] = "junk"
            if new:
                continue
            self.normal = [o for o in outs if o[0] == "normal"]
            if not self.normal:
                raise Peel()
            # a path that only the first iteration takes: execute that one apart
            if len(self.normal) > 1:
                for o in self.normal:
                    if smt.impossible(o[3], ne(self.k, self.k0), 1500):
                        raise Peel()
            self.merged = self.merge()
            self.learn()
            progress = False
            for loc, s in list(self.st.items()):
                if s in ("sym", "list"):
                    if self.solve_loc(loc):
                        progress = True
            if progress:
                continue
            unsolved = [l for l, s in self.st.items() if s == "sym"]
            if any(s == "list" for s in self.st.values()):
                raise Unsupported("a list is changed in a loop other than by appending")
            if unsolved:
                for l in unsolved:
                    self.havoc(l)
                continue
            bad = [l for l, s in self.st.items() if s == "solved" and not self.verify(l)]
            if bad:
                for l in bad:
                    self.havoc(l)
                continue
            return outs

    def learn(self):
        pass

    # ---------------------------------------------------------- merging the paths of the body
    def conds(self):
        return [and_(*o[3][self.npc:]) for o in self.normal]

    def merge(self):
        cs = self.conds()
        out = {}
        for loc, s in self.st.items():
            if s == "list":
                out[loc] = [getloc(o[2], loc) for o in self.normal]
                continue
            if s == "frozen":
                continue
            vs = [getloc(o[2], loc) for o in self.normal]
            out[loc] = self.merge_vals(vs, cs, loc)
        return out

    def merge_vals(self, vs, cs, loc=None):
        """-> (value, index of the outcome heap it lives in)"""
        v0 = vs[0]
        heaps = [o[2] for o in self.normal]
        if all(v is v0 for v in vs) or all(veq(v, v0) and self.same_buf(v0, heaps) for v in vs):
            return v0, 0
        if loc is not None and loc[1] == "c" and all(isinstance(v, Content) for v in vs):
            nd = len(self.h0[loc[0]].x[0])
            q = tuple(fresh("q", "I") for _ in range(nd))
            ts = [v(q) for v in vs]
            if all(t is ts[0] for t in ts):
                return vs[0], 0
            w = [v for v in vs if v.base is not None]
            hc = w[0].base if w else None
            if w and all(v is hc or (v.base is hc and same_region(v.region, w[0].region)) for v in vs):
                tv = [hc(q) if v is hc else num(v.val(q)) for v in vs]
                j = self.joined(tv, [region_cond(w[0].region, q)])
                if j is not None and vs[j] is not hc:
                    return vs[j], 0
                return Content(base=hc, region=w[0].region, val=lambda idx: itechain(cs, [hc(idx) if v is hc else num(v.val(idx)) for v in vs])), 0
            j = self.joined(ts, [])
            if j is not None:
                return vs[j], 0
            return Content(lambda idx: itechain(cs, [v(idx) for v in vs])), 0
        if all(is_numeric(v) for v in vs):
            ts = [num(v) for v in vs]
            if len(set(t.sort == "B" for t in ts)) > 1:
                return Junk(loc), 0
            j = self.joined(ts, [])
            if j is not None:
                return vs[j], 0
            return itechain(cs, ts), 0
        if all(isinstance(v, Arr) for v in vs) and all(v.ndim == v0.ndim and not any(v.masks) for v in vs):
            def read(v, h):
                c = h[v.buf].d["c"]
                if isinstance(c, Junk):
                    raise JunkRead(c.loc)
                return lambda idx: c(v.bidx(idx))
            dts = [heaps[i][v.buf].x[1] for i, v in enumerate(vs)]
            if all(all(a is b for a, b in zip(v.shape, v0.shape)) for v in vs) and (
                    all(x is dts[0] for x in dts) or all(x.kind == "f" for x in dts)):
                try:
                    rs = [read(v, h) for v, h in zip(vs, heaps)]
                except JunkRead:
                    return Junk(loc), 0
                q = tuple(fresh("q", "I") for _ in v0.shape)
                ts = [r(q) for r in rs]
                if all(t is ts[0] for t in ts) and all(v.buf not in self.base for v in vs):
                    return v0, 0
                return MergedArr(v0.shape, lambda idx: itechain(cs, [r(idx) for r in rs]), promote(*dts)), 0
            return Junk(loc), 0
        if all(isinstance(v, tuple) and len(v) == len(v0) for v in vs):
            parts = [self.merge_vals([v[i] for v in vs], cs, loc)[0] for i in range(len(v0))]
            if any(isinstance(p, Junk) for p in parts):
                return Junk(loc), 0
            return tuple(parts), 0
        return Junk(loc), 0

    def joined(self, ts, extra):
        """Index of an outcome's value that is also right for the other outcomes (under their conditions)."""
        if len(ts) > 3 or any(t.sort == "B" for t in ts):
            return None
        for j in range(len(ts)):
            if all(i == j or ts[i] is ts[j] or smt.agree(self.normal[i][3] + extra, ts[i], ts[j]) for i in range(len(ts))):
                return j
        return None

    def same_buf(self, v, heaps):
        """Value without buffers made inside the body (their ids differ between paths)."""
        if isinstance(v, Arr):
            return v.buf in self.base
        if isinstance(v, Ref):
            return v.id in self.base
        if isinstance(v, tuple):
            return all(self.same_buf(x, heaps) for x in v)
        return True

    # ---------------------------------------------------------- closed forms
    def names(self, but=None):
        """Names of the symbolic heads of the last trial."""
        return set(x for l, x in self.syms.items() if l != but)

    def free_of(self, t, names):
        for x in atoms(t).values():
            if x.op in ("app", "var") and x.data in names:
                return False
            if x.op in ("psum", "lam") and any(y.op == "app" and y.data in names for y in atoms(x.data.body).values()):
                return False
        return True

    def solve_loc(self, loc):
        s = self.st[loc]
        if s == "list":
            return self.solve_list(loc)
        v, hi = self.merged[loc]
        if isinstance(v, Junk):
            return False
        isbuf = loc[1] == "c" and self.h0[loc[0]].kind == "buf"
        if isbuf:
            return self.solve_buf(loc, v)
        if isinstance(v, (Arr, MergedArr)) and isinstance(self.init(loc), Arr):
            return self.solve_arr(loc, v, hi)
        if is_numeric(v) and is_numeric(self.init(loc)):
            return self.solve_num(loc, num(v))
        return False

    def setter(self, loc, val):
        """Installs val(t) at loc of the current heap."""
        m = self.m

        def f(t):
            m.heap[loc[0]].d[loc[1]] = val(t)
        return f

    def close_num(self, h, p, init, names):
        """(head(t), exit) of a recurrence h' = p, or None."""
        k = self.k
        hn = h.data
        if self.free_of(p, names | {hn}):
            if p.sort == "B" or num(init).sort == "B":
                if num(init).sort != p.sort:
                    return None
            pk = lambda t: subst(p, {k.data: sub(t, num(1))})
            same = eq(pk(self.k0), init) is TRUE        # the value before the loop is of the same form
            hd = pk if same else lambda t: ite(eq(t, self.k0), init, pk(t))
            return hd, subst(p, {k.data: sub(self.n, num(1))})
        if p.sort == "B" or h.sort == "B":
            return None
        d = sub(p, h)
        if not self.free_of(d, names | {hn}):
            return None
        hd, ex = close_sum(self.m, d, k, self.k0, self.n, self.pcn)
        return (lambda t: add(init, hd(t))), add(init, ex)

    def solve_num(self, loc, p):
        h = self.heads[loc]
        r = self.close_num(h, p, num(self.init(loc)), self.names(loc))
        if r is None:
            return False
        hd, ex = r
        self.st[loc] = "solved"
        self.head[loc] = (self.setter(loc, lambda t: pyfix(hd(t))), lambda: pyfix(ex), ("num", hd, ex))
        return True

    def solve_arr(self, loc, v, hi):
        """Location holding an array that is replaced in every iteration."""
        m = self.m
        v0 = self.init(loc)
        heap = self.normal[hi][2]
        if len(v0.shape) != len(v.shape) or any(v0.masks):
            return False
        for a, b in zip(v0.shape, v.shape):
            if a is not b and not smt.impossible(self.pc, ne(a, b), 1500):
                return False
        q = tuple(fresh("q", "I") for _ in v0.shape)
        if isinstance(v, MergedArr):
            p, dty = v.fn(q), v.dtype
        else:
            if any(v.masks) or v.buf in self.base:
                return False
            c = heap[v.buf].d["c"]
            p, dty = c(v.bidx(q)), heap[v.buf].x[1]
            if v.buf == self.heads[loc].buf and c is not self.hh[v.buf].d["c"]:
                return False        # modified in place: other names of the first array would change too
        hbuf = self.heads[loc].buf
        hsym = self.hh[hbuf].d["c"](q)
        for kind, vv, hp, pc in self.outs_all():
            if hp[hbuf].d["c"] is not self.hh[hbuf].d["c"]:
                return False
        c0 = self.h0[v0.buf].d["c"]
        if isinstance(c0, Junk):
            raise JunkRead(c0.loc)
        i0 = c0(v0.bidx(q))
        r = self.close_num(hsym, p, i0, self.names(loc))
        if r is None:
            return False
        hd, ex = r
        sub_ = lambda t, idx: subst(t, {a.data: i for a, i in zip(q, idx)})
        k = self.k
        u = fresh("u", "I")
        hu = hd(u)

        def at(t):
            t = num(t)
            return m.array(v0.shape, lambda idx: subst(hu, dict([(a.data, i) for a, i in zip(q, idx)] + [(u.data, t)])), dty)
        self.st[loc] = "solved"
        self.head[loc] = (self.setter(loc, at), lambda: m.array(v0.shape, lambda idx: sub_(ex, idx), dty), ("arr", q, hd, ex, i0))
        return True

    def outs_all(self):
        return self.normal

    def solve_buf(self, loc, c):
        m = self.m
        rec = self.h0[loc[0]]
        shape = rec.x[0]
        q = tuple(fresh("q", "I") for _ in shape)
        hc = self.heads[loc]
        hsym = hc(q)
        p = c(q)
        i0c = self.init(loc)
        if isinstance(i0c, Junk):
            raise JunkRead(i0c.loc)
        i0 = i0c(q)
        r = self.close_num(hsym, p, i0, self.names(loc))
        u = fresh("u", "I")
        if r is not None:
            hd, ex = r
            hu = hd(u)
            mk = lambda t: Content(lambda idx: subst(hu, dict([(a.data, i) for a, i in zip(q, idx)] + [(u.data, t)])))
            exc = lambda: Content(lambda idx: subst(ex, {a.data: i for a, i in zip(q, idx)}))
        else:
            r = self.region(loc, c, q, hc, i0c)
            if r is None:
                return False
            mk, exc = r
        self.st[loc] = "solved"
        self.head[loc] = (self.setter(loc, lambda t: mk(num(t))), exc, ("buf", q, lambda t: mk(t)(q), exc()(q), i0))
        return True

    def region(self, loc, c, q, hc, i0c):
        """One rectangle written per iteration."""
        m, k = self.m, self.k
        kn = k.data
        names = self.names(loc)
        if not isinstance(c, Content) or c.base is None or c.base is not hc:
            return None
        hn = self.head[loc]
        lo_hi = None
        regs, fixed = [], {}
        val = c.val(q)
        for ax, r in enumerate(c.region):
            if r[0] == "all":
                regs.append(r)
            elif r[0] == "eq":
                if kn not in r[1].fv:
                    regs.append(r)
                    fixed[ax] = r[1]
                    continue
                if lo_hi is not None:
                    return None
                off = sub(r[1], k)
                if kn in off.fv:
                    return None
                lo_hi = (ax, lambda t, off=off: add(t, off), lambda t, off=off: add(t, num(1), off))
                val = subst(val, {kn: sub(q[ax], off)})
                regs.append(None)
            elif r[0] == "rng":
                if kn not in r[1].fv and kn not in r[2].fv:
                    regs.append(r)
                    continue
                if lo_hi is not None:
                    return None
                lo, hi = r[1], r[2]
                lf = lambda t, lo=lo: subst(lo, {kn: t})
                hf = lambda t, hi=hi: subst(hi, {kn: t})
                if not smt.impossible(self.pcn, ne(lf(add(k, num(1))), hi), 2000):
                    return None
                lo_hi = (ax, lf, hf)
                regs.append(None)
            else:
                return None
        if lo_hi is None:
            return None
        # the written cell itself may be read: it holds its first value
        if not self.free_of(val, {hn}):
            at = tuple(fixed.get(ax, v) for ax, v in enumerate(q))
            val = replace(val, {hc(q): i0c(q), hc(at): i0c(at)})
        if m.trace:
            print("   region", loc, show(c.val(q), 6), "|", show(val, 6), "|", c.region, show(hc(q)))
        if kn in val.fv or not self.free_of(val, names | {hn}):
            return None
        ax, lf, hf = lo_hi
        base = lf(self.k0)
        vf = lambda idx: subst(val, {a.data: i for a, i in zip(q, idx)})
        shape = self.h0[loc[0]].x[0]

        def content(lo, hi):
            rr = list(regs)
            if lo is num(0) and hi is shape[ax]:
                rr[ax] = ("all",)
            else:
                rr[ax] = ("rng", lo, hi)
            return Content(base=i0c, region=tuple(rr), val=vf)
        return (lambda t: content(base, lf(t))), (lambda: content(base, hf(sub(self.n, num(1)))))

    def solve_list(self, loc):
        """Appending one item per iteration."""
        m, k = self.m, self.k
        recs = self.merged[loc]
        n0 = self.head[loc]
        r0 = self.h0[loc[0]]
        len0 = num(len(r0.x)) if r0.kind == "list" else r0.d["n"]
        vals = []
        for r in recs:
            if r.kind != "symlist" or r.d.get("mask") or r.d["n"] is not add(n0, num(1)):
                return False
            app_ = r.d.get("app")
            if not app_ or len(app_) != 1 or app_[0][0] is not n0:
                return False
            vals.append(app_[0][1])
        v, hi = self.merge_vals(vals, self.conds(), loc)
        if isinstance(v, Junk):
            return False
        heap = self.normal[hi][2]
        names = self.names()
        if not value_free(self, v, heap, names):
            return False
        # the form is kept for the installation, which makes the arrays of all iterations slices of common buffers
        if r0.kind == "list" and len(r0.x) == 0:
            old = None
        else:
            x0, f0 = r0.x, r0.d.get("fn")
            old = (lambda i: pick_old(m, x0, i)) if r0.kind == "list" else f0
        ks = tuple(m.loopks)

        def make(t):
            rec = m.heap[loc[0]]
            lf = Lifter(m, heap, self.base, k)
            fam = lf.family(v, {})
            cache = {}

            def fn(i):
                i = num(i)
                if old is None:
                    j = i
                else:
                    if m.entails(lt(i, len0)):
                        return old(i)
                    if not m.entails(le(len0, i)):
                        return m.ite_val(lt(i, len0), old(i), lf.member(fam, add(self.k0, sub(i, len0))))
                    j = sub(i, len0)
                if j.id not in cache:
                    cache[j.id] = lf.member(fam, add(self.k0, j))
                return cache[j.id]
            rec.kind, rec.x = "symlist", None
            rec.d = {"n": add(len0, sub(t, self.k0)), "fn": fn}
        self.st[loc] = "solved"
        self.head[loc] = (lambda t: make(num(t)), lambda: make(self.n), ("list",))
        return True

    def havoc(self, loc):
        m, k = self.m, self.k
        v0 = self.init(loc)
        nm = fresh("hv", "I").data
        ks = tuple(m.loopks)
        isbuf = loc[1] == "c" and self.h0[loc[0]].kind == "buf"
        if isbuf:
            s = SORTS[self.h0[loc[0]].x[1].kind]
            mk = lambda t: Content(lambda idx: app(nm, tuple(idx) + ks + (t,), s))
        elif is_numeric(v0):
            v, _ = self.merged[loc]
            if not is_numeric(v):
                raise Peel()
            s = num(v0).sort
            if s == "I" and num(v).sort == "R":
                s = "R"
            if (s == "B") != (num(v).sort == "B"):
                raise Peel()
            mk = lambda t: app(nm, ks + (t,), s)
        elif isinstance(v0, Arr):
            v, hi = self.merged[loc]
            if not isinstance(v, (Arr, MergedArr)) or len(v.shape) != len(v0.shape):
                raise Peel()
            for a, b in zip(v0.shape, v.shape):
                if a is not b and not smt.impossible(self.pc, ne(a, b), 1500):
                    raise Unsupported("an array changes its size in a loop")
            hb = self.heads[loc].buf
            if any(o[2][hb].d["c"] is not self.hh[hb].d["c"] for o in self.normal):
                raise Unsupported("array replaced and modified in a loop")
            s = SORTS[m.dtype(v0).kind]
            dty = v.dtype if isinstance(v, MergedArr) else self.normal[hi][2][v.buf].x[1]
            mk = lambda t: m.array(v0.shape, lambda idx: app(nm, tuple(idx) + ks + (t,), s), dty)
        else:
            raise Peel()
        self.st[loc] = "havoc"
        self.head[loc] = (self.setter(loc, lambda t: mk(num(t))), lambda: mk(self.n), ("havoc",))

    # ---------------------------------------------------------- init, step and exit obligations
    def verify(self, loc):
        info = self.head[loc][2]
        if (loc, "ok", info) in self.tried:
            pass
        k, k1 = self.k, add(self.k, num(1))
        pcn = self.pcn + self.extra.get(loc, [])
        if info[0] == "num":
            _, hd, ex = info
            v, _ = self.merged[loc]
            if not is_numeric(v):
                return False
            p = num(v)
            goals = [(self.S0[1], eq(hd(self.k0), num(self.init(loc)))), (pcn, eq(p, hd(k1))),
                     (self.pce, eq(subst(p, {k.data: sub(self.n, num(1))}), ex))]
        elif info[0] in ("arr", "buf"):
            _, q, hd, ex, i0 = info
            v, hi = self.merged[loc]
            if isinstance(v, Junk):
                return False
            shape = self.h0[loc[0]].x[0] if info[0] == "buf" else self.init(loc).shape
            inr = [c for a, s in zip(q, shape) for c in (le(num(0), a), lt(a, s))]
            if info[0] == "buf":
                p = v(q)
            elif isinstance(v, MergedArr):
                p = v.fn(q)
            else:
                p = self.normal[hi][2][v.buf].d["c"](v.bidx(q))
            goals = [(self.S0[1] + inr, eq(hd(self.k0), i0)), (pcn + inr, eq(p, hd(k1))),
                     (self.pce + inr, eq(subst(p, {k.data: sub(self.n, num(1))}), ex))]
        else:
            return True
        backs = []
        for pc, g in goals:
            r, how = smt.prove([c for c in pc if c is not TRUE], g, 4000, smt.QUICK[:3])
            if r != "proved":
                if self.m.trace:
                    print("   loop condition open", loc, show(g, 9), how, [show(x,8) for x in pc] if os.environ.get("DV_SHOW") else "")
                return False
            backs.append(how)
        self.m.loop_obls.append((self.what, len(goals), backs))
        return True

    # ---------------------------------------------------------- after the loop
    def finish(self):
        m = self.m
        for o in self.outs:
            if o[0] == "normal":
                continue
            x = m.sym("leaves", "B")
            if m.branch(x):
                self.leave(o)
        t = self.n
        last = sub(self.n, num(1))
        if len(self.outs) > len(self.normal):
            self.completed(self.n)
        heap = self.normal[0][2]
        lf = Lifter(m, heap, self.base, self.k)
        memo = {}
        todo = []
        for loc, s in self.st.items():
            if s == "junk":
                todo.append((loc, self.merged[loc][0]))
        vals = []
        for loc, s in self.st.items():
            if s in ("solved", "havoc"):
                r = self.head[loc][1]()
                if self.head[loc][2][0] != "list":
                    vals.append((loc, r))
        for loc, v in todo:
            if isinstance(v, Junk):
                vals.append((loc, Junk(loc)))
            elif loc[1] == "c" and self.h0[loc[0]].kind == "buf":
                q = tuple(fresh("q", "I") for _ in self.h0[loc[0]].x[0])
                body = v(q)
                vals.append((loc, Content((lambda q, body: lambda idx: subst(body, dict(
                    [(a.data, i) for a, i in zip(q, idx)] + [(self.k.data, last)])))(q, body))))
            else:
                try:
                    vals.append((loc, lf.at(v, last, memo)))
                except JunkRead as e:
                    if e.loc in self.st:
                        vals.append((loc, Junk(loc)))
                    else:
                        raise
        for loc, v in vals:
            if v is ABSENT:
                continue
            m.heap[loc[0]].d[loc[1]] = v

    def completed(self, end):
        """No iteration before end left the loop: instances of that where an iteration is singled out by an equation."""
        m, k = self.m, self.k
        body = or_(*self.conds())
        if not isinstance(body, T) or not self.free_of(body, self.names()):
            return
        seen = set()
        for x in atoms(body).values():
            for c in [x] if x.op == "eq" else list(tm.children(x)) if x.sort == "B" else []:
                if c.op != "eq" or k.data not in c.fv or any(y.startswith(("#", "$")) for y in c.fv):
                    continue
                for d in (c.args[0], neg(c.args[0])):
                    w = solve_for(k, d)
                    if w is not None and w.id not in seen and len(seen) < 8:
                        seen.add(w.id)
                        m.assume(implies(and_(le(self.k0, w), lt(w, end)), subst(body, {k.data: w})))

    def leave(self, o):
        """The loop ends in some iteration by an exception, return or break."""
        m = self.m
        kind, v, heap, pc = o
        kk = m.sym("kx", "I")
        m.assume(le(self.k0, kk))
        m.assume(lt(kk, self.n))
        self.completed(kk)
        for loc, s in self.st.items():
            if s == "junk":
                continue
            self.install(loc, s, kk)
        lf = Lifter(m, heap, self.base, self.k)
        memo = {}
        for c in pc[self.npc:]:
            m.assume(subst(c, {self.k.data: kk}))
        for loc in list(self.st) + [x for x in diff(self.hh, heap) if x not in self.st]:
            h, p = self.heads.get(loc), getloc(heap, loc)
            if loc[1] == "#x":
                if loc not in self.st:
                    m.heap[loc[0]].kind = p.kind
                    lf.fill(loc[0], p, kk, memo)
                elif p.d.get("app"):
                    raise Unsupported("append before leaving a loop")
                continue
            if h is p:
                if self.st[loc] == "junk":
                    m.heap[loc[0]].d[loc[1]] = Junk(loc)
                continue
            if loc[1] == "c" and m.heap[loc[0]].kind == "buf":
                m.heap[loc[0]].d["c"] = Content(self.leave_content(p, len(self.h0[loc[0]].x[0]), kk))
            else:
                m.heap[loc[0]].d[loc[1]] = lf.at(p, kk, memo)
        if kind == "raise":
            raise PyRaise(ExcVal(v.cls, v.args))
        from dv.engine import ReturnEx, BreakEx, GenLeave
        if kind == "return":
            raise ReturnEx(lf.at(v, kk, memo))
        if kind == "genleave":
            gid, what, v = v
            v = lf.at(v, kk, memo) if what == "return" else ExcVal(v.cls, v.args) if what == "raise" else None
            raise GenLeave(gid, what, v)
        raise BreakEx()

    def leave_content(self, c, nd, kk):
        q = tuple(fresh("q", "I") for _ in range(nd))
        body = c(q)
        return lambda idx: subst(body, dict([(a.data, i) for a, i in zip(q, idx)] + [(self.k.data, kk)]))


def value_free(s, v, heap, names):
    if isinstance(v, T):
        return s.free_of(v, names)
    if isinstance(v, tuple):
        return all(value_free(s, x, heap, names) for x in v)
    if isinstance(v, Arr):
        if not all(s.free_of(x, names) for x in v.shape):
            return False
        c = heap[v.buf].d["c"]
        if isinstance(c, Junk):
            return False
        if v.buf in s.base:
            return True
        q = tuple(fresh("q", "I") for _ in heap[v.buf].x[0])
        return s.free_of(c(q), names)
    if isinstance(v, MergedArr):
        q = tuple(fresh("q", "I") for _ in v.shape)
        return s.free_of(v.fn(q), names)
    if isinstance(v, Ref):
        return v.id in s.base
    return True


def pick_old(m, items, i):
    if is_num(i):
        return items[int(num_val(i))]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = m.ite_val(eq(i, num(j)), items[j], r)
    return r


def same_region(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[0] in ("all", "eq", "rng") and all(u is v for u, v in zip(x[1:], y[1:])) for x, y in zip(a, b))


def solve_for(k, d):
    """The k with d = 0, where d is k plus a term without k."""
    p = poly_of(d)
    if d.sort != "I" or p.get(((k, 1),)) != 1 or any(k.data in x.fv for mono in p if mono != ((k, 1),) for x, _ in mono):
        return None
    return sub(k, d)


def itechain(cs, ts):
    r = ts[-1]
    for c, t in reversed(list(zip(cs[:-1], ts[:-1]))):
        r = ite(c, t, r)
    return r


def pyfix(t):
    from dv.nplib import pyfix as f
    return f(t) if isinstance(t, T) else t


def close_sum(m, d, k, k0, n, pcn):
    """Sum of d(k') for k' = k0 .. t-1: (function of t, value at n), telescoping prefix sums where neighbours meet."""
    kn = k.data
    groups = {}
    rest = {}
    for mono, c in poly_of(d).items():
        ps = [(x, e) for x, e in mono if x.op == "psum" and kn in x.fv]
        others = tuple((x, e) for x, e in mono if not (x.op == "psum" and kn in x.fv))
        if len(ps) == 1 and ps[0][1] == 1 and not any(kn in x.fv for x, e in others) and not any(kn in a.fv for a in ps[0][0].args[:-1]):
            key = (ps[0][0].data.id, tuple(a.id for a in ps[0][0].args[:-1]), others)
            groups.setdefault(key, []).append((ps[0][0], c, mono))
        else:
            rest[mono] = c
    heads, exits = [], []
    last = sub(n, num(1))
    for key, items in groups.items():
        left = list(items)
        cof = mk_poly({key[2]: Fraction(1)}, d.sort)
        while left:
            p, c, mono = left.pop()
            done = False
            for i, (p2, c2, mono2) in enumerate(left):
                if c2 != -c:
                    continue
                for (hi, ch), (lo, cl) in (((p, c), (p2, c2)), ((p2, c2), (p, c))):
                    h, l = hi.args[-1], lo.args[-1]
                    ln = subst(l, {kn: add(k, num(1))})
                    if ln is h or smt.impossible(pcn, ne(ln, h), 2500):
                        P = lambda x, p=hi: tm._psum_node(p.data, p.args[:-1], x, p.sort)
                        a = lambda t, l=l, P=P: P(subst(l, {kn: t}))
                        co = mul(cof, num(ch, "R" if Fraction(ch).denominator != 1 else "I"))
                        heads.append(lambda t, a=a, co=co: mul(co, sub(a(t), a(k0))))
                        exits.append(mul(co, sub(P(subst(h, {kn: last})), a(k0))))
                        done = True
                        break
                if done:
                    del left[i]
                    break
            if not done:
                rest[mono] = rest.get(mono, 0) + c
    rest = telescope(rest, d, k, k0, n, pcn, last, heads, exits)
    r = mk_poly(rest, d.sort)
    v = fresh("k", "I")
    body = subst(r, {kn: v})

    def hd(t):
        return add(sum_(v, k0, t, body), *[h(t) for h in heads])
    return hd, add(sum_(v, k0, n, body), *exits)


def telescope(rest, d, k, k0, n, pcn, last, heads, exits):
    """Takes c * (h - l) out of the increment where h is l at the next iteration (h: a minimum, as at the end of a batch)."""
    kn = k.data
    hs, ls = [], []
    for x in atoms(d).values():
        if x.op == "min" and kn in x.fv and not any(v.startswith(("#", "$")) for v in x.fv):
            hs.append(x)
        if x.op == "psum" and kn in x.args[-1].fv:
            ls.append(x.args[-1])
    for h in hs:
        mine = {}
        for mono, c in rest.items():
            if dict(mono).get(h) == 1:
                mine[tuple(y for y in mono if y[0] is not h)] = c
        if not mine or any(kn in x.fv for co in mine for x, e in co):
            continue
        cand = list(ls)
        for a in h.args:
            cand.append(subst(a, {kn: sub(k, num(1))}))
        for l in cand:
            if kn not in l.fv or l is h:
                continue
            ln = subst(l, {kn: add(k, num(1))})
            if ln is not h and not smt.impossible(pcn, ne(ln, h), 2500):
                continue
            cof = mk_poly(mine, d.sort)
            new = sub(mk_poly(rest, d.sort), mul(cof, sub(h, l)))
            count = lambda p: sum(1 for mono in p for x, e in mono if kn in x.fv)
            if count(poly_of(new)) < count(rest):
                rest = dict(poly_of(new))
                heads.append(lambda t, l=l, cof=cof: mul(cof, sub(subst(l, {kn: t}), subst(l, {kn: k0}))))
                exits.append(mul(cof, sub(subst(h, {kn: last}), subst(l, {kn: k0}))))
                break
    return rest


# ---------------------------------------------------------------- statements
def for_loop(m, s, it, env):
    from dv.engine import BreakEx, ContinueEx

    def body(k):
        m.assign(s.target, it.fn(k), env)
        m.exec_block(s.body, env)
    if m.branch(lt(num(0), it.n)):
        try:
            iterate_body(m, it.n, body, "loop of line %d" % s.lineno)
        except BreakEx:
            return
    m.exec_block(s.orelse, env)


def iterate_body(m, n, body, what):
    from dv.engine import ContinueEx
    k0 = 0
    while True:
        try:
            Summary(m, k0, n, body, what).run()
            return
        except Peel:
            if k0 >= 3:
                raise Unsupported("no invariant for the %s" % what)
            try:
                body(num(k0))
            except ContinueEx:
                pass
            k0 += 1
            if not m.branch(lt(num(k0), n)):
                return


def while_loop(m, s, env):
    from dv.engine import BreakEx, ContinueEx
    from dv import whiles
    whiles.while_loop(m, s, env)


def comprehension(m, e, g, it, env2, dom=None):
    """[elt for target in it if conds] over a symbolic sequence."""
    n = it.n
    k = fresh("k", "I")
    S0 = m.snapshot()
    base = set(S0[0])

    def body():
        m.assign(g.target, it.fn(k), env2)
        for c in g.ifs:
            if not m.truth(m.ev(c, env2)):
                return ("skip", None)
        return ("keep", m.ev(e.elt, env2))
    m.assume(le(num(0), k))
    m.assume(lt(k, n))
    if dom is not None:
        m.assume(dom.cond(k))
    npc = len(m.pc)
    m.loopks.append(k)
    try:
        outs = m.explore(body)
    finally:
        m.loopks.pop()
        m.restore(S0)
    for o in outs:
        d = [l for l in diff(S0[0], o[2]) if l[0] != env2.frame]
        if d:
            raise Unsupported("comprehension with side effects")
    if m.branch(le(n, num(0))):
        return m.newlist([])
    for o in outs:
        if o[0] == "raise":
            if m.branch(m.sym("leaves", "B")):
                kk = m.sym("kx", "I")
                m.assume(le(num(0), kk))
                m.assume(lt(kk, n))
                if dom is not None:
                    m.assume(dom.cond(kk))
                for c in o[3][npc:]:
                    m.assume(subst(c, {k.data: kk}))
                raise PyRaise(ExcVal(o[1].cls, o[1].args))
    keep = [o for o in outs if o[0] == "normal" and o[1][0] == "keep"]
    skip = [o for o in outs if o[0] == "normal" and o[1][0] == "skip"]
    if not keep:
        return m.newlist([])
    sm = Summary.__new__(Summary)
    sm.m, sm.k, sm.base, sm.h0, sm.st, sm.head = m, k, base, S0[0], {}, {}
    sm.normal = keep
    sm.npc = npc
    v, hi = sm.merge_vals([o[1][1] for o in keep], sm.conds(), None)
    if isinstance(v, Junk):
        raise Unsupported("comprehension with values of different kinds")
    heap = keep[hi][2]
    lf = Lifter(m, heap, base, k)
    d = {"n": n}
    if isinstance(v, Ref) and v.id not in base:
        raise Unsupported("comprehension making objects")
    fam = lf.family(v, {})
    cache = {}

    def fn(i):
        i = num(i)
        if i.id not in cache:
            cache[i.id] = lf.member(fam, i)
        return cache[i.id]
    d["fn"] = fn
    if skip or dom is not None:
        cond = or_(*[and_(*o[3][npc:]) for o in keep]) if skip else TRUE
        if dom is not None:
            cond = and_(dom.cond(k), cond)
        d["mask"] = Mask(n, lambda s: subst(cond, {k.data: num(s)}))
    return m.new("symlist", d)

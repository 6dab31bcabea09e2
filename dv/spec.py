"""Harness side of the verifier: setting up symbolic models and data, contracts of the callees, running and discharging."""
import os, random, time, traceback
from dv.values import *
from dv import engine, smt, scilib
from dv import term as tm
from dv import nplib as nl
from dv.engine import Machine, Dead

COST = {}       # (property, harness) -> scheduling weight
REG = {}        # property -> [(name, function, functions verified, bounded label or None)]


def harness(prop, name, bounded=None, about=()):
    def deco(f):
        REG.setdefault(prop, []).append((name, f, bounded, about))
        return f
    return deco


# ---------------------------------------------------------------- symbols
def I(m, name, lo=None):
    v = var(name, "I")
    if lo is not None:
        m.assume(le(num(lo), v))
        if is_num(num(lo)) and num_val(num(lo)) >= 1:
            tm.POS.add(name)
    return v


def matrix(m, name, shape, dtype=F8):
    """Array with unknown content."""
    s = {"f": "R", "i": "I", "b": "B", "O": "R", "U": "R", "S": "R"}[dtype.kind]
    return m.array(shape, lambda i: app(name, tuple(i), s), dtype)


# hidden layer: row functional (assumed contract of _project, proved by C05 harnesses)
smt.DOMAINS["hid"] = {0: lambda a: [(num(0), a[1])]}
smt.DOMAINS["wt"] = {}


def hid(m, read, r, inputs, j):
    """Output of neuron j for the row r of the data."""
    v = fresh("c", "I")
    return app("hid", (lam([v], real(read((r, v)))), inputs, j), "R")


def _hid_eval(ev, a):
    f, n, j = a
    vals = tuple(round(float(f(c)), 9) for c in range(int(n)))
    if not (0 <= j):
        raise smt.NoEval("index")
    k = ("hid", vals, int(j))
    if k not in ev.tab:
        ev.tab[k] = ev.rnd.randint(-3, 3)
    return ev.tab[k]


smt.EVAL["hid"] = _hid_eval


def _wt_eval(ev, a):
    k = ("wt",) + tuple(int(x) for x in a)
    if k not in ev.tab:
        ev.tab[k] = ev.rnd.randint(1, 4)
    return ev.tab[k]


smt.EVAL["wt"] = _wt_eval
smt.AXIOMS["wt"] = lambda t: [lt(num(0), t)]


def _cnt_ax(t):
    return [le(num(0), t)]


smt.AXIOMS["cnt"] = _cnt_ax
smt.EVAL["cnt"] = lambda ev, a: ev.tab.setdefault(("cnt", int(a[0])), ev.rnd.randint(0, 2))


def psum_cnt(n):
    v = fresh("k", "I")
    return sum_(v, num(0), n, app("cnt", (v,), "I"))


def ftype(k):
    """Type of the k-th group of neurons: any of the built-in ones."""
    return app("ftype", (num(k),), "I")


TYPES = ("lin", "sigm", "tanh", "rbf_l1", "rbf_l2", "rbf_linf")
tm.RANGES["ftype"] = (num(0), num(6))
smt.AXIOMS["ftype"] = lambda t: [le(num(0), t), lt(t, num(6))]
smt.EVAL["ftype"] = lambda ev, a: ev.tab.setdefault(("ftype", int(a[0])), ev.rnd.randrange(6))


def is_type(t, name):
    return eq(t, name_code(name))


def unchanged(m, snap, name, but=()):
    """Obligation: nothing that existed at the snapshot has changed (but: record ids left out)."""
    from dv import loops
    d = [x for x in loops.diff(snap, m.heap) if x[0] not in but and m.heap[x[0]].kind not in ("frame", "scope")]
    bad = []
    for rid, key in d:
        r0, r1 = snap[rid], m.heap[rid]
        if r0.kind == "buf" and key == "c":
            q = tuple(fresh("q", "I") for _ in r0.x[0])
            inr = and_(*[y for a, s in zip(q, r0.x[0]) for y in (le(num(0), a), lt(a, s))])
            c0, c1 = r0.d["c"], r1.d["c"]
            if isinstance(c0, Junk) or isinstance(c1, Junk):
                bad.append((r0.kind, key))
            else:
                m.prove(name, implies(inr, eq(c1(q), c0(q))))
            continue
        bad.append((r0.kind, key))
    if bad:
        m.prove("%s (%s)" % (name, ", ".join("%s.%s" % x for x in bad[:4])), FALSE)
    else:
        m.prove(name, TRUE)


def take(m):
    return {i: r.copy() for i, r in m.heap.items()}


class Ctx(object):
    """One model under verification."""
    pass


def project_contract(c):
    """Contract of nnet._project: N rows and L columns, row r a function of row r of the data; no effect."""
    def ov(m, args, kw):
        X = args[1] if len(args) > 1 else kw["X"]
        self = args[0]
        if isinstance(X, Ref) and m.rec(X).kind == "nat":
            X = m.lib.getitem(m, X, Slice(None, None, None))
        if not isinstance(X, Arr) or X.ndim != 2 or any(X.masks):
            raise Unsupported("projection of such data")
        m.must(eq(X.shape[1], c.inputs), ValueError, "shapes not aligned")
        f = m.rreader(X)
        q = (fresh("q", "I"), fresh("q", "I"))
        body = hid(m, f, q[0], c.inputs, q[1])
        L = num(m.rec(self).d["L"])
        return m.array((X.shape[0], L), lambda i: subst(body, {q[0].data: i[0], q[1].data: i[1]}), promote(F8, c.prec))
    return ov


def model(m, cls="ELM", solver=None, prec="double", classification="", w=None, neurons=True, types_min=1, project=True, names=None, **kw):
    """Instance of the real class with symbolic sizes; real constructor, neurons set to an unknown list of types."""
    c = Ctx()
    c.m = m
    C = m.get("hpelm.elm" if cls == "ELM" else "hpelm.hp_elm", cls)
    c.cls = cls
    c.inputs = I(m, "inputs", 1)
    c.outputs = I(m, "outputs", 1 if not classification else 2)
    c.batch = I(m, "batch", 1)
    c.prec = F8 if prec == "double" else F4
    args = dict(classification=classification, batch=c.batch, precision=prec, norm=var("norm", "R"), accelerator=solver)
    m.assume(lt(num(0), var("norm", "R")))
    c.norm = var("norm", "R")
    args.update(kw)
    if w is not None:
        args["w"] = w
    c.solver = solver
    c.elm = m.call(C, [c.inputs, c.outputs], args)
    c.nnet = m.getattr(c.elm, "nnet")
    if neurons:
        c.ntypes = I(m, "ntypes", types_min)

        def nr(k):
            k = num(k)
            n = app("cnt", (k,), "I")
            W = m.array((c.inputs, n), lambda i: app("W", (k,) + tuple(i), "R"), c.prec)
            b = m.array((n,), lambda i: app("Bias", (k,) + tuple(i), "R"), c.prec)
            return (nl.pyfix(n), NameVal((names or ftype)(k)), W, b)
        c.nr = nr
        m.setattr(c.nnet, "neurons", m.new("symlist", {"n": c.ntypes, "fn": nr}))
        m.call(m.getattr(c.nnet, "reset"), [])
        c.L = num(m.getattr(c.nnet, "L"))
        m.assume(lt(num(0), c.L))
        ov = project_contract(c) if project else None
        for q in ("hpelm.nnets.slfn.SLFN._project", "hpelm.nnets.slfn_python.SLFNPython._project"):
            if project:
                m.overrides[q] = ov
    return c


def data(m, c, name="X", rows=None, cols=None, dtype=F8, path=None):
    """Caller's data: an array, or an HDF5 file holding it (path given)."""
    rows = num(rows) if rows is not None else I(m, "N", 0)
    a = matrix(m, name, (rows, cols), dtype)
    if path is None:
        return a
    scilib.h5store(m, path, a)
    return path


def onehot(m, name, rows, outputs, dtype=F8):
    """One-hot targets: sample s belongs to class cls(s)."""
    def f(i):
        return ind(eq(i[1], app(name + "cls", (i[0],), "I")))
    OUTPUTS[name + "cls"] = outputs
    tm.RANGES[name + "cls"] = (num(0), outputs)
    smt.AXIOMS[name + "cls"] = lambda t: [le(num(0), t), lt(t, OUTPUTS[name + "cls"])]
    smt.EVAL[name + "cls"] = lambda ev, a: ev.tab.setdefault((name + "cls", int(a[0])), ev.rnd.randrange(max(1, int(ev.vars.get("outputs", 2)))))
    return m.array((rows, outputs), f, dtype)


OUTPUTS = {}


def same_elements(m, name, a, f, shape, **info):
    """Obligation: array a has that shape and the elements f(idx)."""
    if isinstance(a, (T, int, float)):
        m.prove(name, eq(num(a), f(())), **info)
        return
    if not isinstance(a, Arr):
        m.prove(name + " (is an array)", FALSE, **info)
        return
    if a.ndim != len(shape):
        m.prove(name + " (dimensions)", FALSE, **info)
        return
    for k, (x, y) in enumerate(zip(a.shape, shape)):
        m.prove(name + " (size %d)" % k, eq(x, num(y)), **info)
    if any(a.masks):
        raise Unsupported("filtered result")
    idx = [tm.var("%s" % "ijk"[k], "I") for k in range(a.ndim)]
    g = and_(*[x for i, s in zip(idx, shape) for x in (le(num(0), i), lt(i, num(s)))])
    m.prove(name, implies(g, eq(m.rreader(a)(tuple(idx)), num(f(tuple(idx))))), **info)


def largest_at(m, t, i):
    """Definition of every argmax in the term, taken at index i."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.data == "argmax" and x.args[0].op == "lam":
            F, n = x.args
            for a in (i, sub(sub(n, num(1)), i), sub(i, num(1)), sub(i, num(2))):
                m.assume(implies(and_(le(num(0), a), lt(a, n)), le(tm.apply_lam(F, (a,)), tm.apply_lam(F, (x,)))))
        todo.extend(tm.children(x))


def sumrows(lo, hi, f):
    s = fresh("s", "I")
    return sum_(s, lo, hi, f(s))


def h5read(m, path):
    """The array an HDF5 file holds (obligations: it exists, is closed and holds one array)."""
    st = m.rec(m.fs).d.get(path)
    if st is None or m.rec(st).d.get("node") is None:
        m.prove("the file %s exists" % path, FALSE)
        raise Dead()
    node = m.rec(m.rec(st).d["node"])
    h = node.d["_handle"]
    if h is not None and m.rec(h).d["open"]:
        m.prove("the file %s is closed" % path, FALSE)
        raise Dead()
    a = scilib.settled(m, m.rec(st).d["node"])
    if a is None or isinstance(a, Junk):
        raise Unsupported("content of a file")
    return a


def rejects(m, f, name="an error is raised"):
    """Obligation: f() raises an exception on every path."""
    try:
        f()
    except PyRaise:
        m.prove(name, TRUE)
        return
    m.prove(name, FALSE)


# ---------------------------------------------------------------- running
def exact(pc, goal):
    """No symbol of the formula stands for more values than the program can produce: no part of the state that a loop summary
    only approximates, no unknown number of iterations. (A model of such a formula can still be spurious where z3 knows less
    about a function of the library than its contract says, or because the step to the reals is not the machine's.)"""
    return not any(smt.approximations(c) for c in list(pc) + [goal])


class Result(object):
    def __init__(self, name, status, reason="", backend="", sec=0.0, hints=None, bounded=None, function=""):
        self.name, self.status, self.reason, self.backend, self.sec = name, status, reason, backend, sec
        self.hints, self.bounded, self.function = hints, bounded, function


def run_harness(prop, name, fn, bounded, deadline, rnd, log=None):
    """-> (list of Result, machine)"""
    t_end = min(deadline, time.time() + float(os.environ.get("DV_HARNESS_SECONDS", "240")))
    m = Machine(deadline=t_end)
    m.end_pc = None
    tm.POS.clear()
    res = []
    lead = "%s: " % name
    inst = []
    t0 = time.time()

    def body():
        n0 = len(m.obls)
        try:
            fn(m)
        finally:
            pass
        return None
    try:
        m.load("hpelm")
        outs = m.explore(body)
    except (Unsupported, JunkRead, RecursionError) as e:
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
        return [Result(lead + "all obligations", "undecided", "%s: %s" % (type(e).__name__, e), bounded=bounded)], m
    except Exception as e:
        if os.environ.get("DV_DEBUG"):
            traceback.print_exc()
        return [Result(lead + "all obligations", "undecided", "verifier error %s: %s" % (type(e).__name__, e), bounded=bounded)], m
    t1 = time.time()
    ends = [o for o in outs if o[0] == "normal"]
    m.end_pc = "%d paths complete" % len(ends)
    for o in ends[:6]:
        h = smt.refute(o[3], FALSE, rnd, seconds=1.5)
        if h is not None:
            m.end_pc += "; one is taken for %s" % {k: v for k, v in sorted(h.items()) if not any(c in k for c in "~?!")}
            break
    else:
        if ends:
            m.end_pc += "; z3 finds its condition satisfiable" if any(smt.feasible(o[3]) for o in ends[:2]) else "; no witness drawn"
    groups = {}
    for o in m.obls:
        groups.setdefault(o[0], []).append(o)
    raised = [o for o in outs if o[0] != "normal"]
    groups.setdefault("no unexpected exception", [])
    for o in raised:
        groups["no unexpected exception"].append(("no unexpected exception", o[3], FALSE, {"exc": repr(o[1])}))
    if not outs and not m.obls:
        return [Result(lead + "reaches its end", "undecided", "no path completes", bounded=bounded)], m
    if not ends and not raised:
        res.append(Result(lead + "some path reaches the end", "undecided", "every path ends early", bounded=bounded))
    for g, items in groups.items():
        st, why, backs, hints = "proved", "", set(), None
        t2 = time.time()
        seen = set()
        for _, pc, goal, info in items:
            key = (goal.id, tuple(sorted(x.id for x in pc)))
            if key in seen:
                continue
            seen.add(key)
            if time.time() > deadline:
                st, why = "undecided", "time"
                break
            r, how = smt.prove(pc, goal, 4000)
            if r == "proved":
                backs.add(how)
                continue
            if goal is FALSE and not smt.feasible(pc):
                backs.add("z3")
                continue
            h = smt.refute(pc, goal, rnd, seconds=8.0)
            if h is not None:
                st, why, hints = "refuted", "false for %s%s" % (
                    {k: v for k, v in sorted(h.items()) if "~" not in k and "?" not in k},
                    " " + info["exc"] if "exc" in info else ""), h
                if os.environ.get("DV_SHOW"):
                    print("REFUTED", g, "\n  goal", show(goal, 8), "\n  pc", [show(x, 5) for x in pc])
                break
            if how == "z3: sat" and st != "failed":
                st, why = "failed", "z3 finds a model of the negation%s%s" % (
                    "" if exact(pc, goal) else ", over a loop's state that is known in part", " " + info["exc"] if "exc" in info else "")
                if os.environ.get("DV_SHOW"):
                    tm.SHOWN = {}
                    print("FAILED", g, "\n  goal", show(goal, 8), "\n  pc", [show(x, 5) for x in pc], "\n" + tm.shown())
            elif st == "proved":
                st, why = "undecided", how + (" " + info["exc"] if "exc" in info else "")
                if os.environ.get("DV_SHOW"):
                    tm.SHOWN = {}
                    print("OPEN", g, "\n  goal", show(goal, 8), "\n  pc", [show(x, 5) for x in pc], "\n" + tm.shown())
        res.append(Result(lead + g, st, why, "+".join(sorted(backs)) or "paths", time.time() - t2, hints, bounded))
    for what, n, backs in m.loop_obls:
        pass
    if m.loop_obls:
        n = sum(x[1] for x in m.loop_obls)
        res.append(Result(lead + "loop invariants: %d initial, step and exit conditions" % n, "proved", "",
                          "+".join(sorted(set(b for x in m.loop_obls for b in x[2]))), t1 - t0, None, bounded))
    return res, m

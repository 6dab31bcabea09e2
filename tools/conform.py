"""Checks the verifier against Python and numpy: python3-vt tools/conform.py [RUNS [PATTERN]]

Each snippet is executed symbolically (symbolic sizes, unknown contents), exactly as the functions of the repository are, and the
outcomes - path conditions, results, exceptions, contents of the arguments afterwards - are evaluated for drawn sizes and contents
and compared with what Python and numpy really do on them. A difference is an error of the verifier or of a library contract.
"""
import ast, itertools, os, random, sys, time, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from fractions import Fraction
from dv import engine, smt, term as tm, nplib
from dv.values import *
from dv.term import num
from dv.engine import Machine
from tools.snippets import SNIPPETS


class Skip(Exception):
    pass


def number(v):
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else float(v)
    return v


def inexact(ev, t):
    return any(x not in ev.vars for x in smt.approximations(t))


def concrete(m, ev, v, heap):
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    if isinstance(v, T):
        if inexact(ev, v):
            raise Skip("approximated")
        return number(ev(v))
    if isinstance(v, tuple):
        return tuple(concrete(m, ev, x, heap) for x in v)
    if isinstance(v, Arr):
        saved, m.heap = m.heap, heap
        try:
            axes = []
            for s, k in zip(v.shape, v.masks):
                n = int(ev(s))
                i = tm.fresh("i", "I")
                axes.append([x for x in range(n) if k is None or ev(k.cond(num(x)))])
            f = m.reader(v)
            out = np.zeros([len(a) for a in axes], dtype=object)
            for p in np.ndindex(*out.shape):
                t = f(tuple(num(a[x]) for a, x in zip(axes, p)))
                if isinstance(t, T) and inexact(ev, t):
                    raise Skip("approximated")
                out[p] = number(ev(t)) if isinstance(t, T) else t
            return ("array", m.dtype(v).kind, out)
        finally:
            m.heap = saved
    if isinstance(v, Ref):
        rec = heap[v.id]
        if rec.kind == "list":
            return [concrete(m, ev, x, heap) for x in rec.x]
        if rec.kind == "dict":
            return {k: concrete(m, ev, x, heap) for k, x in rec.d.items()}
        if rec.kind == "symlist":
            n = int(ev(rec.d["n"]))
            k = rec.d.get("mask")
            return [concrete(m, ev, rec.d["fn"](num(i)), heap) for i in range(n) if k is None or ev(k.cond(num(i)))]
    raise Skip("value %r" % (v,))


def same(a, b):
    """a: from the verifier, b: real"""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == "array":
        b = np.asarray(b)
        if a[2].shape != b.shape:
            return False
        kind = {"i": "i", "u": "i", "f": "f", "b": "b"}.get(b.dtype.kind, b.dtype.kind)
        if a[1] not in (kind,) and b.dtype.kind != "O":
            return False
        return all(same(x, y) for x, y in zip(a[2].ravel(), b.ravel()))
    if isinstance(b, np.ndarray) and b.ndim == 0:
        b = b[()]
    if isinstance(b, (list, tuple)):
        return isinstance(a, type(b)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if b is None or isinstance(b, str):
        return a == b
    if isinstance(a, (bool, int, float)) and np.isscalar(b):
        return abs(float(a) - float(b)) <= 1e-7 * max(1, abs(float(b)))
    return False


DT = {"f": (np.float64, "R"), "i": (np.int64, "I"), "b": (np.bool_, "B")}


def symbolic(spec):
    m = Machine(deadline=time.time() + 60)
    name, args, src = spec
    m.asts["snippet"] = ast.parse(src)
    m.load("snippet")
    dims = {}
    vals = []

    def dim(d):
        if d.isdigit():
            return num(int(d))
        if d not in dims:
            lo = 1 if d.isupper() else 0
            dims[d] = tm.var(d, "I")
            m.assume(tm.le(num(lo), dims[d]))
        return dims[d]

    def body():
        m.facts = m.facts
        del vals[:]
        dims.clear()
        for a in args.split():
            n, _, t = a.partition(":")
            if t in ("int", "pos"):
                v = tm.var(n, "I")
                m.assume(tm.le(num(1 if t == "pos" else 0), v))
                vals.append(nplib.pyfix(v))
                continue
            if t == "real":
                vals.append(tm.var(n, "R"))
                continue
            k, shape = t[0], t[1:].split("x")
            dt = {"f": nplib.F8, "i": nplib.I8, "b": nplib.BOOL}[k]
            vals.append(m.array([dim(d) for d in shape], lambda i, n=n, k=k: tm.app(n, tuple(i), DT[k][1]), dt))
        f = m.get("snippet", "f")
        return (m.call(f, list(vals)), tuple(v for v in vals if isinstance(v, Arr)))
    outs = m.explore(body)
    return m, outs


def draw(spec, rnd):
    """Sizes and contents -> (arguments, evaluator)."""
    ev = smt.Ev(rnd, (0, 4))
    args = []
    for a in spec[1].split():
        n, _, t = a.partition(":")
        if t in ("int", "pos"):
            ev.vars[n] = rnd.randint(1 if t == "pos" else 0, 5)
            args.append(ev.vars[n])
            continue
        if t == "real":
            ev.vars[n] = Fraction(rnd.randint(-6, 6), 2)
            args.append(float(ev.vars[n]))
            continue
        k, shape = t[0], []
        for d in t[1:].split("x"):
            if d.isdigit():
                shape.append(int(d))
            else:
                if d not in ev.vars:
                    ev.vars[d] = rnd.randint(1 if d.isupper() else 0, 6)
                shape.append(ev.vars[d])
        x = np.zeros(shape, dtype=DT[k][0])
        for p in np.ndindex(*shape):
            x[p] = rnd.choice((0, 0, 1, 1, 2, 3, -1, -2)) if k != "b" else rnd.random() < 0.5
        smt.EVAL[n] = lambda e, i, x=x.copy(), k=k: elem(x, i, k)
        args.append(x)
    return args, ev


def elem(x, i, k):
    i = tuple(int(j) for j in i)
    if any(not 0 <= a < b for a, b in zip(i, x.shape)):
        return False if k == "b" else 0
    v = x[i]
    return bool(v) if k == "b" else int(v) if k == "i" else Fraction(float(v))


def approximated(outs):
    """Symbols of the path conditions that stand for an unknown number of iterations; None if parts of the state are approximated."""
    out = {}

    def walk(t, seen=set()):
        if t.id in seen:
            return True
        seen.add(t.id)
        if t.op in ("var", "app") and "~" in t.data and t.data.split("~")[0] not in smt.FREE:
            if t.op == "app" or t.data.startswith(("hv", "hd")):
                return False
            out[t.data] = t.sort
        return all(walk(x) for x in tm.children(t)) and (t.op not in ("psum", "lam") or walk(t.data.body))
    for k, v, heap, pc in outs:
        for c in pc:
            if not walk(c, set()):
                return None
    return sorted(out.items()) if len(out) < 5 else None


def compare(m, outs, ev, res, args):
    """'' if exactly one outcome fits and agrees with the real one."""
    fits = []
    for k, v, heap, pc in outs:
        memo = {}
        if all(ev(c, None, memo) for c in pc):
            fits.append((k, v, heap))
    if len(fits) != 1:
        return "%d paths" % len(fits)
    k, v, heap = fits[0]
    if k == "raise":
        if res[0] != "raise" or not issubclass(res[1], v.cls) and not issubclass(v.cls, res[1]):
            return "verifier raises %s" % v.cls.__name__
        return ""
    if res[0] == "raise":
        return "verifier does not raise"
    got = concrete(m, ev, v[0], heap)
    if not same(got, res[1]):
        return "verifier %r" % (got,)
    after = [concrete(m, ev, x, heap) for x in v[1]]
    real = [a for a in args if isinstance(a, np.ndarray)]
    if not all(same(x, y) for x, y in zip(after, real)):
        return "verifier: arguments afterwards %r" % (after,)
    return ""


def check(spec, runs, seed):
    rnd = random.Random(seed)
    name = spec[0]
    try:
        m, outs = symbolic(spec)
    except (Unsupported, JunkRead) as e:
        return "unsupported", str(e)[:200], 0, 0
    except Exception as e:
        import traceback
        traceback.print_exc(limit=-3)
        return "crash", "%s %s" % (type(e).__name__, e), 0, 0
    code = compile(spec[2], name, "exec")
    free = approximated(outs)
    done = skipped = 0
    for r in range(runs):
        ns = {}
        exec(code, ns)
        args, ev = draw(spec, rnd)
        shown = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                res = ("normal", ns["f"](*args))
        except Exception as e:
            res = ("raise", type(e))
        try:
            if free is None:
                raise Skip("approximated state")
            base, msgs = dict(ev.vars), []
            for vals in itertools.islice(itertools.product(*[(False, True) if t == "B" else range(9) for _, t in free]), 4000):
                ev.vars = dict(base, **{n: v for (n, _), v in zip(free, vals)})
                msg = compare(m, outs, ev, res, args)
                if not msg:
                    break
                msgs.append(msg)
            else:
                return "WRONG", "%s; arguments %r, real %r" % (max(msgs, key=len), shown, res), done, skipped
            done += 1
        except (Skip, smt.NoEval, ZeroDivisionError, OverflowError) as e:
            skipped += 1
            why = "%s %s" % (type(e).__name__, e)
    if not done:
        return "skipped", why, done, skipped
    return "ok", "", done, skipped


def main():
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    bad, tot = 0, {}
    for s in SNIPPETS:
        if pat in s[0]:
            st, why, a, b = check(s, runs, 7)
            tot[st] = tot.get(st, 0) + 1
            bad += st == "WRONG"
            if st != "ok" or b:
                print(st, s[0], "compared", a, "skipped", b, why)
    print("conformance:", tot)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

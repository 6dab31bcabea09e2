"""Run-time side: executable contracts of the properties, evaluated on the real code in /repo.

Used (1) to replay refuted proof obligations on concrete inputs, (2) as the labelled bounded stand-in for functions
the verifier cannot reach, and (3) to cross-check the trusted contracts of numpy/scipy/pytables against CPython.
Runs in /opt/venv (the interpreter that has hpelm's dependencies); never writes outside its scratch directory.
"""
import contextlib, io, json, os, random, signal, sys, time, traceback, hashlib, warnings
import numpy as np

CASES = {}      # property -> list of (name, function, weight)


class Fail(Exception):
    """An executable contract does not hold."""


class Skip(Exception):
    """The drawn input is outside the contract's precondition."""


class Hang(BaseException):
    pass


def case(*props, weight=1, tmo=20):
    def deco(f):
        f.tmo = tmo
        for p in props:
            CASES.setdefault(p, []).append((f.__name__, f, weight))
        return f
    return deco


class G(object):
    """Source of the values of one case: a seeded generator whose named choices can be fixed by hints (values that
    come from a solver model)."""

    def __init__(self, seed, hints=None):
        self.seed = seed
        self.hints = dict(hints or {})
        self.rnd = random.Random(seed)
        self.np = np.random.RandomState(self.rnd.randrange(2 ** 31))
        self.log = {}

    def _done(self, name, v):
        if name in self.log:
            i = 2
            while "%s#%d" % (name, i) in self.log:
                i += 1
            name = "%s#%d" % (name, i)
        self.log[name] = v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)
        return v

    def int(self, name, lo, hi):
        v = self.rnd.randint(lo, hi)
        if name in self.hints:
            try:
                v = min(max(int(self.hints[name]), lo), max(hi, 400))
            except Exception:
                pass
        return self._done(name, v)

    def choice(self, name, seq):
        seq = list(seq)
        v = seq[self.rnd.randrange(len(seq))]
        if name in self.hints and self.hints[name] in seq:
            v = self.hints[name]
        return self._done(name, v)

    def bool(self, name, p=0.5):
        v = self.rnd.random() < p
        if name in self.hints:
            v = bool(self.hints[name])
        return self._done(name, v)


def check(ok, msg, *a):
    if not ok:
        raise Fail(msg % a if a else msg)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"))


def close(a, b, tol=1e-8, what="value"):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, "%s: shape %s, expected %s", what, a.shape, b.shape)
    if a.size == 0:
        return
    check(bool(np.all(np.isfinite(a))) or not bool(np.all(np.isfinite(b))), "%s is not finite", what)
    d = np.abs(a - b)
    s = np.maximum(1.0, np.max(np.abs(b)))
    check(bool(np.all(d <= tol * s)), "%s differs from its contract: max difference %.3g (scale %.3g)", what,
          float(np.nanmax(d)), float(s))


def raises(f, *exc):
    """True when f() raises one of exc."""
    try:
        f()
    except exc or (Exception,):
        return True
    return False


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


def _alarm(signum, frame):
    raise Hang()


def seed_of(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:12], 16)


def run_one(prop, name, fn, seed, hints=None):
    """-> (status, message, log); status ok / skip / fail."""
    g = G(seed, hints)
    np.random.seed(seed % (2 ** 31))
    for f in os.listdir("."):
        try:
            os.unlink(f)
        except OSError:
            pass
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fn.tmo)
    try:
        with quiet():
            fn(g)
        return "ok", "", g.log
    except Skip:
        return "skip", "", g.log
    except Fail as e:
        return "fail", str(e), g.log
    except Hang:
        import multiprocessing as mp
        for c in mp.active_children():
            c.terminate()
        return "fail", "the call did not finish within %g s" % fn.tmo, g.log
    except (MemoryError, KeyboardInterrupt):
        return "skip", "", g.log
    except OSError as e:
        if e.errno in (28, 12, 24, 11):   # no space, no memory, no descriptors, no processes: not the code's doing
            return "skip", "", g.log
        return "fail", "unexpected %s" % traceback.format_exc(limit=-4), g.log
    except Exception:
        return "fail", "unexpected %s" % traceback.format_exc(limit=-4), g.log
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def campaign(prop, seed, seconds, max_cases=10 ** 9, hints=(), only=None):
    """Runs the property's executable contracts; stops at the first failure."""
    cases = [c for c in CASES.get(prop, []) if only is None or c[0] in only]
    sched = [c for c in cases for _ in range(c[2])]
    t0 = time.time()
    n = 0
    skipped = 0
    distinct = set()
    samples = []
    per = {}
    hints = list(hints)
    jobs = [(c, h, r) for h in hints for c in cases for r in range(3)]
    i = 0
    hung = 0
    while True:
        if jobs:
            (name, fn, _), h, r = jobs.pop(0)
            s = seed_of(seed, prop, name, "hint", r, sorted(h.items()))
        else:
            if not sched or i >= max_cases or (time.time() - t0 > seconds and i >= len(sched)):
                break
            name, fn, _ = sched[i % len(sched)]
            h = None
            s = seed_of(seed, prop, name, i // len(sched), i % len(sched))
            i += 1
        st, msg, log = run_one(prop, name, fn, s, h)
        if st == "skip":
            skipped += 1
            continue
        n += 1
        per[name] = per.get(name, 0) + 1
        key = (name, json.dumps(log, sort_keys=True, default=str))
        distinct.add(hashlib.md5(repr(key).encode()).digest())
        if len(samples) < 3 and name not in [x["case"] for x in samples]:
            samples.append({"case": name, "seed": s, "input": log})
        if st == "fail":
            # a result that depends on scheduling or on the load of the machine must fail again
            st2, msg2, log2 = run_one(prop, name, fn, s, h)
            if st2 != "fail":
                continue
            return dict(status="fail", case=name, seed=s, hints=h, message=msg2, input=log2, evaluations=n,
                        distinct=len(distinct), skipped=skipped, samples=samples, per_case=per, seconds=time.time() - t0)
    return dict(status="ok", evaluations=n, distinct=len(distinct), skipped=skipped, samples=samples, per_case=per,
                seconds=time.time() - t0)

"""Interpreter of the Python subset of /repo's source over symbolic values, with path exploration by re-execution."""
import ast, os, time
from dv.values import *
from dv import values as V
from dv import smt
from dv import term as term_mod

REPO = os.environ.get("VERIF_REPO", "/repo")


class Dead(Exception):
    """The current path condition is contradictory."""


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GenLeave(Exception):
    """The body of a for statement over a generator ends the loop while the generator is suspended at a yield."""
    def __init__(self, gid, kind, v):
        self.gid, self.kind, self.v = gid, kind, v


class GenVal(object):
    """A generator that has not started: its function and the frame with its arguments."""
    def __init__(self, f, env, state, counter=None):
        # state: a list object of the heap, empty until it is started; counter: the frame with the number of enumerate()
        self.f, self.env, self.state, self.counter = f, env, state, counter


CONTROL = (PyRaise, ReturnEx, BreakEx, ContinueEx, GenLeave)
MAX_PATHS = 600


class Machine(object):
    def __init__(self, deadline=None):
        self.heap = {}
        self.nid = 0
        self.frozen = set()     # buffers that may not be written any more
        self.pc = []
        self.dec, self.pos, self.pending = [], 0, []
        self.obls = []            # (name, pc, goal, info)
        self.modules = {}
        self.left_out = None      # obligations that another harness proves: name -> bool
        self.overrides = {}       # qualified function name -> Native
        self.loop_contracts = []  # see hoare.py
        self.deadline = deadline
        self.called = set()
        self.depth = 0
        self.loopdepth = 0
        self.assumptions = set()
        self.loop_obls = []
        self.fresh_floor = 0
        from dv import nplib
        self.lib = nplib.build(self)
        self.asts = {}
        self.loopks = []
        self.trace = bool(os.environ.get("DV_TRACE"))
        self.fs = self.new("nat", {}, "fs")
        self.watch = set()
        self.children = {"_ireader": "reader", "_iwriter": "writer"}
        self.facts = []
        self.lenient = False

    # ------------------------------------------------------------ symbols
    def sym(self, base, sort):
        """An unknown value, one per iteration of the enclosing loops."""
        v = fresh(base, sort)
        return app(v.data, tuple(self.loopks), sort) if self.loopks else v

    def symfn(self, base):
        """Name of an unknown function and the extra arguments it takes inside loops."""
        return fresh(base, "I").data, tuple(self.loopks)

    def decide_lib(self, msg):
        return self.branch(self.sym(msg.replace(" ", "_"), "B"))

    def ite_val(self, c, a, b):
        c = num(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if veq(a, b):
            return a
        if all(isinstance(x, (NameVal, str, V.Ufunc)) for x in (a, b)):
            return NameVal(ite(c, *[x.t if isinstance(x, NameVal) else V.name_code(x) for x in (a, b)]))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (T, int, float, bool)) and isinstance(b, (T, int, float, bool)):
            return ite(c, num(a), num(b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and not any(a.masks) and not any(b.masks):
            f, g = self.reader(a), self.reader(b)
            return self.array([ite(c, x, y) for x, y in zip(a.shape, b.shape)], lambda i: ite(c, f(i), g(i)), self.dtype(a))
        raise Unsupported("choice between values of different kinds")

    # ------------------------------------------------------------ heap
    def alloc(self, rec):
        self.nid += 1
        self.heap[self.nid] = rec
        return self.nid

    def new(self, kind, d=None, x=None):
        return Ref(self.alloc(Rec(kind, d or {}, x)))

    def rec(self, r):
        return self.heap[r.id]

    def newlist(self, items):
        return self.new("list", x=list(items))

    def snapshot(self):
        return ({k: r.copy() for k, r in self.heap.items()}, list(self.pc))

    def restore(self, s):
        self.heap = {k: r.copy() for k, r in s[0].items()}
        self.pc = list(s[1])

    # ------------------------------------------------------------ paths
    def assume(self, c):
        c = num(c)
        if c is TRUE:
            return
        if c is FALSE:
            raise Dead()
        for x in (c.args if c.op == "and" else (c,)):
            if x not in self.pc:
                self.pc.append(x)

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the harness used up")

    def branch(self, c):
        """Decides a symbolic condition, forking the exploration when both outcomes are possible."""
        c = num(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        self.check_time()
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        d = smt.entails(self.pc, c)
        if d is not None:
            return d
        return self.decide(c)

    def decide(self, c):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = True
            self.pending.append(self.dec[:self.pos] + [False])
            self.dec = self.dec[:self.pos] + [True]
        self.pos += 1
        if c is not None:
            self.assume(c if d else not_(c))
        return d

    def entails(self, c):
        c = num(c)
        if c is TRUE or c in self.pc:
            return True
        if c is FALSE:
            return False
        self.check_time()
        return smt.impossible(self.pc, not_(c), 1500)

    def explore(self, fn, limit=MAX_PATHS):
        """All outcomes of fn() from the current state: list of (kind, value, heap, pc)."""
        s0 = self.snapshot()
        saved = (self.dec, self.pos, self.pending)
        c0 = cmax = term_mod._fresh[0]
        out = []
        work = [[]]
        try:
            while work:
                self.dec, self.pos, self.pending = work.pop(), 0, []
                self.restore(s0)
                cmax = max(cmax, term_mod._fresh[0])
                term_mod._fresh[0] = c0          # the same names on every path
                try:
                    try:
                        v = fn()
                        k = "normal"
                    except ReturnEx as e:
                        k, v = "return", e.v
                    except BreakEx:
                        k, v = "break", None
                    except ContinueEx:
                        k, v = "normal", None
                    except PyRaise as e:
                        k, v = "raise", e.exc
                    except GenLeave as e:
                        k, v = "genleave", (e.gid, e.kind, e.v)
                    out.append((k, v, self.heap, list(self.pc)))
                except Dead:
                    pass
                work.extend(self.pending)
                if len(out) > limit:
                    raise Unsupported("too many paths")
        finally:
            term_mod._fresh[0] = max(cmax, term_mod._fresh[0])
            self.dec, self.pos, self.pending = saved
            self.restore(s0)
        return out

    # ------------------------------------------------------------ obligations
    def prove(self, name, goal, **info):
        if self.left_out is not None and self.left_out(name):
            return
        self.obls.append((name, list(self.pc), num(goal), info))

    def raise_(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    def must(self, c, cls, msg="", *a):
        """Precondition of a library function: raises cls on the paths where c is false."""
        if not self.branch(c):
            self.raise_(cls, msg)

    # ------------------------------------------------------------ arrays
    def array(self, shape, fn, dtype, masks=None):
        shape = tuple(num(s) for s in shape)
        b = self.alloc(Rec("buf", {"c": Content(fn)}, (shape, dtype)))
        return Arr(b, [("ax", i, num(0), 1) for i in range(len(shape))], shape, masks)

    def content(self, b):
        c = self.heap[b].d["c"]
        if isinstance(c, Junk):
            raise JunkRead(c.loc)
        return c

    def reader(self, a):
        c = self.content(a.buf)
        if len(a.bmap) == len(a.shape) and all(b[0] == "ax" and b[1] == i and b[3] == 1 and is_num(b[2]) and num_val(b[2]) == 0
                                               for i, b in enumerate(a.bmap)):
            return c
        return lambda idx: c(a.bidx(idx))

    def rreader(self, a):
        """Reader of numbers (Booleans as 0/1)."""
        f = self.reader(a)
        if self.dtype(a).kind != "b":
            return f
        return lambda idx: (lambda t: ind(t) if t.sort == "B" else t)(f(idx))

    def dtype(self, a):
        return self.heap[a.buf].x[1]

    def elem(self, a, idx):
        return self.reader(a)(tuple(num(i) for i in idx))

    def write(self, a, val):
        """Overwrites the view a: val(view idx) -> term."""
        rec = self.heap[a.buf]
        shape = rec.x[0]
        region = []
        inv = {}
        if any(a.masks):
            raise Unsupported("write through a filtered view")
        if a.buf in self.frozen:
            raise Unsupported("write to an array with a view of a symbolic step")
        for j, b in enumerate(a.bmap):
            if b[0] == "fix":
                region.append(("eq", b[1]))
            else:
                _, ax, off, step = b
                inv[ax] = (j, off, step)
                if step != 1:
                    n = a.shape[ax]
                    region.append(("cond", (lambda off, step, n: lambda t: and_(
                        le(off, t), lt(t, add(off, mul(n, num(step)))), eq(imod(sub(t, off), num(step)), num(0))))(off, step, n)))
                elif is_num(off) and num_val(off) == 0 and (a.shape[ax] is shape[j] or self.entails(eq(a.shape[ax], shape[j]))):
                    region.append(("all",))
                else:
                    region.append(("rng", off, add(off, a.shape[ax])))
        nd = a.ndim

        def v(idx):
            vi = []
            for ax in range(nd):
                if ax in inv:
                    j, off, step = inv[ax]
                    t = sub(idx[j], off)
                    if step != 1:
                        t = idiv(t, num(step))
                    vi.append(t)
                else:
                    vi.append(num(0))
            return val(tuple(vi))
        base = self.content(a.buf) if not all(r[0] == "all" for r in region) else None
        if base is None:
            rec.d["c"] = Content(v)
        else:
            rec.d["c"] = Content(base=base, region=tuple(region), val=v)

    def subst_arr(self, a, name, t):
        if isinstance(a, SymSeq):
            return SymSeq(subst(a.n, {name: t}), lambda k: vsubst(a.fn(k), name, t, self))
        s = lambda x: subst(x, {name: t})
        rec = self.heap[a.buf]
        c = self.content(a.buf)
        # a buffer that does not depend on the variable keeps its identity
        idx = tuple(fresh("q", "I") for _ in rec.x[0])
        if name not in c(idx).fv:
            return Arr(a.buf, [("fix", s(b[1])) if b[0] == "fix" else ("ax", b[1], s(b[2]), b[3]) for b in a.bmap],
                       [s(x) for x in a.shape], [self.subst_mask(k, name, t) for k in a.masks])
        nb = self.alloc(Rec("buf", {"c": Content(lambda idx: s(c(idx)))}, (tuple(s(x) for x in rec.x[0]), rec.x[1])))
        return Arr(nb, [("fix", s(b[1])) if b[0] == "fix" else ("ax", b[1], s(b[2]), b[3]) for b in a.bmap],
                   [s(x) for x in a.shape], [self.subst_mask(k, name, t) for k in a.masks])

    def subst_mask(self, k, name, t):
        if k is None:
            return None
        return Mask(subst(k.n, {name: t}), lambda s: subst(k.cond(s), {name: t}))

    def subst_ref(self, r, name, t):
        rec = self.rec(r)
        if rec.kind == "list":
            return self.newlist([vsubst(x, name, t, self) for x in rec.x])
        return r

    def copy_arr(self, a, dtype=None):
        f = self.reader(a)
        return self.array(a.shape, f, dtype or self.dtype(a), a.masks)

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            f, pkg = os.path.join(path, "__init__.py"), name
        else:
            f, pkg = path + ".py", name.rpartition(".")[0]
        if name not in self.asts:
            try:
                with open(f) as fh:
                    src = fh.read()
            except IOError:
                self.raise_(ImportError, name)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.asts[name] = ast.parse(src)
        fr = self.alloc(Rec("frame", {"__name__": name}, None))
        mod = self.modules[name] = PyModule(name, fr, pkg)
        self.exec_block(self.asts[name].body, Env(self, fr, mod))
        return mod

    def get(self, module, name):
        """Attribute of a repository module."""
        return self.heap[self.load(module).frame].d[name]

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        self.check_time()
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, DType):
            return self.lib.cast_scalar(self, f, args[0]) if args else num(0)
        if isinstance(f, Ufunc):
            return self.lib.ufunc_call(self, f, list(args), kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, args)
        if isinstance(f, Ref) and self.rec(f).kind == "obj":
            c = self.rec(f).x.find("__call__")
            if c:
                return self.call(c, [f] + list(args), kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kw):
        r = self.new("obj", {}, cls)
        init = cls.find("__init__")
        if init is not None:
            self.call(init, [r] + args, kw)
        return r

    def call_func(self, f, args, kw):
        q = (f.module.name + "." if f.module else "") + (f.cls + "." if f.cls else "") + f.name
        ov = self.overrides.get(q)
        if ov is not None:
            r = ov(self, args, kw)
            if r is not NotImplemented:
                return r
        self.called.add(q)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            a = f.node.args
            d = {}
            names = [x.arg for x in a.posonlyargs + a.args]
            pos = list(args)
            for n in names:
                if pos:
                    d[n] = pos.pop(0)
            if pos:
                if a.vararg:
                    d[a.vararg.arg] = tuple(pos)
                else:
                    self.raise_(TypeError, "too many arguments")
            elif a.vararg:
                d[a.vararg.arg] = ()
            extra = {}
            allnames = set(names) | set(x.arg for x in a.kwonlyargs)
            for k, v in kw.items():
                if k in allnames:
                    if k in d:
                        self.raise_(TypeError, "multiple values for " + k)
                    d[k] = v
                elif a.kwarg:
                    extra[k] = v
                else:
                    self.raise_(TypeError, "unexpected keyword argument " + k)
            if a.kwarg:
                d[a.kwarg.arg] = self.new("dict", extra)
            for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
                d.setdefault(n, v)
            for x, v in zip(a.kwonlyargs, f.kwdefaults):
                if v is not None:
                    d.setdefault(x.arg, v[0])
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in d:
                    self.raise_(TypeError, "missing argument " + n)
            fr = self.alloc(Rec("frame", d, f.frame))
            env = Env(self, fr, f.module, f)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if _is_generator(f.node):
                return GenVal(f, env, self.newlist([]))
            try:
                self.exec_block(f.node.body, env)
            except ReturnEx as e:
                return e.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        fid = env.frame
        while fid is not None:
            rec = self.heap[fid]
            if name in rec.d:
                v = rec.d[name]
                if isinstance(v, Junk):
                    raise JunkRead(v.loc)
                return v
            fid = rec.x
        g = self.heap[env.module.frame].d if env.module else {}
        if name in g:
            v = g[name]
            if isinstance(v, Junk):
                raise JunkRead(v.loc)
            return v
        b = self.lib.builtins
        if name in b:
            return b[name]
        self.raise_(NameError, name)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        f = getattr(self, "x_" + type(s).__name__, None)
        if f is None:
            raise Unsupported("statement " + type(s).__name__)
        try:
            return f(s, env)
        except Unsupported as e:
            if not getattr(e, "line", None):
                e.line = "%s:%s" % (env.module.name if env.module else "?", getattr(s, "lineno", "?"))
                e.args = ("%s [%s]" % (e.args[0] if e.args else "", e.line),)
            if self.lenient and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)):
                return      # only to guess an invariant, see Summary.probe
            raise

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            v = self.import_(a.name, env)
            if a.asname:
                parts = a.name.split(".")[1:]
                for p in parts:
                    v = self.getattr(v, p)
                env.set(a.asname, v)
            else:
                env.set(a.name.split(".")[0], v)

    def import_(self, name, env):
        top = name.split(".")[0]
        if top in self.lib.modules:
            return self.lib.modules[top]
        if os.path.isdir(os.path.join(REPO, top)):
            return self.load(top)
        return Opaque("module " + name)

    def x_ImportFrom(self, s, env):
        if s.module == "__future__":
            return
        if s.level:
            base = env.module.package
            for _ in range(s.level - 1):
                base = base.rpartition(".")[0]
            full = base + ("." + s.module if s.module else "")
            for a in s.names:
                m = self.load(full)
                d = self.heap[m.frame].d
                if a.name in d:
                    env.set(a.asname or a.name, d[a.name])
                else:
                    env.set(a.asname or a.name, self.load(full + "." + a.name))
            return
        top = s.module.split(".")
        if top[0] in self.lib.modules:
            v = self.lib.modules[top[0]]
            for p in top[1:]:
                v = self.getattr(v, p)
            for a in s.names:
                try:
                    env.set(a.asname or a.name, self.getattr(v, a.name))
                except Unsupported:
                    env.set(a.asname or a.name, Opaque(s.module + "." + a.name))
        elif os.path.isdir(os.path.join(REPO, top[0])):
            m = self.load(s.module)
            for a in s.names:
                d = self.heap[m.frame].d
                env.set(a.asname or a.name, d[a.name] if a.name in d else self.load(s.module + "." + a.name))
        else:
            for a in s.names:
                env.set(a.asname or a.name, Opaque(s.module + "." + a.name))

    def mkfunc(self, node, env, cls=None):
        a = node.args
        return Func(node, env.frame if env.fn is not None or env.cls else None, env.module,
                    [self.ev(x, env) for x in a.defaults],
                    [None if x is None else (self.ev(x, env),) for x in a.kw_defaults],
                    getattr(node, "name", "<lambda>"), cls)

    def x_FunctionDef(self, s, env):
        f = self.mkfunc(s, env, env.cls)
        for d in s.decorator_list:
            dv = self.ev(d, env)
            f = self.call(dv, [f])
        env.set(s.name, f)

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        fr = self.alloc(Rec("frame", {}, env.frame if env.fn is not None else None))
        e = Env(self, fr, env.module, env.fn, s.name)
        e.fn = None
        self.exec_block(s.body, e)
        for v in self.heap[fr].d.values():
            if isinstance(v, Func):
                v.frame = env.frame if env.fn is not None else None
        env.set(s.name, PyClass(s.name, bases, dict(self.heap[fr].d)))

    def x_Return(self, s, env):
        raise ReturnEx(None if s.value is None else self.ev(s.value, env))

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_(AssertionError, "assert")

    def x_Raise(self, s, env):
        if s.exc is None:
            if env.cur_exc:
                raise PyRaise(env.cur_exc[-1])
            self.raise_(RuntimeError, "no active exception")
        e = self.ev(s.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e)
        if not isinstance(e, ExcVal):
            raise Unsupported("raise of a non-exception")
        raise PyRaise(e)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.heap[env.frame].d.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.rec(o).d.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                rec = self.rec(o)
                if rec.kind == "dict":
                    del rec.d[self.key(k)]
                elif rec.kind == "list":
                    del rec.x[k]
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def x_Global(self, s, env):
        raise Unsupported("global")

    def x_Nonlocal(self, s, env):
        raise Unsupported("nonlocal")

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(x, type) and issubclass(e.exc.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            env.set(h.name, e.exc)
                        env.cur_exc.append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            env.cur_exc.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except CONTROL:
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        self.with_items(list(s.items), s.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        v = self.call(enter, [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], body, env)
        except PyRaise as e:
            r = self.call(exit_, [e.exc.cls, e.exc, None])
            if r is True:
                return
            raise
        except CONTROL:
            self.call(exit_, [None, None, None])
            raise
        else:
            self.call(exit_, [None, None, None])

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.lib.inplace(self, op, cur, self.ev(s.value, env))
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.lib.inplace(self, op, cur, self.ev(s.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.lib.getitem(self, o, k)
            v = self.lib.inplace(self, op, cur, self.ev(s.value, env))
            self.lib.setitem(self, o, k, v)
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.lib.setitem(self, o, self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.lib.unpack(self, v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def run_gen(self, g, consume):
        """Runs a generator to its end; consume(v) runs at every yield."""
        st = self.rec(g.state)
        if st.x:
            raise Unsupported("a generator used twice")
        st.x = [True]
        env = g.env
        saved = env.consumer
        if g.counter is None:
            env.consumer = consume
        else:
            def counted(v):
                d = self.heap[g.counter].d
                n = d["n"]
                d["n"] = self.lib.binop(self, "Add", n, 1)
                consume((n, v))
            env.consumer = counted
        try:
            self.exec_block(g.f.node.body, env)
        except ReturnEx:
            pass
        finally:
            env.consumer = saved

    def gen_list(self, g):
        out = self.newlist([])
        app = self.getattr(out, "append")
        self.run_gen(g, lambda v: self.call(app, [v]))
        return out

    def for_gen(self, s, g, env):
        gid = g.state.id
        # the loop variable and the body see the state the generator is in at the yield
        def consume(v):
            try:
                self.assign(s.target, v, env)
                self.exec_block(s.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                raise GenLeave(gid, "break", None)
            except ReturnEx as e:
                raise GenLeave(gid, "return", e.v)
            except PyRaise as e:
                raise GenLeave(gid, "raise", e.exc)
        try:
            self.run_gen(g, consume)
        except GenLeave as e:
            if e.gid != gid:
                raise
            if e.kind == "break":
                return
            if e.kind == "return":
                raise ReturnEx(e.v)
            raise PyRaise(e.v)
        self.exec_block(s.orelse, env)

    def e_Yield(self, e, env):
        if env.consumer is None:
            raise Unsupported("yield")
        env.consumer(None if e.value is None else self.ev(e.value, env))
        return None

    def e_YieldFrom(self, e, env):
        v = ast.Name("$item", ast.Load())
        loop = ast.For(ast.Name("$item", ast.Store()), e.value, [ast.Expr(ast.Yield(v))], [], None)
        ast.copy_location(loop, e)
        ast.fix_missing_locations(loop)
        self.x_For(loop, env)
        return None

    def x_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, GenVal):
            return self.for_gen(s, it, env)
        it = self.lib.iterate(self, it)
        if self.loop_contracts:
            from dv import hoare
            c = hoare.find(self, s, env)
            if c is not None:
                return hoare.run_for(self, s, it, env, c)
        if isinstance(it, list):
            try:
                for v in it:
                    self.assign(s.target, v, env)
                    try:
                        self.exec_block(s.body, env)
                    except ContinueEx:
                        pass
            except BreakEx:
                return
            self.exec_block(s.orelse, env)
            return
        from dv import loops
        loops.for_loop(self, s, it, env)

    def x_While(self, s, env):
        if self.loop_contracts:
            from dv import hoare
            c = hoare.find(self, s, env)
            if c is not None:
                return hoare.run_while(self, s, env, c)
        from dv import loops
        loops.while_loop(self, s, env)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        return self.lib.getattr(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            rec = self.rec(o)
            if rec.kind in ("obj", "nat"):
                hook = self.lib.nat_setattr.get(rec.x) if rec.kind == "nat" else None
                if hook:
                    return hook(self, o, name, v)
                rec.d[name] = v
                return
        if isinstance(o, Arr) and name == "shape":
            raise Unsupported("shape assignment")
        raise Unsupported("attribute assignment on %r" % (o,))

    def key(self, k):
        if isinstance(k, T):
            if is_num(k):
                v = num_val(k)
                return int(v) if v.denominator == 1 else float(v)
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, (Arr, Junk, NameVal)):
            raise Unsupported("dictionary key")
        if isinstance(k, StrVal):
            raise Unsupported("dictionary key of unknown text")
        return k

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, T):
            if v.sort == "B":
                return self.branch(v)
            return self.branch(ne(v, num(0)))
        if isinstance(v, Ref):
            rec = self.rec(v)
            if rec.kind == "list":
                return len(rec.x) > 0
            if rec.kind in ("dict", "set"):
                return len(rec.d) > 0
            if rec.kind == "symlist":
                return self.branch(lt(num(0), rec.d["n"]))
            if rec.kind == "nat" and rec.x == "h5node":
                return self.truth(self.call(self.getattr(v, "__len__"), []))
            return True
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(self.elem(v, ()))
            n = num(1)
            for s in v.shape:
                n = mul(n, s)
            if n is num(1):
                return self.truth(self.elem(v, [num(0)] * v.ndim))
            self.raise_(ValueError, "truth value of an array is ambiguous")
        if isinstance(v, StrVal):
            raise Unsupported("truth of unknown text")
        if isinstance(v, (Opaque,)):
            raise Unsupported("truth of %r" % v)
        return bool(v) if isinstance(v, (int, float, str, bytes, tuple, type(None), bool)) else True

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression " + type(e).__name__)
        return f(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.newlist(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.lib.iterate(self, self.ev(x.value, env))
                if not isinstance(it, list):
                    raise Unsupported("star of a symbolic sequence")
                out += it
            else:
                out.append(self.ev(x, env))
        return out

    def e_Set(self, e, env):
        return self.new("set", {self.key(self.ev(x, env)): True for x in e.elts})

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.rec(self.ev(v, env)).d)
            else:
                d[self.key(self.ev(k, env))] = self.ev(v, env)
        return self.new("dict", d)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            if isinstance(v, T) and v.sort == "B" and self.pure(e.values[i + 1:]):
                # no side effects: combine without forking
                rest = [self.ev_guard(y, env) for y in e.values[i + 1:]]
                if all(isinstance(r, (T, bool)) and num(r).sort == "B" for r in rest):
                    return (and_ if isinstance(e.op, ast.And) else or_)(v, *rest)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def pure(self, es):
        """Comparisons of names and constants only."""
        return all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.Load, ast.cmpop, ast.BinOp, ast.operator, ast.boolop,
                                  ast.BoolOp, ast.UnaryOp, ast.unaryop)) for e in es for n in ast.walk(e))

    def ev_guard(self, e, env):
        try:
            return self.ev(e, env)
        except PyRaise:
            return None

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return self.lib.unary(self, type(e.op).__name__, v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.lib.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            c = self.lib.compare(self, type(op).__name__, left, right)
            if res is None:
                res = c
            elif isinstance(res, bool) and isinstance(c, (bool, T)):
                res = c if res else False
            elif isinstance(res, T) and isinstance(c, (bool, T)):
                res = and_(res, num(c))
            else:
                raise Unsupported("chained comparison of arrays")
            left = right
        return res

    def e_Subscript(self, e, env):
        if isinstance(e.value, ast.ListComp) and isinstance(e.slice, ast.Constant) and e.slice.value == 0 and type(e.slice.value) is int:
            r = self.first_of(e.value, env)
            if r is not None:
                return r
        o = self.ev(e.value, env)
        return self.lib.getitem(self, o, self.ev_index(e.slice, env))

    def ev_index(self, e, env):
        if isinstance(e, ast.Slice):
            return Slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in e.elts)
        return self.ev(e, env)

    def e_Slice(self, e, env):
        return self.ev_index(e, env)

    def e_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                if isinstance(v, str) and x.format_spec is None:
                    parts.append(v)
                else:
                    parts.append(None)
        return StrVal() if None in parts else "".join(parts)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env.set(e.target.id, v)
        return v

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw.update(self.rec(v).d)
            else:
                kw[k.arg] = v
        if isinstance(f, Native) and f.name == "super" and not args:
            cls = self.lookup(env, "__class__") if False else None
            raise Unsupported("super() without arguments")
        return self.call(f, args, kw)

    def e_ListComp(self, e, env):
        return self.comp(e, env, "list")

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, "list")

    def e_SetComp(self, e, env):
        r = self.comp(e, env, "list")
        return self.new("set", {self.key(x): True for x in self.rec(r).x})

    def e_DictComp(self, e, env):
        out = {}

        def add_(env2):
            out[self.key(self.ev(e.key, env2))] = self.ev(e.value, env2)
        self.comp_gen(e.generators, env, add_)
        return self.new("dict", out)

    def comp(self, e, env, kind):
        from dv import loops
        if len(e.generators) == 1:
            g = e.generators[0]
            fr = self.alloc(Rec("frame", {}, env.frame))
            env2 = Env(self, fr, env.module, env.fn or True)
            src = self.ev(g.iter, env)
            msk = self.lib.mask_of(self, src)
            if msk is not None:
                n, fn, msk = self.lib.iterate_masked(self, src)
                return loops.comprehension(self, e, g, SymSeq(n, fn), env2, msk)
            it = self.lib.iterate(self, src)
            if not isinstance(it, list):
                return loops.comprehension(self, e, g, it, env2)
        out = []
        self.comp_gen(e.generators, env, lambda env2: out.append(self.ev(e.elt, env2)))
        return self.newlist(out)

    def first_of(self, e, env):
        """[x for x in <known sequence of numbers> if c(x)][0] as one value, without deciding every c(x) apart; None: not of that form."""
        g = e.generators[0]
        if len(e.generators) != 1 or len(g.ifs) != 1 or not isinstance(e.elt, ast.Name) or not all(
                isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.expr_context, ast.cmpop, ast.Subscript, ast.List, ast.Tuple))
                for y in (g.ifs[0], g.iter) for n in ast.walk(y)):
            return None
        it = self.lib.iterate(self, self.ev(g.iter, env))
        if not isinstance(it, list) or not it or not all(isinstance(x, (T, int)) for x in it):
            return None
        out = []
        for v in it:
            fr = self.alloc(Rec("frame", {}, env.frame))
            env2 = Env(self, fr, env.module, env.fn or True)
            self.assign(g.target, v, env2)
            c = self.ev(g.ifs[0], env2)
            if isinstance(c, bool):
                c = TRUE if c else FALSE
            if not isinstance(c, T) or c.sort != "B":
                return None
            out.append((c, num(self.ev(e.elt, env2))))
        self.must(or_(*[c for c, _ in out]), IndexError, "list index out of range")
        r = out[-1][1]
        for c, v in reversed(out[:-1]):
            r = ite(c, v, r)
        return self.lib.pyfix(r) if hasattr(self.lib, "pyfix") else _nplib.pyfix(r)

    def comp_gen(self, gens, env, emit):
        g = gens[0]
        it = self.lib.iterate(self, self.ev(g.iter, env))
        if not isinstance(it, list):
            raise Unsupported("nested comprehension over a symbolic sequence")
        for v in it:
            fr = self.alloc(Rec("frame", {}, env.frame))
            env2 = Env(self, fr, env.module, env.fn or True)
            self.assign(g.target, v, env2)
            if all(self.truth(self.ev(c, env2)) for c in g.ifs):
                if len(gens) > 1:
                    self.comp_gen(gens[1:], env2, emit)
                else:
                    emit(env2)


class Env(object):
    def __init__(self, m, frame, module, fn=None, cls=None):
        self.m, self.frame, self.module, self.fn, self.cls = m, frame, module, fn, cls
        self.cur_exc = []
        self.consumer = None

    def set(self, name, v):
        self.m.heap[self.frame].d[name] = v


def _is_generator(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            todo.extend(ast.iter_child_nodes(n))
    return False


from dv import nplib as _nplib
_nplib.install(Machine)

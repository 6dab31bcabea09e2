"""Loops under an explicit contract: invariant proved at entry and preserved by an arbitrary iteration, variant, frame.

A contract (see Contract) is attached to a harness through Machine.loop_contracts: functions (machine, statement,
environment) -> contract or None.  Obligations are named after the contract.
"""
import ast
from dv.values import *
from dv import loops


class Contract(object):
    name = "loop"
    peel = 0                # iterations executed before the invariant has to hold
    placed = False          # known() sets a state in which the invariant holds by construction: it is not assumed
    keep = ()               # locals the body assigns, with the value they had

    def entry(self, m, env):
        """Called once with the state before the loop (after the peeled iterations)."""

    def havoc(self, m, env):
        """Sets the locations the loop may change to unknown values (locals of the body are unknown already)."""

    def invariant(self, m, env, k):
        """List of (label, term); k: number of completed iterations (for loops over a sequence) or None."""
        return []

    def known(self, m, env, k):
        """What may be assumed at the head of an arbitrary iteration, apart from the invariant (quantified facts)."""
        return []

    def variant(self, m, env):
        return None

    def done(self, m, env):
        """Called after the body of the arbitrary iteration (ghost updates)."""

    def locs(self, m, env):
        """Heap locations the loop may change besides the locals its body assigns."""
        return set()


def assigned(stmts):
    """Names assigned by the statements (own scope only)."""
    out = set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in stmts:
        walk(s)
    return out


def find(m, s, env):
    for f in m.loop_contracts:
        c = f(m, s, env)
        if c is not None:
            return c
    return None


def prove_all(m, c, when, env, k):
    for label, t in c.invariant(m, env, k):
        m.prove("%s: invariant %s: %s" % (c.name, when, label), t)


def arbitrary(m, c, names, env, k):
    """The state at the head of an arbitrary iteration."""
    fr = m.heap[env.frame]
    for x in names:
        if x not in c.keep or x not in fr.d:
            fr.d[x] = Junk((env.frame, x))
    c.havoc(m, env)
    if not c.placed:
        for _, t in c.invariant(m, env, k):
            m.assume(t)
    for t in c.known(m, env, k):
        m.assume(t)


def frame_kept(m, c, env, head, names):
    for loc in loops.diff(head, m.heap):
        if loc[0] == env.frame and loc[1] in names:
            if loc[1] in c.keep and not isinstance(head[loc[0]].d.get(loc[1]), Junk):
                raise Unsupported("%s: the loop changes %s" % (c.name, loc[1]))
            continue
        if loc in c.allowed:
            continue
        if m.heap[loc[0]].kind in ("frame", "scope") and loc[0] != env.frame:
            raise Unsupported("%s: the loop changes a variable of another function" % c.name)
        raise Unsupported("%s: the loop changes %s of a %s, which its contract does not list" % (c.name, loc[1], head[loc[0]].kind))


def absent_ok(m, env, names):
    """Locals that do not exist before the loop are created by it."""
    return {x for x in names}


def run_while(m, s, env, c):
    from dv.engine import Dead, BreakEx, ContinueEx
    for _ in range(c.peel):
        if not m.truth(m.ev(s.test, env)):
            m.exec_block(s.orelse, env)
            return
        try:
            m.exec_block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return
    c.names = assigned(s.body)
    c.entry(m, env)
    prove_all(m, c, "holds on entry", env, None)
    names = assigned(s.body)
    iteration = m.decide(None)
    arbitrary(m, c, names, env, None)
    c.allowed = set(c.locs(m, env))
    if not iteration:
        if m.truth(m.ev(s.test, env)):
            raise Dead()
        m.exec_block(s.orelse, env)
        return
    if not m.truth(m.ev(s.test, env)):
        raise Dead()
    head = {i: r.copy() for i, r in m.heap.items()}
    v0 = c.variant(m, env)
    try:
        m.exec_block(s.body, env)
    except ContinueEx:
        pass
    except BreakEx:
        frame_kept(m, c, env, head, names)
        return
    c.done(m, env)
    prove_all(m, c, "is preserved", env, None)
    if v0 is None:
        raise Unsupported("%s: no variant" % c.name)
    t = m.ev(s.test, env)
    t = (t if t.sort == "B" else ne(t, num(0))) if isinstance(t, T) else (TRUE if m.truth(t) else FALSE)
    m.prove("%s: the variant decreases and is not negative" % c.name,
            implies(t, and_(lt(c.variant(m, env), v0), le(num(0), v0))))
    frame_kept(m, c, env, head, names)
    raise Dead()


def run_for(m, s, it, env, c):
    from dv.engine import Dead, BreakEx, ContinueEx
    c.items = it
    n = num(len(it)) if isinstance(it, list) else num(it.n)
    start = c.start(m, env) if hasattr(c, "start") else 0
    for i in range(c.peel):
        if isinstance(it, list) or not m.branch(lt(num(i), n)):
            raise Unsupported("peeling")
        m.assign(s.target, it.fn(num(i)), env)
        try:
            m.exec_block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return
    c.names = assigned(s.body) | assigned([s.target])
    c.entry(m, env)
    prove_all(m, c, "holds on entry", env, num(c.peel))
    names = assigned(s.body) | assigned([s.target])
    iteration = m.decide(None)
    if not iteration:
        arbitrary(m, c, names, env, n)
        if not isinstance(it, list):
            m.assume(le(num(c.peel), n))
        m.exec_block(s.orelse, env)
        return
    if isinstance(it, list):
        for k in range(len(it)):
            if k + 1 == len(it) or m.decide(None):
                break
        if not it:
            raise Dead()
        arbitrary(m, c, names, env, num(k))
        item, kk = it[k], num(k)
    else:
        kk = fresh("it", "I")
        m.assume(le(num(c.peel), kk))
        m.assume(lt(kk, n))
        arbitrary(m, c, names, env, kk)
        item = it.fn(kk)
    c.allowed = set(c.locs(m, env))
    head = {i: r.copy() for i, r in m.heap.items()}
    m.assign(s.target, item, env)
    try:
        m.exec_block(s.body, env)
    except ContinueEx:
        pass
    except BreakEx:
        frame_kept(m, c, env, head, names)
        return
    c.done(m, env)
    prove_all(m, c, "is preserved", env, add(kk, num(1)))
    frame_kept(m, c, env, head, names)
    raise Dead()

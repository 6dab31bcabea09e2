"""While loops: unrolled while the condition is decided, else summarised for an unknown number of completed iterations."""
from dv.values import *
from dv import smt, loops


def while_loop(m, s, env):
    from dv.engine import BreakEx, ContinueEx
    count = 0
    while True:
        m.check_time()
        S = m.snapshot()
        c = m.ev(s.test, env)
        t = truth_or_none(m, c)
        if t is None or (t is True and count >= 40):
            m.restore(S)
            summarise(m, s, env)
            return
        if t is False:
            m.exec_block(s.orelse, env)
            return
        if is_true_const(s.test) or count >= 1:
            # a loop that only its body leaves
            if is_true_const(s.test):
                m.restore(S)
                summarise(m, s, env)
                return
        count += 1
        try:
            m.exec_block(s.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            return


def is_true_const(e):
    import ast
    return isinstance(e, ast.Constant) and bool(e.value)


def truth_or_none(m, c):
    if isinstance(c, T):
        c = c if c.sort == "B" else ne(c, num(0))
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return smt.entails(m.pc, c)
    return m.truth(c)


class WhileSummary(loops.Summary):
    """Iterations 0 .. n-1 all completed normally (n is unknown)."""

    def trial(self):
        self.rnd = {l: "old" for l, s in self.st.items() if s == "solved"}
        return loops.Summary.trial(self)

    def learn(self):
        """Iterations k and k+1 both completed: adds their conditions, once all invariants they rest on are established."""
        if all(s != "sym" for s in self.st.values()):
            return
        cond = self.projected(self.names())
        if cond is TRUE:
            return
        nxt = subst(cond, {self.k.data: add(self.k, num(1))})
        if nxt in self.pcn:
            return
        if all(self.verify(l) for l, s in self.st.items() if s == "solved"):
            self.pcn = self.pcn + [cond, nxt]
            self.pce = self.pce + [subst(cond, {self.k.data: sub(self.n, num(1))})]

    def solve_num(self, loc, p):
        """Also a step that differs in the last iteration only (min(start + batch, end)): that there is a next iteration
        decides which step it was."""
        if loops.Summary.solve_num(self, loc, p):
            return True
        h, k, kn = self.heads[loc], self.k, self.k.data
        if any(s == "solved" and self.rnd.get(l) != "old" for l, s in self.st.items()):
            return False        # these count from the next trial on
        names = self.names(loc)
        if p.sort == "B" or not isinstance(h, T):
            return False
        cond = self.projected(names)
        if not self.free_of(p, names):
            return False
        ok = None
        for leaf in leaves(p, h):
            d = sub(leaf, h)
            if not self.free_of(d, names | {h.data}):
                continue
            hd0, _ = loops.close_sum(self.m, d, k, self.k0, self.n, self.pcn)
            init = num(self.init(loc))
            hd = lambda t, hd0=hd0: add(init, hd0(t))
            at = lambda t, x: replace(x, {h: hd(t)})
            extra = [at(k, cond), at(k, replace(subst(cond, {kn: add(k, num(1))}), {h: p}))]
            r, _ = smt.prove([c for c in self.pcn + extra if c is not TRUE], eq(at(k, p), hd(add(k, num(1)))), 4000, smt.QUICK[:3])
            if r != "proved":
                continue
            if ok is None:      # the facts rest on the closed forms of the others
                ok = all(self.verify(l) for l, s in self.st.items() if s == "solved")
            if not ok:
                return False
            ex = subst(at(k, p), {kn: sub(self.n, num(1))})
            self.extra[loc] = extra
            self.st[loc] = "solved"
            self.head[loc] = (self.setter(loc, lambda t: loops.pyfix(hd(t))), lambda: loops.pyfix(ex), ("num", hd, ex))
            return True
        return False

    def projected(self, names):
        """What is known of an iteration that completes, apart from the given names."""
        return or_(*[and_(*[c for c in o[3][self.npc:] if self.free_of(c, names)]) for o in self.normal])

    def finish(self):
        self.outs = [o for o in self.outs if o[0] == "normal"]
        conds = self.conds()
        m = self.m
        kn = self.k.data
        body = or_(*conds)
        m.facts.append((self.n, lambda t: subst(body, {kn: num(t)})))
        before = or_(le(self.k, self.k0), subst(body, {kn: sub(self.k, num(1))}))     # the iteration before completed as well
        if before is not TRUE:
            m.obls[self.n0:] = [(o[0], o[1] + [before]) + tuple(o[2:]) for o in m.obls[self.n0:]]
            m.assume(subst(body, {kn: sub(self.n, num(1))}))
        loops.Summary.finish(self)


def leaves(t, h):
    """The values a term with choices that involve h can take."""
    for x in atoms(t).values():
        if x.op in ("min", "max", "ite") and h.data in x.fv:
            return [y for a in x.args[-2:] for y in leaves(replace(t, {x: a}), h)][:8]
    return [t]


def summarise(m, s, env):
    from dv.engine import BreakEx, ContinueEx, Dead
    n = m.sym("iterations", "I")
    m.assume(le(num(0), n))

    def body(k):
        if not m.truth(m.ev(s.test, env)):
            raise BreakEx()
        m.exec_block(s.body, env)
    if m.branch(lt(num(0), n)):
        k0 = 0
        while True:
            try:
                WhileSummary(m, k0, n, body, "loop of line %d" % s.lineno).run()
                break
            except loops.Peel:
                if k0 >= 3:
                    raise Unsupported("no invariant for the loop of line %d" % s.lineno)
                try:
                    body(num(k0))
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Dead()
                k0 += 1
                if not m.branch(lt(num(k0), n)):
                    break
    # the iteration that ends the loop
    if not m.truth(m.ev(s.test, env)):
        m.exec_block(s.orelse, env)
        return
    try:
        m.exec_block(s.body, env)
    except BreakEx:
        return
    except ContinueEx:
        pass
    raise Dead()

"""Execution context: known facts, path exploration by re-execution, forks."""
from . import terms as tm
from .terms import T, TRUE, FALSE, ZERO, Unsupported
from .prover import Prover


class PathLimit(Unsupported):
    pass


class Infeasible(BaseException):
    """The current path contradicts an assumption."""


class Frame:
    def __init__(self):
        self.decisions = []     # [(value, both_feasible)]
        self.pos = 0
        self.conds = []


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.known = {}          # facts about fresh index variables: always valid
        self.frames = []
        self.facts = []          # assumptions of the running path
        self.axioms = {}
        self.unfold = {}
        self.recs = {}
        self.index_vars = []     # (var, n)
        self.mask_n = {}
        self.journal = []        # stack of write logs (symbolic loops)
        self.notes = {}
        self.bounds = {}
        self.obligations = []
        self.prover = Prover(self.axioms, self.unfold)
        self.max_paths = 4000
        self.loop_depth = 0
        self.dead = False
        self.cuts = set()        # loops cut at their head
        self.induct = 0          # loop passes run before the pass considered (per contract)
        self.undo = []           # ends the validity of path axioms
        self.nforks = 0
        self.cut_memo = {}

    # ------------------------------------------------------------ facts
    def know(self, *fs):
        for f in fs:
            f = tm.lift(f)
            if f.op == 'and':
                self.know(*f.args)
            elif f is not TRUE:
                self.known[f] = 1

    def assume(self, f):
        f = tm.lift(f)
        if f.sort != 'B':
            f = tm.bnot(tm.eq(f, ZERO))
        if f.op == 'and':
            for x in f.args:
                self.assume(x)
            return
        if f is TRUE:
            return
        if f is FALSE:
            raise Infeasible()
        self.facts.append(f)

    def pc(self):
        return [c for fr in self.frames for c in fr.conds]

    def all_facts(self, goal=None):
        fs = self.facts + self.pc()
        # known facts are about fresh variables: keep those that can matter
        subs = set()
        for f in fs:
            tm.subterms(f, subs)
        if goal is not None:
            tm.subterms(goal, subs)
        out = list(fs)
        grew = True
        rest = list(self.known)
        while grew:
            grew = False
            nxt = []
            for f in rest:
                vs = [x for x in tm.subterms(f) if x.op == 'v' and x is not tm.PI]
                if vs and any(v in subs for v in vs if '!' in v.args[0]) or not vs:
                    out.append(f)
                    n0 = len(subs)
                    tm.subterms(f, subs)
                    grew = grew or len(subs) != n0
                else:
                    nxt.append(f)
            rest = nxt
        return out

    def ranked(self, b):
        """Is b: the rank of a selected index is less than the number of those selected?"""
        c, d = tm._lin(b.args[0])
        if c != 1 or len(d) != 2:
            return False
        r = [x for x, q in d.items() if q == 1 and x.op == 'f' and x.args[0] == 'rank']
        n = [x for x, q in d.items() if q == -1 and x.op == 'f' and x.args[0] == 'count']
        if not r or not n or r[0].args[1] is not n[0].args[1]:
            return False
        m = tm.lam_apply(r[0].args[1], r[0].args[2])
        return m.sort == 'B' and self.simp(m) is TRUE

    def simp(self, b):
        """Cheap simplification of a boolean by facts known verbatim."""
        if isinstance(b, bool):
            return TRUE if b else FALSE
        if b.op in ('true', 'false'):
            return b
        if b.op == 'and':
            return tm.band(*[self.simp(x) for x in b.args])
        if b.op == 'or':
            return tm.bor(*[self.simp(x) for x in b.args])
        if b in self.known:
            return TRUE
        if b.op == 'le' and self.ranked(b):
            return TRUE
        n = tm.bnot(b)
        if n in self.known:
            return FALSE
        for f in self.facts:
            if f is b:
                return TRUE
            if f is n:
                return FALSE
        for fr in self.frames:
            for f in fr.conds:
                if f is b:
                    return TRUE
                if f is n:
                    return FALSE
        r = self._int_simp(b)
        return r if r is not None else b

    def _int_simp(self, b):
        """le(d): d <= 0 follows from a single known  e <= 0  with d - e a constant <= 0."""
        if b.op != 'le':
            return None
        c, d = tm._lin(b.args[0])
        for f in self.known:
            if f.op == 'le':
                c2, d2 = tm._lin(f.args[0])
                if d2 == d and c <= c2:
                    return TRUE
                if len(d2) == len(d) and all(d2.get(x) == -q for x, q in d.items()):
                    # f: -D + c2 <= 0, so D >= c2; b: D + c <= 0 needs D <= -c
                    if c2 > -c:
                        return FALSE
        return None

    def implied(self, b, timeout=400):
        b = self.simp(tm.lift(b))
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return self.prover.implied(self.all_facts(b), b, timeout)

    # ------------------------------------------------------------ forks
    def fork(self, b):
        b = self.simp(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if not self.frames:
            raise Unsupported('branch outside a path')
        fr = self.frames[-1]
        self.nforks += 1
        if fr.pos < len(fr.decisions):
            v, _ = fr.decisions[fr.pos]
        else:
            fs = self.all_facts(b)
            if not self.prover.feasible(fs + [tm.bnot(b)]):
                v, alt = True, False
            elif not self.prover.feasible(fs + [b]):
                v, alt = False, False
            else:
                v, alt = True, True
            fr.decisions.append((v, alt))
        fr.pos += 1
        c = b if v else tm.bnot(b)
        if c.op == 'and':
            fr.conds.extend(c.args)
        else:
            fr.conds.append(c)
        return v

    def path_axiom(self, name, f):
        """An axiom about the function `name` that holds on the running path."""
        l = self.axioms.setdefault(name, [])
        l.append(f)
        stamp = self.prover.stamp
        self.prover.stamp = _next()

        def end():
            l.remove(f)
            self.prover.stamp = stamp
        self.undo.append(end)

    def end_path(self):
        while self.undo:
            self.undo.pop()()

    def explore(self, run, before=None, limit=None):
        """Run `run()` once per feasible path; yields (conds, result)."""
        limit = limit or self.max_paths
        decisions = []
        n = 0
        while True:
            n += 1
            if n > limit:
                raise PathLimit('more than %d paths' % limit)
            fr = Frame()
            fr.decisions = decisions
            self.frames.append(fr)
            nf = len(self.facts)
            depth = len(self.frames)
            nj = len(self.journal)
            try:
                if before:
                    before()
                try:
                    res = ('ok', run())
                except Infeasible:
                    res = ('dead', None)
            finally:
                del self.frames[depth - 1:]
                del self.journal[nj:]
                facts = self.facts[nf:]
                del self.facts[nf:]
            yield list(fr.conds), res, facts
            decisions = fr.decisions[:fr.pos]
            while decisions and not (decisions[-1][1] and decisions[-1][0] is True):
                decisions.pop()
            if not decisions:
                return
            decisions[-1] = (False, False)


CTX = Ctx()
tm._forker[0] = lambda b: CTX.fork(b)


def axiom(name):
    def deco(f):
        CTX.axioms.setdefault(name, []).append(f)
        return f
    return deco


def index_var(prefix, n):
    """A fresh integer variable ranging over 0..n-1."""
    n = tm.lift(n)
    k = tm.var('%s!%d' % (prefix, _next()), 'I', nn=True)
    CTX.know(tm.lt(k, n), tm.le(tm.ONE, n))
    CTX.index_vars.append((k, n))
    return k


def _next():
    tm._fresh[0] += 1
    return tm._fresh[0]


# sums evaluate their body at a fresh index that is known to be in range
def tsum(n, f):
    n = tm.lift(n)
    if tm.isc(n):
        return tm.addn([f(tm.const(k)) for k in range(int(tm.cval(n)))])
    k = index_var('s', n)
    return sumterm(n, tm.lift(f(k)), k)


def sumterm(n, body, k):
    n = tm.lift(n)
    # sum_{k<m+c} = sum_{k<m} + body(m) + ... for a positive integer constant c
    if n.op == '+' and n.args[0] >= 1 and n.args[0].denominator == 1 and n.args[0] <= 4:
        c = int(n.args[0])
        m = tm.add(n, tm.const(-c))
        parts = [tm.sumterm(m, body, k)]
        for j in range(c):
            parts.append(tm.subst(body, {k: tm.add(m, tm.const(j))}))
        return tm.addn(parts)
    if tm.isc(n):
        return tm.addn([tm.subst(body, {k: tm.const(j)}) for j in range(int(tm.cval(n)))])
    return tm.sumterm(n, body, k)


def lam(ns, f):
    vs = [index_var('l', n) for n in ns]
    body = tm.lift(f(*vs))
    b, d = tm.bind(body, vs)
    return tm._mk('lam', (len(ns), b), 'L', d)

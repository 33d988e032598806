"""Discharges verification conditions over terms.

Order of attack for  facts |- goal :
  1. term identity (hash-consing);
  2. polynomial normal form over the reals with function applications as
     atoms, clearing denominators, sqrt(x)^2 = x, sin^2 = 1 - cos^2;
  3. congruence (prove the arguments of equal-headed atoms equal, merge);
  4. case analysis on the conditions of if-then-else terms;
  5. definitional unfolding of recurrences introduced by loop summaries;
  6. z3 (QF_UFNIRA), after instantiating the registered axiom schemas.
A goal that no step settles is 'unknown' (never 'valid').
"""
import os
import resource
import select
import signal
import time
import warnings
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE

STATS = {'hash': 0, 'poly': 0, 'z3': 0, 'z3_time': 0.0, 'queries': 0, 'time': 0.0, 'unfold': 0}
LIMIT = 60000
DEBUG = False
SWEEP = {'atan2', 'linsolve', 'interp'}


class TooBig(Exception):
    pass


_FV = {}


def fv(t):
    """Variables occurring in t."""
    r = _FV.get(t)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _FV:
                st.pop()
                continue
            ks = tm.kids(x)
            todo = [k for k in ks if k not in _FV]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            if x.op == 'v':
                _FV[x] = frozenset((x,))
            elif not ks:
                _FV[x] = frozenset()
            else:
                big = max((_FV[k] for k in ks), key=len)
                _FV[x] = big if all(_FV[k] <= big for k in ks) else frozenset().union(*[_FV[k] for k in ks])
        r = _FV[t]
    return r


def unbound(ts, n=1):
    """n index variables that occur in none of the terms, always the same for the same terms."""
    used = set()
    for t in ts:
        used |= fv(t)
    out = []
    k = 0
    while len(out) < n:
        v = tm.var('b~!%d' % k, 'I')
        if v not in used:
            out.append(v)
        k += 1
    return out


_PROBE = {}


def probe(t):
    if t not in _PROBE:
        _PROBE[t] = tm.probe(t)
    return _PROBE[t]


# ------------------------------------------------------------------ polys
class Poly:
    """Expansion to a polynomial over atoms; a fresh instance per proof."""

    def __init__(self, opaque=()):
        self.memo = {}
        self.cmemo = {}
        self.opaque = set(opaque)
        self.atoms = {}

    def expand(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._expand(t)
            self.memo[t] = r
        return r

    def _expand(self, t):
        o = t.op
        if o == 'c':
            return {(): t.args[0]} if t.args[0] else {}
        if o == '+':
            if t in self.opaque:
                return self.atom(t)
            out = {}
            if t.args[0]:
                out[()] = t.args[0]
            for x, q in t.args[1]:
                for m, c in self.expand(x).items():
                    n = out.get(m, 0) + c * q
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
            if len(out) > LIMIT:
                raise TooBig()
            return out
        if o == '*':
            out = {(): Fraction(1)}
            for x, e in t.args:
                if e > 0 and e.denominator == 1 and x.op == '+' and x not in self.opaque:
                    p = self.expand(x)
                    for _ in range(int(e)):
                        out = self.pmul(out, p)
                else:
                    out = self.pmul(out, self.atompow(x, e))
            return out
        return self.atom(t)

    def atompow(self, x, e):
        if x.op == 'c':
            b = x
        else:
            b = self.canon(x) if x not in self.opaque else x
        # canonicalising may expose content / a product
        r = tm.ipow(b, int(e)) if e.denominator == 1 else (
            tm.ipow(tm.sqrt(b), int(2 * e)) if e.denominator == 2 else tm.fn('pow', b, tm.const(e)))
        return self.raw(r)

    def raw(self, r):
        """canonical term -> monomial(s) without re-canonicalising the atoms."""
        if r.op == 'c':
            return {(): r.args[0]} if r.args[0] else {}
        if r.op == '+':
            out = {}
            if r.args[0]:
                out[()] = r.args[0]
            for x, q in r.args[1]:
                for m, c in self.raw(x).items():
                    n = out.get(m, 0) + c * q
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
            return out
        if r.op == '*':
            d = {}
            out = {(): Fraction(1)}
            for x, e in r.args:
                if e > 0 and e.denominator == 1 and x.op == '+' and x not in self.opaque:
                    p = self.raw(x)
                    for _ in range(int(e)):
                        out = self.pmul(out, p)
                else:
                    d[x] = e
            m = []
            for x, e in d.items():
                self.atoms[x.id] = x
                m.append((x.id, e))
            return self.pmul(out, {tuple(sorted(m)): Fraction(1)})
        self.atoms[r.id] = r
        return {((r.id, Fraction(1)),): Fraction(1)}

    def atom(self, t):
        c = t if t in self.opaque else self.canon(t)
        if c is not t and c.op in ('+', '*', 'c'):
            return self.raw(c)
        self.atoms[c.id] = c
        return {((c.id, Fraction(1)),): Fraction(1)}

    def canon(self, t):
        """t with every argument replaced by its expanded form."""
        r = self.cmemo.get(t)
        if r is None:
            o = t.op
            if o in ('c', 'v', 'true', 'false'):
                r = t
            elif o in ('+', '*'):
                r = self.back(self.frac(self.trig(self.expand(t))))
            elif o in ('sum', 'lam'):
                r = tm._subst_binder(t, lambda x: self.canon(x))
            else:
                r = tm.rebuild(t, [self.canon(x) for x in tm.kids(t)])
            self.cmemo[t] = r
            self.cmemo.setdefault(r, r)
        return r

    def back(self, p):
        return tm.addn([tm.scale(c, tm._mkprod({self.atoms[i]: e for i, e in m})) for m, c in p.items()])

    def pmul(self, a, b):
        if len(a) * len(b) > 4 * LIMIT:
            raise TooBig()
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                for m, c in self.mmul(m1, m2):
                    n = out.get(m, 0) + c * c1 * c2
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
        if len(out) > LIMIT:
            raise TooBig()
        return out

    def mmul(self, m1, m2):
        if not m1:
            return [(m2, Fraction(1))]
        if not m2:
            return [(m1, Fraction(1))]
        d = dict(m1)
        for i, e in m2:
            n = d.get(i, 0) + e
            if n:
                d[i] = n
            else:
                del d[i]
        return self.mnorm(d)

    def mnorm(self, d):
        c = Fraction(1)
        sub = None
        for i, e in list(d.items()):
            x = self.atoms[i]
            if x.op == 'c' and (e >= 1 or e < 0):
                fl = e.numerator // e.denominator
                c *= x.args[0] ** fl
                if e - fl:
                    d[i] = e - fl
                else:
                    del d[i]
            elif x.op == 'f' and x.args[0] == 'abs' and e.denominator == 1 and abs(e) >= 2:
                k = int(e) - (int(e) % 2)
                d[i] = e - k
                if not d[i]:
                    del d[i]
                y = x.args[1]
                sub = self.pmul(sub or {(): Fraction(1)}, self.raw(tm.ipow(y, k)))
            elif x.op in ('+',) and e.denominator != 1 and e > 1 and x not in self.opaque:
                k = e.numerator // e.denominator
                d[i] = e - k
                p = self.raw(x)
                for _ in range(k):
                    sub = self.pmul(sub or {(): Fraction(1)}, p)
            elif x.op == '+' and e.denominator == 1 and e > 0 and x not in self.opaque:
                del d[i]
                p = self.raw(x)
                for _ in range(int(e)):
                    sub = self.pmul(sub or {(): Fraction(1)}, p)
            elif x.op == '*' and abs(e) >= 1:
                # sqrt of a product squared
                fl = e.numerator // e.denominator
                rest = e - fl
                if rest:
                    d[i] = rest
                else:
                    del d[i]
                sub = self.pmul(sub or {(): Fraction(1)}, self.raw(tm.ipow(x, int(fl))))
        m = tuple(sorted(d.items()))
        if sub is None:
            return [(m, c)]
        return [(mm, cc) for mm, cc in self.pmul({m: c}, sub).items()]

    def trig(self, p):
        """sin(x)^k -> (1 - cos(x)^2)^(k//2) sin(x)^(k%2)."""
        out = {}
        changed = False
        for m, c in p.items():
            hit = None
            for i, e in m:
                x = self.atoms[i]
                if x.op == 'f' and x.args[0] == 'sin' and e >= 2 and e.denominator == 1:
                    hit = (i, e, x)
                    break
            if hit is None:
                n = out.get(m, 0) + c
                if n:
                    out[m] = n
                else:
                    out.pop(m, None)
                continue
            changed = True
            i, e, x = hit
            d = dict(m)
            d[i] = e - 2
            if not d[i]:
                del d[i]
            cs = self.raw(tm.cos(x.args[1]))
            q = self.pmul({tuple(sorted(d.items())): c}, {(): Fraction(1)})
            q2 = self.pmul(self.pmul(q, cs), cs)
            for mm, cc in list(q.items()) + [(a, -b) for a, b in q2.items()]:
                n = out.get(mm, 0) + cc
                if n:
                    out[mm] = n
                else:
                    out.pop(mm, None)
        return self.trig(out) if changed else out

    def frac(self, p):
        """Cancel P * D^-n -> (P/D) * D^(1-n) where the sum D divides P exactly."""
        if len(p) < 2 or len(p) > 400:
            return p
        for _ in range(8):
            cand = {}
            for m in p:
                for i, e in m:
                    if e <= -1 and self.atoms[i].op == '+':
                        cand.setdefault((i, e), []).append(m)
            done = True
            for (i, e), ms in cand.items():
                D = self.raw(self.atoms[i])
                if len(ms) < len(D):
                    continue
                P = {}
                for m in ms:
                    P[tuple((j, x) for j, x in m if j != i)] = p[m]
                Q = self.divide(P, D)
                if Q is None:
                    continue
                out = {m: c for m, c in p.items() if m not in set(ms)}
                f = ((i, e + 1),) if e + 1 else ()
                for m, c in Q.items():
                    for mm, cc in self.mmul(m, f):
                        n = out.get(mm, 0) + c * cc
                        if n:
                            out[mm] = n
                        else:
                            out.pop(mm, None)
                p = out
                done = False
                break
            if done:
                return p
        return p

    def divide(self, P, D):
        """P / D if exact (in the sin^2-free normal form), else None."""
        ids = sorted({i for m in D for i, _ in m})

        def key(m):
            d = dict(m)
            return tuple(d.get(i, 0) for i in ids), m
        lead = max(D, key=lambda m: key(m)[0])
        ld = dict(lead)
        P = dict(P)
        Q = {}
        for _ in range(3 * len(P) + 3):
            if not P:
                return Q
            m = max(P, key=key)
            d = dict(m)
            for i, e in ld.items():
                n = d.get(i, 0) - e
                if n < 0:
                    return None
                if n:
                    d[i] = n
                else:
                    d.pop(i, None)
            q = tuple(sorted(d.items()))
            c = P[m] / D[lead]
            Q[q] = Q.get(q, 0) + c
            for dm, dc in D.items():
                for mm, cc in self.mmul(q, dm):
                    n = P.get(mm, 0) - c * dc * cc
                    if n:
                        P[mm] = n
                    else:
                        P.pop(mm, None)
            if len(P) > 2000:
                return None
        return None

    def clear(self, p):
        """Multiply by every negative power until none is left (<= 12 rounds)."""
        for _ in range(12):
            worst = {}
            for m in p:
                for i, e in m:
                    if e < 0:
                        worst[i] = min(worst.get(i, 0), e)
            if not worst:
                return p
            f = {tuple(sorted((i, -e) for i, e in worst.items())): Fraction(1)}
            out = {}
            fm = list(f)[0]
            for m, c in p.items():
                for mm, cc in self.mmul(m, fm):
                    n = out.get(mm, 0) + c * cc
                    if n:
                        out[mm] = n
                    else:
                        out.pop(mm, None)
                if len(out) > LIMIT:
                    raise TooBig()
            p = out
        return p


def poly_zero(d, deadline):
    if d is ZERO:
        return True, None
    pl = Poly()
    try:
        p = pl.expand(d)
        if not p:
            return True, None
        p = pl.trig(p)
        if not p:
            return True, None
        p = pl.clear(p)
        p = pl.trig(p)
        if not p:
            return True, None
        return False, (pl, p)
    except TooBig:
        return False, None
    except RecursionError:
        return False, None


# ------------------------------------------------------------------ z3
class Z3Enc:
    def __init__(self, ctx=None, relax=False):
        self.memo = {}
        self.side = []
        self.fs = {}
        self.relax = relax          # integers as reals: fewer facts, decidable products

    def toreal(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def num(self, k):
        return z3.RealVal(k) if self.relax else z3.IntVal(k)

    def enc(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._enc(t)
            self.memo[t] = r
        return r

    def opaque(self, t):
        nm = 'o%d' % t.id
        return z3.Int(nm) if tm.is_int(t) and not self.relax else z3.Real(nm)

    def _enc(self, t):
        o = t.op
        if o == 'c':
            q = t.args[0]
            return z3.IntVal(int(q)) if q.denominator == 1 and not self.relax else z3.RealVal(str(q))
        if o == 'v':
            if t.sort == 'I' and not self.relax:
                v = z3.Int(t.args[0])
                if t.nn:
                    self.side.append(v >= 0)
                return v
            if t.sort == 'B':
                return z3.Bool(t.args[0])
            v = z3.Real(t.args[0])
            if t is tm.PI:
                self.side.append(v > z3.RealVal('3.14159265358979'))
                self.side.append(v < z3.RealVal('3.14159265358980'))
            elif t in tm.POS:
                self.side.append(v > 0)
            elif t.nn:
                self.side.append(v >= 0)
            return v
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == '+':
            c, es = t.args
            parts = [self.enc(x) for x, _ in es]
            if c.denominator == 1 and all(q.denominator == 1 for _, q in es) and all(z3.is_int(p) for p in parts):
                return z3.Sum([z3.IntVal(int(c))] + [int(q) * p for p, (_, q) in zip(parts, es)])
            return z3.Sum([z3.RealVal(str(c))] + [z3.RealVal(str(q)) * self.toreal(p) for p, (_, q) in zip(parts, es)])
        if o == '*':
            r = None
            for x, e in t.args:
                f = self.pw(x, e)
                r = f if r is None else (r * f if z3.is_int(r) == z3.is_int(f) else self.toreal(r) * self.toreal(f))
            return r
        if o == 'lt':
            return self.enc(t.args[0]) < 0
        if o == 'le':
            return self.enc(t.args[0]) <= 0
        if o == 'eq':
            return self.enc(t.args[0]) == 0
        if o == 'and':
            return z3.And([self.enc(x) for x in t.args])
        if o == 'or':
            return z3.Or([self.enc(x) for x in t.args])
        if o == 'not':
            return z3.Not(self.enc(t.args[0]))
        if o == 'ite':
            a, b = self.enc(t.args[1]), self.enc(t.args[2])
            if z3.is_int(a) != z3.is_int(b):
                a, b = self.toreal(a), self.toreal(b)
            return z3.If(self.enc(t.args[0]), a, b)
        if o == 'f' and t.args[0] == 'abs':
            a = self.enc(t.args[1])
            return z3.If(a >= 0, a, -a)
        if o == 'f' and t.args[0] == 'sign':
            a = self.enc(t.args[1])
            return z3.If(a > 0, self.num(1), z3.If(a < 0, self.num(-1), self.num(0)))
        if o == 'f' and t.args[0] == 'floor' and self.relax:
            a = self.enc(t.args[1])
            v = self.opaque(t)
            self.side.append(z3.And(v <= a, v > a - 1))
            return v
        if o == 'f' and t.args[0] == 'mod' and tm.is_int(t):
            a, b = self.enc(t.args[1]), self.enc(t.args[2])
            if z3.is_int(a) and z3.is_int(b):
                return a % b
        if o == 'f' and t.args[0] == 'floor':
            return z3.ToInt(self.toreal(self.enc(t.args[1])))
        if o in ('f', 'p'):
            if any(k.sort == 'L' for k in t.args[1:]):
                if o == 'p':
                    return z3.Bool('o%d' % t.id)
                v = self.opaque(t)
                if t.nn:
                    self.side.append(v >= 0)
                return v
            a = [self.enc(k) for k in t.args[1:]]
            key = (t.args[0], tuple(z3.is_int(x) for x in a), tuple(z3.is_bool(x) for x in a), o)
            f = self.fs.get(key)
            if f is None:
                dom = [z3.BoolSort() if z3.is_bool(x) else z3.IntSort() if z3.is_int(x) else z3.RealSort() for x in a]
                ran = z3.BoolSort() if o == 'p' else z3.IntSort() if tm.is_int(t) and not self.relax else z3.RealSort()
                f = z3.Function('%s/%d' % (t.args[0], len(self.fs)), *(dom + [ran]))
                self.fs[key] = f
            v = f(*a)
            n = t.args[0]
            if o == 'f':
                if t.nn:
                    self.side.append(v >= 0)
                if n in ('sin', 'cos', 'tanh'):
                    self.side.append(z3.And(v >= -1, v <= 1))
                if n == 'sin' or n == 'cos':
                    other = tm.cos(t.args[1]) if n == 'sin' else tm.sin(t.args[1])
                    if other.op == 'f' and other not in self.memo:
                        self.memo[t] = v
                        w = self.enc(other)
                        self.side.append(v * v + w * w == 1)
                if n == 'exp':
                    self.side.append(v > 0)
                    self.side.append((v >= 1) == (a[0] >= 0))
                if n == 'acos':
                    self.side.append(v <= self.enc(tm.PI))
                if n == 'atan':
                    pi = self.enc(tm.PI)
                    self.side.append(z3.And(2 * v < pi, 2 * v > -pi))
                    self.side.append((v > 0) == (a[0] > 0))
                    self.side.append((v < 0) == (a[0] < 0))
                if n == 'atan2':
                    pi = self.enc(tm.PI)
                    self.side.append(z3.And(v <= pi, v >= -pi))
                    self.side.append(z3.Implies(z3.And(a[0] > 0), v > 0))
                    self.side.append(z3.Implies(z3.And(a[0] < 0), v < 0))
                    self.side.append(z3.Implies(z3.And(a[0] == 0, a[1] > 0), v == 0))
            return v
        if o == 'sum':
            v = self.opaque(t)
            if t.nn:
                self.side.append(v >= 0)
            return v
        if o == 'lam':
            return z3.Real('o%d' % t.id)
        raise tm.Unsupported('z3: ' + o)

    def pw(self, x, e):
        if e.denominator == 1 and e > 0:
            b = self.enc(x)
            r = b
            for _ in range(int(e) - 1):
                r = r * b
            return r
        if e.denominator == 1:
            nm = 'inv%d' % x.id
            v = z3.Real(nm)
            if ('inv', x) not in self.memo:
                self.memo[('inv', x)] = v
                b = self.toreal(self.enc(x))
                self.side.append(v * b == 1)
                if tm.is_int(x) or x.nn:
                    self.side.append(z3.And(v > 0) if x.nn else z3.BoolVal(True))
            r = v
            for _ in range(-int(e) - 1):
                r = r * v
            return r
        # half-integer powers
        nm = 'sq%d' % x.id
        s = z3.Real(nm)
        if ('sq', x) not in self.memo:
            self.memo[('sq', x)] = s
            b = self.toreal(self.enc(x))
            self.side.append(s >= 0)
            self.side.append(s * s == b)
        if e.denominator == 2:
            k = int(2 * e)
            if k > 0:
                r = s
                for _ in range(k - 1):
                    r = r * s
                return r
            v = z3.Real('isq%d' % x.id)
            self.side.append(v * s == 1)
            self.side.append(v > 0)
            r = v
            for _ in range(-k - 1):
                r = r * v
            return r
        return z3.Real('pw%d_%s' % (x.id, e))


def z3_check(facts, goal, timeout_ms, relax=False):
    """'valid' | 'sat' | 'unknown' for facts |- goal (goal a boolean term).

    z3 does not always heed its own time limit, so it runs in a child that is stopped when the time is up."""
    t0 = time.time()
    r = 'unknown'
    try:
        enc = Z3Enc(relax=relax)
        s = z3.Solver()
        fs = [enc.enc(f) for f in facts]
        g = enc.enc(goal)
        for f in fs:
            s.add(f)
        s.add(z3.Not(g))
        for c in enc.side:
            s.add(c)
        r = in_child(s, timeout_ms / 1000.0)
    except (z3.Z3Exception, RecursionError):
        pass
    STATS['z3_time'] += time.time() - t0
    STATS['queries'] += 1
    return r, None


def in_child(s, limit):
    rd, wr = os.pipe()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        pid = os.fork()
    if pid == 0:
        try:
            cpu = int(limit) + 2
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
            r = s.check()
            os.write(wr, b'v' if r == z3.unsat else b's' if r == z3.sat else b'u')
        finally:
            os._exit(0)
    os.close(wr)
    try:
        ready, _, _ = select.select([rd], [], [], limit)
        c = os.read(rd, 1) if ready else b''
    finally:
        os.close(rd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return {b'v': 'valid', b's': 'sat'}.get(c, 'unknown')


# ------------------------------------------------------------------ prover
def positive(x, known):
    """x is a product of factors each known to be positive."""
    q, p = tm.content(x)
    for y, e in tm._powers(p).items():
        if not (y is tm.PI or tm.surely_pos(y, e)):
            f = tm.lt(tm.ZERO, y)
            if not (f is TRUE or f in known):
                return False
    return q > 0


def right_half(facts, goal):
    """atan2(y, x) is atan(y / x) where x is known to be positive."""
    known = set(facts)
    m = {}
    for t in tm.subterms(goal):
        if t.op == 'f' and t.args[0] == 'atan2':
            if positive(t.args[2], known):
                m[t] = tm.atan(tm.div(t.args[1], t.args[2]))
    return tm.subst(goal, m) if m else goal


def halve(facts, goal):
    """Sines and cosines of 2h as those of h, where the goal has both."""
    trig = [x for x in tm.subterms(goal) if x.op == 'f' and x.args[0] in ('sin', 'cos')]
    args = {x.args[1] for x in trig}
    if len(args) < 2:
        return facts, goal
    canon = Poly().canon
    try:
        known = {canon(a): a for a in args}
        m = {}
        for x in trig:
            h = known.get(canon(tm.scale(Fraction(1, 2), x.args[1])))
            if h is not None:
                m[x] = (tm.add(ONE, tm.scale(-2, tm.ipow(tm.sin(h), 2))) if x.args[0] == 'cos'
                        else tm.scale(2, tm.mul(tm.sin(h), tm.cos(h))))
    except TooBig:
        return facts, goal
    if not m:
        return facts, goal
    return [tm.subst(f, m) for f in facts], tm.subst(goal, m)


class Prover:
    def __init__(self, axioms=None, unfold=None, time_limit=20.0, z3_ms=4000):
        self.axioms = axioms if axioms is not None else {}
        self.unfolders = unfold if unfold is not None else {}
        self.time_limit = time_limit
        self.z3_ms = z3_ms
        self.deadline = 0
        self.feas_cache = {}
        self.stamp = 0         # identifies axioms valid on the running path only
        self.proved = {}
        self.by = None

    # -- axiom instances -------------------------------------------------
    def instances(self, ts, rounds=3):
        out = {}
        seen = set()
        frontier = list(ts)
        for _ in range(rounds):
            subs = set()
            for t in frontier:
                tm.subterms(t, subs)
            new = []
            for x in subs:
                if x in seen:
                    continue
                seen.add(x)
                if x.op in ('f', 'p') and x.args[0] in self.axioms:
                    if any(self._openbv(k) for k in x.args[1:] if k.sort != 'L'):
                        continue
                    for ax in self.axioms[x.args[0]]:
                        for f in ax(*x.args[1:]):
                            f = tm.lift(f)
                            if f not in out and f is not TRUE:
                                out[f] = 1
                                new.append(f)
            if not new:
                break
            frontier = new
        return list(out)

    def _openbv(self, t):
        return bool(tm.free_bvars(t))

    def prune(self, facts, goal):
        """Facts sharing a variable/function with the goal (transitively)."""
        def syms(t):
            return frozenset(x for x in tm.subterms(t)
                             if x.op == 'v' and x is not tm.PI or x.op in ('sum',))
        fs = [(f, syms(f)) for f in facts]
        want = set(syms(goal))
        keep = []
        rest = fs
        for _ in range(3):
            nxt = []
            grew = False
            for f, s in rest:
                if not s or s & want:
                    keep.append(f)
                    if not s <= want:
                        want |= s
                        grew = True
                else:
                    nxt.append((f, s))
            rest = nxt
            if not grew:
                break
        return keep

    def feasible(self, facts, timeout=500):
        """False only if the facts are contradictory."""
        fs = [f for f in facts if f is not TRUE]
        if any(f is FALSE for f in fs):
            return False
        s = set(fs)
        for f in fs:
            if tm.bnot(f) in s:
                return False
        key = (self.stamp, frozenset(f.id for f in fs))
        r = self.feas_cache.get(key)
        if r is None:
            inst = self.instances(fs)
            st, _ = z3_check(fs + inst, FALSE, timeout)
            r = st != 'valid'
            self.feas_cache[key] = r
        return r

    def implied(self, facts, b, timeout=400):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        s = set(facts)
        if b in s:
            return True
        if tm.bnot(b) in s:
            return False
        key = ('imp', self.stamp, b.id, frozenset(f.id for f in facts))
        r = self.feas_cache.get(key)
        if r is None:
            fs = self.prune(facts, b)
            inst = self.instances(fs + [b])
            st, _ = z3_check(fs + inst, b, timeout)
            r = st == 'valid'
            self.feas_cache[key] = r
        return r

    # -- entry -----------------------------------------------------------
    def prove(self, facts, goal):
        """True if facts |- goal was established."""
        t0 = time.time()
        self.deadline = t0 + self.time_limit
        self.by = 'hash'
        try:
            facts, goal = [f for f in map(tm.lift, facts) if f is not TRUE], tm.lift(goal)
            facts, goal = halve(facts, goal)
            r = self._prove(facts, right_half(facts, goal), 0)
        except RecursionError:
            r = False
        STATS['time'] += time.time() - t0
        if r:
            STATS[self.by] = STATS.get(self.by, 0) + 1
        return r

    def _rank(self, by):
        order = ['hash', 'poly', 'cases', 'unfold', 'z3']
        if order.index(by) > order.index(self.by):
            self.by = by

    def _prove(self, facts, goal, depth):
        if goal is TRUE:
            return True
        if any(f is FALSE for f in facts):
            return True
        if goal in set(facts):
            return True
        if time.time() > self.deadline:
            return False
        if goal.op == 'and':
            return all(self._prove(facts, g, depth) for g in goal.args)
        if goal.op == 'eq':
            if self._eq0(facts, goal.args[0], depth):
                return True
        if goal.op == 'or':
            # assume the negation of all but one disjunct
            parts = list(goal.args)
            for k, g in enumerate(parts):
                others = [tm.bnot(x) for j, x in enumerate(parts) if j != k]
                if g.op in ('eq',) and depth < 3:
                    if self._prove(facts + others, g, depth + 1):
                        return True
        if goal.op in ('le', 'lt', 'p', 'not', 'or', 'eq', 'v', 'false') or goal.op == 'ite':
            return self._smt(facts, goal, depth)
        return False

    def _smt(self, facts, goal, depth):
        if time.time() > self.deadline:
            return False
        g = goal
        pl = Poly()
        try:
            if goal.op in ('le', 'lt', 'eq'):
                c = pl.canon(goal.args[0])
                g = {'le': tm.le_, 'lt': lambda x: tm.lt(x, ZERO), 'eq': lambda x: tm.eq(x, ZERO)}[goal.op](c)
                if g is TRUE:
                    self._rank('poly')
                    return True
        except (TooBig, RecursionError):
            g = goal
        ms = self.z3_ms
        if goal.op == 'eq':
            v = probe(goal.args[0])
            if v is not None and abs(v) > 1e-6:
                ms = min(ms, 300)       # most likely false: do not spend long on it
        for goal2 in ([goal, g] if g is not goal else [goal]):
            fs = self.prune(facts, goal2)
            inst = self.instances(fs + [goal2])
            st, _ = z3_check(fs + inst, goal2, min(ms, max(100, (self.deadline - time.time()) * 1000)))
            if st == 'unknown' and goal.op != 'eq':
                st, _ = z3_check(fs + inst, goal2, min(ms, 1500, max(100, (self.deadline - time.time()) * 1000)), relax=True)
                st = 'unknown' if st == 'sat' else st
            if st == 'valid':
                self._rank('z3')
                return True
        # unfold recurrences and retry
        u = self._unfold(goal, facts)
        if u is not goal and depth < 3:
            self._rank('unfold')
            return self._prove(facts, u, depth + 1)
        # case split on ite conditions
        if depth < 12:
            c = self._pick(goal)
            if c is not None:
                return self._split(facts, goal, c, depth)
        return False

    # -- equality --------------------------------------------------------
    def _eq0(self, facts, d, depth):
        if d is ZERO:
            return True
        if time.time() > self.deadline:
            return False
        d = self._simplify_conds(facts, d)
        if d is ZERO:
            self._rank('poly')
            return True
        if depth < 3:
            d2 = self._sweep(facts, d, depth)
            if d2 is ZERO:
                self._rank('poly')
                return True
            d = d2
        g = self._generalise(d)
        if g is not d and poly_zero(g, min(self.deadline, time.time() + 5))[0]:
            self._rank('poly')
            return True
        ok, info = poly_zero(d, self.deadline)
        if ok:
            self._rank('poly')
            return True
        if depth < 40:
            c = self._pick(d)
            if c is not None:
                return self._split(facts, tm.eq(d, ZERO), c, depth)
        if info is not None and depth < 6:
            pl, p = info
            dd = pl.back(p)
            m = self._congruence(facts, dd, depth)
            if m is not None:
                self._rank('poly')
                return self._eq0(facts, m, depth + 1)
        # equalities among the facts usable as rewrites: v = expr
        if depth < 8:
            r = self._rewrite_by_facts(facts, d)
            if r is not None:
                return self._eq0(facts, r, depth + 1)
        u = self._unfold(d, facts)
        if u is not d and depth < 8:
            self._rank('unfold')
            return self._eq0(facts, u, depth + 1)
        return False

    def _sweep(self, facts, d, depth):
        """Bottom-up: prove look-alike sums and function values equal, and merge them."""
        xs = [x for x in tm.subterms(d) if (x.op == 'sum' or x.op == 'f' and x.args[0] in SWEEP) and not self._openbv(x)]
        if len(xs) < 2:
            return d
        xs.sort(key=lambda x: (tm.size(x), x.id))
        m = {}
        reps = {}
        for x in xs:
            y = tm.subst(x, m) if m else x
            if y.op != x.op or y.op == 'f' and y.args[0] != x.args[0]:
                continue
            v = probe(y)
            if v is None:
                continue
            l = reps.setdefault((self._head(y, 1), round(abs(v), 6)), [])
            hit = None
            for z, w in l:
                if z is y:
                    hit = z
                    break
                if time.time() > self.deadline:
                    continue
                if v * w >= 0:
                    if self._same(facts, z, y, depth):
                        hit = z
                        break
                elif y.op == 'sum' and z.args[1] is y.args[1]:
                    k, = unbound((y, z))
                    if self._sub(facts, tm.eq(tm.add(tm.sum_open(z, k), tm.sum_open(y, k)), ZERO), (k,),
                                 [tm.le(ZERO, k), tm.lt(k, y.args[1])]):
                        hit = tm.neg(z)
                        break
            if hit is None:
                l.append((y, v))
            elif hit is not x:
                m[x] = hit
        return tm.subst(d, m) if m else d

    def _generalise(self, d):
        """d with its outermost sums replaced by variables (a stronger claim)."""
        m = {}
        seen = set()
        st = [d]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sum':
                if not self._openbv(x):
                    m[x] = tm.var('g!%d' % x.id, x.sort)
            elif x.op not in ('lam',):
                st.extend(tm.kids(x))
        return tm.subst(d, m) if m else d

    def _rewrite_by_facts(self, facts, d):
        subs = tm.subterms(d)
        for f in facts:
            if f.op != 'eq':
                continue
            c, es = tm._lin(f.args[0])
            for x, q in es.items():
                if x.op in ('v', 'f') and x in subs and x is not tm.PI:
                    rhs = tm.scale(-1 / q, tm.add(f.args[0], tm.scale(-q, x)))
                    if tm.occurs(rhs, x):
                        continue
                    # orient: only rewrite towards older / smaller terms
                    if any(y.id > x.id for y in es if y is not x) and x.op != 'v':
                        continue
                    r = tm.subst(d, {x: rhs})
                    if r is not d:
                        return r
        return None

    def _unfold(self, d, facts):
        if not self.unfolders:
            return d
        m = {}
        for x in tm.subterms(d):
            if x.op == 'f' and x.args[0] in self.unfolders and not any(
                    self._openbv(k) for k in x.args[1:]):
                r = self.unfolders[x.args[0]](self, facts, *x.args[1:])
                if r is not None and r is not x:
                    m[x] = r
        if not m:
            return d
        # unfold the applications that are not nested in another one
        return tm.subst(d, m)

    def _pick(self, t):
        """A closed atomic condition of some ite in t (smallest first)."""
        best = None
        for x in tm.subterms(t):
            if x.op != 'ite':
                continue
            for a in self._atoms(x.args[0]):
                if self._openbv(a):
                    continue
                k = (tm.size(a), a.id)
                if best is None or k < best[0]:
                    best = (k, a)
        return best[1] if best else None

    def _atoms(self, b):
        if b.op in ('and', 'or', 'not'):
            for x in b.args:
                yield from self._atoms(x)
        elif b.op not in ('true', 'false'):
            yield b

    def _simplify_conds(self, facts, d):
        conds = {}
        ab = {}
        for x in tm.subterms(d):
            if x.op == 'f' and x.args[0] == 'abs' and not self._openbv(x) and len(ab) < 8:
                y = x.args[1]
                if self.implied(facts, tm.le(ZERO, y)):
                    ab[x] = y
                elif self.implied(facts, tm.le(y, ZERO)):
                    ab[x] = tm.neg(y)
        if ab:
            d = tm.subst(d, ab)
        for x in tm.subterms(d):
            if x.op == 'ite':
                for a in self._atoms(x.args[0]):
                    conds[a] = 1
        if not conds:
            return d
        m = {}
        n = 0
        fset = set(facts)
        for a in sorted(conds, key=lambda y: y.id):
            if self._openbv(a):
                continue
            if a in fset:
                m[a] = TRUE
            elif tm.bnot(a) in fset:
                m[a] = FALSE
            elif n < 60:
                n += 1
                if self.implied(facts, a):
                    m[a] = TRUE
                elif self.implied(facts, tm.bnot(a)):
                    m[a] = FALSE
        if not m:
            return d
        return self._assign(d, m)

    def _assign(self, t, m):
        mm = dict(m)
        for a, v in m.items():
            mm[tm.bnot(a)] = FALSE if v is TRUE else TRUE
        return tm.subst(t, mm)

    def _split(self, facts, goal, c, depth):
        self._rank('cases')
        for val in (TRUE, FALSE):
            lit = c if val is TRUE else tm.bnot(c)
            nf = facts + [lit]
            if not self.feasible(nf):
                continue
            g = self._assign(goal, {c: val})
            f2 = nf
            if val is TRUE and c.op == 'eq':
                sv = self._solve_eq(c.args[0])
                if sv is not None:
                    g = tm.subst(g, {sv[0]: sv[1]})
                    f2 = [tm.subst(f, {sv[0]: sv[1]}) for f in nf]
                    f2 = [f for f in f2 if f is not TRUE]
            if not self._prove(f2, g, depth + 1):
                return False
        return True

    def _solve_eq(self, e):
        c, es = tm._lin(e)
        for x in sorted(es, key=lambda y: -y.id):
            q = es[x]
            if x.op == 'v' and x is not tm.PI and (abs(q) == 1 or x.sort == 'R'):
                rhs = tm.scale(-1 / q, tm.add(e, tm.scale(-q, x)))
                if not tm.occurs(rhs, x):
                    return x, rhs
        return None

    def _congruence(self, facts, d, depth):
        """Merge equal-headed atoms whose arguments can be proved equal."""
        # linear combination of sums with equal range: merge into one sum
        c, es = tm._lin(d)
        groups = {}
        for x, q in es.items():
            fac = [(y, e) for y, e in (x.args if x.op == '*' else ((x, Fraction(1)),))]
            ss = [(y, e) for y, e in fac if y.op == 'sum' and e == 1]
            if len(ss) == 1:
                groups.setdefault(ss[0][0].args[1], []).append((x, q, ss[0][0], fac))
        for n, l in groups.items():
            if len(l) < 2:
                continue
            k, = unbound([x for x, _, _, _ in l])
            tot = []
            for x, q, s, fac in l:
                t = tm.scale(q, tm.sum_open(s, k))
                for y, e in fac:
                    if y is not s:
                        t = tm.mul(t, tm._mkprod({y: e}))
                tot.append(t)
            body = tm.addn(tot)
            v = probe(body)
            if v is not None and abs(v) > 1e-6 and not any(f.op == 'eq' for f in facts):
                continue
            rng = [tm.le(ZERO, k), tm.lt(k, n)]
            if self._sub(facts, tm.eq(body, ZERO), (k,), rng, 1):
                return tm.addn([d] + [tm.scale(-q, x) for x, q, _, _ in l])
        atoms = {}
        for m in ([d] if d.op != '+' else [x for x, _ in d.args[1]]):
            for x, e in (m.args if m.op == '*' else [(m, 1)]):
                head = self._head(x, e)
                if head is not None:
                    atoms.setdefault(head, {})[x] = 1
        for head, xs in atoms.items():
            xs = sorted(xs, key=lambda y: y.id)
            if len(xs) < 2 or len(xs) > 24:
                continue
            pairs = [(i, j) for i in range(len(xs)) for j in range(i + 1, len(xs))]
            if len(pairs) > 1 and head[0] == 'sum':
                k, = unbound(xs)
                pr = [probe(tm.sum_open(x, k)) for x in xs]

                def far(ij):
                    a, b = pr[ij[0]], pr[ij[1]]
                    if a is None or b is None:
                        return 1
                    return 0 if abs(a - b) <= 1e-7 * (1 + abs(a)) else 2
                pairs.sort(key=far)
            for i, j in pairs:
                if time.time() > self.deadline:
                    return None
                if DEBUG:
                    print('try', depth, head, xs[i].id, xs[j].id, tm.size(xs[i]), tm.size(xs[j]), probe(xs[i]), probe(xs[j]), flush=True)
                ok = self._same(facts, xs[i], xs[j], depth)
                if DEBUG:
                    print('   ->', ok, flush=True)
                if ok:
                    return tm.subst(d, {xs[j]: xs[i]})
        return None

    def _head(self, x, e):
        if x.op == 'f':
            return ('f', x.args[0], len(x.args))
        if x.op == 'sum':
            return ('sum', x.args[1].id)
        if x.op == '+' :
            return ('+',)
        if x.op == 'ite':
            return ('ite',)
        if x.op == '*':
            return ('*',)
        return None

    def _same(self, facts, x, y, depth):
        if x.op == 'f' and any(a.op == 'c' and b.op == 'c' and a is not b for a, b in zip(x.args[1:], y.args[1:])):
            return False
        if not any(f.op == 'eq' for f in facts) and not any(z.op == 'ite' for t in (x, y) for z in tm.subterms(t)):
            k, = unbound((x, y))
            a, b = [probe(tm.sum_open(t, k) if t.op == 'sum' and x.args[1] is y.args[1] else t) for t in (x, y)]
            if a is not None and b is not None and abs(a - b) > 1e-6 * (1 + abs(a)):
                return False
        if x.op == 'f' and x.args[0] in ('abs', 'cos') and self._sub(facts, tm.eq(x.args[1], tm.neg(y.args[1]))):
            return True
        if x.op == 'f':
            return all(self._eqarg(facts, a, b, depth) for a, b in zip(x.args[1:], y.args[1:]))
        if x.op == 'sum':
            k, = unbound((x, y))
            bx, by = tm.sum_open(x, k), tm.sum_open(y, k)
            return self._sub(facts, tm.eq(bx, by), (k,), [tm.le(ZERO, k), tm.lt(k, x.args[1])])
        if x.op in ('+', '*', 'ite'):
            return self._sub(facts, tm.eq(x, y))
        return False

    def _sub(self, facts, goal, opened=(), rng=(), share=3):
        """facts, rng |- goal in a sub-prover; `opened` are newly chosen variables,
        so facts about another use of the same name do not count."""
        if goal is TRUE:
            return True
        if opened:
            facts = [f for f in facts if not any(v in fv(f) for v in opened)]
        facts = facts + [f for f in rng if f is not TRUE]
        want = {v for v in fv(goal) if v.args[0].startswith('b~!')}
        local = [(f, {v for v in fv(f) if v.args[0].startswith('b~!')}) for f in facts]
        while True:
            new = set().union(*[s for f, s in local if s & want]) - want if local else ()
            if not new:
                break
            want |= new
        facts = [f for f, s in local if not s or s & want]
        left = self.deadline - time.time()
        if left < 0.2:
            return False
        tl = min(self.time_limit / share, left)
        key = (self.stamp, goal, frozenset(facts))
        was = self.proved.get(key)
        nd = len(self.axioms) + len(self.unfolders)
        if was is True or was is not None and was[0] >= tl * .7 and was[1] == nd:
            return was is True
        sub = Prover(self.axioms, self.unfolders, tl, self.z3_ms)
        sub.feas_cache = self.feas_cache
        sub.stamp = self.stamp
        sub.proved = self.proved
        ok = sub.prove(facts, goal)
        self.proved[key] = True if ok else (tl, nd)
        return ok

    def _eqarg(self, facts, a, b, depth):
        if a is b:
            return True
        if a.sort == 'L' or b.sort == 'L':
            if a.sort != b.sort or a.args[0] != b.args[0]:
                return False
            vs = unbound((a, b), a.args[0])
            x, y = tm.lam_apply(a, *vs), tm.lam_apply(b, *vs)
            rng = [tm.le(ZERO, v) for v in vs]
            if x.sort == 'B' or y.sort == 'B':
                return self._sub(facts, tm.band(tm.implies(x, y), tm.implies(y, x)), vs, rng)
            return self._sub(facts, tm.eq(x, y), vs, rng)
        return self._sub(facts, tm.eq(a, b))

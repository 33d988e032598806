"""Symbolic side of a contract run: inputs are variables, claims are proved."""
import re
import time
import traceback
from fractions import Fraction
from . import terms as tm
from . import core, snp, rt, shims, loader
from .terms import T, ZERO, ONE, TRUE, FALSE, Unsupported, lift
from .core import CTX, index_var
from .snp import SArr, asarr
from .api import Missing
from .prover import Poly


def double_angles(t):
    """t with sin(h)^2, cos(h)^2 and sin(h)cos(h) rewritten by cos(2h) and sin(2h)."""
    pl = Poly()
    p = pl.expand(t)
    half = tm.const(Fraction(1, 2))
    out = []
    for m, c in p.items():
        angles = {}
        rest = {}
        for i, e in m:
            x = pl.atoms[i]
            if x.op == 'f' and x.args[0] in ('sin', 'cos') and e.denominator == 1 and e > 0:
                angles.setdefault(x.args[1], [0, 0])[x.args[0] == 'cos'] = int(e)
            else:
                rest[x] = e
        r = tm.scale(c, tm._mkprod(rest))
        for h, (s, k) in angles.items():
            if (s + k) % 2:
                if s:
                    r, s = tm.mul(r, tm.sin(h)), s - 1
                else:
                    r, k = tm.mul(r, tm.cos(h)), k - 1
            S, C = tm.sin(tm.scale(2, h)), tm.cos(tm.scale(2, h))
            if s % 2:
                r, s, k = tm.mul(r, tm.mul(half, S)), s - 1, k - 1
            for _ in range(s // 2):
                r = tm.mul(r, tm.mul(half, tm.add(ONE, tm.neg(C))))
            for _ in range(k // 2):
                r = tm.mul(r, tm.mul(half, tm.add(ONE, C)))
        out.append(r)
    q = Poly()
    return q.back(q.trig(q.expand(tm.addn(out))))


class Result:
    """Outcome of one obligation over all paths."""
    __slots__ = ('label', 'paths', 'ok', 'by', 'time', 'why', 'terms')

    def __init__(self, label):
        self.label = label
        self.paths = 0
        self.ok = True
        self.by = {}
        self.time = 0.0
        self.why = None
        self.terms = []


class SymEnv:
    symbolic = True

    def __init__(self, shared, ld, time_limit):
        self.results = shared          # label -> Result
        self.ld = ld
        self.np = ld.shims['numpy']
        self.pi = tm.PI
        self.time_limit = time_limit
        self.patches = []
        self.inputs = {}
        self.record = None
        CTX.hints = set()

    # ------------------------------------------------------------ code under test
    def mod(self, name):
        return self.ld.get('machup.' + name if name else 'machup')

    def patch(self, obj, name, value):
        self.patches.append((obj, name, obj.__dict__.get(name, None), name in obj.__dict__))
        setattr(obj, name, value)

    def summary(self, mod, name, f):
        """While the caller is checked, mod.name is what its own contract leaves open: the arbitrary
        function f of its arguments. (Concretely it is the real function.)"""
        if not hasattr(mod, name):
            raise Missing('%s is gone' % name)
        self.patch(mod, name, f)

    def simplified(self, mod, name):
        """The same function of a point (its first argument) and numbers; its results are rewritten with
        the double angles of the sines and cosines they multiply."""
        if not hasattr(mod, name):
            raise Missing('%s is gone' % name)
        f = getattr(mod, name)

        def g(point, e):
            def one(q):
                def h(x, y, z, *e):
                    vs = [tm.fresh('pt', 'R') for _ in range(3)]
                    return tm.subst(double_angles(tm.lift(f(vs, list(e))[q])), dict(zip(vs, (x, y, z))))
                return h
            cs = [point[0], point[1], point[2], e[0], e[1], e[2], e[3]]
            if any(isinstance(x, SArr) and x.ndim for x in cs):
                return [snp.ew(one(q), *cs) for q in range(3)]
            cs = [tm.lift(x) for x in cs]
            return [one(q)(*cs) for q in range(3)]
        self.patch(mod, name, g)

    def undo(self):
        for obj, name, v, had in reversed(self.patches):
            if had:
                setattr(obj, name, v)
            else:
                delattr(obj, name)
        self.patches = []

    # ------------------------------------------------------------ inputs
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, gen=None, nonzero=False, strict=False):
        v = tm.var(name, 'R', nn=pos or nonneg)
        if pos:
            tm.POS.add(v)
        if pos:
            CTX.assume(tm.lt(ZERO, v))
        elif nonneg:
            CTX.assume(tm.le(ZERO, v))
        if lo is not None:
            CTX.assume(tm.lt(lift(lo), v) if strict else tm.le(lift(lo), v))
        if hi is not None:
            CTX.assume(tm.lt(v, lift(hi)) if strict else tm.le(v, lift(hi)))
        if nonzero:
            CTX.assume(tm.bnot(tm.eq(v, ZERO)))
        return v

    def size(self, name, lo=1, gen=None):
        v = tm.var(name, 'I', nn=lo >= 0)
        CTX.assume(tm.le(tm.const(lo), v))
        return v

    int = size

    def boolean(self, name):
        """A Python bool (both values are explored)."""
        return CTX.fork(tm.var(name, 'B'))

    def choice(self, name, options):
        for i, o in enumerate(options[:-1]):
            if CTX.fork(tm.var('%s=%d' % (name, i), 'B')):
                return o
        return options[-1]

    def array(self, name, *shape, pos=False, nonneg=False, gen=None, generic=False):
        fnm = '@' + name
        tm.declare(fnm, 'R', pos or nonneg)
        if pos:
            tm.POS.add(fnm)
        if pos or nonneg:
            CTX.axioms[fnm] = [lambda *i: [tm.lt(ZERO, tm.fn(fnm, *i)) if pos else tm.le(ZERO, tm.fn(fnm, *i))]]
        return SArr(shape, lambda idx: tm.fn(fnm, *idx))

    def intarray(self, name, *shape, lo=0, gen=None):
        fnm = '@' + name
        tm.declare(fnm, 'I', lo >= 0)
        CTX.axioms[fnm] = [lambda *i: [tm.le(tm.const(lo), tm.fn(fnm, *i))]]
        return SArr(shape, lambda idx: tm.fn(fnm, *idx), 'i')

    def fun(self, name, nonneg=False, conc=None):
        """An arbitrary function of numbers."""
        fnm = '$' + name

        def f(*a):
            return tm.fn(fnm, *[lift(x) for x in a])
        return f

    def list_of(self, n, f):
        """The list [f(0), ..., f(n-1)]."""
        return rt.comp(rt.range_(n), f)

    def name_array(self, n):
        """n names, the first 'right_w', the others alternating."""
        def nm(i):
            return 'left_w' if CTX.fork(tm.lt(ZERO, tm.fn('@name', i))) else 'right_w'
        return SArr((n,), lambda idx: nm(idx[0]), 'o')

    def naca(self, m, p, t):
        """The name of the four-digit airfoil with digits m, p and tt."""
        t = lift(t)
        tens = tm.floor(tm.scale(Fraction(1, 10), t))
        return rt.NameStr(list('NACA') + [lift(m), lift(p), tens, tm.add(t, tm.scale(-10, tens))])

    def digit(self, c):
        return rt.float_(c)

    def array_of(self, shape, f):
        """The array whose element at index (i, j, ...) is f(i, j, ...)."""
        return SArr(shape, lambda idx: lift(f(*idx)))

    def empty_dict(self):
        return {}

    # ------------------------------------------------------------ library functions named in specifications
    def interp(self, x, y, q, left=0, right=0):
        """Piecewise-linear interpolation of the points (x, y) at q, with the given values outside."""
        return snp.unwrap(snp.asarr(snp.interp(q, x, y, left=left, right=right)).get(()))

    def beyond(self, x, y, q, left=0, right=0):
        """Contract of the piecewise-linear interpolation outside its points, used in what follows."""
        v = lift(self.interp(x, y, q, left, right))
        x = snp.asarr(x)
        q = lift(q)
        first, last = x.get((ZERO,)), x.get((tm.add(lift(x.shape[0]), tm.const(-1)),))
        self.assume(tm.bor(tm.le(first, q), tm.eq(v, lift(left))))
        self.assume(tm.bor(tm.le(q, last), tm.eq(v, lift(right))))

    def cubic(self, x, y, q):
        """Extrapolating cubic interpolation."""
        return snp.unwrap(shims.Interp1d(x, y, kind='cubic', fill_value='extrapolate')(q).get(()))

    def simpson(self, y, x):
        return shims.simps(y, x)


    # ------------------------------------------------------------ linear systems
    def linear_solver(self):
        """From here on, calls of np.linalg.solve are replaced by its contract:
        the result is some x with A x = b, unique."""
        rec = Systems(self)
        self.patch(self.np.linalg, 'solve', rec.call)
        return rec

    # ------------------------------------------------------------ files
    def json_file(self, data):
        nm = 'input%d.json' % len(snp.FS.jsons)
        snp.FS.jsons[nm] = data
        return nm

    def table_file(self, arr):
        nm = 'table%d.txt' % len(snp.FS.tables)
        snp.FS.tables[nm] = arr
        return nm

    def out_file(self, name):
        return name

    def stl_vectors(self, filename):
        """Triangles written to an STL file, as an (n, 3, 3) array."""
        r = [w[2] for w in snp.FS.written if w[0] == 'stl' and w[1] == filename]
        if len(r) != 1:
            raise AssertionError('STL file not written once')
        return r[0]

    def json_written(self, filename):
        """The JSON document the code wrote."""
        r = [w for w in snp.FS.written if w[1] == filename]
        items = snp.text_of(filename)
        if len(items) != 1 or items[0][0] != 'json':
            raise AssertionError('file does not hold one JSON document' if r else 'file not written')
        return items[0][2]

    def tables_written(self, filename):
        """The tables of a text report: {title: {heading: column}}."""
        items = snp.text_of(filename)
        if filename.endswith('json'):
            t = self.json_written(filename)['data']
            if t.subs != (('\n', 'newline'),):
                raise AssertionError('unexpected text')
            items = t.items
        out = {}
        for a, fmt, header in items:
            title, heads = [l for l in header.split('\n') if l.strip()]
            heads = heads.split()
            forms = re.findall(r'%[-+0-9.]*[a-z]', fmt)
            if not isinstance(a, snp.RecArr):
                raise Unsupported('table of plain values')
            if len(heads) != len(a.order) or len(forms) != len(a.order):
                raise AssertionError('%d headings, %d formats, %d columns' % (len(heads), len(forms), len(a.order)))
            cols = {}
            for hd, fm, nm in zip(heads, forms, a.order):
                v = a.fields[nm]
                if v.kind == 'O':
                    ok = fm[-1] == 's' and '.' not in fm and not (isinstance(a.types[nm], str) and a.types[nm].startswith('U'))
                else:
                    q = re.match(r'%[-+0-9]*\.(\d+)e$', fm)
                    ok = q and int(q.group(1)) >= 9
                if not ok:
                    raise AssertionError('column %s written as %s' % (hd, fm))
                cols[hd] = v
            if title.strip() in out:
                raise AssertionError('table written twice')
            out[title.strip()] = cols
        return out

    # ------------------------------------------------------------ logic
    def assume(self, c):
        c = lift(c) if isinstance(c, T) else c
        if isinstance(c, bool):
            if not c:
                raise core.Infeasible()
            return
        CTX.assume(c)

    def implies(self, a, b):
        return tm.implies(lift(a), lift(b))

    def both(self, *a):
        return tm.band(*[lift(x) for x in a])

    def either(self, *a):
        return tm.bor(*[lift(x) for x in a])

    def no(self, a):
        return tm.bnot(lift(a))

    def ite(self, c, a, b):
        return tm.ite(lift(c), lift(a), lift(b))

    def equal(self, a, b):
        return tm.eq(lift(a), lift(b))

    def forall(self, n, f):
        if isinstance(n, int) and n <= 4:
            for i in range(n):
                f(i)
            return
        f(index_var('i', n))

    def sum(self, n, f):
        return core.tsum(lift(n), lambda k: lift(f(k)))

    def prefix(self, label, n, k, f):
        """Numbers f(0)..f(n-1), none negative (proved): those up to k, k < n (proved), add up to no more than all."""
        n, k = lift(n), lift(k)
        m = index_var('i', n)
        self.ensure(label, tm.band(tm.le(ZERO, lift(f(m))), tm.le(ZERO, k), tm.lt(k, n)))
        self.assume(tm.le(tm.add(self.sum(k, f), lift(f(k))), self.sum(n, f)))

    def loops(self, passes):
        """Loops cut at their head are entered from states reached by this many
        passes from an arbitrary state (a proof hint)."""
        CTX.induct = passes

    def case(self, c):
        """Split the proof on c (a proof hint; concretely the truth value)."""
        return CTX.fork(lift(c)) if isinstance(c, T) else bool(c)

    # ------------------------------------------------------------ claims
    def res(self, label):
        r = self.results.get(label)
        if r is None:
            r = self.results[label] = Result(label)
        return r

    def ensure(self, label, c):
        if isinstance(c, bool):
            c = TRUE if c else FALSE
        if isinstance(c, SArr):
            c = c._as_scalar()
        self._prove(label, lift(c))

    def lemma(self, label, c):
        """A claim that, once proved, may be used in what follows."""
        self.ensure(label, c)
        self.assume(c)

    def apply(self, label, premise, claim, *args):
        """Use of a lemma: `premise` holds of the arguments (proved), any numbers for which
        it holds satisfy `claim` (proved), so the arguments do (used in what follows)."""
        self.ensure(label, premise(*args))
        xs = [tm.var('x!%d' % core._next(), 'R') for _ in args]
        p, c = lift(premise(*xs)), lift(claim(*xs))
        self._prove(label, c, [p])
        c = lift(claim(*args))
        CTX.hints.add(TRUE)
        self.assume(c)
        for b in (c.args if c.op == 'and' else (c,)):
            if b.op == 'le':
                CTX.hints.add(tm.le_(Poly().canon(b.args[0])))

    def simple(self, x):
        """x, as the prover normalises it."""
        return Poly().canon(lift(x))

    def _prove(self, label, goal, more=None):
        r = self.res(label)
        r.paths += 1
        if not r.ok:
            return
        t0 = time.time()
        if len(CTX.frames) > 1:
            raise Unsupported('claim inside a loop')
        p = CTX.prover
        p.time_limit = self.time_limit
        ok = p.prove(more or CTX.all_facts(goal), goal)
        r.time += time.time() - t0
        if ok:
            r.by[p.by] = r.by.get(p.by, 0) + 1
        else:
            r.ok = False
            r.why = 'not proved: %s\n  under: %s' % (tm.show(goal, 14)[:3000], [tm.show(f, 6)[:200] for f in CTX.pc()][:20])

    def eq(self, label, a, b):
        """a equals b (numbers, arrays, nested lists, dicts, strings)."""
        try:
            goal = self._eqgoal(a, b)
        except _Mismatch as e:
            r = self.res(label)
            r.paths += 1
            r.ok = False
            r.why = str(e)
            return
        if self.record is not None:
            self._record(label, a)
        self._prove(label, goal)

    def _record(self, label, a):
        if isinstance(a, T) and a.sort != 'B':
            self.record.append((label, tm.band(*CTX.pc()) if CTX.pc() else TRUE, a))
        elif isinstance(a, SArr) and a.ndim and all(isinstance(d, int) and d <= 4 for d in a.shape):
            import itertools
            for ix in itertools.product(*[range(d) for d in a.shape]):
                v = a.get(tuple(tm.const(i) for i in ix))
                if isinstance(v, T):
                    self.record.append(('%s%s' % (label, list(ix)), tm.band(*CTX.pc()) if CTX.pc() else TRUE, v))

    def _eqgoal(self, a, b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if type(a) != type(b) or a != b:
                raise _Mismatch('%r is not %r' % (a, b))
            return TRUE
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)):
                raise _Mismatch('dict expected')
            if set(a) != set(b):
                raise _Mismatch('keys %s differ from %s' % (sorted(map(str, a)), sorted(map(str, b))))
            return tm.band(*[self._eqgoal(a[k], b[k]) for k in a])
        if isinstance(a, bool) and isinstance(b, bool):
            if a != b:
                raise _Mismatch('%r is not %r' % (a, b))
            return TRUE
        if isinstance(a, T) and a.sort == 'B' or isinstance(b, T) and b.sort == 'B':
            a, b = lift(a), lift(b)
            return tm.band(tm.implies(a, b), tm.implies(b, a))
        try:
            a, b = asarr(a), asarr(b)
        except ValueError as e:
            raise _Mismatch(str(e))
        if a.ndim != b.ndim or not all(snp.samedim(x, y) for x, y in zip(a.shape, b.shape)):
            raise _Mismatch('shape %s is not %s' % (a.shape, b.shape))
        import itertools
        goals = []
        fixed = [range(d) if isinstance(d, int) and d <= 5 else [None] for d in a.shape]
        for ix in itertools.product(*fixed):
            idx = tuple(tm.const(i) if i is not None else index_var('i', d) for i, d in zip(ix, a.shape))
            x, y = a.get(idx), b.get(idx)
            if not isinstance(x, T) or not isinstance(y, T):
                if x is not y and x != y:
                    raise _Mismatch('%r is not %r' % (x, y))
                continue
            goals.append(tm.eq(x, y))
        return tm.band(*goals) if goals else TRUE

    def raises(self, label, exc, f):
        r = self.res(label)
        r.paths += 1
        try:
            f()
        except (Unsupported, Missing):
            raise
        except exc:
            r.by['path'] = r.by.get('path', 0) + 1
            return
        except core.Infeasible:
            raise
        except Exception as e:
            r.ok = False
            r.why = 'raised %r' % e
            return
        r.ok = False
        r.why = 'no exception raised'

    def cover(self, label):
        """Reached under a satisfiable condition (guards against vacuous claims)."""
        r = self.res('cover:' + label)
        r.paths += 1
        r.by['path'] = r.by.get('path', 0) + 1


class Systems:
    """The linear systems the code solved, in order."""

    def __init__(self, env):
        self.env = env
        self.calls = []
        self.real = env.np.linalg.solve
        self.given = None

    def call(self, A, b):
        A, b = asarr(A), asarr(b)
        n = A.shape[0]
        if not snp.samedim(n, A.shape[1]) or not snp.samedim(n, b.shape[0]) or b.ndim != 1:
            raise Unsupported('linear system of unexpected shape')
        k = len(self.calls)
        fa, fb = A.snap(), b.snap()
        A = SArr(A.shape, fa)
        b = SArr(b.shape, fb)
        if self.given is not None:
            (j, q), self.given = self.given, None
            fx = self.calls[j][2].snap()
            x = SArr((n,), lambda idx: tm.mul(lift(q), fx(idx)))
        else:
            x = self.env.array('solution%d' % k, n)
        self.calls.append((A, b, x))
        return x.copy()

    def solution(self, k, n, A, b, label='', check=True):
        """The solution of the system with elements A(i, j) and b(i): obligations
        that this is the k-th system the code solved, then the code's solution."""
        env = self.env
        if k >= len(self.calls):
            return self.real(env.array_of((n, n), A), env.array_of((n,), b))
        cA, cb, x = self.calls[k]

        def row(i):
            env.eq(label + 'right-hand side', cb[i], b(i))
            env.forall(n, lambda j: env.eq(label + 'influence matrix', cA[i, j], A(i, j)))
        if check:
            env.forall(n, row)
        return x

    def answer_next(self, k, q=1):
        """Lemma: the next system solved is a scaled copy of the k-th, so that its
        solution is q times that solution (`scaled` proves it as an obligation)."""
        if len(self.calls) > k:
            self.given = (k, q)

    def scaled(self, k, k2, n, qa, qb):
        """Obligation: system k2 is system k with the matrix times qa, the right side times qb."""
        env = self.env
        if k2 >= len(self.calls):
            return
        A, b, _ = self.calls[k]
        A2, b2, _ = self.calls[k2]

        def row(i):
            env.eq('right-hand side', b2[i], qb * b[i])
            env.forall(n, lambda j: env.eq('influence matrix', A2[i, j], qa * A[i, j]))
        env.forall(n, row)


class _Mismatch(Exception):
    pass


def run_contract(path, cname, variant, time_limit=20.0, budget=600.0, repo=None, record=False):
    """Verify one contract; returns a JSON-able summary."""
    import importlib
    CTX.reset()
    snp.install_axioms()
    from . import theory
    theory.install()
    t0 = time.time()
    ld = loader.Loader(rt, shims.make(), repo)
    from . import api
    api.REG.clear()
    src = open(path).read()
    shared = {}
    out = {'contract': cname, 'variant': variant, 'paths': 0, 'dead': 0, 'error': None, 'unsupported': None}
    recs = [] if record else None
    try:
        m = ld.exec_module('contracts.' + path.split('/')[-1][:-3], src, path)
        c = [x for l in api.REG.values() for x in l if x.name == cname][0]

        def run():
            snp.FS.reset()
            shims.Mesh.made = []
            env = SymEnv(shared, ld, time_limit)
            env.record = recs
            try:
                if variant is None:
                    c.f(env)
                else:
                    c.f(env, variant)
            finally:
                CTX.end_path()
                env.undo()

        while True:
            try:
                for conds, res, facts in CTX.explore(run):
                    if res[0] == 'dead':
                        out['dead'] += 1
                    else:
                        out['paths'] += 1
                    if time.time() - t0 > budget:
                        raise Unsupported('time budget exceeded')
                break
            except rt.NeedCut as e:
                if e.args[0] in CTX.cuts:
                    raise Unsupported('loop %s cannot be cut' % e.args[0])
                CTX.cuts.add(e.args[0])
                shared.clear()
                out['paths'] = out['dead'] = 0
    except (Unsupported, Missing) as e:
        tb = traceback.extract_tb(e.__traceback__)
        out['unsupported'] = '%s (%s)' % (e, '; '.join('%s:%s' % (f.filename.split('/')[-1], f.lineno) for f in tb[-6:]))
    except core.Infeasible:
        out['unsupported'] = 'infeasible outside exploration'
    except RecursionError:
        out['unsupported'] = 'recursion limit'
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-3000:]
    out['results'] = [{'label': r.label, 'paths': r.paths, 'ok': r.ok, 'by': r.by, 'time': round(r.time, 3), 'why': r.why}
                      for r in shared.values()]
    out['time'] = round(time.time() - t0, 2)
    from .prover import STATS
    out['stats'] = dict(STATS)
    if record:
        out['records'] = recs
    return out

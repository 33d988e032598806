"""Concrete side: the same contracts run against the real package.

Run with the project's interpreter:  python -m vc.conc JOBFILE
"""
import hashlib
import importlib.util
import itertools
import json
import math
import os
import random
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
from vc.api import Missing
sys.path.insert(0, REPO)


class Discard(Exception):
    """The sampled inputs do not meet the contract's preconditions."""


class Failed(Exception):
    def __init__(self, label, why):
        Exception.__init__(self, '%s: %s' % (label, why))
        self.label = label
        self.why = why


def h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')


class ConcEnv:
    symbolic = False

    def __init__(self, seed, overrides=None, tmp=None, rtol=1e-6):
        self.seed = seed
        # every other hunt (seeds beyond the quick witnesses) prefers special values and scales
        self.mode = seed % 2 if seed % 100000 >= 1000 else 0
        self.np = np
        self.pi = math.pi
        self.over = overrides or {}
        self.tmp = tmp
        self.rtol = rtol
        self.patches = []
        self.values = {}
        self.claims = 0
        self.labels = {}
        self.fails = []
        self.nfile = 0
        self.covers = {}
        self.record = None

    def rng(self, *name):
        return random.Random(h(self.seed, *name))

    def mod(self, name):
        import importlib
        return importlib.import_module('machup.' + name if name else 'machup')

    def patch(self, obj, name, value):
        self.patches.append((obj, name, obj.__dict__.get(name), name in obj.__dict__))
        setattr(obj, name, value)

    def summary(self, mod, name, f):
        pass

    def simplified(self, mod, name):
        pass

    def undo(self):
        for obj, name, v, had in reversed(self.patches):
            if had:
                setattr(obj, name, v)
            else:
                delattr(obj, name)
        self.patches = []

    # ------------------------------------------------------------ inputs
    def put(self, name, v):
        self.values[name] = v
        return v

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, gen=None, nonzero=False, strict=False):
        if name in self.over:
            return self.put(name, self.over[name])
        r = self.rng('r', name)
        # special values first: zeros, small integers and boundaries are where code branches
        if gen is None:
            a = lo if lo is not None else (0.1 if pos else 0.0 if nonneg else -2.0)
            b = hi if hi is not None else max(3.0, a + 3.0)
        else:
            a, b = gen
        v = r.uniform(a, b)
        u = r.random()
        if u < 0.06 and lo is not None and not strict:
            v = float(lo)
        elif u < 0.12 and hi is not None and not strict:
            v = float(hi)
        elif u < 0.2 and not pos and not nonzero and a <= 0 <= b and (lo is None or not strict or lo < 0):
            v = 0.0
        elif u < 0.26 and math.floor(b) > math.ceil(a):
            v = float(r.randint(math.ceil(a), math.floor(b)))
            if (pos or nonzero) and v == 0 or strict and (v == lo or v == hi):
                v = r.uniform(a, b)
        if self.mode == 1 and r.random() < .5:
            c = r.choice([0.0, 0.0, 1.0, -1.0, 0.5, a, b, lo, hi, 90.0, -90.0, 45.0, -30.0, 180.0, 10.0 ** r.randint(-9, 3), -10.0 ** r.randint(-9, 3)])
            if (c is not None and not (lo is not None and (c < lo or strict and c == lo)) and not (hi is not None and (c > hi or strict and c == hi))
                    and not (pos and c <= 0) and not (nonneg and c < 0) and not (nonzero and c == 0)
                    and (gen is None or a <= c <= b or b - a >= 20)):
                v = float(c)
        return self.put(name, v)

    def size(self, name, lo=1, gen=None):
        if name in self.over:
            return self.put(name, int(self.over[name]))
        a, b = gen or (lo, lo + 4)
        return self.put(name, self.rng('i', name).randint(a, b))

    int = size

    def boolean(self, name):
        if name in self.over:
            return self.put(name, bool(self.over[name]))
        return self.put(name, self.rng('b', name).random() < .5)

    def choice(self, name, options):
        if name in self.over:
            return options[self.put(name, int(self.over[name]))]
        i = self.rng('c', name).randrange(len(options))
        self.values[name] = i
        return options[i]

    def array(self, name, *shape, pos=False, nonneg=False, gen=None, generic=False):
        a, b = gen or ((0.2 if pos else 0.0 if nonneg else -2.0), 2.0)
        r = self.rng('a', name)
        v = np.array([r.uniform(a, b) for _ in range(int(np.prod(shape)))]).reshape(shape)
        if self.mode == 1 and not generic:
            q = r.random()
            if q < .3 and not pos:
                v = v * 0.0
            elif q < .45:
                v = v * 0.0 + v.flat[0] if v.size else v
            elif q < .6 and not pos:
                v = v * np.array([r.random() < .5 for _ in range(v.size)]).reshape(v.shape)
            elif q < .7:
                v = v * 10.0 ** r.randint(-5, 2)
        self.values[name] = v.tolist()
        return v

    def intarray(self, name, *shape, lo=0, gen=None):
        a, b = gen or (lo, lo + 4)
        r = self.rng('ia', name)
        v = np.array([r.randint(a, b) for _ in range(int(np.prod(shape)))]).reshape(shape)
        self.values[name] = v.tolist()
        return v

    def fun(self, name, nonneg=False, conc=None):
        if conc is not None:
            self.values.setdefault('calls of ' + name, [])

        def f(*a):
            if conc is not None:
                v = conc(self.rng('f', name), *[float(x) for x in a])
                calls = self.values.setdefault('calls of ' + name, [])
                if len(calls) < 200:
                    calls.append((tuple(float(x) for x in a), float(v)))
                return v
            r = self.rng('f', name)
            c = r.uniform(-1, 1)
            for x in a:
                c = c * 0.7 + r.uniform(-1, 1) * math.sin(r.uniform(.5, 1.5) * float(x) + r.uniform(0, 6))
                c = c + r.uniform(-.3, .3) * float(x) * 0.1
            return abs(c) if nonneg else c
        return f

    def interp(self, x, y, q, left=0, right=0):
        return np.interp(q, x, y, left=left, right=right)

    def beyond(self, *a, **k):
        pass

    def cubic(self, x, y, q):
        from scipy.interpolate import interp1d
        return interp1d(x, y, kind='cubic', fill_value='extrapolate')(q)

    def simpson(self, y, x):
        from scipy.integrate import simps
        return simps(y, x)

    def list_of(self, n, f):
        return [f(i) for i in range(n)]

    def name_array(self, n):
        r = self.rng('names')
        v = np.empty(n, dtype=object)
        for i in range(n):
            v[i] = r.choice(['left_w', 'right_w'])
        self.values['names'] = list(v)
        return v

    def naca(self, m, p, t):
        return 'NACA%d%d%02d' % (m, p, t)

    def array_of(self, shape, f):
        r = np.zeros(shape)
        for ix in itertools.product(*[range(d) for d in shape]):
            r[ix] = f(*ix)
        return r

    # ------------------------------------------------------------ linear systems
    def linear_solver(self):
        return Systems(self)

    # ------------------------------------------------------------ files
    def fname(self, ext):
        self.nfile += 1
        return os.path.join(self.tmp, 'f%d%s' % (self.nfile, ext))

    def json_file(self, data):
        p = self.fname('.json')

        def conv(o):
            if isinstance(o, np.ndarray):
                return o.tolist()
            if isinstance(o, np.generic):
                return o.item()
            raise TypeError(type(o))
        with open(p, 'w') as f:
            json.dump(data, f, default=conv)
        return p

    def table_file(self, arr):
        p = self.fname('.txt')
        np.savetxt(p, arr, fmt='%.17g')
        return p

    def out_file(self, name):
        return os.path.join(self.tmp, name)

    def stl_vectors(self, filename):
        from stl import mesh
        self.rtol = max(self.rtol, 1e-4)        # the file holds single precision
        return np.array(mesh.Mesh.from_file(filename).vectors, dtype=float)

    def json_written(self, filename):
        if not os.path.exists(filename):
            raise AssertionError('file not written')
        with open(filename) as f:
            return json.load(f)

    def tables_written(self, filename):
        with open(filename) as f:
            text = f.read()
        if filename.endswith('json'):
            text = json.loads(text)['data'].replace('newline', '\n')
        out = {}
        rows = heads = None
        for line in text.split('\n'):
            w = line.lstrip('# ').split()
            if line.startswith('#'):
                if len(w) == 1:
                    if w[0] in out:
                        raise AssertionError('table written twice')
                    rows = out[w[0]] = []
                    heads = None
                elif w and rows is not None and heads is None:
                    heads = w
                    rows.append(heads)
            elif w:
                if len(w) != len(heads):
                    raise AssertionError('%d headings, %d columns' % (len(heads), len(w)))
                rows.append([w[0]] + [float(x) for x in w[1:]])
        res = {}
        for t, rows in out.items():
            res[t] = {}
            for c, hd in enumerate(rows[0]):
                res[t][hd] = np.array([r[c] for r in rows[1:]], dtype=object if c == 0 else float)
        return res

    # ------------------------------------------------------------ logic
    def assume(self, c):
        if not np.all(c):
            raise Discard()

    def implies(self, a, b):
        return (not a) or bool(b)

    def both(self, *a):
        return all(a)

    def either(self, *a):
        return any(a)

    def no(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b

    def equal(self, a, b):
        return a == b

    def forall(self, n, f):
        for i in range(n):
            f(i)

    def sum(self, n, f):
        s = 0
        for i in range(n):
            s = s + f(i)
        return s

    def prefix(self, label, n, k, f):
        pass

    def loops(self, passes):
        pass

    def case(self, c):
        return bool(c)

    # ------------------------------------------------------------ claims
    def fail(self, label, why):
        self.fails.append((label, why))

    def mark(self, label):
        self.claims += 1
        self.labels[label] = self.labels.get(label, 0) + 1

    def ensure(self, label, c):
        self.mark(label)
        if not np.all(c):
            self.fail(label, 'claim is false')

    def lemma(self, label, c):
        pass                            # exact statements about numbers: proved, not tested

    def apply(self, label, premise, claim, *args):
        pass

    def simple(self, x):
        return x

    def eq(self, label, a, b, tol=1.0):
        self.mark(label)
        if self.record is not None:
            self.rec(label, a)
        w = self.differs(a, b, tol)
        if w:
            self.fail(label, w)

    def rec(self, label, a):
        if isinstance(a, (int, float, np.generic)) and not isinstance(a, (bool, np.bool_)):
            self.record.append((label, float(a)))
        else:
            try:
                x = np.asarray(a, dtype=float)
            except (TypeError, ValueError):
                return
            if x.ndim == 0:
                self.record.append((label, float(x)))
            elif all(d <= 4 for d in x.shape):
                for ix in itertools.product(*[range(d) for d in x.shape]):
                    self.record.append(('%s%s' % (label, list(ix)), float(x[ix])))

    def differs(self, a, b, tol=1.0):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return None if type(a) == type(b) and a == b else '%r is not %r' % (a, b)
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)):
                return 'dict expected'
            if set(a) != set(b):
                return 'keys %s differ from %s' % (sorted(map(str, a)), sorted(map(str, b)))
            for k in a:
                w = self.differs(a[k], b[k], tol)
                if w:
                    return '[%r] %s' % (k, w)
            return None
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return None if bool(a) == bool(b) else '%r is not %r' % (a, b)
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.dtype == object or y.dtype == object:
                if x.shape != y.shape:
                    return 'shape'
                for p, q in zip(x.ravel(), y.ravel()):
                    w = self.differs(p, q, tol) if not (p is q) else None
                    if w:
                        return w
                return None
            if x.dtype.kind in 'US' or y.dtype.kind in 'US':
                return None if x.shape == y.shape and (x == y).all() else '%r is not %r' % (a, b)
            x, y = x.astype(float), y.astype(float)
        except (TypeError, ValueError):
            return 'cannot compare %r with %r' % (type(a), type(b))
        if x.shape != y.shape:
            return 'shape %s is not %s' % (x.shape, y.shape)
        if x.size == 0:
            return None
        if np.isnan(y).any():
            raise Discard()       # the specification itself is undefined here
        if np.isinf(y).any():
            raise Discard()
        scale = 1.0 + np.max(np.abs(y))
        d = np.abs(x - y)
        if not np.all(d <= self.rtol * tol * scale):
            i = int(np.nanargmax(np.where(np.isnan(d), np.inf, d)))
            return 'got %r, required %r (element %d of shape %s)' % (float(x.ravel()[i]), float(y.ravel()[i]), i, x.shape)
        return None

    def raises(self, label, exc, f):
        self.mark(label)
        try:
            f()
        except exc:
            return
        except (Discard, Missing):
            raise
        except Exception as e:
            self.fail(label, 'raised %r' % e)
            return
        self.fail(label, 'no exception raised')

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1


class Systems:
    def __init__(self, env):
        self.env = env

    def solution(self, k, n, A, b, label='', check=True):
        return np.linalg.solve(self.env.array_of((n, n), A), self.env.array_of((n,), b))

    def answer_next(self, k, q=1):
        pass

    def scaled(self, k, k2, n, qa, qb):
        pass


def load_contracts(path):
    from vc import api
    api.REG.clear()
    spec = importlib.util.spec_from_file_location('contracts_' + os.path.basename(path)[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return {c.name: c for l in api.REG.values() for c in l}


def run_one(c, variant, seed, overrides=None, record=False):
    with tempfile.TemporaryDirectory(prefix='vcconc') as tmp:
        env = ConcEnv(seed, overrides, tmp)
        if record:
            env.record = []
        old = os.getcwd()
        os.chdir(tmp)
        status, why = 'ok', None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    devnull = open(os.devnull, 'w')
                    so = sys.stdout
                    sys.stdout = devnull
                    try:
                        if variant is None:
                            c.f(env)
                        else:
                            c.f(env, variant)
                    finally:
                        sys.stdout = so
                        devnull.close()
        except Discard:
            status = 'discard'
        except AlarmTimeout:
            status, why = 'discard', 'timeout'
        except (Missing, np.linalg.LinAlgError) as e:
            status, why = 'discard', str(e)
        except Exception as e:
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if isinstance(e, AttributeError) and str(getattr(e, 'name', '')).startswith('_') and os.sep + 'contracts' + os.sep in last:
                status, why = 'discard', str(e)      # the contract's own view of a private name, not the code
            env.fail('no-exception', '%s: %s | %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
        finally:
            env.undo()
            os.chdir(old)
        if env.fails:
            # claims refuted before a discard still stand; a discard alone does not fail
            status = 'fail' if status != 'discard' else 'discard'
        return {'status': status, 'fails': env.fails, 'values': env.values, 'claims': env.claims,
                'labels': env.labels, 'covers': env.covers, 'record': env.record}


class AlarmTimeout(BaseException):
    pass


def main():
    import signal

    def onalarm(*a):
        raise AlarmTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    job = json.load(open(sys.argv[1]))
    out = []
    t_end = time.time() + job.get('budget', 60)
    cs = load_contracts(job['path'])
    for task in job['tasks']:
        c = cs[task['contract']]
        variant = task['variant']
        if isinstance(variant, list):
            variant = tuple(variant)
        n = d = claims = 0
        labels = {}
        recs = []
        fail = None
        for seed in task['seeds'] if 'seeds' in task else range(task['from'], task['to']):
            if time.time() > t_end and n:
                break
            signal.alarm(20)
            try:
                r = run_one(c, variant, seed, task.get('overrides'), task.get('record', False))
            except AlarmTimeout:
                r = {'status': 'discard', 'labels': {}, 'claims': 0, 'record': None, 'covers': {}}
            finally:
                signal.alarm(0)
            if r['status'] == 'discard':
                d += 1
                continue
            n += 1
            claims += r['claims']
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in r['covers'].items():
                labels['cover:' + k] = labels.get('cover:' + k, 0) + v
            if task.get('record'):
                recs.append({'seed': seed, 'values': r['values'], 'record': r['record']})
            if r['status'] == 'fail':
                known = set(task.get('known', []))
                fs = [f for f in r['fails'] if f[0] not in known]
                if fs:
                    fail = {'seed': seed, 'fails': fs[:5], 'values': r['values']}
                    break
        out.append({'contract': task['contract'], 'variant': task['variant'], 'runs': n, 'discarded': d,
                    'claims': claims, 'labels': labels, 'fail': fail, 'records': recs})
    json.dump(out, open(job['out'], 'w'), default=lambda o: o.item() if hasattr(o, 'item') else o.tolist() if hasattr(o, 'tolist') else repr(o))


if __name__ == '__main__':
    main()

"""Numeric evaluation of engine terms on the inputs of a real run."""
import hashlib
import math
import random
from . import terms as tm


def h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big')


def concrete_fun(seed, name, args):
    r = random.Random(h(seed, 'f', name))
    c = r.uniform(-1, 1)
    for x in args:
        c = c * 0.7 + r.uniform(-1, 1) * math.sin(r.uniform(.5, 1.5) * float(x) + r.uniform(0, 6))
        c = c + r.uniform(-.3, .3) * float(x) * 0.1
    return c


def seen(calls, args):
    for a, v in calls:
        if len(a) == len(args) and all(abs(x - float(y)) <= 1e-9 * (1 + abs(x)) for x, y in zip(a, args)):
            return v
    raise KeyError('function not called there in the real run')


class Env(dict):
    pass


def compare(recs, samples):
    out = {'compared': 0, 'mismatch': 0, 'examples': [], 'skipped': 0}
    for s in samples:
        if not s or not s.get('record'):
            continue
        vals = s['values']
        env = {'pi': math.pi}
        for k, v in vals.items():
            if isinstance(v, bool):
                env[k] = v
            elif isinstance(v, (int, float)):
                env[k] = v
                env['=' + k] = v
        # choices are recorded by index: '<name>=<i>'
        funcs = Funcs(vals, s['seed'])
        real = {}
        for label, x in s['record']:
            real.setdefault(label, []).append(x)
        cnt = {}
        for label, pc, t in recs:
            if any(x.op == 'v' and '!' in x.args[0] for x in tm.subterms(t)):
                continue
            try:
                ok = tm.evaluate(pc, ChoiceEnv(env, vals), funcs)
                if not ok:
                    continue
                v = float(tm.evaluate(t, ChoiceEnv(env, vals), funcs))
            except (tm.EvalError, ZeroDivisionError, OverflowError, ValueError, KeyError, RecursionError, IndexError, TypeError):
                out['skipped'] += 1
                continue
            xs = real.get(label)
            if not xs:
                continue
            out['compared'] += 1
            if not any(x == v or abs(x - v) <= 1e-6 * (1 + abs(v)) or x != x for x in xs):
                out['mismatch'] += 1
                if len(out['examples']) < 5:
                    out['examples'].append([label, s['seed'], v, xs[:3], tm.show(t, 6)[:300]])
    return out


class ChoiceEnv:
    def __init__(self, env, vals):
        self.env = env
        self.vals = vals

    def __getitem__(self, k):
        if k in self.env:
            return self.env[k]
        if '=' in k:
            n, i = k.rsplit('=', 1)
            return self.vals[n] == int(i)
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False


class Funcs:
    def __init__(self, vals, seed):
        self.vals = vals
        self.seed = seed

    def get(self, name, d=None):
        if name.startswith('@'):
            v = self.vals[name[1:]]

            def f(*ix):
                r = v
                for i in ix:
                    i = int(round(float(i)))
                    if i < 0:
                        raise IndexError
                    r = r[i]
                return r
            return f
        if name.startswith('$'):
            calls = self.vals.get('calls of ' + name[1:])
            if calls is not None:
                return lambda *a: seen(calls, a)
            return lambda *a: concrete_fun(self.seed, name[1:], a)
        return d

    def __contains__(self, name):
        return self.get(name) is not None

    def __getitem__(self, name):
        r = self.get(name)
        if r is None:
            raise KeyError(name)
        return r

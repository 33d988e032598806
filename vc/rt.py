"""Run-time support for instrumented code: Python builtins over terms, lists
with symbolic tails, and the rules for loops of symbolic length."""
import builtins as _b
from fractions import Fraction
from . import terms as tm
from . import core
from . import snp
from .terms import T, ZERO, ONE, TRUE, FALSE, Unsupported, lift
from .core import CTX, index_var
from .snp import SArr, Store, Sel


class PyList(list):
    """A list; `sym` = (n, elem) stands for n further items after the concrete ones."""
    sym = None
    pend = None

    def _ok(self):
        if self.pend is not None:
            raise Unsupported('list read inside the loop that extends it')

    def append(self, x):
        if self.pend is not None:
            self.pend.append(x)
        elif self.sym is not None:
            raise Unsupported('append after a symbolic tail')
        else:
            list.append(self, x)

    def __len__(self):
        self._ok()
        if self.sym is not None:
            raise Unsupported('len of a list of symbolic length')
        return list.__len__(self)

    def slen(self):
        self._ok()
        n = list.__len__(self)
        return snp.dim(tm.add(self.sym[0], tm.const(n))) if self.sym is not None else n

    def __bool__(self):
        n = self.slen()
        return bool(n) if isinstance(n, int) else bool(tm.lt(ZERO, n))

    def __iter__(self):
        self._ok()
        if self.sym is not None:
            raise Unsupported('iteration over a list of symbolic length')
        return list.__iter__(self)

    def __getitem__(self, i):
        self._ok()
        if self.sym is None:
            if isinstance(i, T) and i.op != 'c':
                if i.sort == 'B':
                    raise Unsupported('boolean list index')
                return pick(list(list.__iter__(self)), i)
            if isinstance(i, Fraction):
                raise TypeError('list indices must be integers')
            r = list.__getitem__(self, i)
            return PyList(r) if isinstance(i, slice) else r
        n, f = self.sym
        m = list.__len__(self)
        if isinstance(i, slice):
            raise Unsupported('slice of a list of symbolic length')
        i = snp.norm_index(i, snp.dim(tm.add(n, tm.const(m))))
        if i.op == 'c' and tm.cval(i) < m:
            return list.__getitem__(self, int(tm.cval(i)))
        j = tm.add(i, tm.const(-m))
        if m and not CTX.implied(tm.le(ZERO, j)):
            raise Unsupported('index into a list with a symbolic tail')
        return f(j)

    def __setitem__(self, i, v):
        self._ok()
        if self.sym is not None:
            raise Unsupported('assignment into a list of symbolic length')
        list.__setitem__(self, i, v)

    def __symarray__(self):
        self._ok()
        if self.sym is None:
            return snp.asarr(tuple(list.__iter__(self)))
        if list.__len__(self):
            raise Unsupported('array of a list with a mixed tail')
        n, f = self.sym
        e0 = snp.asarr(f(ZERO))

        def g(idx):
            e = f(idx[0])
            return snp.asarr(e).get(idx[1:])
        return SArr((n,) + e0.shape, g, e0.kind)

    def __add__(self, o):
        self._ok()
        if self.sym is not None:
            raise Unsupported('list concatenation')
        return PyList(list.__add__(self, o))

    def __reduce__(self):
        return (PyList, (list(self),))


def pick(items, i):
    if _b.all(isinstance(x, (T, int, Fraction)) and not isinstance(x, bool) for x in items):
        r = lift(items[-1])
        for q in range(len(items) - 2, -1, -1):
            r = tm.ite(tm.eq(i, tm.const(q)), items[q], r)
        return r
    for q in range(len(items) - 1):
        if CTX.fork(tm.eq(i, tm.const(q))):
            return items[q]
    return items[-1]


class SIter:
    """n items, the k-th being elem(k)."""

    def __init__(self, n, elem):
        self.n = n
        self.elem = elem

    def __iter__(self):
        raise Unsupported('iteration of symbolic length')


class SRange(SIter):
    def __init__(self, lo, hi, st):
        lo, hi, st = lift(lo), lift(hi), lift(st)
        self.lo, self.st = lo, st
        n = tm.div(tm.add(hi, tm.neg(lo)), st)
        if not tm.is_int(n):
            n = tm.neg(tm.floor(tm.neg(n)))
        if not CTX.implied(tm.le(ZERO, n)):
            if not CTX.fork(tm.le(ZERO, n)):
                n = ZERO
        SIter.__init__(self, n, lambda k: tm.add(lo, tm.mul(st, k)))


UNROLL = 12


class LongRange:
    """A concrete range too long to unroll eagerly."""

    def __init__(self, r):
        self.r = r

    def __iter__(self):
        return iter(self.r)

    def __len__(self):
        return len(self.r)

    def __getitem__(self, i):
        return self.r[i]


def siter(it):
    """SIter for a symbolic iterable, else None."""
    if isinstance(it, SIter):
        return it
    if isinstance(it, LongRange):
        r = it.r
        return SIter(tm.const(len(r)), lambda k: tm.add(tm.const(r.start), tm.scale(r.step, k)))
    if isinstance(it, SArr):
        if it.ndim and not isinstance(it.shape[0], int):
            a = it
            return SIter(lift(a.shape[0]), lambda k: a[k])
        return None
    if isinstance(it, PyList):
        it._ok()
        if it.sym is not None:
            if list.__len__(it):
                raise Unsupported('iteration over a list with a mixed tail')
            return SIter(*it.sym)
    return None


def issym(it):
    return siter(it) is not None


# ------------------------------------------------------------------ builtins
def _ci(x):
    if isinstance(x, T) and x.op == 'c' and tm.cval(x).denominator == 1:
        return int(tm.cval(x))
    if isinstance(x, Fraction):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return x


def range_(*a):
    a = [_ci(x) for x in a]
    if _b.all(isinstance(x, int) for x in a):
        r = _b.range(*a)
        return LongRange(r) if len(r) > UNROLL else r
    for x in a:
        if not isinstance(x, (int, T)) or isinstance(x, T) and not tm.is_int(x):
            raise TypeError('range of a non-integer')
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    return SRange(lo, hi, st)


def len_(x):
    if isinstance(x, SArr):
        if not x.shape:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, PyList):
        return x.slen()
    if isinstance(x, SIter):
        return x.n
    return _b.len(x)


def enumerate_(it, start=0):
    s = siter(it)
    if s is None:
        return _b.enumerate(it, start)
    return SIter(s.n, lambda k: (tm.add(k, lift(start)), s.elem(k)))


def zip_(*its):
    ss = [siter(i) for i in its]
    if _b.all(s is None for s in ss):
        return _b.zip(*its)
    if _b.any(s is None for s in ss):
        raise Unsupported('zip of mixed lengths')
    n = ss[0].n
    for s in ss[1:]:
        if not snp.samedim(n, s.n):
            raise Unsupported('zip of different lengths')
    return SIter(n, lambda k: tuple(s.elem(k) for s in ss))


def reversed_(it):
    s = siter(it)
    if s is None:
        return _b.reversed(it)
    return SIter(s.n, lambda k: s.elem(tm.add(tm.add(s.n, tm.const(-1)), tm.neg(k))))


def list_(it=()):
    s = siter(it)
    if s is None:
        return PyList(it)
    if tm.isc(lift(s.n)):
        return PyList([s.elem(tm.const(i)) for i in _b.range(int(tm.cval(lift(s.n))))])
    l = PyList()
    l.sym = (s.n, s.elem)
    return l


def tuple_(it=()):
    if issym(it):
        return list_(it)
    return tuple(it)


def float_(x=0):
    if isinstance(x, SArr):
        return x._as_scalar()
    if isinstance(x, (T, Fraction)):
        return x
    if isinstance(x, (int, float)):
        return Fraction(x) if isinstance(x, int) else tm.frac(x)
    if isinstance(x, str):
        return Fraction(x)
    if isinstance(x, NameStr):
        return x.number()
    raise TypeError('float() argument must be a string or a real number')


class NameStr:
    """A string some of whose characters are arbitrary decimal digits."""

    def __init__(self, chars):
        self.chars = list(chars)

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        c = self.chars[i]
        c = c if isinstance(i, slice) else [c]
        if _b.all(isinstance(x, str) for x in c):
            return ''.join(c)
        return NameStr(c)

    def __eq__(self, o):
        if not isinstance(o, (str, NameStr)) or len(o) != len(self):
            return False
        r = TRUE
        for a, b in _b.zip(self.chars, o if isinstance(o, str) else o.chars):
            a, b = [lift(int(x)) if isinstance(x, str) and x.isdigit() else x for x in (a, b)]
            if isinstance(a, str) or isinstance(b, str):
                if not (isinstance(a, str) and isinstance(b, str) and a == b):
                    return False
            else:
                r = tm.band(r, tm.eq(a, b))
        return True if r is TRUE else False if r is FALSE else r

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else tm.bnot(r)

    __hash__ = None

    def __add__(self, o):
        return NameStr(self.chars + list(o if isinstance(o, str) else o.chars))

    def __radd__(self, o):
        return NameStr(list(o) + self.chars)

    def _map(f):
        return lambda self: NameStr([getattr(x, f)() if isinstance(x, str) else x for x in self.chars])

    upper, lower = _map('upper'), _map('lower')
    del _map

    def _ask(f):
        return lambda self: _b.all(getattr(x if isinstance(x, str) else '0', f)() for x in self.chars)

    isdigit, isnumeric, isdecimal, isalnum = _ask('isdigit'), _ask('isnumeric'), _ask('isdecimal'), _ask('isalnum')
    del _ask

    def startswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return _b.any(self[:len(q)] == q for q in ps)

    def number(self):
        v = ZERO
        for x in self.chars:
            if isinstance(x, str):
                if not x.isdigit():
                    raise ValueError('could not convert string to a number')
                x = lift(int(x))
            v = tm.add(tm.scale(10, v), x)
        return v


def int_(x=0, *a):
    if isinstance(x, SArr):
        x = x._as_scalar()
    if isinstance(x, T):
        return tm.trunc(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, NameStr) and not a:
        return x.number()
    return int(x, *a)


def round_(x, n=None):
    if isinstance(x, (T, SArr)):
        return snp.round_(x, n or 0)
    return _b.round(x, n) if n is not None else _b.round(x)


def _mm(name, lower):
    base = getattr(_b, name)

    def f(*a, **kw):
        if len(a) == 1:
            if isinstance(a[0], SArr):
                return (snp.amin if lower else snp.amax)(a[0])
            s = siter(a[0])
            if s is not None:
                raise Unsupported(name)
            items = list(a[0])
        else:
            items = list(a)
        if kw or not _b.any(isinstance(x, T) for x in items):
            return base(items, **kw)
        r = items[0]
        for x in items[1:]:
            r = (snp.smaller_of if lower else snp.larger_of)(r, x)
        return r
    return f


def sum_(it, start=0):
    if isinstance(it, SArr):
        if it.ndim == 1:
            return snp.sum_(it)
        if it.ndim > 1:
            return snp.sum_(it, 0)
    s = siter(it)
    if s is not None:
        return core.tsum(s.n, lambda k: lift(s.elem(k))) + start
    r = start
    for x in it:
        r = r + x
    return r


def abs_(x):
    return snp.absolute(x) if isinstance(x, SArr) else _b.abs(x)


def map_(f, *its):
    if len(its) == 1 and issym(its[0]):
        s = siter(its[0])
        return SIter(s.n, lambda k: f(s.elem(k)))
    return _b.map(f, *its)


def any_(it):
    if isinstance(it, SArr):
        return snp.any_(it)
    for x in it:
        if x:
            return True
    return False


def all_(it):
    if isinstance(it, SArr):
        return snp.all_(it)
    for x in it:
        if not x:
            return False
    return True


class _IntMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, int) or isinstance(x, T) and x.sort != 'B' and tm.is_int(x)

    def __call__(c, *a):
        return int_(*a)


class _FloatMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, (Fraction, float)) or isinstance(x, T) and x.sort != 'B' and not (x.op == 'v' and x.sort == 'I')

    def __call__(c, *a):
        return float_(*a)


class Int(metaclass=_IntMeta):
    pass


class Float(metaclass=_FloatMeta):
    pass


class _ListMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, list)

    def __call__(c, *a):
        return list_(*a)


class List(metaclass=_ListMeta):
    pass


class _TupMeta(type):
    def __instancecheck__(c, x):
        return isinstance(x, tuple)

    def __call__(c, *a):
        return tuple_(*a)


class Tuple(metaclass=_TupMeta):
    pass


snp.KINDS = {Int: 'i', Float: 'f'}


class FakeFile:
    def __init__(self, name, mode='r'):
        self.name = name
        self.mode = mode
        self.parts = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        pass

    def write(self, s):
        snp.FS.written.append(('write', self.name, self.mode, s))

    def flush(self):
        pass

    def read(self):
        if self.name in snp.FS.jsons or self.name in snp.FS.tables:
            raise Unsupported('file read')
        return snp.Text(snp.text_of(self.name))


def open_(name, mode='r', *a, **kw):
    if 'r' in mode and name not in snp.FS.jsons and name not in snp.FS.tables and not _b.any(w[1] == name for w in snp.FS.written):
        raise FileNotFoundError(name)
    snp.FS.written.append(('open', name, mode)) if 'r' not in mode else None
    return FakeFile(name, mode)


def print_(*a, **kw):
    pass


def builtin_overrides():
    return {'range': range_, 'len': len_, 'enumerate': enumerate_, 'zip': zip_, 'reversed': reversed_,
            'list': List, 'tuple': Tuple, 'float': Float, 'int': Int, 'round': round_, 'min': _mm('min', True),
            'max': _mm('max', False), 'sum': sum_, 'abs': abs_, 'map': map_, 'any': any_, 'all': all_,
            'open': open_, 'print': print_, 'pow': pow_, 'input': None}


# ------------------------------------------------------------------ helpers
def fr(b):
    if isinstance(b, bool):
        b = int(b)
    if isinstance(b, int):
        return Fraction(b)
    if isinstance(b, SArr) and b.kind == 'i':
        return b
    return b


def div_(a, b):
    if isinstance(b, (int, Fraction)) and b == 0:
        if isinstance(a, (T, SArr)):
            if isinstance(a, SArr):
                return snp.ew(snp.sdiv, a, ZERO)
            return snp.sdiv(a, ZERO)
        raise ZeroDivisionError('division by zero')
    if isinstance(b, int):
        b = Fraction(b)
    if isinstance(b, T) and not isinstance(a, SArr):
        note_div(b)
    return a / b


def note_div(b):
    pass


def pow_(a, b, m=None):
    if isinstance(a, (int, Fraction)) and isinstance(b, int) and not isinstance(a, bool):
        if b < 0:
            return Fraction(a) ** b
        return a ** b
    if isinstance(a, SArr) or isinstance(b, SArr):
        return snp.power(a, b)
    return tm.power(lift(a), lift(b))


def mklist(l):
    return PyList(l)


def comp(it, f):
    s = siter(it)
    if s is None:
        return PyList([f(x) for x in it])
    if tm.isc(lift(s.n)):
        return PyList([f(s.elem(tm.const(i))) for i in _b.range(int(tm.cval(lift(s.n))))])
    l = PyList()
    l.sym = (s.n, lambda k: f(s.elem(k)))
    return l


def helpers():
    return {'__div__': div_, '__fr__': fr, '__pow__': pow_, '__list__': mklist, '__comp__': comp,
            '__symloop__': symloop, '__issym__': issym, '__while__': while_}


# ------------------------------------------------------------------ object graph
class Poison:
    """The value of a variable an arbitrary iteration may not rely on."""

    def __init__(self, what):
        object.__setattr__(self, '_what', what)

    def _bad(self, *a, **k):
        raise Unsupported('loop-carried value of %s' % self._what)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __eq__ = __ne__ = __neg__ = __float__ = __int__ = __contains__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, n):
        self._bad()


_plain = (T, int, Fraction, float, str, bytes, type(None), bool, type, type(len), type(lambda: 0))


def walkable(o):
    m = type(o).__module__
    return hasattr(o, '__dict__') and (m.startswith('machup') or m.startswith('contracts') or getattr(type(o), '_walk', False))


class Graph:
    """Shallow copies of every mutable container reachable from the roots."""

    def __init__(self, roots):
        self.objs = {}
        self.stores = {}
        self.born = Store.made
        stack = list(roots.values())
        while stack:
            o = stack.pop()
            if isinstance(o, _plain):
                continue
            if isinstance(o, SArr):
                self.stores.setdefault(id(o.store), (o.store, o.store.fn))
                continue
            if isinstance(o, snp.RecArr):
                stack += list(o.fields.values())
                continue
            if isinstance(o, tuple):
                stack += list(o)
                continue
            if id(o) in self.objs:
                continue
            if isinstance(o, dict):
                self.objs[id(o)] = (o, dict(o))
                stack += list(o.values())
            elif isinstance(o, PyList):
                self.objs[id(o)] = (o, (list(list.__iter__(o)), o.sym, o.pend))
                stack += list(list.__iter__(o))
            elif isinstance(o, list):
                self.objs[id(o)] = (o, list(o))
                stack += list(o)
            elif walkable(o):
                self.objs[id(o)] = (o, dict(o.__dict__))
                stack += list(o.__dict__.values())

    def restore(self):
        for o, c in self.objs.values():
            if isinstance(o, dict):
                o.clear()
                o.update(c)
            elif isinstance(o, PyList):
                list.__setitem__(o, slice(None), c[0])
                o.sym = c[1]
                o.pend = c[2]
            elif isinstance(o, list):
                o[:] = c
            else:
                o.__dict__.clear()
                o.__dict__.update(c)
        for s, fn in self.stores.values():
            s.fn = fn

    def slots(self):
        """Current values: {(kind, id, key): value}."""
        out = {}
        for i, (o, c) in self.objs.items():
            if isinstance(o, dict):
                for k, v in o.items():
                    out[('item', i, k)] = v
            elif isinstance(o, PyList):
                out[('list', i, None)] = None
            elif isinstance(o, list):
                for k, v in enumerate(o):
                    out[('lst', i, k)] = v
            else:
                for k, v in o.__dict__.items():
                    out[('attr', i, k)] = v
        return out

    def set(self, key, v):
        kind, i, k = key
        o = self.objs[i][0]
        if kind == 'attr':
            o.__dict__[k] = v
        else:
            o[k] = v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Fraction, str)) and isinstance(b, (int, Fraction, str)) and type(a) == type(b):
        return a == b
    return False


def numeric(v):
    return isinstance(v, (T, int, Fraction)) or isinstance(v, SArr) and v.ndim == 0


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


def havoc_value(key, v):
    if isinstance(v, bool) or isinstance(v, T) and v.sort == 'B':
        return tm.var('h!%d' % core._next(), 'B')
    if numeric(v):
        v = lift(v)
        return tm.var('h!%d' % core._next(), 'I' if tm.is_int(v) else 'R')
    return Poison(str(key[-1]))


def sub_idx(fn, m, shift):
    """fn evaluated with the loop variables in m replaced, capture-avoiding in the indices."""
    def g(idx):
        r = fn(tuple(tm.subst(i, shift) for i in idx))
        return tm.subst(tm.subst(r, m), {v: k for k, v in shift.items()}) if isinstance(r, T) else r
    return g


def gen(v, m, ks):
    """Value v with the loop variables ks replaced by m."""
    if isinstance(v, T):
        return tm.subst(v, m)
    if isinstance(v, (int, Fraction, str, type(None), float)):
        return v
    if isinstance(v, tuple):
        return tuple(gen(x, m, ks) for x in v)
    if isinstance(v, slice):
        return slice(gen(v.start, m, ks), gen(v.stop, m, ks), gen(v.step, m, ks))
    if isinstance(v, SArr):
        if isinstance(v, Sel):
            raise Unsupported('selection carried out of a loop')
        shift = {k: tm.var(k.args[0] + "'", k.sort) for k in m}
        f = v.snap()
        return SArr([gen(d, m, ks) if isinstance(d, T) else d for d in v.shape], sub_idx(f, m, shift), v.kind)
    if isinstance(v, PyList) and v.sym is None:
        return PyList([gen(x, m, ks) for x in v])
    if isinstance(v, dict):
        return type(v)((k, gen(x, m, ks)) for k, x in v.items())
    return v


# ------------------------------------------------------------------ symbolic for
class Rec:
    pass


def symloop(it, body, get, set_, del_, bound, where):
    s = siter(it)
    n = lift(s.n)
    if n is ZERO:
        return None
    try:
        return _symloop(s, n, body, get, set_, del_, bound, where)
    except Unsupported:
        if tm.isc(n) and tm.cval(n) <= 400:
            for i in _b.range(int(tm.cval(n))):
                st = body(s.elem(tm.const(i)) if not isinstance(it, LongRange) else it.r[i])
                if st[0] == 'break':
                    break
                if st[0] == 'return':
                    return st
            return None
        raise


def _symloop(s, n, body, get, set_, del_, bound, where):
    loc0 = get()
    if not CTX.implied(tm.le(ONE, n)):
        if not CTX.fork(tm.le(ONE, n)):
            return None
    roots = dict(loc0)
    roots['__elem'] = s.elem(index_var('e', n)) if not isinstance(s, SRange) else None
    g0 = Graph(roots)
    slots0 = g0.slots()
    k = index_var('k', n)
    hav = {}       # slot -> havoc value
    lists = set()
    stores = {}    # id -> (store, H name)
    CTX.loop_depth += 1
    done = False
    rebind = {}    # local -> (array it holds throughout, the one it came with)
    try:
        for rnd in _b.range(8):
            paths, newslots, newstores, newlists = run_paths(s, k, body, get, set_, del_, bound, loc0, g0, slots0, hav, lists, stores, rebind)
            if not newslots and not newstores and not newlists:
                done = True
                break
            for key in [q for q in newslots if isinstance(newslots[q], Rebound)]:
                rebind_array(key[2], newslots.pop(key).kind, loc0, g0, rebind)
            for key in newslots:
                hav[key] = havoc_value(key, newslots[key])
            for i in newstores:
                st = newstores[i]
                stores[i] = (st, 'hst!%d' % uid())
            lists |= newlists
        if not done:
            raise Unsupported('%s: loop state does not stabilise' % where)
        restore(g0, loc0, set_, del_, bound)
        finish(k, n, paths, get, set_, del_, bound, loc0, g0, slots0, hav, lists, stores, where)
        for a, x0 in rebind.values():
            if _b.any(len([w for w in j if w[0] is a.store]) > 1 for _, _, _, j in paths):
                # the first pass wrote into the array the variable came with
                if x0.view is not None or CTX.journal:
                    raise Unsupported('%s: array written, then replaced' % where)
                x0.store.fn = snp.Fn(hfn(x0.store, 'hst!%d' % uid()))
    except BaseException:
        restore(g0, loc0, set_, del_, bound)
        raise
    finally:
        CTX.loop_depth -= 1
    return None


def restore(g0, loc0, set_, del_, bound):
    g0.restore()
    for x in bound:
        if x in loc0:
            set_(x, loc0[x])
        else:
            del_(x)


class Rebound:
    """A variable that holds another array of the same shape after a pass."""

    def __init__(self, kind):
        self.kind = kind


def rebind_array(x, kind, loc0, g0, rebind):
    """From here on the variable keeps one array, which every pass ends by filling with the new values: the
    same to everyone, as nothing else holds the arrays."""
    x0 = loc0[x]
    a = SArr(x0.shape, x0.snap(), kind)
    g0.stores[id(a.store)] = (a.store, a.store.fn)
    loc0[x] = a
    rebind[x] = (a, x0)


def holders(store, *roots):
    """Places among the roots, and what they reach, that hold the array."""
    seen = set()
    n = 0
    stack = list(roots)
    while stack:
        o = stack.pop()
        if isinstance(o, _plain):
            continue
        if isinstance(o, SArr):
            n += o.store is store
            continue
        if isinstance(o, tuple):
            stack += list(o)
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, snp.RecArr):
            stack += list(o.fields.values())
        elif isinstance(o, dict):
            stack += list(o.values())
        elif isinstance(o, PyList):
            stack += list(list.__iter__(o)) + list(o.pend or [])
        elif isinstance(o, list):
            stack += list(o)
        elif walkable(o):
            stack += list(o.__dict__.values())
    return n


def rebound(x, pre, post, loc0, loc, g0):
    """Rebound if the variable x may be treated so."""
    if not (isinstance(pre, SArr) and isinstance(post, SArr)) or not pre.ndim or pre.ndim != post.ndim or post.view is not None:
        return None
    if not _b.all(snp.samedim(p, q) for p, q in zip(pre.shape, post.shape)) or post.kind == 'O' or pre.kind == 'O':
        return None
    if post.store is pre.store or post.store.born <= g0.born:
        return None
    if holders(pre.store, *loc0.values()) != 1 or holders(post.store, *loc.values()) != 1:
        return None
    return Rebound(post.kind)


def run_paths(s, k, body, get, set_, del_, bound, loc0, g0, slots0, hav, lists, stores, rebind=None):
    paths = []
    newslots = {}
    newstores = {}
    newlists = set()

    def before():
        restore(g0, loc0, set_, del_, bound)
        for key, v in hav.items():
            if key[0] == 'local':
                if v is UNBOUND:
                    del_(key[2])
                else:
                    set_(key[2], v)
            else:
                g0.set(key, v)
        for i in lists:
            g0.objs[i][0].pend = []
        for i, (st, nm) in stores.items():
            st.fn = snp.Fn(hfn(st, nm))
        CTX.journal.append([])

    def run():
        st = body(s.elem(k))
        j = CTX.journal[-1]
        loc = get()
        for x, (a, x0) in (rebind or {}).items():
            v = loc.get(x)
            if v is not a:
                if rebound(x, a, v, loc0, loc, g0) is None:
                    raise Unsupported('loop-carried array %s' % x)
                a[...] = v
                set_(x, a)
                loc = get()
        return st, loc, g0.slots(), {i: list(g0.objs[i][0].pend) for i in lists}, list(j), {
            i: (g0.objs[i][0].pend if i in lists else list.__len__(o)) for i, (o, c) in g0.objs.items() if isinstance(o, PyList)}

    for conds, res, facts in CTX.explore(run, before):
        if res[0] == 'dead':
            continue
        st, loc, sl, pend, jour, lens = res[1]
        if st[0] != 'next':
            raise Unsupported('%s in a loop of symbolic length' % st[0])
        post = {}
        for x in bound:
            key = ('local', None, x)
            if x in loc:
                pre = hav.get(key, loc0.get(x, UNBOUND))
                if not same(loc[x], pre):
                    if key not in hav:
                        hav_new = loc0.get(x, UNBOUND)
                        if hav_new is UNBOUND:
                            hav[key] = UNBOUND     # unbound before the loop: a temporary
                        elif rebind is not None and rebound(x, loc0[x], loc[x], loc0, loc, g0):
                            newslots[key] = rebound(x, loc0[x], loc[x], loc0, loc, g0)
                        else:
                            newslots[key] = loc0[x]
                            newslots[key] = widen(loc0[x], loc[x])
                    post[key] = loc[x]
        for key, v in sl.items():
            if key[0] == 'list':
                continue
            pre = hav.get(key, slots0.get(key, UNBOUND))
            if not same(v, pre):
                if key not in hav:
                    if key not in slots0:
                        hav[key] = UNBOUND
                    else:
                        newslots[key] = widen(slots0[key], v)
                post[key] = v
        for i, l in lens.items():
            if i not in lists and l != len(g0.objs[i][1][0]):
                newlists.add(i)
        for w in jour:
            st_ = w[0]
            if id(st_) in g0.stores and id(st_) not in stores:
                newstores[id(st_)] = st_
            if id(st_) not in g0.stores and st_.born <= g0.born:
                raise Unsupported('a loop writes an array it does not reach')
        paths.append((tm.band(*conds) if conds else TRUE, post, pend, [w for w in jour if id(w[0]) in g0.stores]))
    return paths, newslots, newstores, newlists


class _Unbound:
    def __repr__(self):
        return 'unbound'


UNBOUND = _Unbound()


def widen(pre, post):
    if numeric(pre) and numeric(post) and tm.is_int(lift(pre)) and not tm.is_int(lift(post)):
        return tm.var('widen', 'R')
    return pre


def hfn(st, nm):
    if st.kind == 'O':
        def bad(idx):
            raise Unsupported('read of an object array written in the loop')
        return bad
    return lambda idx: tm.fn(nm, *idx)


def delta(v, h):
    """v - h, pushed through conditionals."""
    if v.op == 'ite':
        a, b = delta(v.args[1], h), delta(v.args[2], h)
        return tm.ite(v.args[0], a, b)
    return tm.add(v, tm.neg(h))


def hvars(t, hs):
    return {x for x in tm.subterms(t) if x in hs}


def free_index(ts, k):
    out = {}
    for t in ts:
        for x in tm.subterms(t):
            if x.op == 'v' and '!' in x.args[0] and x is not k:
                out[x] = 1
    return sorted(out, key=lambda x: x.id)


def finish(k, n, paths, get, set_, del_, bound, loc0, g0, slots0, hav, lists, stores, where):
    if not paths:
        raise core.Infeasible()
    # drop conditions common to every path
    keys = {}
    for _, post, _, _ in paths:
        for key in post:
            keys[key] = 1
    hs = {}
    for key, v in hav.items():
        if isinstance(v, T):
            hs[v] = key
    Hn = {nm: (st, i) for i, (st, nm) in stores.items()}

    merged = {}     # slot -> value after iteration k, in terms of k, havoc values
    opaque = {}
    for key in keys:
        vals = []
        for c, post, _, _ in paths:
            if key in post:
                vals.append((c, post[key]))
            else:
                pre = hav.get(key, UNBOUND)
                vals.append((c, pre))
        if _b.all(numeric(v) for _, v in vals):
            merged[key] = merge_terms(vals)
        elif _b.all(same(v, vals[0][1]) for _, v in vals) or len(vals) == 1:
            opaque[key] = vals[0][1]
        else:
            opaque[key] = Poison(str(key[-1]))

    # ---- loop-carried numeric slots
    start = {}      # havoc var -> function of iteration -> term at its start
    final = {}
    pend = {key: v for key, v in merged.items() if isinstance(hav.get(key), T)}

    def init(key):
        return lift(loc0[key[2]] if key[0] == 'local' else slots0[key])

    def resolve(t):
        m = {h: f(k) for h, f in start.items() if tm.occurs(t, h)}
        return tm.subst(t, m) if m else t

    hst_names = set(Hn)

    def has_hst(t):
        return _b.any(x.op == 'f' and x.args[0] in hst_names for x in tm.subterms(t))

    for h, key in list(hs.items()):
        if key not in merged:
            start[h] = (lambda v: lambda kk: v)(init(key))
    prog = True
    while prog:
        prog = False
        for key in list(pend):
            h = hav[key]
            v = resolve(pend[key])
            deps = hvars(v, hs)
            if has_hst(v):
                continue
            if v is h:
                start[h] = (lambda q: lambda kk: q)(init(key))
                final[key] = init(key)
            elif not deps:
                def f(kk, v=v, key=key):
                    if kk.op == 'c' and tm.cval(kk) == 0:
                        return init(key)
                    prev = tm.subst(v, {k: tm.add(kk, tm.const(-1))})
                    if CTX.implied(tm.le(ONE, kk)):
                        return prev
                    return tm.ite(tm.eq(kk, ZERO), init(key), prev)
                start[h] = f
                final[key] = tm.subst(v, {k: tm.add(n, tm.const(-1))})
            elif deps == {h} and running(v, h) and not hvars(running(v, h)[1], hs):
                name, g = running(v, h)

                def f(kk, name=name, g=g, key=key):
                    if kk.op == 'c' and tm.cval(kk) == 0:
                        return init(key)
                    j = index_var('m', n)
                    b, d = tm.bind(tm.subst(g, {k: j}), [j])
                    top = snp.extreme(name, tm._mk('lam', (1, b), 'L', d), kk)
                    i0 = init(key)
                    c = tm.lt(i0, top) if name == 'amax' else tm.lt(top, i0)
                    return tm.ite(tm.band(tm.lt(ZERO, kk), c), top, i0)
                start[h] = f
                final[key] = f(n)
            elif deps == {h}:
                d = delta(v, h)
                if h in hvars(d, hs):
                    continue
                if v.sort == 'B':
                    continue

                def f(kk, d=d, key=key):
                    j = index_var('s', n)
                    return tm.add(init(key), core.sumterm(kk, tm.subst(d, {k: j}), j))
                start[h] = f
                final[key] = f(n)
            else:
                continue
            del pend[key]
            prog = True
    stv = StoreLoop(k, n, paths, stores, Hn, resolve, hs, where)
    if pend:
        # mutual recurrences: one symbol per slot
        for key in pend:
            if pend[key].sort == 'B':
                raise Unsupported('%s: boolean recurrence' % where)
        raw = {key: resolve(v) for key, v in pend.items()}
        raw = {key: stv.resolve_reads(v) if has_hst(v) else v for key, v in raw.items()}
        fv = free_index(list(raw.values()) + [init(key) for key in raw], k)
        fv = [x for x in fv if x not in hs]
        names = {key: 'rec!%d' % uid() for key in raw}
        symm = {hav[key]: (lambda nm, key: lambda kk: rec_app(nm, kk, fv, init(key)))(names[key], key) for key in raw}
        start.update(symm)
        for key in raw:
            register_rec(names[key], k, fv, raw[key], symm, init(key))
            final[key] = symm[hav[key]](n)

    # ---- temporaries
    def final_term(t):
        """A value at the end of the last iteration."""
        t2 = resolve(t)
        if has_hst(t2):
            t2 = stv.resolve_reads(t2)
        return tm.subst(t2, {k: tm.add(n, tm.const(-1))})

    stv.start = start
    for key, v in merged.items():
        if key not in final:
            final[key] = final_term(v)
    for key, v in opaque.items():
        final[key] = gen_final(v, k, n, final_term)

    # ---- list tails
    tails = {}
    for i in lists:
        ls = [p[2][i] for p in paths]
        if not ls or _b.any(len(l) != len(ls[0]) for l in ls):
            raise Unsupported('%s: conditional append' % where)
        c = len(ls[0])
        if c != 1:
            raise Unsupported('%s: several appends per iteration' % where)
        vals = [(p[0], p[2][i][0]) for p in paths]
        tails[i] = merge_value(vals)

    # ---- apply
    restore(g0, loc0, set_, del_, bound)
    for key, v in final.items():
        if key[0] == 'local':
            set_(key[2], v)
        else:
            g0.set(key, v)
    stv.apply()
    for i, v in tails.items():
        lst = g0.objs[i][0]

        def elem(kk, v=v):
            return gen_at(v, k, kk, resolve, stv if Hn else None, has_hst)
        if list.__len__(lst) or lst.sym is not None:
            raise Unsupported('%s: append to a non-empty list' % where)
        lst.sym = (n, elem)


def running(v, h):
    """v == max(h, g) or min(h, g): ('amax', g) or ('amin', g)."""
    if v.op != 'ite' or v.sort == 'B':
        return None
    c, a, b = v.args
    g = b if a is h else a if b is h else None
    if g is None or c.op not in ('lt', 'le'):
        return None
    for name, q in (('amax', tm.add(h, tm.neg(g))), ('amin', tm.add(g, tm.neg(h)))):
        # taken when q < 0 (or <= 0: the same)
        for t in (tm.lt(q, ZERO), tm.le(q, ZERO)):
            if c is t and b is h:
                return name, g
            if tm.bnot(c) is t and a is h:
                return name, g
    return None


def merge_value(vals):
    if len(vals) == 1:
        return vals[0][1]
    if _b.all(numeric(v) for _, v in vals):
        return merge_terms(vals)
    if _b.all(isinstance(v, (tuple, PyList)) and len(v) == len(vals[0][1]) for _, v in vals):
        return type(vals[0][1])(merge_value([(c, v[j]) for c, v in vals]) for j in _b.range(len(vals[0][1])))
    if _b.all(isinstance(v, slice) for _, v in vals):
        return slice(*[merge_value([(c, getattr(v, a)) for c, v in vals]) for a in ('start', 'stop', 'step')])
    if _b.all(same(v, vals[0][1]) for _, v in vals):
        return vals[0][1]
    raise Unsupported('values of different kinds on different paths of a loop')


def deep(v, f):
    if isinstance(v, T):
        return f(v)
    if isinstance(v, (tuple, PyList)):
        return type(v)(deep(x, f) for x in v)
    if isinstance(v, slice):
        return slice(deep(v.start, f), deep(v.stop, f), deep(v.step, f))
    if isinstance(v, SArr):
        if isinstance(v, Sel):
            return v
        g = v.snap()
        return SArr([f(d) if isinstance(d, T) else d for d in v.shape], lambda idx: f(g(idx)) if isinstance(g(idx), T) else g(idx), v.kind)
    return v


def gen_at(v, k, kk, resolve, stv, has_hst):
    def f(t):
        t = resolve(t)
        if stv is not None and has_hst(t):
            t = stv.resolve_reads(t)
        return t
    return gen(deep(v, f), {k: kk}, [k])


def gen_final(v, k, n, final_term):
    last = tm.add(n, tm.const(-1))
    if isinstance(v, (T, SArr, tuple, PyList)) and not isinstance(v, Sel):
        if isinstance(v, SArr) and v.view is not None and not view_mentions(v, k):
            return v            # a view whose position does not depend on the iteration
        if isinstance(v, SArr) and v.view is not None:
            # a view of a surviving array, positioned by the last iteration
            view = [(w[0], tm.subst(w[1], {k: last})) if w[0] == 'fix' else
                    (w[0], w[1], tm.subst(lift(w[2]), {k: last}), tm.subst(lift(w[3]), {k: last})) for w in v.view]
            shp = [tm.subst(d, {k: last}) if isinstance(d, T) else d for d in v.shape]
            return SArr(shp, store=v.store, view=view)
        if isinstance(v, SArr):
            shift = {k: tm.var(k.args[0] + "'", k.sort)}
            f = v.snap()

            def g(idx):
                r = f(tuple(tm.subst(i, shift) for i in idx))
                if not isinstance(r, T):
                    return r
                return tm.subst(final_term(r), {shift[k]: k})
            return SArr([tm.subst(d, {k: last}) if isinstance(d, T) else d for d in v.shape], g, v.kind)
        if isinstance(v, T):
            return final_term(v)
        return type(v)(gen_final(x, k, n, final_term) for x in v)
    if isinstance(v, slice):
        return slice(*[gen_final(lift(x), k, n, final_term) if isinstance(x, T) else x for x in (v.start, v.stop, v.step)])
    return v


def view_mentions(v, k):
    for w in v.view:
        for x in w[1:]:
            if isinstance(x, T) and tm.occurs(x, k):
                return True
    return _b.any(isinstance(d, T) and tm.occurs(d, k) for d in v.shape)


def rec_app(nm, kk, fv, ini):
    kk = lift(kk)
    if kk.op == 'c' and tm.cval(kk) == 0:
        return ini
    return tm.fn(nm, kk, *fv)


def register_rec(nm, k, fv, v, symm, ini):
    """nm(0) = ini; nm(m+1) = v[k := m, h := rec(m)]."""
    holder = {}

    def body():
        if 'b' not in holder:
            holder['b'] = tm.subst(v, {h: f(k) for h, f in symm.items()})
        return holder['b']

    def unfold(prover, facts, kk, *args):
        m = dict(zip(fv, args))
        if kk.op == 'c':
            if tm.cval(kk) == 0:
                return tm.subst(ini, m)
            if tm.cval(kk) < 0:
                return None
        else:
            c, d = tm._lin(kk)
            if c < 1:
                return None
        m[k] = tm.add(kk, tm.const(-1))
        return tm.subst(body(), m)
    CTX.unfold[nm] = unfold
    CTX.recs[nm] = (k, fv, body, ini)


# ------------------------------------------------------------------ stores in loops
class Write:
    pass


class StoreLoop:
    """Effect of the iterations on the arrays that outlive the loop."""

    def __init__(self, k, n, paths, stores, Hn, resolve, hs, where):
        self.k, self.n = k, n
        self.where = where
        self.stores = stores
        self.Hn = Hn
        self.hs = hs
        self.resolve = resolve
        self.start = {}
        self.urec = {}
        self.ws = {i: [] for i in stores}
        self.rcache = {}
        for pno, (c, post, pend, jour) in enumerate(paths):
            for st, region, val, oldfn in jour:
                w = Write()
                w.path = pno
                w.cond, w.region, w.val, w.store = c, region, val, st
                w.rec = None
                w.closed = None
                w.tried = False
                w.busy = False
                self.ws[id(st)].append(w)
        self.old = {i: st.fn for i, (st, nm) in stores.items()}

    # region descriptions with havoc values resolved
    def reg(self, w):
        if getattr(w, 'r', None) is None:
            out = []
            for r in w.region:
                if r[0] == 'fix':
                    out.append(('fix', self.resolve(lift(r[1]))))
                else:
                    out.append(('rng', self.resolve(lift(r[1])), self.resolve(lift(r[2])), self.resolve(lift(r[3]))))
            w.r = out
            k = self.k
            w.axis = None
            for a, r in enumerate(out):
                if _b.any(tm.occurs(x, k) for x in r[1:]):
                    w.axis = a
                    break
        return w.r

    def invert(self, w, idx):
        """(iteration k0 that covers idx, conditions, range indices) for write w."""
        r = self.reg(w)
        k = self.k
        if w.axis is None:
            return None
        x = r[w.axis]
        i = idx[w.axis]
        pos = x[1]
        b = tm.subst(pos, {k: ZERO})
        a = tm.add(tm.subst(pos, {k: ONE}), tm.neg(b))
        lin = tm.add(pos, tm.neg(tm.add(b, tm.mul(a, k)))) is ZERO
        conds = []
        if x[0] == 'fix':
            if not lin or a.op != 'c':
                if lin:
                    q, rem = divrem(tm.add(i, tm.neg(b)), a)
                    if q is None:
                        raise Unsupported('%s: write position' % self.where)
                    k0 = q
                    conds.append(tm.eq(rem, ZERO))
                else:
                    raise Unsupported('%s: write position is not linear' % self.where)
            else:
                off = tm.add(i, tm.neg(b))
                k0 = tm.scale(1 / tm.cval(a), off)
                if _b.abs(tm.cval(a)) != 1:
                    conds.append(tm.eq(tm.imod(off, tm.const(_b.abs(tm.cval(a)))), ZERO))
        else:
            L = x[3]
            off = tm.add(i, tm.neg(b))
            if lin and a.op == 'c' and tm.isc(L) and tm.isc(x[2]):
                av, Lv, sv = tm.cval(a), tm.cval(L), tm.cval(x[2])
                # elements b + a*k + s*j, 0 <= j < L; disjoint iterations only
                if sv * Lv <= av:
                    rem = residue(off, tm.const(av))
                    k0 = tm.scale(1 / av, tm.add(off, tm.neg(rem)))
                elif sv >= av * 1 and sv > 0 and av > 0 and sv % av == 0:
                    # interleaved
                    rem = tm.imod(off, tm.const(sv))
                    raise Unsupported('%s: interleaved writes' % self.where)
                else:
                    raise Unsupported('%s: overlapping writes' % self.where)
            elif lin:
                q, rem = divrem(off, a)
                if q is None:
                    raise Unsupported('%s: write position' % self.where)
                k0 = q
            else:
                k0 = self.segof(w, pos, i)
        m = {k: k0}
        r0 = []
        for y in r:
            r0.append((y[0],) + tuple(tm.subst(z, m) for z in y[1:]))
        c2, vidx = snp.region_cond(r0, idx)
        conds += c2
        return k0, conds, vidx

    def segof(self, w, pos, i):
        """Iteration whose segment [start(k), start(k)+len(k)) contains i, read off from i's form."""
        k = self.k
        # start(k) = base + sum_{j<k} len(j) (+ ...): find sum terms in i with the same body
        sums = [x for x in tm._lin(pos)[1] if x.op == 'sum' and x.args[1] is k]
        if not sums:
            raise Unsupported('%s: segment start' % self.where)
        s0 = sums[0]
        for x, q in tm._lin(i)[1].items():
            if x.op == 'sum' and x.args[0] is s0.args[0]:
                return x.args[1]
        if tm.isc(i) or True:
            # index below the first segment's length
            L0 = tm.sum_open(s0, ZERO)
            if CTX.implied(tm.lt(i, L0)):
                return ZERO
        raise Unsupported('%s: index not tied to a segment' % self.where)

    def value(self, w, k0, vidx):
        """Value written by w at iteration k0 (reads of loop state resolved)."""
        shift = {self.k: tm.var(self.k.args[0] + "'", 'I')}
        ph = tuple(tm.subst(i, shift) for i in vidx)
        key = (id(w), ph)
        raw = self.rcache.get(key)
        if raw is None:
            raw = w.val(ph)
            if isinstance(raw, T):
                raw = self.resolve(raw)
            self.rcache[key] = raw
        if not isinstance(raw, T):
            return raw
        names = set(self.Hn)
        if _b.any(x.op == 'f' and x.args[0] in names for x in tm.subterms(raw)):
            raw = self.resolve_reads(raw, w)
        c = tm.subst(raw, {self.k: k0})
        if self.start:
            m = {h: f(k0) for h, f in self.start.items() if tm.occurs(c, h)}
            if m:
                c = tm.subst(c, m)
        return tm.subst(c, {shift[self.k]: self.k})

    def cond(self, w, k0):
        c = self.resolve(w.cond)
        if self.start:
            m = {h: f(self.k) for h, f in self.start.items() if tm.occurs(c, h)}
            if m:
                c = tm.subst(c, m)
        names = set(self.Hn)
        if _b.any(x.op == 'f' and x.args[0] in names for x in tm.subterms(c)):
            c = self.resolve_reads(c)
        return tm.subst(c, {self.k: k0})

    def resolve_reads(self, t, w=None):
        """Replace H(idx) = contents at the start of iteration k."""
        names = set(self.Hn)
        # innermost first
        for _ in _b.range(50):
            apps = [x for x in tm.subterms(t) if x.op == 'f' and x.args[0] in names]
            apps = [x for x in apps if not _b.any(y is not x and y.op == 'f' and y.args[0] in names
                                                  for q in x.args[1:] for y in tm.subterms(q))]
            if not apps:
                return t
            m = {}
            for x in apps:
                st, i = self.Hn[x.args[0]]
                if tm.free_bvars(x):
                    raise Unsupported('%s: reduction over an array written in the loop' % self.where)
                m[x] = self.before(i, x.args[1:])
            t = tm.subst(t, m)
        raise Unsupported('%s: loop reads' % self.where)

    def before(self, i, idx):
        """Contents of store i at idx at the start of iteration k."""
        return self.contents(i, idx, self.k, inner=True)

    def contents(self, i, idx, upto, inner=False):
        old = self.old[i]
        res = None
        ws = self.ws[i]
        acc = None
        cands = []
        for w in ws:
            self.reg(w)
            if w.axis is None:
                return self.unindexed(i, idx, upto)
            inv = self.invert(w, idx)
            k0, conds, vidx = inv
            cl = self.closed_form(w, k0, vidx, i)
            rng = [tm.le(tm.const(-1) if cl and cl[3] else ZERO, k0), tm.lt(k0, upto)]
            conds = [CTX.simp(c) for c in conds + rng]
            c = tm.band(*conds)
            if c is FALSE:
                continue
            if not CTX.prover.feasible(CTX.all_facts(c) + [c]):
                continue
            cands.append((w, k0, c, vidx))
        if not cands:
            return old(idx)
        k0s = {x[1] for x in cands}
        if len(k0s) > 1:
            # writes with different positions: they must not collide
            for a in _b.range(len(cands)):
                for b in _b.range(a):
                    if cands[a][1] is not cands[b][1]:
                        if CTX.prover.feasible(CTX.all_facts() + [tm.band(cands[a][2], cands[b][2])], 1500):
                            raise Unsupported('%s: colliding writes' % self.where)
        r = old(idx)
        groups = []
        for w, k0, c, vidx in cands:
            pc = self.cond(w, k0)
            if CTX.simp(pc) is FALSE:
                continue
            v = self.recval(w, k0, vidx, i) if w.closed or inner and self.reads_back(w, i, vidx) else self.value(w, k0, vidx)
            # later writes win: a group may only absorb a write when nothing between can differ
            for gq in groups:
                if gq[1] is v and gq[2] is c and (w.path not in gq[3]) and _b.all(
                        hq[1] is v or not (hq[3] & {w.path}) for hq in groups):
                    gq[0].append(pc)
                    gq[3].add(w.path)
                    break
            else:
                groups.append([[pc], v, c, {w.path}])
        for pcs, v, c, _ in groups:
            full = tm.band(c, disj(pcs))
            full = simp_and(full)
            if full is FALSE:
                continue
            if not isinstance(v, T):
                if full is TRUE:
                    r = v
                    continue
                if CTX.implied(full):
                    r = v
                    continue
                raise Unsupported('%s: conditional object store' % self.where)
            r = tm.ite(full, v, r)
        return r

    def closed_form(self, w, k0, vidx, i):
        if not w.tried:
            w.tried = True
            if _b.all(q.path == w.path or q.val is w.val for q in self.ws[i]) and self.reads_back(w, i, vidx):
                self.recval(w, k0, vidx, i)
        return w.closed

    def reads_back(self, w, i, vidx):
        """Does the value written by w depend on earlier iterations' contents?"""
        if w.rec is not None:
            return w.rec
        w.rec = False
        raw = w.val(vidx)
        names = set(self.Hn)
        if isinstance(raw, T):
            raw = self.resolve(raw)
            apps = [x for x in tm.subterms(raw) if x.op == 'f' and x.args[0] in names]
            for x in apps:
                st, j = self.Hn[x.args[0]]
                for w2 in self.ws[j]:
                    self.reg(w2)
                    if w2.axis is None:
                        w.rec = True
                        break
                    k0, conds, _ = self.invert(w2, x.args[1:])
                    c = tm.band(*(conds + [tm.le(ZERO, k0), tm.lt(k0, self.k)]))
                    if c is not FALSE and CTX.prover.feasible(CTX.all_facts(c) + [c]):
                        w.rec = True
                        break
        return w.rec

    def recval(self, w, k0, vidx, i):
        """Symbol for the value written by w at iteration k0, defined by unfolding."""
        if getattr(w, 'sym', None) is None:
            w.sym = 'rec!%d' % uid()
            w.ph = tuple(tm.var('ph!%d' % core._next(), 'I') for _ in vidx)
            holder = {}
            k = self.k
            raw0 = w.val(w.ph)
            fv = [x for x in free_index([self.resolve(raw0)], k) if x not in self.hs and x not in set(w.ph)]
            w.fv = fv
            nph = len(w.ph)

            def body():
                if 'b' not in holder:
                    holder['b'] = self.value(w, k, w.ph)
                return holder['b']

            def unfold(prover, facts, kk, *args):
                c, d = tm._lin(kk)
                if d and c < 0:
                    return None
                m = {k: kk}
                m.update(zip(w.ph, args[:nph]))
                m.update(zip(fv, args[nph:]))
                if not d and c < 0:
                    return None
                return tm.subst(body(), m)
            CTX.unfold[w.sym] = unfold
            CTX.recs[w.sym] = (k, list(w.ph) + fv, body, None)
            w.closed = self.telescope(w, body())
        if w.closed is not None:
            f, x0, step, _ = w.closed
            m = dict(zip(w.ph, vidx))
            j = index_var('s', self.n)
            return f(tm.add(tm.subst(x0, m), core.sumterm(tm.add(k0, ONE), tm.subst(step, {**m, self.k: j}), j)))
        return tm.fn(w.sym, k0, *(tuple(vidx) + tuple(w.fv)))

    def telescope(self, w, b):
        """Closed form of a recurrence x(k) = x(k-1) + g(k) or x(k)^2 = x(k-1)^2 + g(k), proved by induction:
        (root or identity, its inverse of the initial value, g)."""
        k = self.k
        R = tm.fn(w.sym, tm.add(k, tm.const(-1)), *(tuple(w.ph) + tuple(w.fv)))
        if {x for x in tm.subterms(b) if x.op == 'f' and x.args[0] == w.sym} != {R}:
            return None
        prev = {x for x in tm.subterms(b) if x.op == 'ite' and _b.any(y is R for y in x.args[1:])}
        if len(prev) != 1:
            return None
        P = prev.pop()
        x = tm.var('x!%d' % core._next(), 'R')
        b = tm.subst(b, {P: x})
        x0 = tm.subst(P, {k: ZERO})
        if tm.occurs(b, R) or tm.occurs(x0, R):
            return None
        # the earlier value is read at the position being written, which lies in the written region
        inside = set()
        for ph, r in zip(w.ph, [r for r in self.reg(w) if r[0] == 'rng']):
            inside |= {tm.le(ZERO, ph), tm.lt(ph, r[3])}
        cs = [c for c in (P.args[0].args if P.args[0].op == 'and' else (P.args[0],)) if c not in inside]
        later = tm.band(*[tm.subst(c, {k: tm.add(index_var('s', self.n), ONE)}) for c in cs])
        if not _b.any(CTX.simp(tm.subst(c, {k: ZERO})) is FALSE for c in cs) or P.args[1] is not R or not CTX.implied(later):
            return None
        x0 = tm.subst(tm.subst(P.args[2], {k: ZERO}), {c: TRUE for c in inside})
        for f, inv in ((lambda t: t, lambda t: t), (tm.sqrt, lambda t: tm.mul(t, t))):
            g = tm.add(inv(b), tm.neg(inv(x)))
            if not tm.occurs(g, x):
                # the value before the first is the one the sum starts from
                return f, inv(x0), g, f(inv(x0)) is x0
        return None

    def unindexed(self, i, idx, upto):
        """All writes to the store are at positions that do not move with the iteration."""
        ws = self.ws[i]
        k = self.k
        nm = self.stores[i][1]
        Happ = tm.fn(nm, *idx)
        # content after one iteration in terms of content before
        cur = Happ
        sh = {k: tm.var(k.args[0] + "'", 'I')}
        idx2 = tuple(tm.subst(x, sh) for x in idx)
        Happ = tm.fn(nm, *idx2)
        cur = Happ
        for w in ws:
            self.reg(w)
            if w.axis is not None:
                raise Unsupported('%s: mixed writes' % self.where)
            conds, vidx = snp.region_cond(self.reg(w), idx2)
            c = tm.band(*[CTX.simp(x) for x in conds], self.resolve(w.cond))
            if c is FALSE:
                continue
            v = w.val(vidx)
            if not isinstance(v, T):
                raise Unsupported('%s: object store' % self.where)
            v = self.resolve(v)
            # several writes in one iteration see each other through their own snapshots
            cur = tm.ite(c, v, cur)
        old = self.old[i](idx)
        names = set(self.Hn)

        def reads(t):
            return {x for x in tm.subterms(t) if x.op == 'f' and x.args[0] in names}
        back = {v: kk for kk, v in sh.items()}
        if cur is Happ:
            return old
        rs = reads(cur)
        if not rs:
            r = tm.subst(cur, {k: tm.add(upto, tm.const(-1))})
            r = tm.subst(r, back)
            if CTX.implied(tm.le(ONE, upto)):
                return r
            return tm.ite(tm.eq(upto, ZERO), old, r)
        d = delta(cur, Happ)
        if not reads(d):
            j = index_var('s', self.n)
            return tm.add(old, tm.subst(core.sumterm(upto, tm.subst(d, {k: j}), j), back))
        own = {x for x in rs if self.Hn[x.args[0]][1] == i}
        if not own:
            # written from what other arrays held when the iteration began
            r = tm.subst(tm.subst(self.resolve_reads(cur), {k: tm.add(upto, tm.const(-1))}), back)
            return r if CTX.implied(tm.le(ONE, upto)) else tm.ite(tm.eq(upto, ZERO), old, r)
        return self.recurrence(i, idx, upto)

    def recurrence(self, i, idx, upto):
        """Symbol for the contents of store i at the start of an iteration, defined by unfolding."""
        k = self.k
        if i not in self.urec:
            nm = self.stores[i][1]
            sym = 'rec!%d' % uid()
            ph = tuple(tm.var('ph!%d' % core._next(), 'I') for _ in idx)
            tm.declare(sym, 'R', False)
            cur = tm.fn(nm, *ph)
            for w in self.ws[i]:
                conds, vidx = snp.region_cond(self.reg(w), ph)
                c = tm.band(*[CTX.simp(x) for x in conds], self.resolve(w.cond))
                if c is not FALSE:
                    cur = tm.ite(c, self.resolve(w.val(vidx)), cur)
            old = self.old[i](ph)
            fv = [x for x in free_index([cur, old], k) if x not in self.hs and x not in set(ph)]
            self.urec[i] = (sym, fv)
            holder = {}

            def body():
                if 'b' not in holder:
                    holder['b'] = self.resolve_reads(cur)
                return holder['b']

            def unfold(prover, facts, kk, *args):
                c, d = tm._lin(kk)
                m = dict(zip(list(ph) + fv, args))
                if not d and c == 0:
                    return tm.subst(old, m)
                if c < 1:
                    return None
                m[k] = tm.add(kk, tm.const(-1))
                return tm.subst(body(), m)
            CTX.unfold[sym] = unfold
            CTX.recs[sym] = (k, list(ph) + fv, body, old)
        sym, fv = self.urec[i]
        if upto is ZERO:
            return self.old[i](idx)
        return tm.fn(sym, upto, *(tuple(idx) + tuple(fv)))

    def apply(self):
        for i, (st, nm) in self.stores.items():
            ws = self.ws[i]
            old = self.old[i]
            me = self

            def f(idx, i=i):
                return me.contents(i, idx, me.n)
            if CTX.journal:
                self.emit(i, st, f)
            st.fn = snp.Fn(f)

    def emit(self, i, st, f):
        """Tell the enclosing loop which region this loop rewrote."""
        ws = self.ws[i]
        k = self.k
        regs = []
        for w in ws:
            r = self.reg(w)
            if w.axis is None:
                region = list(r)
            else:
                region = []
                for a, x in enumerate(r):
                    if not _b.any(tm.occurs(z, k) for z in x[1:]):
                        region.append(x)
                        continue
                    pos = x[1]
                    b = tm.subst(pos, {k: ZERO})
                    stp = tm.add(tm.subst(pos, {k: ONE}), tm.neg(b))
                    if tm.add(pos, tm.neg(tm.add(b, tm.mul(stp, k)))) is not ZERO or a != w.axis:
                        raise Unsupported('%s: nested write region' % self.where)
                    if x[0] == 'fix':
                        region.append(('rng', b, stp, self.n))
                    else:
                        # consecutive blocks
                        if tm.add(stp, tm.neg(tm.mul(x[2], x[3]))) is ZERO:
                            region.append(('rng', b, x[2], tm.mul(self.n, x[3])))
                        elif stp.op == 'c' and tm.isc(x[3]) and tm.isc(x[2]) and tm.cval(x[3]) == 1:
                            region.append(('rng', b, stp, self.n))
                        else:
                            raise Unsupported('%s: nested block writes' % self.where)
            key = tuple(tuple(x) for x in region)
            if key not in [q for q, _ in regs]:
                regs.append((key, region))
        for key, region in regs:
            def val(ridx, region=region):
                it = iter(ridx)
                idx = tuple(r[1] if r[0] == 'fix' else tm.add(r[1], tm.mul(r[2], next(it))) for r in region)
                return f(idx)
            CTX.journal[-1].append((st, tuple(region), val, self.old[i]))


def residue(e, m):
    """e mod m, without the mod where e's remainder is in range as it stands."""
    r = tm.imod(e, m)
    if r.op == 'f' and r.args[0] == 'mod':
        a = r.args[1]
        if CTX.implied(tm.le(ZERO, a)) and CTX.implied(tm.lt(a, m)):
            return a
    return r


def disj(cs):
    """The disjunction of path conditions, resolving A&p, A&~p to A."""
    sets = []
    for c in cs:
        q = frozenset(c.args) if c.op == 'and' else frozenset() if c is TRUE else frozenset((c,))
        if q not in sets:
            sets.append(q)
    more = True
    while more:
        more = False
        for a in _b.range(len(sets)):
            for b in _b.range(a):
                x, y = sets[a], sets[b]
                dx, dy = x - y, y - x
                if not dx or not dy:
                    new = x if not dx else y         # one implies the other
                elif len(dx) == 1 and len(dy) == 1 and tm.bnot(next(iter(dx))) is next(iter(dy)):
                    new = x & y
                elif len(dx) == 1 and len(x) <= len(y) and tm.bnot(next(iter(dx))) in dy:
                    # x = A+p, y = A+~p+R: y can drop ~p
                    nb = y - {tm.bnot(next(iter(dx)))}
                    sets[b] = nb
                    more = True
                    break
                elif len(dy) == 1 and len(y) <= len(x) and tm.bnot(next(iter(dy))) in dx:
                    sets[a] = x - {tm.bnot(next(iter(dy)))}
                    more = True
                    break
                else:
                    continue
                sets = [s for i, s in enumerate(sets) if i not in (a, b)]
                if new not in sets:
                    sets.append(new)
                more = True
                break
            if more:
                break
    return tm.bor(*[tm.band(*s) if s else TRUE for s in sets])


def merge_terms(vals):
    """The value selected by exhaustive, exclusive path conditions."""
    groups = []
    for c, v in vals:
        v = lift(v)
        for g in groups:
            if g[1] is v:
                g[0].append(c)
                break
        else:
            groups.append([[c], v])
    r = groups[-1][1]
    for cs, v in reversed(groups[:-1]):
        r = tm.ite(disj(cs), v, r)
    return r


def simp_and(c):
    if c.op != 'and':
        c2 = CTX.simp(c)
        return TRUE if c2.op in ('le', 'lt', 'eq') and CTX.implied(c2) else c2
    out = []
    for x in c.args:
        y = CTX.simp(x)
        if y is not TRUE and not (y.op in ('le', 'lt', 'eq') and CTX.implied(y)):
            out.append(y)
    return tm.band(*out) if out else TRUE


def divrem(e, a):
    """e = a*q + r read off structurally (a symbolic); r must be the small part."""
    ca, da = tm._lin(a)
    # pick the leading term of a
    lead = max(da, key=lambda x: (tm.size(x), x.id))
    q = ZERO
    rest = e
    ct, whole = tm.content(a)
    for _ in _b.range(6):
        c, d = tm._lin(rest)
        hit = None
        if whole.op == '+':
            # a product with all of a, kept as it is
            for x, co in d.items():
                if x.op == '*' and _b.any(y is whole and ee >= 1 for y, ee in x.args):
                    hit = tm.scale(co / ct, tm.mul(x, tm.ipow(whole, -1)))
                    break
            if hit is not None:
                q = tm.add(q, hit)
                rest = tm.add(rest, tm.neg(tm.mul(hit, a)))
                continue
        for x, co in d.items():
            f = tm.mul(x, tm.ipow(lead, -1))
            if not tm.occurs(f, lead) and _b.all(y.op != '*' or _b.all(ee > 0 for _, ee in y.args) for y in tm.subterms(f)):
                hit = tm.scale(co / da[lead], f)
                break
        if hit is None:
            break
        q = tm.add(q, hit)
        rest = tm.add(rest, tm.neg(tm.mul(hit, a)))
    return q, rest


# ------------------------------------------------------------------ while
class NeedCut(BaseException):
    """The loop must be cut at its head (restart the exploration)."""


def truth(t):
    if isinstance(t, SArr):
        t = t._as_scalar()
    if isinstance(t, T) and t.op not in ('true', 'false', 'c'):
        t = CTX.simp(t) if t.sort == 'B' else t
    return _b.bool(t)


def while_(test, body, get, set_, del_, bound, where, forever=False):
    """Loops whose course is decided are run; others are cut at their head: the
    first passes are run as they are, any later one from an arbitrary state that
    is left by `CTX.induct` passes from an arbitrary state (counters keep the
    value the number of passes gives them).  That the loop ends is not proved."""
    p = CTX.induct
    n = 0
    forked = False
    while True:
        nf = CTX.nforks
        if not truth(test()):
            return None
        forked = forked or CTX.nforks > nf
        st = body(None)
        if st[0] == 'break':
            return None
        if st[0] == 'return':
            return st
        n += 1
        if where in CTX.cuts:
            if n == 1:
                loc0 = get()
                g0 = Graph(dict(loc0))
            if n == p + 1:
                break
        elif n > 60 or forked or forever and CTX.nforks > nf:
            raise NeedCut(where)
    # the head is cut where the second pass starts: pass 1+j starts in an arbitrary
    # state, and pass 1+j+p, the one considered, where p more passes lead
    restore(g0, loc0, set_, del_, bound)
    slots0 = g0.slots()
    for x in bound:
        if x in loc0:
            slots0[('local', None, x)] = loc0[x]
    j = tm.var('n!%d' % core._next(), 'I', nn=True)
    CTX.assume(tm.le(ZERO, j))
    stores = {}
    hav = {}

    def one(_):
        """One pass that goes on; paths that leave the loop are not followed."""
        try:
            if not truth(test()):
                raise core.Infeasible()
            st = body(None)
        except (Unsupported, tm.Unsupported):
            raise
        except Exception as e:
            if type(e).__name__ == 'Missing':
                raise
            raise core.Infeasible()
        if st[0] != 'next':
            raise core.Infeasible()
        return st

    def enter():
        restore(g0, loc0, set_, del_, bound)
        for key, v in hav.items():
            if key[0] == 'local':
                set_(key[2], v)
            else:
                g0.set(key, v)
        for i, (st, nm) in stores.items():
            st.fn = snp.Fn(hfn(st, nm))

    # what the passes change does not depend on the run: found once per way to get here
    objs, sts = list(g0.objs), list(g0.stores)
    memo = None
    if len(CTX.frames) == 1:
        fr = CTX.frames[-1]
        memo = (where, p, tuple(v for v, _ in fr.decisions[:fr.pos]))
    known = CTX.cut_memo.get(memo)
    if known is not None:
        for (kind, oi, k), step, was in known[0]:
            key = (kind, objs[oi] if oi is not None else None, k)
            hav[key] = tm.add(lift(slots0[key]), tm.mul(step, j)) if step is not None else anything(key, slots0[key], was, where)
        for i in known[1]:
            stores[sts[i]] = (g0.stores[sts[i]][0], 'hst!%d' % uid())
        enter()
        if not known[2]:
            raise core.Infeasible()
        facts = [tm.subst(c, {known[4]: j}) for c in known[3]]
    else:
        CTX.loop_depth += 1
        try:
            linear, paths = discover(one, enter, get, bound, g0, slots0, hav, stores, where, j)
            enter()
        finally:
            CTX.loop_depth -= 1
        facts = history(paths, j, hav)
        if memo is not None:
            CTX.cut_memo[memo] = ([((key[0], objs.index(key[1]) if key[1] is not None else None, key[2]), linear.get(key), hav[key]) for key in hav],
                                  [sts.index(i) for i in stores], len(paths), facts, j)
        if not paths:
            raise core.Infeasible()
    for c in facts:
        # holds in passes 1+t for 0 <= t < j+p, and for t = -1 if the first pass says so
        lo = -1 if CTX.implied(tm.subst(c, {j: tm.const(-1)})) else 0
        for a in [x for x in tm.subterms(c) if x.op in ('f', 'p') and _b.any(tm.occurs(y, j) for y in x.args[1:])]:
            add_history(a, c, j, lo, p)
    for _ in _b.range(p):
        one(None)
    if not truth(test()):
        return None
    st = body(None)
    if st[0] == 'break':
        return None
    if st[0] == 'return':
        return st
    raise core.Infeasible()           # covered by the next pass


def discover(one, enter, get, bound, g0, slots0, hav, stores, where, j):
    """The variables the passes change (hav, stores) and the counters among them."""
    linear = {}
    dropped = set()
    for rnd in _b.range(12):
        paths, new, news = cut_paths(one, enter, get, bound, g0, slots0, hav, stores, where)
        for key, (pre, post) in new.items():
            hav[key] = anything(key, pre, post, where)
        for i, st in news.items():
            stores[i] = (st, 'hst!%d' % uid())
        if new or news:
            continue
        more = False
        for key, h in list(hav.items()):
            if key in dropped:
                continue
            if key in linear:
                step = linear[key]
                if not _b.all(key in post and numeric(post[key]) and tm.add(lift(post[key]), tm.neg(h)) is step for _, post in paths):
                    dropped.add(key)
                    del linear[key]
                    hav[key] = anything(key, slots0[key], tm.var('widen', 'R'), where)
                    more = True
            elif isinstance(h, T) and h.op == 'v' and h.sort != 'B' and numeric(slots0[key]):
                ds = {tm.add(lift(post[key]), tm.neg(h)) if key in post and numeric(post[key]) else None for _, post in paths}
                if len(ds) == 1 and None not in ds:
                    d = ds.pop()
                    if tm.isc(d):
                        linear[key] = d
                        hav[key] = tm.add(lift(slots0[key]), tm.mul(d, j))
                        more = True
        if not more:
            return linear, paths
    raise Unsupported('%s: loop state does not stabilise' % where)


def cut_paths(one, enter, get, bound, g0, slots0, hav, stores, where):
    """The passes that go on, from an arbitrary head: what they change."""
    paths = []
    new = {}
    news = {}

    def before():
        enter()
        CTX.journal.append([])

    def run():
        one(None)
        j = CTX.journal[-1]
        return get(), g0.slots(), list(j), {i: list.__len__(o) for i, (o, c) in g0.objs.items() if isinstance(o, PyList)}

    for conds, res, facts in CTX.explore(run, before):
        if res[0] == 'dead':
            continue
        loc, sl, jour, lens = res[1]
        for x in bound:
            if x in loc:
                sl[('local', None, x)] = loc[x]
        post = {}
        for key in list(slots0) + [q for q in sl if q not in slots0]:
            if key[0] == 'list':
                continue
            if key not in slots0 or key not in sl:
                if key[0] == 'local' and key in sl:
                    post[key] = sl[key]
                    continue                    # not bound when the head was cut: stays so
                raise Unsupported('%s: the loop adds or removes %r' % (where, key[-1]))
            pre = hav.get(key, slots0[key])
            if not same(sl[key], pre):
                if key not in hav:
                    w = new.get(key)
                    new[key] = (slots0[key], sl[key] if w is None or tm_int(w[1]) else w[1])
                post[key] = sl[key]
        for i, l in lens.items():
            if l != len(g0.objs[i][1][0]):
                raise Unsupported('%s: list grows in the loop' % where)
        for w in jour:
            if id(w[0]) in g0.stores and id(w[0]) not in stores:
                news[id(w[0])] = w[0]
        paths.append((conds, post))
    return paths, new, news


def tm_int(v):
    return numeric(v) and tm.is_int(lift(v))


def anything(key, pre, post, where, depth=0):
    """An arbitrary value of the kind a loop-carried variable has."""
    if isinstance(pre, bool) or isinstance(pre, T) and pre.sort == 'B':
        if isinstance(post, bool) or isinstance(post, T) and post.sort == 'B':
            return tm.var('h!%d' % core._next(), 'B')
    elif numeric(pre) and numeric(post):
        return tm.var('h!%d' % core._next(), 'I' if tm_int(pre) and tm_int(post) else 'R')
    elif isinstance(pre, SArr) and isinstance(post, SArr) and pre.ndim == post.ndim and depth < 4:
        if _b.all(snp.samedim(a, b) for a, b in zip(pre.shape, post.shape)) and pre.kind == post.kind and pre.kind in 'fi':
            nm = 'h!%d' % core._next()
            if pre.kind == 'i':
                tm.declare(nm, 'I')
            return SArr(pre.shape, lambda idx: tm.fn(nm, *idx), pre.kind)
    elif isinstance(pre, tuple) and isinstance(post, tuple) and len(pre) == len(post) and depth < 4:
        return tuple(anything(key, a, b, where, depth + 1) for a, b in zip(pre, post))
    elif isinstance(pre, dict) and isinstance(post, dict) and set(pre) == set(post) and depth < 4:
        return {k: anything(key, pre[k], post[k], where, depth + 1) for k in pre}
    elif type(pre) is type(post) and isinstance(pre, list) and len(pre) == len(post) and depth < 4 and not getattr(pre, 'sym', None):
        return type(pre)([anything(key, a, b, where, depth + 1) for a, b in zip(pre, post)])
    elif isinstance(pre, (str, type(None), int)) and type(pre) is type(post) and pre == post:
        return pre
    return Poison(str(key[-1]))


def history(paths, j, hav):
    """Every earlier pass went on: as path axioms, in the passes' number."""
    sets = [frozenset(y for c in conds for y in (c.args if c.op == 'and' else (c,))) for conds, _ in paths]
    common = frozenset.intersection(*sets) if sets else frozenset()
    hs = {v for h in hav.values() if isinstance(h, T) for v in tm.subterms(h) if v.op == 'v' and '!' in v.args[0]} - {j}
    out = []
    for c in common:
        subs = tm.subterms(c)
        if j not in subs or _b.any(x in hs or x.op == 'v' and x.args[0].startswith('h!') for x in subs):
            continue
        if _b.any(x.op == 'f' and str(x.args[0]).startswith('h!') for x in subs):
            continue
        out.append(c)
    return out


def add_history(a, c, j, lo, p):
    pats = a.args[1:]

    def ax(*args):
        t = None
        for x, y in zip(pats, args):
            if not tm.occurs(x, j):
                continue
            b0 = tm.subst(x, {j: ZERO})
            d = tm.add(tm.subst(x, {j: ONE}), tm.neg(b0))
            if not tm.isc(d) or d is ZERO or tm.add(x, tm.neg(tm.add(b0, tm.mul(d, j)))) is not ZERO:
                return []
            t = tm.scale(1 / tm.cval(d), tm.add(y, tm.neg(b0)))
            break
        if t is None or not tm.is_int(t):
            return []
        if _b.any(tm.add(tm.subst(x, {j: t}), tm.neg(y)) is not ZERO for x, y in zip(pats, args)):
            return []
        return [tm.implies(tm.band(tm.le(tm.const(lo), t), tm.lt(t, tm.add(j, tm.const(p)))), tm.subst(c, {j: t}))]
    CTX.path_axiom(a.args[0], ax)

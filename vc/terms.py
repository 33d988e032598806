"""Hash-consed first-order terms over the reals, integers and booleans.

These are the terms the VC generator manipulates.  Constructors normalise
lightly (linear combinations over power products); the prover does the heavy
work.  Every rewrite done here is an identity of real arithmetic on the domain
where both sides are defined (denominators non-zero, radicands non-negative);
those definedness conditions are listed as an assumption in the evidence.
"""
from fractions import Fraction
import math

_table = {}
_count = [0]


class Unsupported(Exception):
    """The engine cannot interpret a construct: obligations stay undischarged."""


_fracs = {}


class T:
    __slots__ = ('op', 'args', 'id', 'sort', 'bd', 'nn', '_iv')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __hash__(s):
        return s.id + 0x10000000000     # the order of sets does not depend on addresses

    # ---- arithmetic -------------------------------------------------
    def __add__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else add(s, o)
    __radd__ = __add__

    def __sub__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else add(s, neg(o))

    def __rsub__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else add(o, neg(s))

    def __mul__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else mul(s, o)
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else div(s, o)

    def __rtruediv__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else div(o, s)

    def __floordiv__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else idiv(s, o)

    def __mod__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else imod(s, o)

    def __pow__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else power(s, o)

    def __rpow__(s, o):
        return power(_arg(o), s)

    def __neg__(s):
        return neg(s)

    def __pos__(s):
        return s

    def __abs__(s):
        return tabs(s)

    # ---- comparisons ------------------------------------------------
    def __lt__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else lt(s, o)

    def __le__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else le(s, o)

    def __gt__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else lt(o, s)

    def __ge__(s, o):
        o = _arg(o)
        return NotImplemented if o is None else le(o, s)

    def __eq__(s, o):
        if s.sort == 'B':
            if isinstance(o, bool):
                return s if o else bnot(s)
            if isinstance(o, T) and o.sort == 'B':
                return bor(band(s, o), band(bnot(s), bnot(o)))
        o = _arg(o)
        if o is None:
            return False
        return eq(s, o)

    def __ne__(s, o):
        r = s.__eq__(o)
        return (not r) if isinstance(r, bool) else bnot(r)

    def __and__(s, o):
        return band(s, o) if isinstance(o, (bool, T)) else NotImplemented
    __rand__ = __and__

    def __or__(s, o):
        return bor(s, o) if isinstance(o, (bool, T)) else NotImplemented
    __ror__ = __or__

    def __invert__(s):
        return bnot(s)

    def __bool__(s):
        if s.sort == 'B':
            return _fork(s)
        if s.op == 'c':
            return s.args[0] != 0
        return _fork(bnot(lift(eq(s, ZERO))))

    def __float__(s):
        if s.op == 'c':
            return float(s.args[0])
        raise Unsupported('float() of a symbolic value')

    def __int__(s):
        if s.op == 'c':
            return int(s.args[0])
        raise Unsupported('int() of a symbolic value')

    def __index__(s):
        if s.op == 'c' and s.args[0].denominator == 1:
            return int(s.args[0])
        raise Unsupported('index() of a symbolic value')

    def __round__(s, n=None):
        return fn('round', s, lift(n or 0))

    def __format__(s, spec):
        return '<sym>'

    def __repr__(s):
        return show(s, 6)

    def item(s):
        return s

    def copy(s):
        return s

    def __copy__(s):
        return s

    def __deepcopy__(s, memo):
        return s

    # numpy-scalar conveniences
    @property
    def shape(s):
        return ()

    @property
    def size(s):
        return 1

    @property
    def ndim(s):
        return 0

    def any(s):
        return s

    def all(s):
        return s


_forker = [None]


def _fork(b):
    if b.op == 'true':
        return True
    if b.op == 'false':
        return False
    if _forker[0] is None:
        raise Unsupported('branch on a symbolic condition outside a path')
    return _forker[0](b)


def _mk(op, args, sort, bd=0, nn=False):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort, t.bd, t.nn = op, args, sort, bd, nn
        t._iv = None
        _count[0] += 1
        t.id = _count[0]
        _table[key] = t
    return t


def const(q):
    q = Fraction(q)
    return _mk('c', (q,), 'R', 0, q >= 0)


def frac(x):
    """The decimal value a float literal denotes."""
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('non-finite constant')
        return Fraction(repr(x))
    return Fraction(x)


def _arg(o):
    if isinstance(o, T):
        return o
    if isinstance(o, bool):
        return const(int(o))
    if isinstance(o, (int, Fraction)):
        return const(o)
    if isinstance(o, float):
        return const(frac(o))
    return None


def lift(o):
    if isinstance(o, T):
        return o
    if isinstance(o, bool):
        return TRUE if o else FALSE
    r = _arg(o)
    if r is None:
        import numbers
        if isinstance(o, numbers.Number):
            return const(frac(float(o)))
        sc = getattr(o, '_as_scalar', None)
        if sc is not None:
            return sc()
        raise Unsupported('cannot use %r as a number' % type(o).__name__)
    return r


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
ZERO = const(0)
ONE = const(1)
HALF = Fraction(1, 2)


def var(name, sort='R', nn=False):
    return _mk('v', (name,), sort, 0, nn)


PI = var('pi', 'R', True)


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def is_int(t):
    if t._iv is None:
        t._iv = _isint(t)
    return t._iv


def _isint(t):
    if t.op == 'c':
        return t.args[0].denominator == 1
    if t.op == 'v':
        return t.sort == 'I'
    if t.op == '+':
        c, es = t.args
        return c.denominator == 1 and all(q.denominator == 1 and is_int(x) for x, q in es)
    if t.op == '*':
        return all(e > 0 and e.denominator == 1 and is_int(x) for x, e in t.args)
    if t.op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op == 'f':
        return t.sort == 'I'
    if t.op == 'sum':
        return is_int(t.args[0])
    return False


# ---------------------------------------------------------------------------
# linear combinations and power products
# ---------------------------------------------------------------------------
def _lin(t):
    """t as (constant, {atomic-or-product term: coefficient})."""
    if t.op == 'c':
        return t.args[0], {}
    if t.op == '+':
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}


def _mklin(c, d):
    es = [(x, q) for x, q in d.items() if q != 0]
    if not es:
        return const(c)
    if c == 0 and len(es) == 1 and es[0][1] == 1:
        return es[0][0]
    es.sort(key=lambda p: p[0].id)
    bd = max(x.bd for x, _ in es)
    nn = c >= 0 and all(q > 0 and x.nn for x, q in es)
    if c > 0 and not nn:
        # a constant that outweighs terms of absolute value at most one
        rest = [(x, q) for x, q in es if not (q > 0 and x.nn)]
        nn = sum(abs(q) for _, q in rest) <= c and all(_unit(x) for x, _ in rest)
    return _mk('+', (c, tuple(es)), 'R', bd, nn)


def _unit(x):
    if x.op == 'f':
        return x.args[0] in ('sin', 'cos', 'tanh')
    if x.op == '*':
        return all(e > 0 and _unit(y) for y, e in x.args)
    return False


def add(a, b):
    if a.sort == 'B':
        a = ite(a, ONE, ZERO)
    if b.sort == 'B':
        b = ite(b, ONE, ZERO)
    ca, da = _lin(a)
    cb, db = _lin(b)
    if not da:
        if ca == 0:
            return b
        return _mklin(ca + cb, db)
    if not db:
        if cb == 0:
            return a
        return _mklin(ca + cb, da)
    for x, q in db.items():
        n = da.get(x, 0) + q
        if n == 0:
            da.pop(x, None)
        else:
            da[x] = n
    return _mklin(ca + cb, da)


def addn(ts):
    c = Fraction(0)
    d = {}
    for t in ts:
        t = lift(t)
        ct, dt = _lin(t)
        c += ct
        for x, q in dt.items():
            n = d.get(x, 0) + q
            if n == 0:
                d.pop(x, None)
            else:
                d[x] = n
    return _mklin(c, d)


def scale(q, t):
    q = Fraction(q)
    if q == 0:
        return ZERO
    if q == 1:
        return t
    c, d = _lin(t)
    return _mklin(c * q, {x: v * q for x, v in d.items()})


def neg(t):
    if t.sort == 'B':
        t = ite(t, ONE, ZERO)
    return scale(-1, t)


def content(t):
    """t = q * primitive; the primitive's leading coefficient is 1."""
    if t.op == 'c':
        return t.args[0], ONE
    if t.op == '+':
        c, es = t.args
        q = es[0][1]
        if q == 1:
            return Fraction(1), t
        return q, scale(1 / q, t)
    return Fraction(1), t


def _powers(t):
    """t (content already removed) as {atom: exponent}."""
    if t.op == '*':
        return dict(t.args)
    if t is ONE:
        return {}
    return {t: Fraction(1)}


def _mkprod(d):
    fs = []
    coef = Fraction(1)
    extra = []
    for x, e in d.items():
        if e == 0:
            continue
        if x.op == 'f' and x.args[0] == 'abs' and e.denominator == 1 and e % 2 == 0:
            extra.append((x.args[1], e))
            continue
        if x.op == 'c':
            v = x.args[0]
            if e.denominator == 1:
                coef *= v ** int(e)
                continue
            # keep 0<=e<1 for numeric roots
            fl = e.numerator // e.denominator
            if fl:
                coef *= v ** fl
            fs.append((x, e - fl))
            continue
        fs.append((x, e))
    if extra:
        r = _mkprod(dict(fs))
        for x, e in extra:
            r = mul(r, ipow(x, int(e)))
        return scale(coef, r)
    if not fs:
        return const(coef)
    if len(fs) == 1 and fs[0][1] == 1:
        return scale(coef, fs[0][0])
    fs.sort(key=lambda p: p[0].id)
    bd = max(x.bd for x, _ in fs)
    nn = all(x.nn or e.denominator == 2 or (e.denominator == 1 and e % 2 == 0) for x, e in fs)
    return scale(coef, _mk('*', tuple(fs), 'R', bd, nn))


def mul(a, b):
    if a.sort == 'B':
        a = ite(a, ONE, ZERO)
    if b.sort == 'B':
        b = ite(b, ONE, ZERO)
    if a.op == 'c':
        return scale(a.args[0], b)
    if b.op == 'c':
        return scale(b.args[0], a)
    if a.op == '+':
        g, r = factor(a)
        if g:
            return mul(_mkprod(g), mul(r, b))
    if b.op == '+':
        g, r = factor(b)
        if g:
            return mul(mul(a, r), _mkprod(g))
    qa, pa = content(a)
    qb, pb = content(b)
    d = _powers(pa)
    for x, e in _powers(pb).items():
        n = d.get(x, 0) + e
        if n == 0:
            d.pop(x, None)
        else:
            d[x] = n
    return scale(qa * qb, _mkprod(d))


_FAC = {}
POS = set()      # variables and functions assumed strictly positive


def factor(t):
    """t = product of its first component (atom -> exponent) with its second."""
    if t.op != '+' or t.args[0] or len(t.args[1]) < 2:
        return {}, t
    r = _FAC.get(t)
    if r is None:
        g = None
        for x, _ in t.args[1]:
            d = dict(x.args) if x.op == '*' else {x: Fraction(1)}
            g = d if g is None else {y: min(e, d[y]) for y, e in g.items() if y in d}
            if not g:
                break
        g = {y: e for y, e in g.items() if y.op != 'c'}
        if g:
            inv = _mkprod({y: -e for y, e in g.items()})
            r = g, addn([scale(q, mul(x, inv)) for x, q in t.args[1]])
        else:
            r = {}, t
        _FAC[t] = r
    return r


def surely_pos(x, e):
    """x**e > 0 wherever it is defined, given the declared signs."""
    if x in POS or x.op == 'f' and x.args[0] in POS:
        return True
    return e < 0 and (x.nn or e.denominator == 2 or e.denominator == 1 and e % 2 == 0)


def posfactor(*ts):
    """The terms without their common factors that are strictly positive."""
    if any(t.op == 'c' and t.args[0] for t in ts):
        return ts
    g = None
    for t in ts:
        if t is ZERO:
            continue
        if t.op == '+' and len(t.args[1]) > 1:
            d = factor(t)[0]
        else:
            d = _powers(content(t)[1])
        g = d if g is None else {y: min(e, d[y]) for y, e in g.items() if y in d}
    g = {y: e for y, e in (g or {}).items() if y.op != 'c' and surely_pos(y, e)}
    if not g:
        return ts
    inv = _mkprod({y: -e for y, e in g.items()})
    return [addn([scale(q, mul(x, inv)) for x, q in t.args[1]]) if t.op == '+' else mul(t, inv) for t in ts]


def ipow(t, n):
    if n == 0:
        return ONE
    if t.op == '+' and n != 1:
        g, r = factor(t)
        if g:
            return mul(_mkprod({y: e * n for y, e in g.items()}), ipow(r, n))
    if t.op == 'c':
        if n < 0 and t.args[0] == 0:
            raise ZeroDivisionError('division by zero')
        return const(t.args[0] ** n)
    q, p = content(t)
    return scale(q ** n, _mkprod({x: e * n for x, e in _powers(p).items()}))


def div(a, b):
    if b.sort == 'B':
        b = ite(b, ONE, ZERO)
    if b.op == 'c':
        if b.args[0] == 0:
            raise ZeroDivisionError('division by zero')
        if a.sort == 'B':
            a = ite(a, ONE, ZERO)
        return scale(1 / b.args[0], a)
    return mul(a, ipow(b, -1))


def _rootsplit(q):
    """sqrt(q) = p * sqrt(r), q > 0 rational, r square-free integer."""
    n = q.numerator * q.denominator
    p = Fraction(1, q.denominator)
    r = 1
    f = 2
    m = n
    while f * f <= m and f < 10000:
        k = 0
        while m % f == 0:
            m //= f
            k += 1
        p *= f ** (k // 2)
        if k % 2:
            r *= f
        f += 1
    s = math.isqrt(m)
    if s * s == m:
        p *= s
    else:
        r *= m
    return p, r


def sqrt(t):
    if t.op == 'c':
        v = t.args[0]
        if v < 0:
            raise ValueError('math domain error')
        if v == 0:
            return ZERO
        p, r = _rootsplit(v)
        if r == 1:
            return const(p)
        return scale(p, _mkprod({const(r): HALF}))
    if t.op == '+':
        g, _ = factor(t)
        g = {y: e if y.nn or e.denominator != 1 else Fraction(2 * int(e / 2)) for y, e in g.items()}
        g = {y: e for y, e in g.items() if e}
        if g:
            inv = _mkprod({y: -e for y, e in g.items()})
            r = addn([scale(q, mul(x, inv)) for x, q in t.args[1]])
            out = ONE
            for y, e in g.items():
                out = mul(out, _mkprod({y: e / 2}) if y.nn or e.denominator != 1 else ipow(tabs(y), int(e / 2)))
            return mul(out, sqrt(r))
    q, pt = content(t)
    if q < 0 and pt.op != '+':
        # keep the sign inside
        return _mkprod({t: HALF}) if abs(q) == 1 else mul(sqrt(const(abs(q))), _mkprod({scale(-1, pt): HALF}))
    if q < 0:
        q, pt = -q, scale(-1, pt)
    front = sqrt(const(q))
    out = ONE
    inner = {}
    for x, e in _powers(pt).items():
        if x.op == 'c':
            out = mul(out, power(x, const(e / 2)) if e.denominator == 1 and e % 2 == 0 else _mkprod({x: e / 2}))
            continue
        if e.denominator == 1 and e % 2 == 0:
            out = mul(out, ipow(tabs(x), int(e / 2)))
        elif x.nn or e.denominator != 1:
            out = mul(out, _mkprod({x: e / 2}))
        else:
            k = (e - 1) / 2 if e > 0 else (e + 1) / 2
            # x^e = x^(2k) * x^(+-1)
            if k:
                out = mul(out, ipow(tabs(x), int(k)))
            inner[x] = e - 2 * k
    if inner:
        m = _mkprod(inner)
        out = mul(out, _mkprod({m: HALF}))
    return mul(front, out)


def power(a, b):
    if b.op == 'c':
        e = b.args[0]
        if e.denominator == 1:
            return ipow(a, int(e))
        if e.denominator == 2:
            return ipow(sqrt(a), int(e * 2))
        if a.op == 'c' and a.args[0] == 1:
            return ONE
        return fn('pow', a, b)
    return fn('pow', a, b)


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------
def _leadneg(t):
    if t.op == 'c':
        return t.args[0] < 0
    if t.op == '+':
        return t.args[1][0][1] < 0
    return False


def _mkf(name, args, sort='R', nn=False):
    bd = max([x.bd for x in args], default=0)
    return _mk('f', (name,) + tuple(args), sort, bd, nn)


def tabs(t):
    if t.sort == 'B':
        return ite(t, ONE, ZERO)
    if t.op == 'c':
        return const(abs(t.args[0]))
    if t.nn:
        return t
    if t.op == '+':
        g, r = factor(t)
        if g:
            return mul(tabs(_mkprod(g)), tabs(r))
    q, p = content(t)
    d = _powers(p)
    if len(d) == 1 and list(d.values())[0] == 1:
        x = list(d)[0]
        if x.nn:
            return scale(abs(q), x)
        if x.op == '+' and neg(x).nn:
            return scale(-abs(q), x)
        return scale(abs(q), _mkf('abs', (x,), 'I' if is_int(x) else 'R', True))
    out = ONE
    for x, e in d.items():
        if x.nn or e.denominator != 1 or e % 2 == 0:
            out = mul(out, _mkprod({x: e}))
        else:
            out = mul(out, _mkprod({_mkf('abs', (x,), 'R', True): e}))
    return scale(abs(q), out)


def _pimult(t):
    """t == r*pi with rational r -> r, else None."""
    if t.op == 'c':
        return Fraction(0) if t.args[0] == 0 else None
    if t is PI:
        return Fraction(1)
    if t.op == '+' and t.args[0] == 0 and len(t.args[1]) == 1 and t.args[1][0][0] is PI:
        return t.args[1][0][1]
    return None


def _sinpi(r):
    r = r % 2
    s = 1
    if r >= 1:
        r -= 1
        s = -1
    if r == 0:
        return ZERO
    if r == HALF:
        return const(s)
    if r in (Fraction(1, 6), Fraction(5, 6)):
        return const(Fraction(s, 2))
    if r in (Fraction(1, 4), Fraction(3, 4)):
        return scale(Fraction(s, 2), sqrt(const(2)))
    if r in (Fraction(1, 3), Fraction(2, 3)):
        return scale(Fraction(s, 2), sqrt(const(3)))
    return None


def sin(t):
    r = _pimult(t)
    if r is not None:
        v = _sinpi(r)
        if v is not None:
            return v
    if t.op == '+' and t.args[0] == 0 or t.op in ('c',):
        if _leadneg(t):
            return neg(sin(neg(t)))
    elif t.op == '+' and _leadneg(t):
        return neg(sin(neg(t)))
    if t.op == 'f':
        if t.args[0] == 'acos':
            return sqrt(add(ONE, neg(ipow(t.args[1], 2))))
        if t.args[0] == 'asin':
            return t.args[1]
        if t.args[0] == 'atan':
            return div(t.args[1], sqrt(add(ONE, ipow(t.args[1], 2))))
    return _mkf('sin', (t,))


def cos(t):
    r = _pimult(t)
    if r is not None:
        v = _sinpi(r + HALF)
        if v is not None:
            return v
    if _leadneg(t):
        t = neg(t)
    if t.op == 'f':
        if t.args[0] == 'acos':
            return t.args[1]
        if t.args[0] == 'asin':
            return sqrt(add(ONE, neg(ipow(t.args[1], 2))))
        if t.args[0] == 'atan':
            return div(ONE, sqrt(add(ONE, ipow(t.args[1], 2))))
    return _mkf('cos', (t,))


def tan(t):
    if t.op == 'f' and t.args[0] == 'atan':
        return t.args[1]
    return div(sin(t), cos(t))


def _odd(name):
    def f(t):
        if t is ZERO:
            return ZERO
        if _leadneg(t):
            return neg(_mkf(name, (neg(t),)))
        return _mkf(name, (t,))
    return f


atan = _odd('atan')
tanh = _odd('tanh')
sinh = _odd('sinh')
asin = _odd('asin')


def acos(t):
    if t is ONE:
        return ZERO
    if t is ZERO:
        return scale(HALF, PI)
    return _mkf('acos', (t,), 'R', True)


def exp(t):
    if t is ZERO:
        return ONE
    return _mkf('exp', (t,), 'R', True)


def log(t):
    if t is ONE:
        return ZERO
    return _mkf('log', (t,))


def sign(t):
    if t.op == 'c':
        v = t.args[0]
        return const((v > 0) - (v < 0))
    q, p = content(t)
    s = 1 if q > 0 else -1
    return scale(s, _mkf('sign', (p,), 'I'))


def atan2(y, x):
    if y.op == 'c' and x.op == 'c' and y.args[0] == 0 and x.args[0] > 0:
        return ZERO
    y, x = posfactor(y, x)
    return _mkf('atan2', (y, x))


def floor(t):
    if t.op == 'c':
        return const(math.floor(t.args[0]))
    if is_int(t):
        return t
    return _mkf('floor', (t,), 'I', t.nn)


def trunc(t):
    if t.op == 'c':
        return const(math.trunc(t.args[0]))
    if is_int(t):
        return t
    if t.nn:
        return floor(t)
    return ite(lt(t, ZERO), neg(floor(neg(t))), floor(t))


def imod(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] % b.args[0])
    if b.op == 'c' and b.args[0] > 0 and b.args[0].denominator == 1:
        m = b.args[0]
        c, d = _lin(a)
        if all(is_int(x) for x in d) and c.denominator == 1 and all(q.denominator == 1 for q in d.values()):
            d2 = {x: q % m for x, q in d.items() if q % m}
            c2 = c % m
            if not d2:
                return const(c2)
            return _mkf('mod', (_mklin(c2, d2), b), 'I', True)
    return _mkf('mod', (a, b), 'I' if is_int(a) and is_int(b) else 'R', b.nn)


def idiv(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] // b.args[0])
    if is_int(a) and is_int(b) and b.op != 'c':
        return _mkf('idiv', (a, b), 'I')
    return floor(div(a, b))


_sorts = {}


def fn(name, *args, sort=None, nn=False):
    """Application of an uninterpreted (or not further simplified) function."""
    args = tuple(lift(a) for a in args)
    if name == 'enum' and args[1].op == 'f' and args[1].args[0] == 'rank' and args[1].args[1] is args[0]:
        return args[1].args[2]
    if name == 'rank' and args[1].op == 'f' and args[1].args[0] == 'enum' and args[1].args[1] is args[0]:
        return args[1].args[2]
    if name == 'round' and is_int(args[0]) and isc(args[1]) and cval(args[1]) >= 0:
        return args[0]
    key = name
    if sort is None:
        sort = _sorts.get(key, ('R', False))[0]
    if not nn:
        nn = _sorts.get(key, ('R', False))[1]
    return _mkf(name, args, sort, nn)


def declare(name, sort='R', nn=False):
    _sorts[name] = (sort, nn)


for _n in ('enum', 'rank', 'count', 'argsel', 'floor', 'segof'):
    declare(_n, 'I', True)


# ---------------------------------------------------------------------------
# booleans
# ---------------------------------------------------------------------------
def _cmpnorm(t, signed):
    c, d = _lin(t)
    if not d:
        return t
    x = min(d, key=lambda y: y.id)
    q = abs(d[x]) if signed else d[x]
    return scale(1 / q, t)


def _tosum(a):
    return ite(a, ONE, ZERO) if a.sort == 'B' else a


def lt(a, b):
    d = add(_tosum(a), neg(_tosum(b)))
    if d.op == 'c':
        return TRUE if d.args[0] < 0 else FALSE
    if d.nn:
        return FALSE
    if is_int(d):
        return le_(add(d, ONE))
    d = _cmpnorm(posfactor(d)[0] if d.op == '+' else d, True)
    if d.nn:
        return FALSE
    return _mk('lt', (d,), 'B', d.bd)


def le_(d):
    if d.op == 'c':
        return TRUE if d.args[0] <= 0 else FALSE
    m = neg(d)
    if m.nn:
        return TRUE
    if d.nn and d.op == '+' and d.args[0] > 0:
        return FALSE
    d = _cmpnorm(d, True)
    if is_int(neg(d)) or True:
        c, l = _lin(d)
        if l and all(is_int(x) and q.denominator == 1 for x, q in l.items()):
            # tighten: c + l <= 0  <=>  l <= -c
            c2 = -Fraction(math.floor(-c))
            d = _mklin(c2, l)
    return _mk('le', (d,), 'B', d.bd)


def le(a, b):
    return le_(add(_tosum(a), neg(_tosum(b))))


def eq(a, b):
    if a is b:
        return TRUE
    d = add(_tosum(a), neg(_tosum(b)))
    if d.op == 'c':
        return TRUE if d.args[0] == 0 else FALSE
    d = _cmpnorm(d, False)
    if d.nn and d.op == '+' and d.args[0] > 0:
        return FALSE
    c, l = _lin(d)
    if c.denominator != 1 and all(is_int(x) and q.denominator == 1 for x, q in l.items()):
        return FALSE
    return _mk('eq', (d,), 'B', d.bd)


def bnot(b):
    if isinstance(b, bool):
        return FALSE if b else TRUE
    if b.op == 'true':
        return FALSE
    if b.op == 'false':
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'lt':
        return le_(neg(b.args[0]))
    if b.op == 'le':
        return lt(neg(b.args[0]), ZERO)
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return _mk('not', (b,), 'B', b.bd)


def _flat(op, bs):
    out = []
    for b in bs:
        b = lift(b)
        if b.sort != 'B':
            b = bnot(eq(b, ZERO))
        if b.op == op:
            out.extend(b.args)
        else:
            out.append(b)
    return out


def band(*bs):
    s = {}
    for b in _flat('and', bs):
        if b.op == 'true':
            continue
        if b.op == 'false':
            return FALSE
        s[b] = 1
    for b in s:
        if bnot(b) in s:
            return FALSE
    l = sorted(s, key=lambda x: x.id)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return _mk('and', tuple(l), 'B', max(x.bd for x in l))


def bor(*bs):
    s = {}
    for b in _flat('or', bs):
        if b.op == 'false':
            continue
        if b.op == 'true':
            return TRUE
        s[b] = 1
    for b in s:
        if bnot(b) in s:
            return TRUE
    l = sorted(s, key=lambda x: x.id)
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return _mk('or', tuple(l), 'B', max(x.bd for x in l))


def implies(a, b):
    return bor(bnot(lift(a)), lift(b))


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c.sort != 'B':
        c = bnot(eq(c, ZERO))
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a is b:
        return a
    if a.sort == 'B' or b.sort == 'B':
        if a.sort != 'B':
            a = bnot(eq(a, ZERO))
        if b.sort != 'B':
            b = bnot(eq(b, ZERO))
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b), 'R', max(c.bd, a.bd, b.bd), a.nn and b.nn)


def pred(name, *args):
    args = tuple(lift(a) for a in args)
    return _mk('p', (name,) + args, 'B', max([x.bd for x in args], default=0))


# ---------------------------------------------------------------------------
# binders: 'sum' (body, n) sums #d over 0..n-1; 'lam' (k, body)
# ---------------------------------------------------------------------------
_fresh = [0]


def fresh(prefix='k', sort='I'):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def bvar(d):
    return var('#%d' % d, 'I')


def bind(body, vs):
    """Close body over the temporaries vs; returns (body', depth)."""
    d = body.bd
    m = {}
    for n, v in enumerate(vs):
        m[v] = bvar(d + n + 1)
    return subst(body, m), d + len(vs)


def tsum(n, f):
    """sum_{k=0}^{n-1} f(k)."""
    n = lift(n)
    if isc(n):
        return addn([f(const(k)) for k in range(int(cval(n)))])
    k = fresh('s')
    return sumterm(n, f(k), k)


def sumterm(n, body, k):
    body = lift(body)
    c, d = _lin(body)
    out = []
    if c:
        out.append(scale(c, n))
    for x, q in d.items():
        out.append(scale(q, _sum1(n, x, k)))
    return addn(out)


def _sum1(n, x, k):
    if not occurs(x, k):
        return mul(n, x)
    # pull k-free factors out
    free = ONE
    if x.op == '*':
        inn = {}
        for y, e in x.args:
            if occurs(y, k):
                inn[y] = e
            else:
                free = mul(free, _mkprod({y: e}))
        x = _mkprod(inn)
        q, x = content(x)
        free = scale(q, free)
    elif x.op == 'ite' and not occurs(x.args[0], k):
        return ite(x.args[0], sumterm(n, x.args[1], k), sumterm(n, x.args[2], k))
    b, d = bind(x, [k])
    d2 = max(d, n.bd)
    s = _mk('sum', (b, n), 'R', max(d, n.bd), x.nn)
    return mul(free, s)


def sum_open(t, v):
    """body of a sum term with its bound variable replaced by v."""
    b, n = t.args
    return subst(b, {bvar(b_depth(t)): v})


def b_depth(t):
    # the bound variable of a sum has the index of the body's inner depth + 1
    return _inner(t.args[0] if t.op == 'sum' else t.args[1]) + 1


def _inner(b):
    """Binder depth of a term ignoring free bound variables: its bd field."""
    return b.bd


def lam(nargs, f):
    vs = [fresh('l') for _ in range(nargs)]
    body = lift(f(*vs))
    b, d = bind(body, vs)
    return _mk('lam', (nargs, b), 'L', max(d, 0))


def lam_apply(l, *idx):
    n, b = l.args
    d = b.bd
    return subst(b, {bvar(d + i + 1): lift(x) for i, x in enumerate(idx)})


_fb = {}


def free_bvars(t):
    """Depths of the bound variables free in t (non-empty only inside a binder's body)."""
    r = _fb.get(t.id)
    if r is None:
        if t.op == 'v':
            n = t.args[0]
            r = frozenset((int(n[1:]),)) if n.startswith('#') else frozenset()
        elif t.op == 'sum':
            b, n = t.args
            r = (free_bvars(b) - {b.bd + 1}) | free_bvars(n)
        elif t.op == 'lam':
            k, b = t.args
            r = free_bvars(b) - {b.bd + i + 1 for i in range(k)}
        else:
            r = frozenset().union(*[free_bvars(x) for x in kids(t)])
        _fb[t.id] = r
    return r


_occ = {}


def occurs(t, v):
    key = (t.id, v.id)
    r = _occ.get(key)
    if r is None:
        if t is v:
            r = True
        else:
            r = any(occurs(x, v) for x in kids(t))
        _occ[key] = r
    return r


def kids(t):
    o = t.op
    if o in ('c', 'v', 'true', 'false'):
        return ()
    if o == '+':
        return tuple(x for x, _ in t.args[1])
    if o == '*':
        return tuple(x for x, _ in t.args)
    if o in ('f', 'p'):
        return t.args[1:]
    if o == 'lam':
        return (t.args[1],)
    return t.args


def rebuild(t, ks):
    try:
        return _rebuild(t, ks)
    except ZeroDivisionError:
        # a division by zero that became visible by substitution: a value about
        # which nothing is known (and which no specification mentions)
        return fn('undef', const(t.id), *ks[:1])


def _rebuild(t, ks):
    o = t.op
    if o == '+':
        return addn([const(t.args[0])] + [scale(q, y) for (x, q), y in zip(t.args[1], ks)])
    if o == '*':
        r = ONE
        for (x, e), y in zip(t.args, ks):
            if y is x:
                r = mul(r, _mkprod({x: e}))
            elif e.denominator == 1:
                r = mul(r, ipow(y, int(e)))
            elif e.denominator == 2:
                r = mul(r, ipow(sqrt(y), int(2 * e)))
            else:
                r = mul(r, fn('pow', y, const(e)))
        return r
    if o == 'f':
        return apply_fn(t.args[0], ks, t.sort, t.nn)
    if o == 'p':
        return pred(t.args[0], *ks)
    if o == 'lt':
        return lt(ks[0], ZERO)
    if o == 'le':
        return le_(ks[0])
    if o == 'eq':
        return eq(ks[0], ZERO)
    if o == 'and':
        return band(*ks)
    if o == 'or':
        return bor(*ks)
    if o == 'not':
        return bnot(ks[0])
    if o == 'ite':
        return ite(*ks)
    raise AssertionError(o)


_fbuild = {'sin': sin, 'cos': cos, 'atan': atan, 'tanh': tanh, 'acos': acos, 'asin': asin, 'exp': exp,
           'log': log, 'sign': sign, 'abs': tabs, 'atan2': atan2, 'floor': floor, 'sinh': sinh,
           'mod': imod, 'idiv': idiv}


def apply_fn(name, ks, sort, nn):
    b = _fbuild.get(name)
    if b is not None:
        return b(*ks)
    if name in ('enum', 'rank', 'round'):
        return fn(name, *ks, sort=sort)
    return _mkf(name, tuple(ks), sort, nn)


def subst(t, m):
    if not m:
        return t
    memo = {}
    keys = list(m)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if x.op in ('c', 'v', 'true', 'false'):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if not any(occurs(x, k) for k in keys):
            memo[x] = x
            return x
        if x.op in ('sum', 'lam'):
            r = _subst_binder(x, go)
        else:
            r = rebuild(x, [go(y) for y in kids(x)])
        memo[x] = r
        return r
    return go(t)


def _subst_binder(x, go):
    # re-open with fresh variables, substitute, close again: canonical again
    if x.op == 'sum':
        b, n = x.args
        k = fresh('s')
        body = subst(b, {bvar(b.bd + 1): k})
        return sumterm(go(n), go(body), k)
    nargs, b = x.args
    vs = [fresh('l') for _ in range(nargs)]
    body = subst(b, {bvar(b.bd + i + 1): v for i, v in enumerate(vs)})
    nb, d = bind(go(body), vs)
    return _mk('lam', (nargs, nb), 'L', d)


def map_term(t, f, memo=None):
    """Bottom-up rewrite by f (applied to rebuilt nodes); binders re-closed."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('c', 'v', 'true', 'false'):
            r = f(x)
        elif x.op in ('sum', 'lam'):
            r = f(_subst_binder(x, go))
        else:
            r = f(rebuild(x, [go(y) for y in kids(x)]))
        memo[x] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def size(t):
    return len(subterms(t))


# ---------------------------------------------------------------------------
# printing / numeric evaluation
# ---------------------------------------------------------------------------
def show(t, depth=8):
    if depth <= 0:
        return '..'
    o = t.op
    if o == 'c':
        return str(t.args[0])
    if o == 'v':
        return t.args[0]
    if o in ('true', 'false'):
        return o
    d = depth - 1
    if o == '+':
        c, es = t.args
        parts = [] if c == 0 else [str(c)]
        for x, q in es:
            parts.append(show(x, d) if q == 1 else '%s*%s' % (q, show(x, d)))
        return '(' + ' + '.join(parts) + ')'
    if o == '*':
        return '*'.join(show(x, d) if e == 1 else '%s^%s' % (show(x, d), e) for x, e in t.args)
    if o in ('f', 'p'):
        return '%s(%s)' % (t.args[0], ', '.join(show(x, d) for x in t.args[1:]))
    if o == 'lt':
        return '%s < 0' % show(t.args[0], d)
    if o == 'le':
        return '%s <= 0' % show(t.args[0], d)
    if o == 'eq':
        return '%s == 0' % show(t.args[0], d)
    return '%s[%s]' % (o, '; '.join(show(x, d) if isinstance(x, T) else str(x) for x in t.args))


class EvalError(Exception):
    pass


def evaluate(t, env, funcs, memo=None):
    """Numeric value; env: var name -> value, funcs: name -> callable(*args)."""
    import numpy as np
    memo = {} if memo is None else memo

    def go(x, loc):
        key = (x.id, tuple(sorted(loc.items()))) if loc and x.bd >= 0 else x.id
        if key in memo:
            return memo[key]
        r = ev(x, loc)
        memo[key] = r
        return r

    def ev(x, loc):
        o = x.op
        if o == 'c':
            return float(x.args[0])
        if o == 'v':
            n = x.args[0]
            if n in loc:
                return loc[n]
            if x is PI:
                return math.pi
            if n in env:
                return env[n]
            raise EvalError('free variable ' + n)
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == '+':
            return float(x.args[0]) + sum(float(q) * go(y, loc) for y, q in x.args[1])
        if o == '*':
            r = 1.0
            for y, e in x.args:
                v = go(y, loc)
                r = r * (v ** int(e) if e.denominator == 1 else v ** float(e))
            return r
        if o == 'lt':
            return go(x.args[0], loc) < 0
        if o == 'le':
            return go(x.args[0], loc) <= 0
        if o == 'eq':
            return go(x.args[0], loc) == 0
        if o == 'and':
            return all(go(y, loc) for y in x.args)
        if o == 'or':
            return any(go(y, loc) for y in x.args)
        if o == 'not':
            return not go(x.args[0], loc)
        if o == 'ite':
            return go(x.args[1], loc) if go(x.args[0], loc) else go(x.args[2], loc)
        if o == 'sum':
            b, n = x.args
            nm = '#%d' % (b.bd + 1)
            tot = 0.0
            for k in range(int(round(go(n, loc)))):
                tot += go(b, dict(loc, **{nm: k}))
            return tot
        if o == 'lam':
            nargs, b = x.args
            names = ['#%d' % (b.bd + i + 1) for i in range(nargs)]
            return lambda *idx: go(b, dict(loc, **dict(zip(names, idx))))
        if o in ('f', 'p'):
            name = x.args[0]
            a = [go(y, loc) for y in x.args[1:]]
            if name in funcs:
                return funcs[name](*a)
            if name == 'linsolve':
                n = int(round(a[0]))
                A = np.array([[a[1](i, j) for j in range(n)] for i in range(n)])
                B = np.array([a[2](i) for i in range(n)])
                return float(np.linalg.solve(A, B)[int(round(a[3]))])
            if name in ('count', 'enum', 'rank', 'exists'):
                raise EvalError(name)
            f = getattr(math, name, None)
            if name == 'sign':
                return float(np.sign(a[0]))
            if name == 'abs':
                return abs(a[0])
            if name == 'mod':
                return a[0] % a[1]
            if name == 'floor':
                return math.floor(a[0])
            if f is None:
                raise EvalError('function ' + name)
            return f(*a)
        raise EvalError(o)
    return go(t, {})


class _AnyEnv:
    """A value for every variable, drawn from its name."""

    def __init__(self, seed):
        self.seed = seed
        self.ints = set()

    def __contains__(self, n):
        return True

    def __getitem__(self, n):
        h = hash((self.seed, n)) & 0xffffff
        return 2 + h % 3 if n in self.ints else 0.35 + 1.3 * h / 0x1000000


class _AnyFuncs:
    def __init__(self, seed):
        self.seed = seed

    def __contains__(self, n):
        return n not in _KNOWN and getattr(math, n, None) is None

    def __getitem__(self, n):
        def f(*a):
            k = tuple(x(1, *[2] * (x.__code__.co_argcount - 1)) if callable(x) else round(float(x), 7) for x in a)
            h = hash((self.seed, n, k)) & 0xffffff
            return 0.35 + 1.3 * h / 0x1000000
        return f


_KNOWN = {'sign', 'abs', 'mod', 'floor'}


def probe(t, seed=1):
    """Value of t under an arbitrary interpretation (a heuristic: equal terms
    have equal probes; used only to order proof attempts)."""
    env = _AnyEnv(seed)
    for x in subterms(t):
        if x.op == 'v' and x.sort == 'I':
            env.ints.add(x.args[0])
    try:
        return evaluate(t, env, _AnyFuncs(seed))
    except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError, RecursionError, AttributeError):
        return None

"""A symbolic stand-in for the parts of numpy the verified code uses.

Arrays have shapes whose entries are integers or integer terms, and an element
function from index terms to terms.  Views share a Store with their base, so
in-place updates are visible exactly as in numpy.
"""
import sys
import types
from fractions import Fraction
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE, Unsupported, lift
from .core import CTX, index_var, tsum, lam, axiom

newaxis = None
KINDS = {}


def dimlift(d):
    return d if isinstance(d, int) else lift(d)


def isint(d):
    return isinstance(d, int) or (isinstance(d, T) and d.op == 'c')


def dim(d):
    """Normalise: python int when constant."""
    if isinstance(d, T):
        return int(tm.cval(d)) if d.op == 'c' else d
    if isinstance(d, Fraction):
        return int(d)
    if isinstance(d, bool):
        return int(d)
    return int(d)


def samedim(a, b):
    a, b = dim(a), dim(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if a is b:
        return True
    e = tm.eq(lift(a), lift(b))
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    return CTX.implied(e)


class Fn:
    """Memoised element function."""
    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def __call__(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.f(idx)
            if not isinstance(r, T) and isinstance(r, (int, float, Fraction)):
                r = lift(r)
            self.memo[idx] = r
        return r


class Store:
    __slots__ = ('shape', 'fn', 'kind', 'ver', '__weakref__', 'tag', 'born')
    made = 0

    def __init__(self, shape, fn, kind='f'):
        self.shape = shape
        self.fn = fn if isinstance(fn, Fn) else Fn(fn)
        self.kind = kind
        self.tag = None
        Store.made += 1
        self.born = Store.made

    def write(self, region, val):
        """region: per axis ('fix', t) | ('rng', start, step, length);
        val: function of the tuple of range indices (one per 'rng' axis)."""
        if CTX.journal:
            CTX.journal[-1].append((self, region, val, self.fn))
        self.fn = Fn(overlay(self.fn, region, val, self.kind))


def region_cond(region, idx):
    conds = []
    vidx = []
    for r, s in zip(region, idx):
        if r[0] == 'fix':
            conds.append(tm.eq(s, r[1]))
        else:
            _, start, step, length = r
            off = tm.add(s, tm.neg(lift(start)))
            st = lift(step)
            if st is ONE:
                v = off
            elif st.op == 'c':
                m = tm.imod(off, tm.const(abs(tm.cval(st))))
                conds.append(tm.eq(m, ZERO))
                v = tm.scale(1 / tm.cval(st), off)
            else:
                raise Unsupported('symbolic slice step')
            conds.append(tm.le(ZERO, v))
            conds.append(tm.lt(v, lift(length)))
            vidx.append(v)
    return conds, tuple(vidx)


def overlay(old, region, val, kind='f'):
    def f(idx):
        conds, vidx = region_cond(region, idx)
        c = tm.band(*[CTX.simp(x) for x in conds]) if conds else TRUE
        if c is TRUE:
            return val(vidx)
        if c is FALSE:
            return old(idx)
        v = val(vidx)
        o = old(idx)
        if not isinstance(v, T) or not isinstance(o, T):
            return v if CTX.fork(c) else o
        return tm.ite(c, v, o)
    return f


def scalar_fn(v):
    return lambda idx: v


class SArr:
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, shape, fn=None, kind='f', store=None, view=None):
        self.shape = tuple(dim(d) for d in shape)
        self.store = store if store is not None else Store(self.shape, fn, kind)
        self.view = view          # None or list per store axis

    # ------------------------------------------------------------ access
    @property
    def kind(self):
        return self.store.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return {'f': float64, 'i': int_, 'b': bool_, 'O': object_}.get(self.kind, self.kind)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.ravel()

    def sidx(self, idx):
        if self.view is None:
            return idx
        out = []
        for v in self.view:
            if v[0] == 'fix':
                out.append(v[1])
            else:
                _, ax, start, step = v
                i = idx[ax]
                out.append(tm.add(lift(start), tm.mul(lift(step), i)))
        return tuple(out)

    def get(self, idx):
        """Element at a tuple of index terms (current contents)."""
        return self.store.fn(self.sidx(idx))

    def snap(self):
        """Current element function, immune to later writes."""
        fn = self.store.fn
        if self.view is None:
            return fn
        sidx = self.sidx
        return lambda idx: fn(sidx(idx))

    def region(self):
        if self.view is None:
            return tuple(('rng', ZERO, ONE, lift(d)) for d in self.shape), tuple(range(self.ndim))
        reg = []
        axes = []
        for v in self.view:
            if v[0] == 'fix':
                reg.append(('fix', v[1]))
            else:
                _, ax, start, step = v
                reg.append(('rng', lift(start), lift(step), lift(self.shape[ax])))
                axes.append(ax)
        return tuple(reg), tuple(axes)

    def assign(self, value):
        value = asarr(value)
        vf = value.snap()
        vs = value.shape
        n = len(self.shape)
        if len(vs) > n:
            # leading ones may be dropped
            extra = len(vs) - n
            if any(not (isinstance(d, int) and d == 1) for d in vs[:extra]):
                raise ValueError('could not broadcast input array from shape %s into shape %s' % (vs, self.shape))
            vf0 = vf
            vf = lambda idx: vf0((ZERO,) * extra + idx)
            vs = vs[extra:]
        off = n - len(vs)
        ones = []
        for j, d in enumerate(vs):
            t = self.shape[off + j]
            if isinstance(d, int) and d == 1:
                ones.append(True)
            elif samedim(d, t):
                ones.append(False)
            else:
                raise ValueError('could not broadcast input array from shape %s into shape %s' % (vs, self.shape))
        reg, axes = self.region()
        kind = self.kind
        pos = {ax: p for p, ax in enumerate(axes)}

        def val(ridx):
            full = tuple(ridx[pos[a]] if a in pos else ZERO for a in range(n))
            v = vf(tuple(ZERO if o else full[off + j] for j, o in enumerate(ones)))
            if kind == 'i' and isinstance(v, T):
                v = tm.trunc(v)
            return v
        self.store.write(reg, val)

    # ------------------------------------------------------------ indexing
    def _basic(self, key):
        """Basic indexing -> a view SArr (or raises Unsupported)."""
        nd = self.ndim
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (nd - used) + key[p + 1:]
        else:
            key = key + (slice(None),) * (nd - used)
        if sum(1 for k in key if k is not None) > nd:
            raise IndexError('too many indices for array')
        new_shape = []
        amap = {}     # old view axis -> ('fix', t) | ('ax', newaxis, start, step)
        ax = 0
        for k in key:
            if k is None:
                new_shape.append(1)
                continue
            d = self.shape[ax]
            if isinstance(k, slice):
                start, step, length = slice_of(k, d)
                amap[ax] = ('ax', len(new_shape), start, step)
                new_shape.append(length)
            else:
                amap[ax] = ('fix', norm_index(k, d))
            ax += 1
        view = []
        base = self.view if self.view is not None else [('ax', i, ZERO, ONE) for i in range(nd)]
        for v in base:
            if v[0] == 'fix':
                view.append(v)
                continue
            _, a, s0, st0 = v
            m = amap[a]
            if m[0] == 'fix':
                view.append(('fix', tm.add(lift(s0), tm.mul(lift(st0), m[1]))))
            else:
                _, na, s1, st1 = m
                view.append(('ax', na, tm.add(lift(s0), tm.mul(lift(st0), lift(s1))), tm.mul(lift(st0), lift(st1))))
        return SArr(new_shape, store=self.store, view=view)

    def _keytuple(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        for k in key:
            if isinstance(k, list):
                k = asarr(k)
            if isinstance(k, SArr) and k.ndim == 0:
                k = k.get(())
            out.append(k)
        return tuple(out)

    def __getitem__(self, key):
        key = self._keytuple(key)
        adv = [k for k in key if isinstance(k, (SArr, Diag)) or (isinstance(k, T) and k.sort == 'B') or isinstance(k, bool)]
        if not adv:
            r = self._basic(key)
            if r.ndim == 0:
                return unwrap(r.get(()))
            return r
        return self._gather(key)

    def _advkey(self, key):
        """Advanced key with one index array (or mask) on one axis."""
        if len(key) == 2 and isinstance(key[0], Diag):
            return 'diag', key
        pos = [i for i, k in enumerate(key) if isinstance(k, SArr)]
        if len(pos) == 2 and all(isinstance(key[p], Sel) for p in pos):
            raise Unsupported('multi-axis where')
        if len(pos) != 1:
            raise Unsupported('advanced indexing with several arrays')
        p = pos[0]
        k = key[p]
        if k.kind == 'b':
            if k.ndim != 1:
                if k.ndim == self.ndim and len(key) == 1:
                    return 'fullmask', k
                raise Unsupported('n-d mask')
            k = where(k)[0]
        if k.ndim != 1:
            raise Unsupported('n-d fancy index')
        return 'one', (p, k)

    def _gather(self, key):
        how, info = self._advkey(key)
        if how == 'diag':
            f = self.snap()
            return SArr((info[0].n,), lambda idx: f((idx[0], idx[0])), self.kind)
        if how == 'fullmask':
            raise Unsupported('gather by n-d mask')
        p, sel = info
        # every key item before p must be basic; build the basic view first with a full slice at p
        b = self._basic(key[:p] + (slice(None),) + key[p + 1:])
        # axis of the selection in b
        axb = sum(1 for k in key[:p] if k is None or isinstance(k, slice))
        f = b.snap()
        sf = sel.snap()
        n = b.shape[axb]

        def g(idx):
            i = sf((idx[axb],))
            if not isinstance(sel, Sel):
                i = norm_index(i, n)
            return f(idx[:axb] + (i,) + idx[axb + 1:])
        shp = list(b.shape)
        shp[axb] = sel.shape[0]
        return SArr(shp, g, self.kind)

    def __setitem__(self, key, value):
        key = self._keytuple(key)
        adv = [k for k in key if isinstance(k, (SArr, Diag))]
        if not adv:
            self._basic(key).assign(value)
            return
        how, info = self._advkey(key)
        if how == 'diag':
            n = info[0].n
            old = self.snap()
            vf = broadcast_to(asarr(value), (n,)).snap()

            def f(idx):
                c = CTX.simp(tm.eq(idx[0], idx[1]))
                return tm.ite(c, vf((idx[0],)), old(idx))
            self._rewrite(f)
            return
        if how == 'fullmask':
            old = self.snap()
            m = info.snap()
            v = asarr(value)
            if v.ndim:
                raise Unsupported('n-d mask assignment of an array')
            c = v.get(())
            self._rewrite(lambda idx: tm.ite(CTX.simp(m(idx)), c, old(idx)))
            return
        p, sel = info
        b = self._basic(key[:p] + (slice(None),) + key[p + 1:])
        axb = sum(1 for k in key[:p] if k is None or isinstance(k, slice))
        if not isinstance(sel, Sel):
            raise Unsupported('assignment through an index array')
        shp = list(b.shape)
        shp[axb] = sel.shape[0]
        vf = broadcast_to(asarr(value), shp).snap()
        old = b.snap()
        m = sel.maskf
        L = sel.L

        def f(idx):
            c = CTX.simp(m((idx[axb],)))
            if c is FALSE:
                return old(idx)
            v = vf(idx[:axb] + (tm.fn('rank', L, idx[axb]),) + idx[axb + 1:])
            return v if c is TRUE else tm.ite(c, v, old(idx))
        b._rewrite(f)

    def _rewrite(self, f):
        """Replace the viewed contents by f(view index)."""
        reg, axes = self.region()
        n = self.ndim
        pos = {ax: p for p, ax in enumerate(axes)}
        f = Fn(f)
        self.store.write(reg, lambda r: f(tuple(r[pos[a]] if a in pos else ZERO for a in range(n))))

    def __iter__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        if not isinstance(self.shape[0], int):
            raise Unsupported('iteration over an array of symbolic length')
        return iter([self[i] for i in range(self.shape[0])])

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        if isinstance(self.shape[0], int):
            return self.shape[0]
        raise Unsupported('len of an array of symbolic length')

    def __bool__(self):
        if self.ndim == 0 or self.size == 1:
            return bool(self.get((ZERO,) * self.ndim))
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def _as_scalar(self):
        if self.ndim == 0 or all(d == 1 for d in self.shape):
            return self.get((ZERO,) * self.ndim)
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __float__(self):
        return float(self._as_scalar())

    # ------------------------------------------------------------ arithmetic
    def _bin(self, o, f):
        if not _arrlike(o):
            return NotImplemented
        return ew(f, self, o)

    def _rbin(self, o, f):
        if not _arrlike(o):
            return NotImplemented
        return ew(f, o, self)

    def _ibin(self, o, f):
        r = ew(f, self, o)
        if len(r.shape if isinstance(r, SArr) else ()) > self.ndim:
            raise ValueError('non-broadcastable output operand')
        self.assign(r)
        return self

    def __add__(s, o): return s._bin(o, tm.add)
    def __radd__(s, o): return s._rbin(o, tm.add)
    def __iadd__(s, o): return s._ibin(o, tm.add)
    def __sub__(s, o): return s._bin(o, _sub)
    def __rsub__(s, o): return s._rbin(o, _sub)
    def __isub__(s, o): return s._ibin(o, _sub)
    def __mul__(s, o): return s._bin(o, tm.mul)
    def __rmul__(s, o): return s._rbin(o, tm.mul)
    def __imul__(s, o): return s._ibin(o, tm.mul)
    def __truediv__(s, o): return s._bin(o, sdiv)
    def __rtruediv__(s, o): return s._rbin(o, sdiv)

    def __itruediv__(s, o):
        if s.kind == 'i':
            raise TypeError('ufunc true_divide output casting')
        return s._ibin(o, sdiv)
    def __floordiv__(s, o): return s._bin(o, tm.idiv)
    def __mod__(s, o): return s._bin(o, tm.imod)
    def __pow__(s, o): return s._bin(o, tm.power)
    def __ipow__(s, o): return s._ibin(o, tm.power)
    def __rpow__(s, o): return s._rbin(o, tm.power)
    def __neg__(s): return ew(tm.neg, s)
    def __pos__(s): return ew(lambda x: x, s)
    def __abs__(s): return ew(tm.tabs, s)
    def __lt__(s, o): return ew(tm.lt, s, o, kind='b')
    def __le__(s, o): return ew(tm.le, s, o, kind='b')
    def __gt__(s, o): return ew(lambda a, b: tm.lt(b, a), s, o, kind='b')
    def __ge__(s, o): return ew(lambda a, b: tm.le(b, a), s, o, kind='b')

    def __eq__(s, o):
        if not _arrlike(o):
            return False
        return ew(_eq, s, o, kind='b')

    def __ne__(s, o):
        if not _arrlike(o):
            return True
        return ew(lambda a, b: tm.bnot(_eq(a, b)), s, o, kind='b')
    def __and__(s, o): return ew(tm.band, s, o, kind='b')
    __rand__ = __and__
    def __or__(s, o): return ew(tm.bor, s, o, kind='b')
    __ror__ = __or__
    def __invert__(s): return ew(tm.bnot, s, kind='b')
    def __matmul__(s, o): return matmul(s, o)
    def __rmatmul__(s, o): return matmul(o, s)

    # ------------------------------------------------------------ methods
    def copy(self, order=None):
        return SArr(self.shape, self.snap(), self.kind)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype=None, **kw):
        k = kind_of(dtype)
        f = self.snap()
        if k == 'i':
            return SArr(self.shape, lambda idx: tm.trunc(f(idx)), 'i')
        return SArr(self.shape, f, k)

    def sum(self, axis=None, **kw): return sum_(self, axis)
    def mean(self, axis=None): return mean(self, axis)
    def max(self, axis=None): return amax(self, axis)
    def min(self, axis=None): return amin(self, axis)
    def any(self, axis=None): return any_(self)
    def all(self, axis=None): return all_(self)
    def dot(self, o): return dot(self, o)
    def tolist(self): return [x.tolist() if isinstance(x, SArr) else x for x in self]
    def item(self, *a): return unwrap(self.get((ZERO,) * self.ndim)) if not a else self[a]

    def fill(self, v):
        self.assign(v)

    def flatten(self, order='C'):
        return self.ravel().copy()

    def ravel(self, order='C'):
        if self.ndim == 1:
            return self
        if self.ndim == 0:
            return self.reshape(1)
        return self.reshape(-1)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [dim(d) for d in shape]
        # drop / add unit axes only, or fully concrete
        if -1 in [d for d in shape if isinstance(d, int)]:
            p = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
            tot = self.size
            rest = 1
            for i, d in enumerate(shape):
                if i != p:
                    rest = rest * d
            shape[p] = dim(sdiv(lift(tot), lift(rest)))
        core_new = [d for d in shape if not (isinstance(d, int) and d == 1)]
        core_old = [d for d in self.shape if not (isinstance(d, int) and d == 1)]
        f = self.snap()
        if len(core_new) == len(core_old) and all(samedim(a, b) for a, b in zip(core_new, core_old)):
            old = self.shape

            def g(idx):
                it = iter([i for i, d in zip(idx, shape) if not (isinstance(d, int) and d == 1)])
                return f(tuple(ZERO if (isinstance(d, int) and d == 1) else next(it) for d in old))
            return SArr(shape, g, self.kind)
        if all(isinstance(d, int) for d in shape) and all(isinstance(d, int) for d in self.shape):
            old = self.shape

            def g2(idx):
                n = 0
                for i, d in zip(idx, shape):
                    if i.op != 'c':
                        raise Unsupported('symbolic index into a reshaped array')
                    n = n * d + int(tm.cval(i))
                out = []
                for d in reversed(old):
                    out.append(tm.const(n % d))
                    n //= d
                return f(tuple(reversed(out)))
            return SArr(shape, g2, self.kind)
        # split / merge with trailing concrete axes
        if len(shape) == 1 and all(isinstance(d, int) for d in self.shape[1:]):
            tr = 1
            for d in self.shape[1:]:
                tr *= d
            old = self.shape

            def g3(idx):
                i = idx[0]
                r = tm.imod(i, tm.const(tr))
                lead = tm.scale(Fraction(1, tr), tm.add(i, tm.neg(r)))
                if r.op != 'c':
                    raise Unsupported('symbolic index into a flattened array')
                n = int(tm.cval(r))
                out = []
                for d in reversed(old[1:]):
                    out.append(tm.const(n % d))
                    n //= d
                return f((lead,) + tuple(reversed(out)))
            return SArr(shape, g3, self.kind)
        raise Unsupported('reshape')

    def squeeze(self, axis=None):
        return self.reshape([d for d in self.shape if not (isinstance(d, int) and d == 1)])

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        axes = tuple(axes) if axes else tuple(reversed(range(n)))
        inv = {a: i for i, a in enumerate(axes)}
        base = self.view if self.view is not None else [('ax', i, ZERO, ONE) for i in range(n)]
        view = [v if v[0] == 'fix' else ('ax', inv[v[1]], v[2], v[3]) for v in base]
        return SArr([self.shape[a] for a in axes], store=self.store, view=view)

    def diagonal(self):
        return diag(self)

    def cumsum(self, axis=None):
        return cumsum(self)

    def __repr__(self):
        return '<symbolic array %s>' % (self.shape,)

    def __format__(self, spec):
        return '<sym>'


class Sel(SArr):
    """Indices where a one-dimensional mask holds, in increasing order."""

    def __init__(self, mask):
        n = mask.shape[0]
        self.maskf = mask.snap()
        self.n = n
        self.L = lam([n], lambda i: self.maskf((i,)))
        L = self.L
        CTX.mask_n[L] = lift(n)
        SArr.__init__(self, (tm.fn('count', L, lift(n)),), lambda idx: tm.fn('enum', L, idx[0]), 'i')


class Diag:
    def __init__(self, n):
        self.n = n


def _eq(a, b):
    if isinstance(a, T) and isinstance(b, T) and a.sort != 'B' and b.sort != 'B':
        return tm.eq(a, b)
    r = (a == b)
    return lift(r)


def _sub(a, b):
    return tm.add(a, tm.neg(b))


def sdiv(a, b):
    """numpy division: a zero constant divisor gives nan/inf, i.e. an arbitrary value."""
    if b.op == 'c' and b.args[0] == 0:
        return tm.fn('div0', a)
    return tm.div(a, b)


def _arrlike(o):
    return isinstance(o, (SArr, T, int, float, Fraction, list, tuple, bool))


def unwrap(v):
    return v


def kind_of(dtype):
    if dtype is None:
        return 'f'
    if dtype in KINDS:
        return KINDS[dtype]
    if dtype in (int, int_, 'int', 'i'):
        return 'i'
    if dtype in (bool, bool_, 'bool'):
        return 'b'
    if dtype in (object, object_, 'object', 'O'):
        return 'O'
    return 'f'


def norm_index(k, d):
    if isinstance(k, bool):
        raise Unsupported('boolean index')
    if isinstance(k, (int, Fraction)):
        k = int(k)
        if k < 0:
            return tm.add(lift(d), tm.const(k))
        if isinstance(d, int) and k >= d:
            raise IndexError('index %d is out of bounds for axis with size %d' % (k, d))
        return tm.const(k)
    if isinstance(k, T):
        if k.op == 'c':
            return norm_index(int(tm.cval(k)), d)
        if not tm.is_int(k):
            raise IndexError('only integers are valid indices')
        return k
    raise Unsupported('index of type %s' % type(k).__name__)


def slice_of(k, d):
    def val(x, default):
        return default if x is None else x
    step = val(k.step, 1)
    step = dim(step)
    if not isinstance(step, int):
        raise Unsupported('symbolic step')
    D = lift(d)

    def clipneg(x):
        x = lift(x)
        if x.op == 'c':
            v = int(tm.cval(x))
            if v < 0:
                return tm.add(D, x) if not isinstance(d, int) else tm.const(max(0, d + v))
            return tm.const(min(v, d)) if isinstance(d, int) else x
        return x
    if step > 0:
        start = clipneg(val(k.start, 0))
        stop = D if k.stop is None else clipneg(k.stop)
        ln = tm.add(stop, tm.neg(start))
        if step != 1:
            if ln.op == 'c':
                ln = tm.const(max(0, -(-int(tm.cval(ln)) // step)))
            else:
                ln = tm.floor(tm.scale(Fraction(1, step), tm.add(ln, tm.const(step - 1))))
        if ln.op == 'c' and tm.cval(ln) < 0:
            ln = ZERO
        return start, tm.const(step), dim(ln)
    start = tm.add(D, tm.const(-1)) if k.start is None else clipneg(k.start)
    if k.stop is None:
        ln = tm.add(start, ONE)
    else:
        ln = tm.add(start, tm.neg(clipneg(k.stop)))
    if step != -1:
        if ln.op != 'c':
            raise Unsupported('symbolic strided slice')
        ln = tm.const(max(0, -(-int(tm.cval(ln)) // -step)))
    return start, tm.const(step), dim(ln)


def asarr(x, dtype=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, (T, int, float, Fraction, bool)):
        v = lift(x)
        return SArr((), lambda idx: v, 'i' if isinstance(x, int) and not isinstance(x, bool) else 'f')
    s = getattr(x, '__symarray__', None)
    if s is not None:
        return s()
    if isinstance(x, (list, tuple)) or hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict)):
        items = list(x)
        if not items:
            return SArr((0,), lambda idx: ZERO)
        if any(isinstance(i, str) or i is None or isinstance(i, dict) for i in items):
            return SArr((len(items),), _pick(items, raw=True), 'O')
        subs = [asarr(i) for i in items]
        shp = subs[0].shape
        for s_ in subs[1:]:
            if len(s_.shape) != len(shp) or not all(samedim(a, b) for a, b in zip(s_.shape, shp)):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        fs = [s_.snap() for s_ in subs]

        def g(idx):
            i = idx[0]
            if i.op == 'c':
                return fs[int(tm.cval(i))](idx[1:])
            r = fs[-1](idx[1:])
            for q in range(len(fs) - 2, -1, -1):
                r = tm.ite(tm.eq(i, tm.const(q)), fs[q](idx[1:]), r)
            return r
        kind = 'i' if all(s_.kind == 'i' for s_ in subs) else 'b' if all(s_.kind == 'b' for s_ in subs) else 'f'
        return SArr((len(items),) + tuple(shp), g, kind)
    v = x
    return SArr((), lambda idx: v, 'O')


def _pick(items, raw=False):
    def g(idx):
        i = idx[0]
        if i.op == 'c':
            return items[int(tm.cval(i))]
        for q in range(len(items) - 1):
            if CTX.fork(tm.eq(i, tm.const(q))):
                return items[q]
        return items[-1]
    return g


def bshape(*shapes):
    n = max([len(s) for s in shapes], default=0)
    out = []
    for a in range(n):
        d = 1
        for s in shapes:
            p = a - (n - len(s))
            if p < 0:
                continue
            e = s[p]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif not samedim(d, e):
                raise ValueError('operands could not be broadcast together with shapes %s' % (shapes,))
        out.append(d)
    return tuple(out)


def bfn(a, n):
    """Element function of a broadcast to n axes."""
    f = a.snap()
    s = a.shape
    off = n - len(s)
    ones = [isinstance(d, int) and d == 1 for d in s]
    if not any(ones) and off == 0:
        return f
    return lambda idx: f(tuple(ZERO if o else idx[off + j] for j, o in enumerate(ones)))


def ew(f, *args, kind=None):
    arrs = [asarr(a) for a in args]
    shp = bshape(*[a.shape for a in arrs])
    n = len(shp)
    fs = [bfn(a, n) for a in arrs]
    if n == 0 and all(not isinstance(a, SArr) for a in args):
        return f(*[g(()) for g in fs])
    k = kind or ('i' if all(a.kind == 'i' for a in arrs) and f in (tm.add, _sub, tm.mul, tm.neg, tm.tabs, tm.idiv, tm.imod) else 'f')
    r = SArr(shp, Fn(lambda idx: f(*[g(idx) for g in fs])), k)
    if n == 0:
        return r.get(())
    return r


def broadcast_to(a, shape):
    a = asarr(a)
    n = len(shape)
    if a.ndim > n:
        extra = a.ndim - n
        if all(isinstance(d, int) and d == 1 for d in a.shape[:extra]):
            a = a.reshape(a.shape[extra:])
        else:
            raise ValueError('could not broadcast')
    off = n - a.ndim
    for j, d in enumerate(a.shape):
        if not (isinstance(d, int) and d == 1) and not samedim(d, shape[off + j]):
            raise ValueError('could not broadcast input array from shape %s into shape %s' % (a.shape, tuple(shape)))
    return SArr(shape, bfn(a, n), a.kind)


def ufunc(f):
    def g(x, out=None, **kw):
        r = ew(f, x)
        if out is not None:
            out.assign(r)
            return out
        return r
    return g


def ufunc2(f, kind=None):
    def g(a, b, out=None, **kw):
        r = ew(f, a, b, kind=kind) if kind else ew(f, a, b)
        if out is not None:
            out.assign(r)
            return out
        return r
    return g


sin = ufunc(tm.sin)
cos = ufunc(tm.cos)
tan = ufunc(tm.tan)
arcsin = ufunc(tm.asin)
arccos = ufunc(tm.acos)
arctan = ufunc(tm.atan)
exp = ufunc(tm.exp)
log = ufunc(tm.log)
tanh = ufunc(tm.tanh)
sqrt = ufunc(tm.sqrt)
absolute = ufunc(tm.tabs)
fabs = absolute
sign = ufunc(tm.sign)
negative = ufunc(tm.neg)
square = ufunc(lambda x: tm.ipow(x, 2))
floor = ufunc(tm.floor)
trunc = ufunc(tm.trunc)
reciprocal = ufunc(lambda x: tm.div(ONE, x))
arctan2 = ufunc2(tm.atan2)
add = ufunc2(tm.add)
subtract = ufunc2(_sub)
multiply = ufunc2(tm.mul)
divide = ufunc2(sdiv)
true_divide = divide
power = ufunc2(tm.power)
def settled(a, b):
    """(a <= b, b <= a) by bounds proved before (SymEnv.apply)."""
    if not CTX.hints or a.bd or b.bd:
        return False, False
    from .prover import Poly
    d = Poly().canon(_sub(a, b))
    return tm.le_(d) in CTX.hints, tm.le_(tm.neg(d)) in CTX.hints


def chosen(x):
    from .prover import Poly
    return Poly().canon(x)


def smaller_of(a, b):
    a, b = lift(a), lift(b)
    p, q = settled(a, b)
    return chosen(a) if p else chosen(b) if q else tm.ite(tm.lt(b, a), b, a)


def larger_of(a, b):
    a, b = lift(a), lift(b)
    p, q = settled(a, b)
    return chosen(b) if p else chosen(a) if q else tm.ite(tm.lt(a, b), b, a)


maximum = ufunc2(larger_of)
minimum = ufunc2(smaller_of)
hypot = ufunc2(lambda a, b: tm.sqrt(tm.add(tm.ipow(a, 2), tm.ipow(b, 2))))
mod = ufunc2(tm.imod)
less = ufunc2(tm.lt, 'b')
less_equal = ufunc2(tm.le, 'b')
greater = ufunc2(lambda a, b: tm.lt(b, a), 'b')
greater_equal = ufunc2(lambda a, b: tm.le(b, a), 'b')
equal = ufunc2(_eq, 'b')
not_equal = ufunc2(lambda a, b: tm.bnot(_eq(a, b)), 'b')
logical_and = ufunc2(tm.band, 'b')
logical_or = ufunc2(tm.bor, 'b')
logical_not = lambda a: ew(tm.bnot, a, kind='b')
pi = tm.PI
e = tm.exp(tm.ONE)
inf = float('inf')
nan = tm.var('nan', 'R')
radians = ufunc(lambda x: tm.scale(Fraction(1, 180), tm.mul(x, tm.PI)))
deg2rad = radians
degrees = ufunc(lambda x: tm.scale(180, tm.div(x, tm.PI)))
rad2deg = degrees


class _DT:
    def __init__(self, n):
        self.name = n


float64 = _DT('float64')
float_ = float64
int_ = _DT('int')
bool_ = _DT('bool')
object_ = _DT('object')
ndarray = SArr
generic = T
number = T
floating = T


def isnan(x):
    return ew(lambda a: TRUE if a is nan else FALSE, x, kind='b')


def isfinite(x):
    return ew(lambda a: FALSE if a is nan else TRUE, x, kind='b')


def isclose(a, b, rtol=None, atol=None):
    return ew(_eq, a, b, kind='b')


def shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(d) for d in s)
    if isinstance(s, SArr):
        return tuple(dim(d) for d in s)
    return (dim(s),)


def zeros(shape, dtype=None, order=None):
    if isinstance(dtype, list) or isinstance(dtype, RecDtype):
        return RecArr(shp(shape), dtype)
    k = kind_of(dtype)
    return SArr(shp(shape), (lambda idx: None) if k == 'O' else (lambda idx: ZERO), k)


def ones(shape, dtype=None, order=None):
    return SArr(shp(shape), lambda idx: ONE, kind_of(dtype))


def empty(shape, dtype=None, order=None):
    """Arbitrary contents: an uninterpreted function of the index."""
    k = kind_of(dtype)
    if k == 'O':
        return SArr(shp(shape), lambda idx: None, 'O')
    nm = 'empty!%d' % tm.fresh('u').id
    return SArr(shp(shape), lambda idx: tm.fn(nm, *idx), k)


def full(shape, v, dtype=None):
    v = asarr(v)
    s = shp(shape)
    return SArr(s, broadcast_to(v, s).snap(), 'f' if dtype is None and v.kind == 'f' else kind_of(dtype) if dtype else v.kind)


def _like(a):
    return asarr(a)


def zeros_like(a, dtype=None):
    a = _like(a)
    return SArr(a.shape, lambda idx: ZERO, a.kind if dtype is None else kind_of(dtype))


def ones_like(a, dtype=None):
    a = _like(a)
    return SArr(a.shape, lambda idx: ONE, a.kind if dtype is None else kind_of(dtype))


def empty_like(a, dtype=None):
    a = _like(a)
    r = empty(a.shape)
    r.store.kind = a.kind
    return r


def full_like(a, v, dtype=None):
    a = _like(a)
    s = a.shape
    f = broadcast_to(asarr(v), s).snap()
    if a.kind == 'i' and dtype is None:
        return SArr(s, lambda idx: tm.trunc(f(idx)), 'i')
    return SArr(s, f, 'f')


def array(x, dtype=None, copy=True, **kw):
    a = asarr(x)
    k = a.kind if dtype is None else kind_of(dtype)
    return SArr(a.shape, a.snap(), k)


def asarray(x, dtype=None):
    a = asarr(x)
    return a if dtype is None or kind_of(dtype) == a.kind else a.astype(dtype)


def copy(x):
    return asarr(x).copy()


def atleast_1d(x):
    a = asarr(x)
    return a if a.ndim else a.reshape(1)


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    allint = all(isinstance(x, int) or isinstance(x, T) and tm.is_int(x) for x in (lo, hi, st))
    lo, hi, st = lift(lo), lift(hi), lift(st)
    n = tm.div(tm.add(hi, tm.neg(lo)), st)
    if n.op == 'c':
        n = tm.const(max(0, -((-tm.cval(n)).__floor__())))
    elif not tm.is_int(n):
        n = tm.neg(tm.floor(tm.neg(n)))
    return SArr((dim(n),), lambda idx: tm.add(lo, tm.mul(st, idx[0])), 'i' if allint else 'f')


def linspace(a, b, num=50, endpoint=True, **kw):
    a, b = lift(a), lift(b)
    n = lift(num)
    den = tm.add(n, tm.const(-1)) if endpoint else n
    if den.op == 'c' and tm.cval(den) == 0:
        return SArr((1,), lambda idx: a)
    step = tm.div(tm.add(b, tm.neg(a)), den)
    return SArr((dim(n),), lambda idx: tm.add(a, tm.mul(step, idx[0])))


def where(c, a=None, b=None):
    if a is None:
        m = asarr(c)
        if m.ndim != 1:
            raise Unsupported('where on an n-d mask')
        return (Sel(m),)
    arrs = [asarr(c), asarr(a), asarr(b)]
    s = bshape(*[x.shape for x in arrs])
    n = len(s)
    fs = [bfn(x, n) for x in arrs]

    def g(idx):
        cc = CTX.simp(_tob(fs[0](idx)))
        if cc is TRUE:
            return fs[1](idx)
        if cc is FALSE:
            return fs[2](idx)
        return tm.ite(cc, fs[1](idx), fs[2](idx))
    r = SArr(s, g)
    return r.get(()) if n == 0 and not any(isinstance(x, SArr) for x in (c, a, b)) else r


def _tob(x):
    return x if x.sort == 'B' else tm.bnot(tm.eq(x, ZERO))


def nonzero(m):
    return where(asarr(m))


def flatnonzero(m):
    return where(asarr(m))[0]


def einsum(spec, *ops, **kw):
    ops = [asarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '->' not in spec:
        ins = spec.split(',')
        letters = ''.join(ins)
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    else:
        left, out = spec.split('->')
        ins = left.split(',')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    if len(ins) != len(ops):
        raise ValueError('einsum operands')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: operand has %d axes, subscripts %s' % (o.ndim, s))
        for c, d in zip(s, o.shape):
            if c not in dims or (isinstance(dims[c], int) and dims[c] == 1):
                dims[c] = d
            elif isinstance(d, int) and d == 1:
                pass
            elif not samedim(dims[c], d):
                raise ValueError('einsum: dimension mismatch')
    red = [c for c in dims if c not in out]
    fs = [o.snap() for o in ops]
    ones = [[isinstance(d, int) and d == 1 and not (isinstance(dims[c], int) and dims[c] == 1) for c, d in zip(s, o.shape)] for s, o in zip(ins, ops)]

    def g(idx):
        m = dict(zip(out, idx))

        def rec(rs):
            if not rs:
                r = ONE
                for s, f, on in zip(ins, fs, ones):
                    r = tm.mul(r, f(tuple(ZERO if o1 else m[c] for c, o1 in zip(s, on))))
                return r
            c = rs[0]

            def body(k):
                m[c] = k
                return rec(rs[1:])
            return tsum(dims[c], body)
        # symbolic reductions outermost
        return rec(sorted(red, key=lambda c: isinstance(dims[c], int)))
    r = SArr([dims[c] for c in out], g)
    return r.get(()) if not out else r


def cross(a, b, axis=-1, **kw):
    a, b = asarr(a), asarr(b)
    if not (a.shape and b.shape and a.shape[-1] == 3 and b.shape[-1] == 3):
        raise Unsupported('cross of non 3-vectors') if a.shape[-1] in (2, 3) else ValueError('incompatible dimensions for cross product')
    s = bshape(a.shape, b.shape)
    n = len(s)
    fa, fb = bfn(a, n), bfn(b, n)

    def comp(idx, i, j):
        p = idx[:-1]
        return tm.add(tm.mul(fa(p + (tm.const(i),)), fb(p + (tm.const(j),))),
                      tm.neg(tm.mul(fa(p + (tm.const(j),)), fb(p + (tm.const(i),)))))
    tab = [(1, 2), (2, 0), (0, 1)]

    def g(idx):
        c = idx[-1]
        if c.op == 'c':
            return comp(idx, *tab[int(tm.cval(c))])
        return tm.ite(tm.eq(c, ZERO), comp(idx, 1, 2), tm.ite(tm.eq(c, ONE), comp(idx, 2, 0), comp(idx, 0, 1)))
    return SArr(s, g)


def _contract(a, b, axa, axb):
    d = a.shape[axa]
    if not samedim(d, b.shape[axb]):
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    if isinstance(d, int) is False and isinstance(b.shape[axb], int):
        d = b.shape[axb]
    sa = a.shape[:axa] + a.shape[axa + 1:]
    sb = b.shape[:axb] + b.shape[axb + 1:]
    fa, fb = a.snap(), b.snap()
    na = len(sa)
    inv = getattr(a, '_inv_of', None)
    if inv is not None and b.ndim == 1:
        return linalg.solve(inv, b)

    def g(idx):
        ia, ib = idx[:na], idx[na:]
        return tsum(d, lambda k: tm.mul(fa(ia[:axa] + (k,) + ia[axa:]), fb(ib[:axb] + (k,) + ib[axb:])))
    r = SArr(sa + sb, g)
    return r.get(()) if r.ndim == 0 else r


def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(tm.mul, a, b)
    return _contract(a, b, a.ndim - 1, 0 if b.ndim == 1 else b.ndim - 2)


vdot = dot


def inner(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(tm.mul, a, b)
    return _contract(a, b, a.ndim - 1, b.ndim - 1)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    raise Unsupported('matmul n-d')


def outer(a, b):
    a, b = asarr(a), asarr(b)
    fa, fb = a.snap(), b.snap()
    return SArr((a.shape[0], b.shape[0]), lambda i: tm.mul(fa((i[0],)), fb((i[1],))))


def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, tuple):
        return [x % a.ndim for x in axis]
    return [axis % a.ndim]


def sum_(a, axis=None, dtype=None, keepdims=False, **kw):
    a = asarr(a)
    if a.ndim == 0:
        return a.get(())
    ax = _axes(a, axis)
    f = a.snap()
    keep = [i for i in range(a.ndim) if i not in ax]
    bools = a.kind == 'b'

    def g(idx):
        m = dict(zip(keep, idx))

        def rec(rs):
            if not rs:
                v = f(tuple(m[i] for i in range(a.ndim)))
                return tm.ite(v, ONE, ZERO) if v.sort == 'B' else v
            c = rs[0]

            def body(k):
                m[c] = k
                return rec(rs[1:])
            return tsum(a.shape[c], body)
        return rec(sorted(ax, key=lambda c: isinstance(a.shape[c], int)))
    r = SArr([a.shape[i] for i in keep], g, 'i' if a.kind in 'ib' else 'f')
    if keepdims:
        return r.reshape([1 if i in ax else a.shape[i] for i in range(a.ndim)])
    return r.get(()) if not keep else r


def mean(a, axis=None, **kw):
    a = asarr(a)
    n = ONE
    for i in _axes(a, axis):
        n = tm.mul(n, lift(a.shape[i]))
    return ew(sdiv, sum_(a, axis), n)


average = mean


def prod(a, axis=None):
    a = asarr(a)
    if a.ndim == 1 and isinstance(a.shape[0], int):
        r = ONE
        for x in a:
            r = tm.mul(r, lift(x))
        return r
    raise Unsupported('prod')


def _extreme(name, lower):
    def f(a, axis=None, initial=None, **kw):
        a = asarr(a)
        if axis is not None and a.ndim > 1:
            raise Unsupported(name + ' axis')
        if a.ndim == 1 and isinstance(a.shape[0], int):
            r = None
            for x in a:
                x = lift(x)
                r = x if r is None else (tm.ite(tm.lt(r, x), x, r) if not lower else tm.ite(tm.lt(x, r), x, r))
            return r
        if a.ndim != 1:
            raise Unsupported(name)
        g = a.snap()
        n = lift(a.shape[0])
        return extreme(name, lam([n], lambda i: g((i,))), n)
    return f


def extreme(name, L, n):
    """The largest (smallest) of L(0)..L(n-1), n > 0: its value at the place where it is reached."""
    w = tm.fn('arg_' + name, L, n, sort='I', nn=True)
    if not tm.free_bvars(w) and not [x for x, _ in PLACES[-20:] if x is w]:
        PLACES.append((w, n))
    return tm.lam_apply(L, w)


PLACES = []      # where such values are reached, and in how many numbers


def _reached(name, lower):
    def ax(L, n):
        w = tm.fn('arg_' + name, L, n, sort='I', nn=True)
        top = tm.lam_apply(L, w)
        out = [tm.implies(tm.le(ONE, n), tm.lt(w, n)), tm.le(ZERO, w)]
        for k, m in CTX.index_vars[-40:] + [(k, None) for k, _ in PLACES[-20:]]:
            v = tm.lam_apply(L, k)
            fact = tm.le(top, v) if lower else tm.le(v, top)
            if fact is not TRUE:
                out.append(fact if m is n else tm.implies(tm.band(tm.le(ZERO, k), tm.lt(k, n)), fact))
        return out
    return ax


amax = _extreme('amax', False)
amin = _extreme('amin', True)


def any_(a, axis=None):
    a = asarr(a)
    if a.ndim == 0:
        return _tob(a.get(()))
    f = a.snap()
    if all(isinstance(d, int) for d in a.shape):
        import itertools
        return tm.bor(*[_tob(f(tuple(tm.const(i) for i in ix))) for ix in itertools.product(*[range(d) for d in a.shape])])
    if a.ndim != 1:
        raise Unsupported('any')
    return tm.pred('exists', lam(a.shape, lambda i: _tob(f((i,)))), lift(a.shape[0]))


def all_(a, axis=None):
    return tm.bnot(any_(ew(lambda x: tm.bnot(_tob(x)), a, kind='b')))


def allclose(a, b, rtol=None, atol=None):
    return all_(ew(_eq, a, b, kind='b'))


def array_equal(a, b):
    return all_(ew(_eq, a, b, kind='b'))


def count_nonzero(a):
    a = asarr(a)
    return sum_(ew(lambda x: tm.ite(_tob(x), ONE, ZERO), a))


def cumsum(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    f = a.snap()
    from .core import sumterm

    def g(idx):
        k = index_var('c', a.shape[0])
        return sumterm(tm.add(idx[0], ONE), f((k,)), k)
    return SArr(a.shape, g, a.kind)


def diff(a, n=1, axis=-1):
    a = asarr(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported('diff')
    return a[1:] - a[:-1]


def diag(a, k=0):
    a = asarr(a)
    f = a.snap()
    if a.ndim == 1:
        n = a.shape[0]
        return SArr((n, n), lambda i: tm.ite(CTX.simp(tm.eq(i[0], i[1])), f((i[0],)), ZERO))
    return SArr((a.shape[0],), lambda i: f((i[0], i[0])), a.kind)


diagonal = diag


def diagflat(a):
    return diag(a)


def eye(n, *a, **kw):
    return SArr((n, n), lambda i: tm.ite(CTX.simp(tm.eq(i[0], i[1])), ONE, ZERO))


identity = eye


def fill_diagonal(a, v):
    a[diag_indices(a.shape[0])] = v


def diag_indices(n, ndim=2):
    d = Diag(n)
    return (d, d)


def concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    fs = [a.snap() for a in arrs]
    axis = axis % arrs[0].ndim
    lens = [a.shape[axis] for a in arrs]
    tot = lens[0]
    for l in lens[1:]:
        tot = tot + l

    def g(idx):
        i = idx[axis]
        res = None
        offs = ZERO
        parts = []
        for f, l in zip(fs, lens):
            parts.append((offs, f))
            offs = tm.add(offs, lift(l))
        for off, f in reversed(parts):
            loc = idx[:axis] + (tm.add(i, tm.neg(off)),) + idx[axis + 1:]
            if res is None:
                if i.op == 'c' and off.op == 'c' and tm.cval(i) < tm.cval(off):
                    continue
                res = f(loc)
            else:
                c = CTX.simp(tm.le(nxt, i))
                res = res if c is TRUE else f(loc) if c is FALSE else tm.ite(c, res, f(loc))
            nxt = off
        return res
    # evaluate lazily but correctly for constant indices
    def g2(idx):
        i = idx[axis]
        if i.op == 'c' and all(isinstance(l, int) for l in lens):
            n = int(tm.cval(i))
            for f, l in zip(fs, lens):
                if n < l:
                    return f(idx[:axis] + (tm.const(n),) + idx[axis + 1:])
                n -= l
            raise IndexError('index out of bounds')
        return g(idx)
    s = list(arrs[0].shape)
    s[axis] = tot
    return SArr(s, g2, arrs[0].kind)


def append(a, b, axis=None):
    return concatenate([atleast_1d(a), atleast_1d(b)], 0 if axis is None else axis)


hstack = lambda l: concatenate([atleast_1d(x) for x in l], 0 if asarr(l[0]).ndim <= 1 else 1)


def stack(arrs, axis=0):
    a = asarr(list(arrs))
    axis = axis % a.ndim
    if axis:
        order = list(range(1, a.ndim))
        order.insert(axis, 0)
        a = a.transpose(*order)
    return a.copy()


def vstack(arrs):
    arrs = [asarr(x) for x in arrs]
    if arrs[0].ndim == 1:
        return stack(arrs)
    return concatenate(arrs, 0)


def column_stack(arrs):
    return stack(list(arrs), axis=-1)


def transpose(a, axes=None):
    return asarr(a).transpose(*(axes or ()))


def moveaxis(a, s, d):
    a = asarr(a)
    order = list(range(a.ndim))
    x = order.pop(s % a.ndim)
    order.insert(d % a.ndim, x)
    return a.transpose(*order)


def reshape(a, s):
    return asarr(a).reshape(s)


def ravel(a):
    return asarr(a).ravel()


def squeeze(a, axis=None):
    return asarr(a).squeeze()


def expand_dims(a, axis):
    a = asarr(a)
    s = list(a.shape)
    s.insert(axis % (len(s) + 1), 1)
    return a.reshape(s)


def tile(a, reps):
    a = asarr(a)
    reps = reps if isinstance(reps, (tuple, list)) else (reps,)
    if a.ndim == 1 and len(reps) == 2 and reps[1] == 1:
        return broadcast_to(a, (reps[0],) + a.shape).copy()
    raise Unsupported('tile')


def repeat(a, n, axis=None):
    a = asarr(a)
    if a.ndim == 0:
        return full((n,), a)
    raise Unsupported('repeat')


def clip(a, lo, hi):
    return minimum(maximum(a, lo), hi)


def ix_(*a):
    raise Unsupported('ix_')


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def shape(a):
    return asarr(a).shape


def ndim(a):
    return asarr(a).ndim


def round_(a, n=0):
    def f(x):
        if isinstance(n, int) and tm.is_int(tm.scale(10 ** n if n >= 0 else tm.Fraction(1, 10 ** -n), x)):
            return x
        return tm.fn('round', x, tm.const(n))
    return ew(f, a)


around = round_


def interp(x, xp, fp, left=None, right=None, **kw):
    """Piecewise-linear interpolation, kept as an uninterpreted function."""
    xp, fp = asarr(xp), asarr(fp)
    fx, ff = xp.snap(), fp.snap()
    n = xp.shape[0]
    if not samedim(n, fp.shape[0]):
        raise ValueError('fp and xp are not of the same length.')
    LX = lam([n], lambda i: fx((i,)))
    LF = lam([n], lambda i: ff((i,)))
    lo = ff((ZERO,)) if left is None else lift(left)
    hi = ff((tm.add(lift(n), tm.const(-1)),)) if right is None else lift(right)
    return ew(lambda q: tm.fn('interp', LX, LF, lift(n), q, lo, hi), x)


def trapz(y, x=None, dx=1, axis=-1):
    y = asarr(y)
    x = asarr(x)
    n = y.shape[0]
    fy, fx = y.snap(), x.snap()
    m = tm.add(lift(n), tm.const(-1))
    return tsum(m, lambda k: tm.scale(Fraction(1, 2), tm.mul(tm.add(fy((k,)), fy((tm.add(k, ONE),))),
                                                            tm.add(fx((tm.add(k, ONE),)), tm.neg(fx((k,)))))))


trapezoid = trapz


class errstate:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**kw):
    return {}


# ---------------------------------------------------------------- linalg
def _mat(a):
    a = asarr(a)
    f = a.snap()
    n = a.shape[0]
    return a, f, n


class _Linalg:
    LinAlgError = type('LinAlgError', (Exception,), {})

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = asarr(x)
        if ord not in (None, 2):
            raise Unsupported('norm ord')
        if axis is None and x.ndim == 0:
            return tm.tabs(x.get(()))
        s = sum_(ew(lambda a: tm.ipow(a, 2), x), axis, keepdims=keepdims)
        return ew(tm.sqrt, s)

    @staticmethod
    def solve(A, b):
        A, b = asarr(A), asarr(b)
        n = A.shape[0]
        if not samedim(n, A.shape[1]) or not samedim(n, b.shape[0]):
            raise ValueError('solve: dimension mismatch')
        fa, fb = A.snap(), b.snap()
        if b.ndim != 1:
            raise Unsupported('solve with a matrix right-hand side')
        if isinstance(n, int) and n <= 3:
            return dot(_Linalg.inv(A), b)
        LA = lam([n, n], lambda i, j: fa((i, j)))
        LB = lam([n], lambda i: fb((i,)))
        return SArr((n,), lambda idx: tm.fn('linsolve', lift(n), LA, LB, idx[0]))

    @staticmethod
    def det(A):
        A, f, n = _mat(A)
        if not isinstance(n, int) or n > 4:
            raise Unsupported('det')
        return _Linalg._det([[f((tm.const(i), tm.const(j))) for j in range(n)] for i in range(n)])

    @staticmethod
    def _det(M):
        n = len(M)
        if n == 1:
            return M[0][0]
        if n == 2:
            return tm.add(tm.mul(M[0][0], M[1][1]), tm.neg(tm.mul(M[0][1], M[1][0])))
        r = ZERO
        for j in range(n):
            sub = [row[:j] + row[j + 1:] for row in M[1:]]
            r = tm.add(r, tm.scale((-1) ** j, tm.mul(M[0][j], _Linalg._det(sub))))
        return r

    @staticmethod
    def inv(A):
        A, f, n = _mat(A)
        if isinstance(n, int) and n <= 3:
            M = [[f((tm.const(i), tm.const(j))) for j in range(n)] for i in range(n)]
            D = _Linalg._det(M)
            out = []
            for i in range(n):
                row = []
                for j in range(n):
                    if n == 1:
                        c = ONE
                    else:
                        sub = [r[:i] + r[i + 1:] for q, r in enumerate(M) if q != j]
                        c = tm.scale((-1) ** (i + j), _Linalg._det(sub))
                    row.append(sdiv(c, D))
                out.append(row)
            return array(out)
        LA = lam([n, n], lambda i, j: f((i, j)))
        r = SArr((n, n), lambda idx: tm.fn('inv', lift(n), LA, idx[0], idx[1]))
        r._inv_of = A.copy()
        return r


linalg = _Linalg


# ---------------------------------------------------------------- files
class RecDtype(list):
    pass


class RecArr:
    """Structured array: one column array per field name."""

    def __init__(self, shape, fields):
        self.shape = shape
        self.fields = {}
        self.order = []
        self.types = {}
        for fld in fields:
            nm, ty = fld[0], fld[1]
            self.order.append(nm)
            self.types[nm] = ty
            if ty is object or isinstance(ty, str) and (ty.startswith('U') or ty in ('O', 'object')):
                self.fields[nm] = SArr(shape, lambda idx: None, 'O')
            else:
                sub = tuple(fld[2]) if len(fld) > 2 else ()
                self.fields[nm] = zeros(tuple(shape) + sub)

    def __getitem__(self, k):
        return self.fields[k]

    def __setitem__(self, k, v):
        self.fields[k].assign(v)

    @property
    def size(self):
        return self.shape[0]


class FS:
    """Record of the files the code writes, and contents it reads."""
    written = []
    tables = {}
    jsons = {}

    @classmethod
    def reset(cls):
        cls.written = []
        cls.tables = {}
        cls.jsons = {}


class Text:
    """Contents of a text file: the tables written to it, in order."""

    def __init__(self, items, subs=()):
        self.items = items
        self.subs = tuple(subs)

    def replace(self, a, b):
        return Text(self.items, self.subs + ((a, b),))

    def __deepcopy__(self, memo):
        return self


def text_of(name):
    """What the file holds now: opening for writing empties it."""
    items = []
    for w in FS.written:
        if w[1] != name:
            continue
        if w[0] == 'open' and 'w' in w[2]:
            items = []
        elif w[0] == 'savetxt':
            if w[2] == 'path':
                items = []
            items.append(w[3:])
        elif w[0] in ('write', 'json'):
            items.append(w)
    return items


def savetxt(f, a, fmt=None, header='', **kw):
    if kw:
        raise Unsupported('savetxt options')
    FS.written.append(('savetxt', getattr(f, 'name', f), getattr(f, 'mode', 'path'), a, fmt, header))


def loadtxt(f, **kw):
    if f in FS.tables:
        a = FS.tables[f]
        return a.copy()
    raise Unsupported('loadtxt of an unknown file')


nansum = sum_


class NumpyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('numpy.%s' % name)


def make_module():
    m = NumpyModule('numpy')
    for k, v in globals().items():
        if not k.startswith('_') and k not in ('tm', 'T', 'CTX', 'types', 'sys', 'lift', 'Fraction', 'FS'):
            setattr(m, k, v)
    for k, v in {'sum': sum_, 'any': any_, 'all': all_, 'round': round_, 'abs': absolute,
                 'max': amax, 'min': amin, 'float': float, 'int': int}.items():
        setattr(m, k, v)
    return m


# ---------------------------------------------------------------- axioms
def install_axioms():
    del PLACES[:]
    for q in ('amax', 'amin'):
        CTX.axioms['arg_' + q] = [_reached(q, q == 'amin')]

    def enum_ax(L, q):
        n = CTX.mask_n.get(L)
        if n is None:
            return []
        en = tm.fn('enum', L, q)
        cnt = tm.fn('count', L, n)
        rng = tm.band(tm.le(ZERO, q), tm.lt(q, cnt))
        return [tm.implies(rng, tm.lt(en, n)), tm.implies(rng, _tob(tm.lam_apply(L, en)))]

    def rank_ax(L, i):
        n = CTX.mask_n.get(L)
        if n is None:
            return []
        return [tm.implies(_tob(tm.lam_apply(L, i)), tm.lt(tm.fn('rank', L, i), tm.fn('count', L, n)))]

    def count_ax(L, n):
        out = [tm.le(tm.fn('count', L, n), n)]
        for v, m in CTX.index_vars[-40:]:
            if m is n and not v.args[0].startswith(('l!', 's!')):
                out.append(tm.implies(_tob(tm.lam_apply(L, v)), tm.le(ONE, tm.fn('count', L, n))))
        return out

    def exists_ax(L, n):
        out = []
        for v, m in CTX.index_vars[-40:]:
            if m is n and not v.args[0].startswith(('l!', 's!')):
                out.append(tm.implies(_tob(tm.lam_apply(L, v)), tm.pred('exists', L, n)))
        return out
    axiom('enum')(enum_ax)
    axiom('rank')(rank_ax)
    axiom('count')(count_ax)
    axiom('exists')(exists_ax)

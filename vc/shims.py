"""Symbolic stand-ins for the modules /repo imports."""
import copy
import os
import types
from fractions import Fraction
from . import terms as tm
from . import snp
from .terms import T, ZERO, Unsupported, lift
from .snp import SArr, FS, asarr, lam, ew


class Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))


def mod(name, **kw):
    m = Mod(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def scalar(f):
    def g(x):
        if isinstance(x, SArr):
            x = x._as_scalar()
        return f(lift(x))
    return g


def make_math():
    return mod('math', sin=scalar(tm.sin), cos=scalar(tm.cos), tan=scalar(tm.tan), sqrt=scalar(tm.sqrt),
               exp=scalar(tm.exp), atan=scalar(tm.atan), acos=scalar(tm.acos), asin=scalar(tm.asin),
               tanh=scalar(tm.tanh), fabs=scalar(tm.tabs), log=scalar(tm.log),
               atan2=lambda a, b: tm.atan2(lift(a), lift(b)), pi=tm.PI,
               radians=scalar(lambda x: tm.scale(Fraction(1, 180), tm.mul(x, tm.PI))),
               degrees=scalar(lambda x: tm.scale(180, tm.div(x, tm.PI))),
               pow=lambda a, b: tm.power(lift(a), lift(b)), hypot=snp.hypot,
               floor=scalar(tm.floor), ceil=scalar(lambda x: tm.neg(tm.floor(tm.neg(x)))), isnan=lambda x: False)


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y = asarr(x), asarr(y)
        self.kind = kind
        self.n = self.x.shape[0]
        if self.x.ndim != 1:
            raise ValueError('x must be one-dimensional')
        axis = axis % self.y.ndim
        if axis != 0:
            self.y = self.y.transpose(*([axis] + [i for i in range(self.y.ndim) if i != axis]))
        if not snp.samedim(self.n, self.y.shape[0]):
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        self.fill = fill_value
        self.bounds = bounds_error
        self.axis = axis
        fx = self.x.snap()
        self.LX = lam([self.n], lambda i: fx((i,)))
        self.fy = self.y.snap()

    def __call__(self, q):
        q = asarr(q)
        fq = q.snap()
        nq = q.ndim
        n = lift(self.n)
        fy = self.fy
        ex = isinstance(self.fill, tuple)
        tag = 'interp' if self.kind in ('linear', 'slinear') else 'interp_%s' % self.kind

        def g(idx):
            rest = idx[nq:]
            LF = lam([self.n], lambda i: fy((i,) + rest))
            if ex:
                lo = asarr(self.fill[0])
                hi = asarr(self.fill[1])
                a, b = lo.get(rest if lo.ndim else ()), hi.get(rest if hi.ndim else ())
            elif self.fill is None or isinstance(self.fill, str):
                return tm.fn(tag + '_x', self.LX, LF, n, fq(idx[:nq]))
            else:
                a = b = asarr(self.fill)._as_scalar()
            return tm.fn(tag, self.LX, LF, n, fq(idx[:nq]), a, b)
        r = SArr(q.shape + self.y.shape[1:], g)
        return r


def simps(y, x=None, dx=1, axis=-1, even=None):
    y, x = asarr(y), asarr(x)
    fy, fx = y.snap(), x.snap()
    n = y.shape[0]
    return tm.fn('simps', lam([n], lambda i: fy((i,))), lam([n], lambda i: fx((i,))), lift(n))


class Mesh:
    _walk = True
    dtype = 'MeshDtype'

    def __init__(self, data, **kw):
        n = data.shape[0]
        self.vectors = snp.zeros((n, 3, 3))
        Mesh.made.append(self)

    made = []

    def save(self, filename, **kw):
        FS.written.append(('stl', filename, self.vectors))


def json_load(f, **kw):
    name = getattr(f, 'name', None)
    if name in FS.jsons:
        return copy.deepcopy(FS.jsons[name])
    raise Unsupported('json.load')


def json_dump(obj, f, *a, **kw):
    FS.written.append(('json', getattr(f, 'name', None), copy.deepcopy(obj)))


class OsPath:
    @staticmethod
    def isfile(p):
        return p in FS.jsons or p in FS.tables

    exists = isfile

    def __getattr__(self, n):
        return getattr(os.path, n)


class Os(types.ModuleType):
    path = OsPath()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('os.%s' % n)


class Dummy:
    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self

    def __iter__(self):
        return iter((self, self))


def make():
    np = snp.make_module()
    plt = Dummy()
    mpl = mod('matplotlib', pyplot=plt)
    interp = mod('scipy.interpolate', interp1d=Interp1d)
    integ = mod('scipy.integrate', simps=simps, simpson=simps, trapz=snp.trapz, trapezoid=snp.trapz, ode=Unsup('scipy.integrate.ode'))
    opt = mod('scipy.optimize', newton=Unsup('newton'), brentq=Unsup('brentq'))
    sp = mod('scipy', interpolate=interp, integrate=integ, optimize=opt)
    meshm = mod('stl.mesh', Mesh=Mesh)
    stl = mod('stl', mesh=meshm)
    js = mod('json', load=json_load, dump=json_dump, JSONDecodeError=ValueError)
    return {'numpy': np, 'numpy.linalg': np.linalg, 'math': make_math(), 'scipy': sp, 'scipy.interpolate': interp,
            'scipy.integrate': integ, 'scipy.optimize': opt, 'matplotlib': mpl, 'matplotlib.pyplot': plt,
            'stl': stl, 'stl.mesh': meshm, 'json': js, 'os': Os('os'), 'os.path': OsPath()}


class Unsup:
    def __init__(self, what):
        self.what = what

    def __call__(self, *a, **k):
        raise Unsupported(self.what)

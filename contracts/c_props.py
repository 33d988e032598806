"""Contracts on propssolver.py: the propellers of an airplane together.

Each propeller model is a stand-in answering with arbitrary forces and wash (the
contracts of PropModel are in c_prop.py); there are one to three of them.
"""
from vc.api import contract, Stub

SOLVE = ['propssolver.PropsSolver.__init__', 'propssolver.PropsSolver.solve', 'propssolver.PropsSolver._calc_forces',
         'propssolver.PropsSolver._rotate_aero_forces', 'propssolver.PropsSolver._initialize_velocity_field']
GETTERS = {'radial_position': 'get_radial_position', 'chord': 'get_chord', 'pitch': 'get_aero_pitch_angle', 'advance_angle': 'get_advance_angle',
           'induced_angle': 'get_induced_angle', 'alpha': 'get_alpha', 'section_CL': 'get_section_CL', 'section_CD': 'get_section_CD',
           'Vi': 'get_Vi', 'Vi_x': 'get_axial_Vi', 'Vi_t': 'get_tangential_Vi'}
ANGLES = ('pitch', 'advance_angle', 'induced_angle', 'alpha')


class Model(Stub):
    """Stand-in for PropModel."""

    def __init__(self, env, prop, cg, units, points=None):
        self._env = env
        self._given = prop, cg, units, points
        self._name = prop.name
        self._nodes = prop._nodes
        self._aero = self._state = 'not given'
        self._calls = []

    def v(self, name, *shape):
        return self._env.array(name + self._name, *shape) if shape else self._env.real(name + self._name, gen=(-9, 9))

    def _set_aero_state(self, s):
        self._aero = s
        self._calls.append('aero')

    def _set_prop_state(self, s):
        self._state = s
        self._calls.append('state')

    def _calc_forces(self):
        self._calls.append('forces')
        return self.v('F', 3), self.v('M', 3), self.v('T'), self.v('l')

    def _calc_prop_wing_vel(self):
        self._calls.append('wash')
        return self.v('wash', self._env.points, 3)

    def _find_Vi(self):
        pass

    def get_name(self):
        return self._name

    def column(self, key):
        return self._env.array(key + self._name, self._nodes)


def getter(key):
    return lambda self: self.column(key)


for _k, _g in GETTERS.items():
    setattr(Model, _g, getter(_k))


class Description:
    def __init__(self, name, nodes):
        self.name = name
        self._nodes = nodes


class Plane(Stub):
    """Stand-in for Airplane."""

    def __init__(self, env, props):
        self._env = env
        self._props = props

    def get_props(self):
        return list(self._props)

    def get_cg_location(self):
        return self._env.array('cg', 3)

    def get_units(self):
        return 'English'


def solver(env, count, points=True):
    ps = [Description('prop%d' % k, env.size('nodes%d' % k, lo=2)) for k in range(count)]
    made = []

    def model(*a, **k):
        made.append(Model(env, *a, **k))
        return made[-1]
    P = env.mod('propssolver')
    env.patch(P, 'PropModel', model)
    env.points = env.size('points')
    wing = env.array('r_cp', env.points, 3) if points else None
    s = P.PropsSolver(Plane(env, ps), wing)
    env.eq('one model per propeller', len(made), count)
    for m, p in zip(made, ps):
        prop, cg, units, pts = m._given
        env.eq('of that propeller', prop is p, True)
        env.eq('about the centre of gravity', cg, env.array('cg', 3))
        env.eq('in the units of the airplane', units, 'English')
        if points:
            env.forall(env.points, lambda i: env.eq('washing the wing points', pts[i], wing[i]))
        else:
            env.eq('washing no points', pts is None, True)
    return s, made


def flow(env, given):
    np = env.np
    s = {'V_mag': env.real('V', pos=True, gen=(5, 30)), 'rho': env.real('rho', pos=True, gen=(.001, .003))}
    for k in given:
        s[k] = env.real(k, gen=(-20, 20))
    a, b = [s.get(k, 0) * env.pi / 180 for k in ('alpha', 'beta')]
    env.assume(np.sin(a) ** 2 * np.sin(b) ** 2 < 1)
    env.assume(np.cos(b) > 0)
    k = 1 / np.sqrt(1 - np.sin(a) ** 2 * np.sin(b) ** 2)
    return s, [-k * np.cos(a) * np.cos(b), -k * np.cos(a) * np.sin(b), -k * np.sin(a) * np.cos(b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(env, a):
    n = env.np.sqrt(dot(a, a))
    return [x / n for x in a]


COUNTS = [1, 2, 3]


@contract('P04', SOLVE, variants=['both', 'alpha', 'beta', 'none', 'default'])
def totals(env, kind):
    """The totals are the sums over the propellers, in body and in wind axes."""
    n = env.choice('propellers', COUNTS)
    s, made = solver(env, n, points=False)
    if kind == 'default':
        state, u = env.choice('default', [None, {}]), [-1, 0, 0]
    else:
        state, u = flow(env, {'both': ('alpha', 'beta'), 'alpha': ('alpha',), 'beta': ('beta',), 'none': ()}[kind])
    before = state and dict(state)
    r, v = s.solve(state, {'J': env.real('J')})
    env.eq('state is left as it was', state, before)
    env.eq('no points, no velocities', v is None, True)
    t = r['total']
    F = [sum([m.v('F', 3)[k] for m in made]) for k in range(3)]
    M = [sum([m.v('M', 3)[k] for m in made]) for k in range(3)]
    for k in range(3):
        env.eq('force', t['F' + 'XYZ'[k]], F[k])
        env.eq('moment', t['M' + 'XYZ'[k]], M[k])
    env.eq('thrust', t['Thrust'], sum([m.v('T') for m in made]))
    env.eq('torque', t['Torque'], sum([m.v('l') for m in made]))
    L = unit(env, cross(u, [0, 1, 0]))
    S = unit(env, cross(L, u))
    env.eq('lift', t['FL'], dot(F, L))
    env.eq('drag', t['FD'], dot(F, u))
    env.eq('side force', t['FS'], dot(F, S))


@contract('P02', SOLVE, variants=['each', 'some', 'common', 'none'])
def states(env, kind):
    """Every propeller runs in the given flow, at its own state when one is given under its name."""
    n = env.choice('propellers', COUNTS)
    s, made = solver(env, n, points=False)
    own = [{'rot_per_sec': env.real('rate%d' % k)} for k in range(n)]
    if kind == 'each':
        ps = {'prop%d' % k: own[k] for k in range(n)}
        want = own
    elif kind == 'some':
        ps = {'prop0': own[0], 'J': env.real('J')}
        want = [own[0]] + [ps] * (n - 1)
    elif kind == 'common':
        ps = {'J': env.real('J')}
        want = [ps] * n
    else:
        ps = env.choice('state', [None, {}])
        want = [ps] * n
    state, u = flow(env, ('alpha', 'beta'))
    copy = ps and {k: (dict(v) if isinstance(v, dict) else v) for k, v in ps.items()}
    s.solve(state, ps)
    env.eq('state is left as it was', ps, copy)
    for m, w in zip(made, want):
        env.eq('flow', m._aero, state)
        env.eq('state', m._state or {}, w or {})
        env.eq('set before solving', m._calls, ['aero', 'state', 'forces'])


@contract('P05', SOLVE, variants=['both', 'alpha', 'beta', 'none', 'default', 'no V', 'no rho'])
def field(env, kind):
    """The air at the wing points moves with the freestream and the wash of every propeller."""
    n = env.choice('propellers', COUNTS)
    s, made = solver(env, n)
    wing = env.array('r_cp', env.points, 3)
    if kind == 'default':
        state, u, V, rho = env.choice('default', [None, {}]), [-1, 0, 0], 10, 0.0023769
    else:
        state, u = flow(env, {'alpha': ('alpha',), 'beta': ('beta',), 'none': ()}.get(kind, ('alpha', 'beta')))
        V, rho = state['V_mag'], state['rho']
    if kind in ('no V', 'no rho'):
        del state['V_mag' if kind == 'no V' else 'rho']
        env.raises('incomplete flow', RuntimeError, lambda: s.solve(state, {'J': env.real('J')}))
        return
    r, v = s.solve(state, {'J': env.real('J')})
    env.eq('a row per point', env.np.shape(v)[0], env.points)
    env.eq('density and velocity', env.np.shape(v)[1], 4)
    for m in made:
        env.eq('wash of the solved propeller', m._calls[-2:], ['forces', 'wash'])

    def point(i):
        env.eq('density', v[i, 0], rho)
        for k in range(3):
            env.eq('velocity', v[i, 1 + k], V * u[k] + sum([m.v('wash', env.points, 3)[i, k] for m in made]))
        env.eq('points are left where they were', wing[i], env.array('r_cp', env.points, 3)[i])
    env.forall(env.points, point)
    r, w = s.solve(state, {'J': env.real('J')})
    env.forall(env.points, lambda i: env.eq('the same again', w[i], v[i]))


@contract('P04', ['propssolver.PropsSolver._distributions', 'propssolver.PropsSolver._initialize_arrays'])
def stations(env):
    """The distributions list every station of every propeller in order, angles in degrees."""
    n = env.choice('propellers', COUNTS)
    s, made = solver(env, n, points=False)
    s.solve(flow(env, ())[0], {'J': env.real('J')})
    d = s._distributions()
    env.eq('columns', sorted(d), sorted(list(GETTERS) + ['name']))
    start = 0
    for m in made:
        def station(i, m=m, start=start):
            env.eq('name', d['name'][start + i], m._name)
            for k in GETTERS:
                env.eq(k, d[k][start + i], m.column(k)[i] * (180 / env.pi if k in ANGLES else 1))
        env.forall(m._nodes, station)
        start = start + m._nodes
    for k in d:
        env.eq('rows', env.np.shape(d[k])[0], start)

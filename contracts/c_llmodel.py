"""Contracts on llmodel.py: the lifting-line solution on an arbitrary lattice.

The lattice is a stand-in for LLGrid (whose own contracts are in c_grid.py): any
number of sections N with arbitrary positions, frames, areas, airfoil and control
data.  The specification below is written per section pair and independently of
how the code arranges its arrays.
"""
from vc.api import contract, Stub

SOLVE = ['llmodel.LLModel.__init__', 'llmodel.LLModel._pre_calculations', 'llmodel.LLModel.solve',
         'llmodel.LLModel._process_aero_state', 'llmodel.LLModel._superimpose_rotation', 'llmodel.LLModel._process_control_state',
         'llmodel.LLModel._compute_deflection_efficiency', 'llmodel.LLModel._calc_induced_velocities',
         'llmodel.LLModel._setup_linear_matrices', 'llmodel.LLModel._effective_flap_deflection',
         'llmodel.LLModel._solve_linear_system']
FORCES = SOLVE + ['llmodel.LLModel._forces_and_moments', 'llmodel.LLModel._compute_velocities', 'llmodel.LLModel._compute_forces',
                  'llmodel.LLModel._rotate_aero_forces', 'llmodel.LLModel._local_parasitic_drag_coefficient',
                  'llmodel.LLModel._compute_moments', 'llmodel.LLModel._local_moment_coefficient']

POS = {'area', 'int_chord2', 'chord'}
VECS = {'r_cp', 'r_1', 'r_2', 'u_a', 'u_n', 'u_s'}


class Grid(Stub):
    """What LLModel may rely on: getters of per-section data, nothing about their values."""

    def __init__(self, env):
        self._env = env

    def v(self, name):
        env = self._env
        if name in VECS:
            return env.array('grid_' + name, env.N, 3, generic=True)
        kw = {'pos': True, 'generic': True} if name in POS else {}
        if name in ('cla', 'cla_l', 'cla_r'):
            kw['gen'] = (4, 7)
        if name in ('al0', 'al0_l', 'al0_r'):
            kw['gen'] = (-.1, .1)
        if name == 'spacing':
            kw['gen'] = (0, 1)
        if name in ('CLmax',):
            kw['gen'] = (-1, 1)
        return env.array('grid_' + name, env.N, **kw)

    def get_control_point_pos(self):
        return self.v('r_cp')

    def get_corner_point_pos(self):
        return self.v('r_1'), self.v('r_2')

    def get_cg_location(self):
        return self._env.array('cg', 3)

    def get_unit_normal_vectors(self):
        return self.v('u_n')

    def get_unit_axial_vectors(self):
        return self.v('u_a')

    def get_unit_spanwise_vectors(self):
        return self.v('u_s')

    def get_section_areas(self):
        return self.v('area')

    def get_lift_slopes(self):
        return self.v('cla')

    def get_zero_lift_alpha(self):
        return self.v('al0')

    def get_left_lift_slopes(self):
        return self.v('cla_l')

    def get_right_lift_slopes(self):
        return self.v('cla_r')

    def get_left_zero_lift_alpha(self):
        return self.v('al0_l')

    def get_right_zero_lift_alpha(self):
        return self.v('al0_r')

    def get_cp_spacing(self):
        return self.v('spacing')

    def get_flap_effectiveness(self):
        return self.v('flap_eff')

    def get_control_mix(self):
        return self.v('mix_a'), self.v('mix_e'), self.v('mix_r'), self.v('mix_f')

    def get_left_drag_coeff(self):
        return self.v('cd0_l'), self.v('cd1_l'), self.v('cd2_l')

    def get_right_drag_coeff(self):
        return self.v('cd0_r'), self.v('cd1_r'), self.v('cd2_r')

    def get_drag_coefficients(self):
        return self.v('cd0'), self.v('cd1'), self.v('cd2')

    def get_moment_slopes(self):
        return self.v('cma'), self.v('cml0'), self.v('cmd')

    def get_left_moment_slopes(self):
        return self.v('cma_l')

    def get_right_moment_slopes(self):
        return self.v('cma_r')

    def get_left_zero_lift_moments(self):
        return self.v('cml0_l')

    def get_right_zero_lift_moments(self):
        return self.v('cml0_r')

    def get_integral_chord2(self):
        return self.v('int_chord2')

    def get_chord_length(self):
        return self.v('chord')

    def get_twist(self):
        return self.v('twist')

    def get_dihedral(self):
        return self.v('dihedral')

    def get_sweep(self):
        return self.v('sweep')

    def get_max_lifts(self):
        return self.v('CLmax')

    def get_wing_names(self):
        return self._env.name_array(self._env.N)


class Plane(Stub):
    def __init__(self, env):
        self._env = env

    def get_num_sections(self):
        return self._env.N


def model(env, gen=(1, 4)):
    ll = env.mod('llmodel')
    env.N = env.size('N', gen=gen)
    env.grid = Grid(env)
    env.patch(ll, 'LLGrid', lambda *a, **k: env.grid)
    return ll.LLModel(Plane(env))


# ---------------------------------------------------------------- vectors
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(env, a):
    return env.np.sqrt(dot(a, a))


def minus(a, b):
    return [a[c] - b[c] for c in range(3)]


def scale(k, a):
    return [k * x for x in a]


# ---------------------------------------------------------------- specification
class Flow:
    """Specification of the flow the sections see."""

    def __init__(self, env, V=None, u=None, rho=None, delta=None):
        self.env = env
        self.V = V            # i -> local velocity at control point i
        self.u = u            # freestream direction
        self.rho = rho        # i -> density
        self.delta = delta or (lambda i: 0)

    def induced(self, i, j):
        """Velocity at control point i of a unit horseshoe vortex bound to section j,
        trailing downstream along the freestream; a bound vortex does not act on itself."""
        env, g, u = self.env, self.env.grid, self.u
        p = g.v('r_cp')[i]
        a = minus(p, g.v('r_1')[j])
        b = minus(p, g.v('r_2')[j])
        ma, mb = norm(env, a), norm(env, b)
        t2 = scale(1 / (mb * (mb - dot(u, b))), cross(u, b))
        t1 = scale(1 / (ma * (ma - dot(u, a))), cross(u, a))
        bound = scale((ma + mb) / (ma * mb * (ma * mb + dot(a, b))), cross(a, b))
        on = env.equal(i, j)
        return [(t2[c] + env.ite(on, 0, 1) * bound[c] - t1[c]) / (4 * env.pi) if env.symbolic else
                (t2[c] + (0 if on else bound[c]) - t1[c]) / (4 * env.pi) for c in range(3)]

    def deflection(self, i):
        """Effective change of angle of attack by the control surface on section i."""
        env = self.env
        d = self.delta(i)
        deg = abs(d) * 180 / env.pi
        eff = env.ite(deg > 11, -0.00871794871794872 * deg + 1.09589743589744, 1)
        return env.grid.v('flap_eff')[i] * eff * d

    def A(self, i, j):
        env, g = self.env, self.env.grid
        V = self.V(i)
        un = g.v('u_n')[i]
        dl = minus(g.v('r_2')[i], g.v('r_1')[i])
        w = -norm(env, V) * g.v('area')[i] * g.v('cla')[i] * dot(self.induced(i, j), un)
        d = 2 * norm(env, cross(V, dl))
        return w + env.ite(env.equal(i, j), d, 0)

    def b(self, i):
        env, g = self.env, self.env.grid
        V = self.V(i)
        alpha = env.np.arctan(dot(V, g.v('u_n')[i]) / dot(V, g.v('u_a')[i]))
        cl = blend(g, i, lambda s: g.v('cla_' + s)[i] * (alpha + self.deflection(i) - g.v('al0_' + s)[i]))
        return dot(V, V) * g.v('area')[i] * cl

    def solved(self, gamma):
        return Solved(self, gamma)


def blend(g, i, f):
    """Property of section i between its segment's left and right ends."""
    t = g.v('spacing')[i]
    return f('l') + t * (f('r') - f('l'))


class Solved:
    """Specification of what follows from the flow and the circulations."""

    def __init__(self, flow, gamma):
        self.f = flow
        self.gamma = gamma
        self.env = flow.env
        self.g = flow.env.grid

    def velocity(self, i):
        V = self.f.V(i)
        return [V[c] + self.env.sum(self.env.N, lambda j: self.gamma[j] * self.f.induced(i, j)[c]) for c in range(3)]

    def alpha(self, i):
        v = self.velocity(i)
        return self.env.np.arctan2(dot(v, self.g.v('u_n')[i]), dot(v, self.g.v('u_a')[i]))

    def q(self, i):
        V = self.f.V(i)
        return self.f.rho(i) * dot(V, V) / 2

    def force(self, i):
        """Kutta-Joukowski."""
        dl = minus(self.g.v('r_2')[i], self.g.v('r_1')[i])
        return scale(self.f.rho(i) * self.gamma[i], cross(self.velocity(i), dl))

    def cl(self, i):
        g, al = self.g, self.alpha(i)
        return blend(g, i, lambda s: g.v('cla_' + s)[i] * (al - g.v('al0_' + s)[i]))

    def cd(self, i):
        g, cl = self.g, self.cl(i)
        cd = blend(g, i, lambda s: g.v('cd0_' + s)[i] + g.v('cd1_' + s)[i] * cl + g.v('cd2_' + s)[i] * cl * cl)
        return cd + 0.002 * abs(self.f.delta(i)) * 180 / self.env.pi

    def parasitic(self, i):
        v = self.velocity(i)
        return scale(self.q(i) * self.cd(i) * self.g.v('area')[i] / norm(self.env, v), v)

    def cm(self, i):
        g, al = self.g, self.alpha(i)
        cm = blend(g, i, lambda s: g.v('cml0_' + s)[i] + g.v('cma_' + s)[i] * (al - g.v('al0_' + s)[i]))
        return cm + self.f.delta(i) * g.v('cmd')[i]

    def arm(self, i):
        return minus(self.g.v('r_cp')[i], self.g.get_cg_location())

    def moment(self, i):
        own = scale(-self.q(i) * self.cm(i) * self.g.v('int_chord2')[i], self.g.v('u_s')[i])
        m = cross(self.arm(i), self.force(i))
        return [own[c] + m[c] for c in range(3)]

    def parasitic_moment(self, i):
        return cross(self.arm(i), self.parasitic(i))

    def total(self, what):
        return [self.env.sum(self.env.N, lambda i: what(i)[c]) for c in range(3)]


def wind(env, u):
    """Freestream, lift and side directions."""
    L = cross(u, [0, 1, 0])
    L = scale(1 / norm(env, L), L)
    S = cross(L, u)
    return L, scale(1 / norm(env, S), S)


def flow_angles(env, V, alpha, beta):
    """Velocity of the air for airspeed V and angles in degrees, and its direction."""
    np = env.np
    a, b = alpha * env.pi / 180, beta * env.pi / 180
    k = 1 / np.sqrt(1 - np.sin(a) ** 2 * np.sin(b) ** 2)
    d = [-k * np.cos(a) * np.cos(b), -k * np.cos(a) * np.sin(b), -k * np.sin(a) * np.cos(b)]
    return scale(V, d), d



def plain_state(env, tag='', angles=('alpha', 'beta')):
    s = {'V_mag': env.real(tag + 'V', pos=True, gen=(5, 30)), 'rho': env.real(tag + 'rho', pos=True)}
    for a in angles:
        s[a] = env.real(tag + a, gen=(-12, 12))
    return s


def plain_flow(env, s, delta=None):
    V, u = flow_angles(env, s['V_mag'], s.get('alpha', 0), s.get('beta', 0))
    return Flow(env, lambda i: V, u, lambda i: s['rho'], delta)


def controls(env, keys=('aileron', 'elevator', 'rudder', 'flap'), tag=''):
    return {k: env.real(tag + k, gen=(-25, 25)) for k in keys}


MIX = {'aileron': 'mix_a', 'elevator': 'mix_e', 'rudder': 'mix_r', 'flap': 'mix_f'}


def deflections(env, c):
    """Section deflection in radians: each input times its mixing, added up."""
    def delta(i):
        t = 0
        for k in MIX:
            if k in c:
                t = t + c[k] * env.grid.v(MIX[k])[i]
        return t * env.pi / 180
    return delta


def check_sections(env, m, z, what=('force', 'alpha', 'cl', 'cd', 'cm')):
    d = m._distributions()

    def row(i):
        if 'force' in what:
            F = z.force(i)
            for c in range(3):
                env.eq('section force', d['forces_xyz'][i, c], F[c])
        if 'alpha' in what:
            env.eq('section angle of attack', d['alpha'][i], z.alpha(i) * 180 / env.pi)
        if 'cl' in what:
            env.eq('section lift coefficient', d['section_CL'][i], z.cl(i))
        if 'cd' in what:
            env.eq('section drag coefficient', d['section_CD_parasitic'][i], z.cd(i))
        if 'cm' in what:
            env.eq('section moment coefficient', d['section_Cm'][i], z.cm(i))
    env.forall(env.N, row)


# ---------------------------------------------------------------- L02
@contract('L02', SOLVE)
def circulation(env):
    """The circulations solve the lifting-line equations; the flow at every
    section is the freestream plus what all horseshoe vortices induce."""
    m = model(env)
    sys = env.linear_solver()
    s = plain_state(env)
    c = controls(env, ('elevator',))
    m.solve('linear', s, c)
    f = plain_flow(env, s, deflections(env, c))
    gamma = sys.solution(0, env.N, f.A, f.b)
    check_sections(env, m, f.solved(gamma), ('force', 'alpha'))


@contract('L02', ['llmodel.LLModel.solve'])
def only_linear(env):
    m = model(env)
    env.raises('unsupported type', RuntimeError, lambda: m.solve('nonlinear', plain_state(env)))


# ---------------------------------------------------------------- L01
RATES = ('roll_rate', 'pitch_rate', 'yaw_rate')
SOME_RATES = [[], [0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2]]
FLOWS = ['default', 'local mean'] + ['%s %s' % (b, ''.join('rpy'[i] for i in r)) for b in ('plain', 'local', 'local mean') for r in SOME_RATES]


def flow_case(env, kind, angles=None):
    """(aero state, Flow) for every way of giving the flow."""
    g = env.grid
    if kind == 'default':
        return None, Flow(env, lambda i: [-10, 0, 0], [-1, 0, 0], lambda i: 1)
    w = kind.split()
    rates = {k: env.real(k) for k in RATES if k[0] in w[-1] and w[-1] in ('r', 'p', 'y', 'rp', 'ry', 'py', 'rpy')}
    if angles is None and not kind.startswith('local mean'):
        angles = env.choice('angles', [('alpha', 'beta'), (), ('alpha',), ('beta',)])
    if kind.startswith('local'):
        ls = env.array('local_state', env.N, 4)
        s = {'local_state': ls}
        rho = lambda i: ls[i, 0]
        base = lambda i: [ls[i, 1], ls[i, 2], ls[i, 3]]
        if kind.startswith('local mean'):
            mean = [env.sum(env.N, lambda i: ls[i, c + 1]) / env.N for c in range(3)]
            u = scale(1 / norm(env, mean), mean)
        else:
            s['V_mag'] = env.real('V', pos=True)
            for k in angles:
                s[k] = env.real(k, gen=(-12, 12))
            u = flow_angles(env, 1, s.get('alpha', 0), s.get('beta', 0))[1]
    else:
        s = plain_state(env, angles=angles)
        V, u = flow_angles(env, s['V_mag'], s.get('alpha', 0), s.get('beta', 0))
        base = lambda i: V
        rho = lambda i: s['rho']
    s.update(rates)
    w = [rates.get(k, 0) for k in RATES]

    def vel(i):
        if not rates:
            return base(i)
        # air moves past the section with minus the section's own motion
        return minus(base(i), cross(w, minus(g.v('r_cp')[i], g.get_cg_location())))
    return s, Flow(env, vel, u, rho)


@contract('L01', SOLVE + ['llmodel.LLModel._compute_velocities', 'llmodel.LLModel._compute_forces'], variants=FLOWS, seeds=.5)
def flow_seen(env, kind):
    """Every form of the aerodynamic state gives each section the stated air velocity and density."""
    m = model(env)
    sys = env.linear_solver()
    s, f = flow_case(env, kind)
    m.solve('linear', s)
    gamma = sys.solution(0, env.N, f.A, f.b)
    check_sections(env, m, f.solved(gamma), ('force', 'alpha'))


@contract('L01', FORCES, variants=['angles', 'default', 'local mean'])
def wind_axes(env, kind):
    """Lift, drag and side force are the force's components in the wind axes."""
    m = model(env)
    env.linear_solver()
    if kind == 'angles':
        s = plain_state(env)
        env.assume(env.np.cos(s['beta'] * env.pi / 180) > 0)
        f = plain_flow(env, s)
    else:
        s, f = flow_case(env, kind)
    r = m.solve('linear', s)
    L, S = wind(env, f.u)
    for part in ('inviscid', 'viscous', 'total'):
        F = [r[part][k] for k in ('FX', 'FY', 'FZ')]
        env.eq(part + ' lift', r[part]['FL'], dot(F, L))
        env.eq(part + ' drag', r[part]['FD'], dot(F, f.u))
        env.eq(part + ' side force', r[part]['FS'], dot(F, S))


@contract('L01', ['llmodel.LLModel._process_aero_state'])
def needs_speed_and_density(env):
    m = model(env)
    env.raises('no V_mag', RuntimeError, lambda: m.solve('linear', {'rho': env.real('rho', pos=True), 'alpha': env.real('a')}))
    env.raises('no rho', RuntimeError, lambda: m.solve('linear', {'V_mag': env.real('V', pos=True), 'alpha': env.real('a')}))


# ---------------------------------------------------------------- L03
@contract('L03', FORCES, variants=['forces', 'moments', 'parasitic', 'parasitic moments', 'sections'])
def totals(env, part):
    """Totals are the sums over all sections."""
    m = model(env)
    sys = env.linear_solver()
    s, f = flow_case(env, 'local', ('alpha', 'beta'))
    c = controls(env, ('elevator',))
    f.delta = deflections(env, c)
    r = m.solve('linear', s, c)
    z = f.solved(sys.solution(0, env.N, f.A, f.b, check=False))
    if part == 'sections':
        check_sections(env, m, z)
        for k in ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'):
            env.eq('total ' + k, r['total'][k], r['inviscid'][k] + r['viscous'][k])
        env.eq('L/D', r['total']['L/D'], (r['inviscid']['FL'] + r['viscous']['FL']) / (r['inviscid']['FD'] + r['viscous']['FD']))
        return
    kind, what, keys = {'forces': ('inviscid', z.force, 'F'), 'moments': ('inviscid', z.moment, 'M'),
                        'parasitic': ('viscous', z.parasitic, 'F'), 'parasitic moments': ('viscous', z.parasitic_moment, 'M')}[part]
    t = z.total(what)
    for k, x in enumerate('XYZ'):
        env.eq('%s %s%s' % (kind, keys, x), r[kind][keys + x], t[k])


# ---------------------------------------------------------------- L04
@contract('L04', SOLVE + ['llmodel.LLModel._local_parasitic_drag_coefficient', 'llmodel.LLModel._local_moment_coefficient'],
          variants=[['aileron', 'elevator', 'rudder', 'flap'], ['aileron'], ['elevator', 'flap'], ['rudder'], []])
def control_inputs(env, keys):
    """Control inputs deflect each section by its mixing, with the efficiency falling off past 11 degrees."""
    m = model(env)
    sys = env.linear_solver()
    s = plain_state(env)
    c = controls(env, keys) if keys else env.choice('none', [None, {}])
    m.solve('linear', s, c)
    f = plain_flow(env, s, deflections(env, c or {}))
    z = f.solved(sys.solution(0, env.N, f.A, f.b))
    check_sections(env, m, z, ('cl', 'cd', 'cm'))


# ---------------------------------------------------------------- L05
def snapshot(env, s):
    return None if s is None else {k: (v.copy() if k == 'local_state' else v) for k, v in s.items()}


@contract('L05', FORCES, variants=[['plain', 'default'], ['plain', 'no angles'], ['rates', 'alpha'], ['default', 'plain'], ['local', 'plain'],
                                   ['controls', 'default'], ['rates', 'local'], ['controls', 'plain'], ['plain', 'controls']], seeds=.5)
def no_memory(env, kinds):
    """A solution depends on the states given, not on what was solved before; neither
    the caller's states nor results already returned are changed."""
    first, second = kinds

    def states(kind, tag):
        c = None
        if kind == 'default':
            return None, None
        if kind == 'controls':
            c = controls(env, tag=tag)
        if kind in ('rates', 'local'):
            s, _ = flow_case(env, {'rates': 'plain rpy'}.get(kind, kind), ('alpha', 'beta'))
        else:
            s = plain_state(env, tag, {'no angles': (), 'alpha': ('alpha',)}.get(kind, ('alpha', 'beta')))
        return s, c
    m = model(env)
    sys = env.linear_solver()
    s1, c1 = states(first, 'a_')
    s2, c2 = states(second, 'b_')
    k1, k2, kc1, kc2 = snapshot(env, s1), snapshot(env, s2), snapshot(env, c1), snapshot(env, c2)
    r1 = m.solve('linear', s1, c1)
    old = {p: dict(r1[p]) for p in r1}
    r2 = m.solve('linear', s2, c2)
    d2 = m._distributions()
    fresh = env.mod('llmodel').LLModel(Plane(env))
    sys.answer_next(1)
    r = fresh.solve('linear', snapshot(env, k2), snapshot(env, kc2))
    sys.scaled(1, 2, env.N, 1, 1)
    d = fresh._distributions()
    for p in ('inviscid', 'viscous', 'total'):
        for k in r[p]:
            env.eq('same as a fresh model', r2[p][k], r[p][k])
        env.eq('same keys', sorted(map(str, r2[p])) == sorted(map(str, r[p])), True)
        for k in old[p]:
            env.eq('earlier result kept', r1[p][k], old[p][k])
    for k in ('alpha', 'forces_xyz', 'section_CL', 'section_Cm', 'section_CD_parasitic'):
        env.eq('same sections as a fresh model', d2[k], d[k])
    for now, was in ((s1, k1), (s2, k2), (c1, kc1), (c2, kc2)):
        if now is not None:
            env.eq('states unchanged', now, was)


# ---------------------------------------------------------------- L06
@contract('L06', FORCES, variants=['plain', 'controls'])
def dynamic_pressure(env, kind):
    """At given angles and deflections, forces and moments are proportional to the
    density and to the square of the airspeed; angles and coefficients do not change."""
    m = model(env)
    sys = env.linear_solver()
    s = plain_state(env)
    c = controls(env) if kind == 'controls' else None
    p, q = env.real('speed_factor', pos=True, gen=(.3, 3)), env.real('density_factor', pos=True, gen=(.3, 3))
    r1 = m.solve('linear', s, c)
    d1 = m._distributions()
    m2 = env.mod('llmodel').LLModel(Plane(env))
    sys.answer_next(0, p)
    s2 = dict(s, V_mag=p * s['V_mag'], rho=q * s['rho'])
    r2 = m2.solve('linear', s2, c)
    sys.scaled(0, 1, env.N, p, p * p)
    d2 = m2._distributions()
    for part in ('inviscid', 'viscous', 'total'):
        for k in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ', 'FL', 'FD', 'FS'):
            env.eq(part + ' ' + k, r2[part][k], q * p * p * r1[part][k])
    env.eq('L/D', r2['total']['L/D'], r1['total']['L/D'])

    def row(i):
        env.eq('section angle of attack', d2['alpha'][i], d1['alpha'][i])
        for k in ('section_CL', 'section_Cm', 'section_CD_parasitic'):
            env.eq(k, d2[k][i], d1[k][i])
    env.forall(env.N, row)


# ---------------------------------------------------------------- M07
@contract('M07', FORCES + ['llmodel.LLModel._distributions'], variants=['plain', 'controls'])
def section_report(env, kind):
    """One row per section, in lattice order, holding that section's own data."""
    m = model(env)
    sys = env.linear_solver()
    s = plain_state(env)
    c = controls(env) if kind == 'controls' else None
    m.solve('linear', s, c)
    d = m._distributions()
    f = plain_flow(env, s, deflections(env, c or {}))
    gamma = sys.solution(0, env.N, f.A, f.b)
    g = env.grid
    rows = {'chord': 'chord', 'twist': 'twist', 'dihedral': 'dihedral', 'sweep': 'sweep', 'area': 'area', 'section_alpha_L0': 'al0'}

    def row(i):
        env.eq('name', d['name'][i], g.get_wing_names()[i])
        for c in range(3):
            env.eq('control point', d['control_points'][i, c], g.v('r_cp')[i, c])
        for k in rows:
            env.eq(k, d[k][i], g.v(rows[k])[i])
    env.forall(env.N, row)
    for k in d:
        env.eq('one row per section', env.np.shape(d[k])[0], env.N)
    check_sections(env, m, f.solved(gamma))


# ---------------------------------------------------------------- M05
@contract('M05', ['llmodel.LLModel._find_stall_location'], variants=['plain', 'controls'])
def stall_location(env, kind):
    """A stall is reported exactly when some section exceeds its maximum lift coefficient, at such a section:
    its wing, and its distance from the root as a fraction of the span."""
    m = model(env)
    env.linear_solver()
    m.solve('linear', plain_state(env), controls(env) if kind == 'controls' else None)
    cl, g = m._distributions()['section_CL'], env.grid
    r = m._find_stall_location()
    over = lambda i: cl[i] > g.v('CLmax')[i]
    if r is None:
        env.forall(env.N, lambda i: env.ensure('no section is stalled', env.no(over(i))))
        return
    i = env.np.where(cl > g.v('CLmax'))[0][0]
    env.ensure('this section is stalled', over(i))
    name = g.get_wing_names()[i]
    env.eq('wing', r['stalled_wing'], name)
    env.eq('span position', r['span_location'], g.v('spacing')[i] if name[:5] == 'right' else 1 - g.v('spacing')[i])

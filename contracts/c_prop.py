"""Contracts on propmodel.py: one propeller with any number of blade stations.

The propeller description is the real geometry.Prop, built from arbitrary values.
"""
from vc.api import contract, Stub

SETUP = ['propmodel.PropModel.__init__', 'propmodel.PropModel._calc_spacing', 'propmodel.PropModel._calc_orientation',
         'propmodel.PropModel._calc_coefficients', 'propmodel.PropModel._calc_pitch', 'propmodel.PropModel._calc_chord',
         'propmodel.PropModel._linearInterp', 'propmodel.PropModel._import_data', 'propmodel.PropModel._calc_motor',
         'propmodel.PropModel._calc_stall_delay', 'propmodel.PropModel._init_speed_vars', 'propmodel.PropModel._set_slipstream_variables']
FOIL = ('alpha_L0', 'CL_alpha', 'CL_max', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2')


def foil(env, tag='', **more):
    d = {k: env.real(tag + k, gen={'CL_alpha': (4, 7), 'alpha_L0': (-.1, .05), 'CL_max': (.8, 2)}.get(k, (-.05, .05)),
                     pos=k in ('CL_alpha', 'CL_max')) for k in FOIL}
    d.update(more)
    return d


def dims(env, given=('position', 'orientation', 'rot_dir', 'num_of_blades')):
    """Any propeller: a hub smaller than the disc."""
    d = env.real('diameter', pos=True, gen=(.3, 3))
    env.h = env.real('hub_fraction', pos=True, gen=(.02, .5))
    env.assume(env.h < 0.99)
    hub = env.h * d
    env.n = env.size('nodes', lo=2, gen=(2, 9))
    r = {'diameter': d, 'hub_diameter': hub, 'nodes': env.n}
    if 'position' in given:
        r['position'] = env.array('prop_position', 3)
    if 'orientation' in given:
        r['orientation'] = [env.real('elevation', gen=(-40, 40)), env.real('heading', gen=(-40, 40))]
    if 'rot_dir' in given:
        r['rot_dir'] = env.choice('rot_dir', ['CCW', 'CW', 1, -1])
    if 'num_of_blades' in given:
        r['num_of_blades'] = env.real('blades', pos=True, gen=(2, 5))
    return r


def describe(env, d, foils=None):
    p = env.mod('geometry').Prop('p', d)
    for name, f in (foils or {'naca': foil(env)}).items():
        p.airfoil(name, **f)
    return p


def build(env, d, foils=None, points=None, units='English'):
    env.prop = describe(env, d, foils)
    return env.mod('propmodel').PropModel(env.prop, env.array('cg', 3), units, points)


def zeta(env, d, i):
    """Radius of station i as a fraction of the tip radius: evenly spaced from hub to tip."""
    h = env.h
    return h + i * (0.999 - h) / (env.n - 1)


def beyond_hub(env, d, i):
    env.lemma('not before the hub', (0.999 - env.h) * i >= 0)
    env.lemma('not before the hub', (0.999 - env.h) * i / (env.n - 1) >= 0)
    env.lemma('stations have a radius', zeta(env, d, i) > 0)


# ---------------------------------------------------------------- P01
@contract('P01', SETUP, variants=['default', 'ratio', 'value', 'table'])
def pitch(env, kind):
    """The chord line at a station is set at the angle of the given pitch at that radius; the aerodynamic
    pitch is measured from the zero-lift line; an increment is added everywhere."""
    d = dims(env, ())
    info = {'type': kind}
    if kind in ('ratio', 'value'):
        info['value'] = env.real('pitch', pos=True, gen=(.2, 2))
    if kind == 'table':
        table = env.array('blade', env.size('rows', lo=4, gen=(4, 7)), 2, generic=True)
        info = {'type': 'from_file', 'filename': env.table_file(table)}
    inc = env.choice('increment', [0, 1]) and env.real('increment', gen=(-5, 5))
    if env.choice('increment', [0, 1]):
        info['pitch_increment'] = inc
    d['pitch_info'] = info
    a0 = env.real('alpha_L0', gen=(-.1, .05))
    pm = build(env, d)
    b = pm.get_aero_pitch_angle()
    env.eq('stations', env.np.shape(b)[0], env.n)
    t0 = env.np.tan(a0)
    P = {'default': lambda: 0.5 * d['diameter'], 'ratio': lambda: info['value'] * d['diameter'], 'value': lambda: info['value'], 'table': lambda: 0}[kind]()

    def station(i):
        r = zeta(env, d, i) * d['diameter'] / 2
        env.eq('radius', pm.get_radial_position()[i], r)
        beyond_hub(env, d, i)
        if kind == 'table':
            t = env.np.tan(env.cubic(table[:, 0], table[:, 1] * env.pi / 180, zeta(env, d, i)))
            tan = (t - t0) / (1 + t * t0)
        else:
            around = 2 * env.pi * r
            tan = (P - around * t0) / (around + P * t0)
        env.eq('pitch angle', b[i], env.np.arctan(tan) + inc * env.pi / 180)
    env.forall(env.n, station)


@contract('P01', SETUP, variants=['default', 'linear', 'constant', 'elliptical', 'table'])
def chord(env, kind):
    """The chord at a station follows the given rule."""
    d = dims(env, ())
    np = env.np
    root, tip = env.real('root', pos=True, gen=(.02, .2)), env.real('tip', pos=True, gen=(.02, .2))
    D = d['diameter']
    info = {'type': kind}
    if kind == 'linear':
        info.update(root=root, tip=tip)
    elif kind == 'constant':
        info = {'type': 'linear', 'root': root}
    elif kind == 'elliptical':
        info['root'] = root
    elif kind == 'table':
        table = env.array('blade', env.size('rows', lo=4, gen=(4, 7)), 2, generic=True)
        info = {'type': 'from_file', 'filename': env.table_file(table)}
    if kind != 'default':
        d['chord_info'] = info
    pm = build(env, d)
    c = pm.get_chord()
    env.eq('stations', env.np.shape(c)[0], env.n)

    def station(i):
        z = zeta(env, d, i)
        want = {'default': lambda: 0.075 * D * np.sqrt(1 - z * z), 'constant': lambda: root,
                'linear': lambda: root + (tip - root) * i / (env.n - 1), 'elliptical': lambda: root * np.sqrt(1 - z * z),
                'table': lambda: env.cubic(table[:, 0], table[:, 1], z) * D / 2}[kind]()
        env.eq('chord', c[i], want)
        env.eq('chord to diameter, all blades', pm._chatb[i], pm.get_num_blades() * want / D)
        env.eq('chord to radius', pm._c_r[i], want / (z * D / 2))
    env.forall(env.n, station)


@contract('P01', SETUP + ['geometry.Prop._unpack'])
def bad_rules(env):
    """Rules that do not exist are refused."""
    d = dims(env, ())
    env.raises('pitch', RuntimeError, lambda: build(env, dict(d, pitch_info={'type': 'none'})))
    env.raises('chord', RuntimeError, lambda: build(env, dict(d, chord_info={'type': 'none'})))


@contract('P01', SETUP)
def pose(env):
    """Position, blades, stations and thrust direction are those given."""
    d = dims(env)
    pm = build(env, d)
    th, ga = [x * env.pi / 180 for x in d['orientation']]
    np = env.np
    f = [np.cos(th) * np.cos(ga), np.cos(th) * np.sin(ga), -np.sin(th)]
    env.eq('thrust direction', pm._prop_forward, f)
    env.eq('slipstream direction', pm._slip_dir, [-x for x in f])
    env.eq('position', pm.get_position(), d['position'])
    env.eq('stations', pm.get_num_nodes(), env.n)
    env.eq('blades', pm.get_num_blades(), d['num_of_blades'])
    env.eq('rotation', pm.get_rotation_direction(), 1 if d['rot_dir'] in ('CCW', 1) else -1)


@contract('P01', SETUP + ['geometry.Prop.airfoil'], variants=['two', 'three', 'ends', 'unplaced'])
def blending(env, kind):
    """Section properties are interpolated between the airfoils' stations and held beyond the outermost."""
    d = dims(env, ())
    np = env.np
    names = ['a', 'b', 'c'][:3 if kind == 'three' else 2]
    at = [env.real('at_' + n, gen=(.1 + .3 * i, .3 + .3 * i)) for i, n in enumerate(names)]
    for p, q in zip(at, at[1:]):
        env.assume(p < q)
    if kind == 'ends':
        at = ['root', 'tip']
        for s in ('root', 'Root', 'ROOT'):
            if env.choice('spelling ' + s, [0, 1]):
                at[0] = s
    f = {n: foil(env, n, **({} if kind == 'unplaced' and n == 'b' else {'span_position': p})) for n, p in zip(names, at)}
    given = list(reversed(names)) if env.choice('order', [0, 1]) else names
    go = lambda: build(env, d, {n: f[n] for n in given})
    if kind == 'unplaced':
        env.raises('position needed', RuntimeError, go)
        return
    pm = go()
    if kind == 'ends':
        at = [zeta(env, d, 0), zeta(env, d, env.n - 1)]
        env.lemma('hub before tip', at[0] < at[1])
    at = np.array(at)
    got = {'alpha_L0': pm.get_zero_lift_alpha(), 'CL_alpha': pm._CL_alpha, 'CL_max': pm._CL_max,
           'CD0': pm._CD_0, 'CD0_L': pm._CD_L, 'CD0_L2': pm._CD_L2}

    def station(i):
        z = zeta(env, d, i)
        for k, v in got.items():
            vals = np.array([f[n][k] for n in names])
            env.eq(k, v[i], env.interp(at, vals, z, f[names[0]][k], f[names[-1]][k]))
    env.forall(env.n, station)


# ---------------------------------------------------------------- P02
def air(env, keys=('alpha', 'beta')):
    s = {'V_mag': env.real('V', pos=True, gen=(5, 60)), 'rho': env.real('rho', pos=True, gen=(.001, .003))}
    for k in keys:
        s[k] = env.real(k, gen=(-15, 15))
    al, be = [s.get(k, 0) * env.pi / 180 for k in ('alpha', 'beta')]
    env.assume(env.np.sin(al) ** 2 * env.np.sin(be) ** 2 < 1)
    return s


def wind(env, s):
    """Direction of the air's velocity past the airplane."""
    np = env.np
    a, b = [s.get(k, 0) * env.pi / 180 for k in ('alpha', 'beta')]
    k = 1 / np.sqrt(1 - np.sin(a) ** 2 * np.sin(b) ** 2)
    return [-k * np.cos(a) * np.cos(b), -k * np.cos(a) * np.sin(b), -k * np.sin(a) * np.cos(b)]


def forward(env, d):
    np = env.np
    th, ga = [x * env.pi / 180 for x in d['orientation']]
    return [np.cos(th) * np.cos(ga), np.cos(th) * np.sin(ga), -np.sin(th)]


@contract('P02', SETUP + ['propmodel.PropModel._set_aero_state'], variants=['given', 'default', 'no V', 'no rho'])
def airspeed(env, kind):
    """The propeller sees the given flow; an incomplete flow is refused and none means the default."""
    d = dims(env)
    pm = build(env, d)
    s = air(env, env.choice('angles', [('alpha', 'beta'), ('alpha',), ('beta',), ()]))
    if kind in ('no V', 'no rho'):
        del s['V_mag' if kind == 'no V' else 'rho']
        env.raises('incomplete', RuntimeError, lambda: pm._set_aero_state(s))
        return
    if kind == 'default':
        pm._set_aero_state(env.choice('none', [None, {}]))
        s = {'V_mag': 10, 'rho': 0.0023769}
    else:
        before = dict(s)
        pm._set_aero_state(s)
        env.eq('flow is left as it was', s, before)
    env.eq('airspeed', pm._Vinf, s['V_mag'])
    env.eq('density', pm._rho, s['rho'])
    env.eq('direction', pm._v_xyz, wind(env, s))
    env.eq('speed along the slipstream', pm._Vs, -s['V_mag'] * sum([a * b for a, b in zip(wind(env, s), forward(env, d))]))


@contract('P02', SETUP + ['propmodel.PropModel._set_prop_state'], variants=['J', 'static', 'rate', 'both', 'none', 'incomplete', 'static incomplete'])
def state(env, kind):
    """Advance ratio, rotation rate, airspeed and diameter agree: V = J n d."""
    d = dims(env, ('position',))
    pm = build(env, d)
    s = air(env, ())
    V = s['V_mag']
    pm._set_aero_state(s)
    J, n = env.real('J', nonzero=True, gen=(.1, 1.5)), env.real('n', pos=True, gen=(5, 60))
    if kind == 'incomplete':
        env.raises('incomplete', RuntimeError, lambda: pm._set_prop_state({'rpm': n}))
        return
    if kind == 'static incomplete':
        env.raises('incomplete', RuntimeError, lambda: pm._set_prop_state({'J': 0.}))
        return
    p = {'J': {'J': J}, 'static': {'J': 0., 'rot_per_sec': n}, 'rate': {'rot_per_sec': n}, 'both': {'J': J, 'rot_per_sec': n},
         'none': env.choice('none', [None, {}])}[kind]
    before = p and dict(p)
    pm._set_prop_state(p)
    env.eq('state is left as it was', p, before)
    if kind == 'static':
        env.eq('advance ratio', pm._J, 0)
        env.eq('rotation rate', pm._rot_per_sec, n)
        return
    env.eq('V = J n d', pm._J * pm._rot_per_sec * d['diameter'], V)
    if kind == 'rate':
        env.eq('rotation rate', pm._rot_per_sec, n)
    else:
        env.eq('advance ratio', pm._J, 0.5 if kind == 'none' else J)


class Coefficients(Stub):
    """Stand-in for PropModel._find_coefficients: arbitrary coefficients of each operating point."""

    def __init__(self, env, pm):
        self._env = env
        self._pm = pm
        self._fun = {k: env.fun(k, conc=c) for k, c in
                     (('CT', lambda r, J, n: .1 - .05 * J), ('CP', lambda r, J, n: .05 + .02 * J),
                      ('CNa', lambda r, J, n: .02 * J), ('Cna', lambda r, J, n: .01 * J))}
        self._last = self._prev = None
        self._angles = env.array('ei', env.n)
        env.patch(pm, '_find_coefficients', self)

    def at(self, name, J, n):
        return self._fun[name](J, n)

    def __call__(self):
        pm, env = self._pm, self._env
        J, n = pm._J, pm._rot_per_sec
        self._prev = self._last
        self._last = n
        pm._CT, pm._CP = self.at('CT', J, n), self.at('CP', J, n)
        pm._Cl = pm._CP / (2 * env.pi)
        pm._CN_a, pm._Cn_a = self.at('CNa', J, n), self.at('Cna', J, n)
        pm._einf = env.np.arctan2(pm._J, env.pi * pm._zeta)
        pm._ei = self._angles


MOTOR = {'motor_kv': (500, 1500), 'motor_resistance': (.01, .1), 'motor_no_load_current': (.5, 2), 'gear_reduction': (1, 3),
         'battery_resistance': (.01, .1), 'battery_voltage': (7, 12), 'speed_control_resistance': (.001, .01)}


def motor(env):
    return dict({k: env.real(k, pos=True, gen=g) for k, g in MOTOR.items()}, has_motor=True)


def shaft_torque(env, mo, throttle, n, units):
    """Torque of an electric motor at n revolutions per second: current times torque constant."""
    eta = 1 - 0.079 * (1 - throttle)
    kv = mo['motor_kv'] / mo['gear_reduction']
    current = (eta * throttle * mo['battery_voltage'] - 60 * n / kv) / (eta * throttle * mo['battery_resistance'] + mo['speed_control_resistance'] + mo['motor_resistance'])
    torque = 7.0432 / kv * (current - mo['motor_no_load_current'])
    return torque * (1 if units == 'English' else 1.3558179483314)


@contract('P02', SETUP + ['propmodel.PropModel._set_prop_state', 'propmodel.PropModel._prop_state_from_power',
                          'propmodel.PropModel._find_rot_rate_power', 'propmodel.PropModel._find_rot_rate_motor',
                          'propmodel.PropModel._zero_power_difference', 'propmodel.PropModel._zero_torque_difference',
                          'propmodel.PropModel._electric_motor_torque'],
          variants=['power', 'throttle', 'throttle SI', 'no motor', 'no units'])
def driven(env, kind):
    """The rotation rate is where the power (torque) the propeller absorbs meets the brake power (motor torque):
    the point where the straight line through the last two estimates does, within the tolerance of the last."""
    env.loops(2)
    d = dims(env, ('position',))
    mo = motor(env)
    if kind != 'no motor':
        d['electric_motor'] = mo
    units = {'throttle SI': 'SI', 'no units': None}.get(kind, 'English')
    pm = build(env, d, units=units)
    s = air(env, ())
    V, rho, D = s['V_mag'], s['rho'], d['diameter']
    pm._set_aero_state(s)
    P = env.real('power', pos=True, gen=(5, 50))
    thr = env.real('throttle', pos=True, hi=1, gen=(.5, 1))
    c = Coefficients(env, pm)
    pm._set_prop_state({'brake_power': P} if kind == 'power' else {'electric_throttle': thr})
    if kind in ('no motor', 'no units'):
        env.raises('refused', RuntimeError, pm._calc_forces)
        return
    try:
        pm._calc_forces()
    except ZeroDivisionError:           # two estimates with the same excess: no answer is given
        return
    n = pm._rot_per_sec
    env.eq('V = J n d', pm._J * n * D, V)

    def excess(n):
        CP = c.at('CP', V / (n * D), n)
        if kind == 'power':
            return rho * n ** 3 * D ** 5 * CP - P
        return rho * n ** 2 * D ** 5 * CP / (2 * env.pi) - shaft_torque(env, mo, thr, n, units)
    x1, x0 = c._last, c._prev
    if x0 is None:
        env.eq('the first estimate', n, x1)
        env.ensure('meets the demand', abs(excess(x1)) < 1e-14)
        return
    y1, y0 = excess(x1), excess(x0)
    env.ensure('within the tolerance of the last estimate', abs(n - x1) < 1e-14)
    env.assume(env.no(env.equal(y1, y0)))
    env.eq('meets the demand', n, x1 - y1 * (x1 - x0) / (y1 - y0))


# ---------------------------------------------------------------- P03
SECTION = ['propmodel.PropModel._calc_stall_delay', 'propmodel.PropModel.get_coefficients_alpha', 'propmodel.PropModel._get_CL',
           'propmodel.PropModel._get_CD', 'propmodel.PropModel._CD_Viterna', 'propmodel.PropModel._get_CL_a']
PLATE = 1.11 + 0.018 * 10           # drag coefficient of a blade broadside to the flow


def varied(env, given=()):
    """A propeller whose section properties and chord vary along the blade."""
    d = dims(env, given)
    d['chord_info'] = {'type': 'linear', 'root': env.real('root', pos=True, gen=(.02, .2)), 'tip': env.real('tip', pos=True, gen=(.02, .2))}
    return d, build(env, d, {'a': foil(env, 'a', span_position='root'), 'b': foil(env, 'b', span_position='tip')})


class Section:
    """Coefficients of blade station i: attached, and beyond stall those of Viterna, stall being delayed by
    rotation (Corrigan)."""

    def __init__(self, env, pm, i):
        np = self.np = env.np
        self.env = env
        self.slope, self.aL0 = pm._CL_alpha[i], pm.get_zero_lift_alpha()[i]
        self.CD = pm._CD_0[i], pm._CD_L[i], pm._CD_L2[i]
        cr = pm._c_r[i]
        stall = pm._CL_max[i] / self.slope
        self.stall = {1: stall, -1: stall + 1.5 * self.aL0}
        self.delay = stall * ((0.1517 / cr) ** (1 / 1.084) * cr / 0.136 - 1)
        self.top = {1: pm._CL_max[i], -1: self.stall[-1] * self.slope}
        self.bound = {1: stall + self.delay, -1: stall - self.delay}

    def attached_drag(self, cl):
        a, b, c = self.CD
        return a + b * cl + c * cl * cl

    def branch(self, x, side):
        """Lift at angle x > 0 towards the given side."""
        env, np = self.env, self.np
        a = x - self.delay
        line = self.slope * a
        s0, c0 = np.sin(self.stall[side]), np.cos(self.stall[side])
        sep = PLATE / 2 * np.sin(2 * a) + (self.top[side] - PLATE * s0 * c0) * s0 / (c0 * c0) * np.cos(a) * np.cos(a) / np.sin(a)
        w = np.tanh((a - self.stall[side]) * 180 / env.pi) / 2 + 0.5
        return env.ite(a < 2 * env.pi / 180, line, (1 - w) * line + w * sep) + self.slope * self.delay

    def lift(self, x):
        return self.env.ite(x < 0, -self.branch(-x, -1), self.branch(x, 1))

    def broadside(self, x, side):
        np = self.np
        b = self.bound[side]
        top = self.attached_drag(side * b * self.slope)
        return PLATE * np.sin(x) ** 2 + (top - PLATE * np.sin(b) ** 2) / np.cos(b) * np.cos(x)

    def drag(self, x):
        env = self.env
        return env.ite(x > self.bound[1], self.broadside(x, 1), env.ite(-x > self.bound[-1], self.broadside(-x, -1),
                       self.attached_drag(self.lift(x))))

    def slope_at(self, x):
        h = 0.001
        return (self.lift(x + h) - self.lift(x - h)) / (2 * h)


@contract('P03', SECTION)
def section(env):
    """Lift, drag and lift slope at any angle on any branch."""
    d, pm = varied(env)
    al = env.array('alpha', env.n, gen=(-1.5, 1.5))
    cl, cla, cd = pm.get_coefficients_alpha(al)

    def station(i):
        z = Section(env, pm, i)
        env.assume(env.both(pm._CL_max[i] > 0, pm._CL_alpha[i] > 0))    # interpolated between positive values
        env.lemma('stalls at a positive angle', z.stall[1] > 0)
        env.case(al[i] < 0)
        env.case(z.bound[1] < al[i])
        env.case(z.bound[-1] < -al[i])
        env.eq('lift', cl[i], z.lift(al[i]))
        env.eq('drag', cd[i], z.drag(al[i]))
        env.eq('lift slope', cla[i], z.slope_at(al[i]))
    env.forall(env.n, station)


# ---------------------------------------------------------------- P04
class Induced(Stub):
    """Stand-in for PropModel._find_ei: arbitrary induced angles."""

    def __init__(self, env):
        self._angles = env.array('ei', env.n, gen=(-.2, .2))

    def __call__(self, *a):
        return self._angles.copy()


class Sections(Stub):
    """Stand-in for PropModel.get_coefficients_alpha: arbitrary coefficients at the angles asked for."""

    def __init__(self, env):
        self._env = env
        self._asked = None

    def __call__(self, alpha):
        env = self._env
        self._asked = alpha
        return [env.array(k, env.n) for k in ('CL', 'CLa', 'CD')]


@contract('P04', ['propmodel.PropModel._find_coefficients'], variants=['running', 'static'])
def coefficients(env, kind):
    """Thrust, torque, normal force and yawing moment coefficients integrate the section coefficients along the blade."""
    d, pm = varied(env, ('num_of_blades',))
    np, pi = env.np, env.pi
    J = env.real('J', pos=True, gen=(.1, 1.5)) if kind == 'running' else 0
    pm._J = J
    ei, se = Induced(env), Sections(env)
    env.patch(pm, '_find_ei', ei)
    env.patch(pm, 'get_coefficients_alpha', se)
    pm._find_coefficients()
    e = ei._angles
    CL, CLa, CD = [env.array(k, env.n) for k in ('CL', 'CLa', 'CD')]
    b = pm.get_aero_pitch_angle()

    def adv(i):
        return np.arctan2(J, pi * zeta(env, d, i))

    def station(i):
        beyond_hub(env, d, i)
        env.eq('advance angle', pm.get_advance_angle()[i], np.arctan(J / (pi * zeta(env, d, i))))
        env.eq('angle of attack', pm.get_alpha()[i], b[i] - adv(i) - e[i])
        env.eq('section coefficients are those at the angle of attack', se._asked[i], b[i] - adv(i) - e[i])
        env.eq('induced angle', pm.get_induced_angle()[i], e[i])
        env.eq('section lift', pm.get_section_CL()[i], CL[i])
        env.eq('section drag', pm.get_section_CD()[i], CD[i])
    env.forall(env.n, station)

    def integrals(f):
        return env.simpson(env.array_of((env.n,), f), env.array_of((env.n,), lambda i: zeta(env, d, i)))

    def at(i):
        z, w = zeta(env, d, i), pm._chatb[i] * np.cos(e[i]) ** 2
        a = adv(i) + e[i]
        up, back = CL[i] * np.cos(a) - CD[i] * np.sin(a), CL[i] * np.sin(a) + CD[i] * np.cos(a)
        up1, back1 = (CLa[i] + CD[i]) * np.cos(a) + CL[i] * np.sin(a), CL[i] * np.cos(a) - (CLa[i] + CD[i]) * np.sin(a)
        return z, w, np.tan(adv(i)), 1 / np.cos(adv(i)) ** 2, up, back, up1, back1

    def thrust(i):
        z, w, t, s2, up, back, up1, back1 = at(i)
        return z ** 2 * w * s2 * up

    def torque(i):
        z, w, t, s2, up, back, up1, back1 = at(i)
        return z ** 3 * w * s2 * back

    def normal(i):
        z, w, t, s2, up, back, up1, back1 = at(i)
        return z ** 2 * w * (2 * t * back - t * t * back1)

    def yaw(i):
        z, w, t, s2, up, back, up1, back1 = at(i)
        return z ** 3 * w * (2 * t * up + t * t * up1)
    CT, Cl = pi ** 2 / 4 * integrals(thrust), pi ** 2 / 8 * integrals(torque)
    env.eq('thrust', pm._CT, CT)
    env.eq('torque', pm._Cl, Cl)
    env.eq('power', pm._CP, 2 * pi * Cl)
    env.eq('normal force', pm._CN_a, pi ** 2 / 8 * integrals(normal))
    env.eq('yawing moment', pm._Cn_a, pi ** 2 / 16 * integrals(yaw))
    if env.case(CT > 0):
        env.eq('efficiency', pm._efficiency, CT * J / (2 * pi * Cl))
    else:
        env.eq('no efficiency without thrust', pm._efficiency, 0)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def shaft_angle(env, d, s):
    """Angle between the shaft and the flow; lemma: its cosine is at most 1 in size."""
    f, v = forward(env, d), wind(env, s)
    c = -dot(f, v)
    env.lemma('unit vectors', env.equal(dot(f, f), 1))
    env.lemma('unit vectors', env.equal(dot(v, v), 1))
    env.apply('cosine', lambda c, p, q, r: env.equal(c * c + p * p + q * q + r * r, 1),
              lambda c, p, q, r: env.both(c <= 1, c >= -1), c, *cross(f, v))
    return c, env.np.arccos(env.np.clip(env.simple(c), -1, 1))


class Loads:
    """Force and moment of a propeller about the centre of gravity, from its coefficients."""

    def __init__(self, env, d, s, n, CT, Cl, CNa, Cna, cg, angle):
        np = env.np
        D, q = d['diameter'], s['rho'] * n * n * d['diameter'] ** 4
        turn = 1 if d['rot_dir'] in ('CCW', 1) else -1
        f, v = forward(env, d), wind(env, s)
        c, angle = angle
        self.T = q * CT
        self.l = -turn * q * D * Cl
        if env.case(env.equal(angle, 0)):
            side, N, yaw = [0, 0, 0], 0, 0
        else:
            off = [v[k] + c * f[k] for k in range(3)]         # the part of the wind across the shaft
            side = [o / np.sqrt(dot(off, off)) for o in off]
            N, yaw = q * CNa * angle, q * D * Cna * angle
        self.F = [self.T * f[k] + N * side[k] for k in range(3)]
        arm = [d['position'][k] - cg[k] for k in range(3)]
        r = cross(arm, self.F)
        self.M = [r[k] + self.l * f[k] + turn * yaw * side[k] for k in range(3)]


@contract('P04', SETUP + ['propmodel.PropModel._calc_forces', 'propmodel.PropModel._vec_angle', 'propmodel.PropModel._find_Vi'],
          variants=['both', 'alpha', 'beta', 'none'])
def loads(env, kind):
    """Force and moment of one propeller from its coefficients, and the velocities it induces at the disc."""
    d = dims(env)
    pm = build(env, d)
    s = air(env, {'both': ('alpha', 'beta'), 'alpha': ('alpha',), 'beta': ('beta',), 'none': ()}[kind])
    n = env.real('n', pos=True, gen=(5, 60))
    pm._set_aero_state(s)
    pm._set_prop_state({'rot_per_sec': n})
    c = Coefficients(env, pm)
    angle = shaft_angle(env, d, s)
    F, M, T, l = pm._calc_forces()
    J = s['V_mag'] / (n * d['diameter'])
    CP = c.at('CP', J, n)
    z = Loads(env, d, s, n, c.at('CT', J, n), CP / (2 * env.pi), c.at('CNa', J, n), c.at('Cna', J, n), env.array('cg', 3), angle)
    env.eq('thrust', T, z.T)
    env.eq('torque', l, z.l)
    for k in range(3):
        env.eq('force', F[k], z.F[k])
        env.eq('moment', M[k], z.M[k])
    np = env.np

    def station(i):
        r = zeta(env, d, i) * d['diameter'] / 2
        a, b = pm.get_induced_angle()[i], pm.get_advance_angle()[i]
        V = 2 * env.pi * n * r * np.sin(a) / np.cos(b)
        env.eq('induced speed', pm.get_Vi()[i], V)
        env.eq('axial induced speed', pm.get_axial_Vi()[i], V * np.cos(a + b))
        env.eq('tangential induced speed', pm.get_tangential_Vi()[i], V * np.sin(a + b))
    env.forall(env.n, station)


class Lift(Stub):
    """Stand-in for PropModel._get_CL: an arbitrary function of the station and its angle."""

    def __init__(self, env):
        self._env = env
        self._f = env.fun('section_CL', conc=lambda r, a, i: 6 * a + .1)

    def __call__(self, alpha):
        return self._env.array_of((self._env.n,), lambda i: self._f(alpha[i], i))


@contract('P04', ['propmodel.PropModel._find_ei', 'propmodel.PropModel._ei_function', 'propmodel.PropModel._correct_ei',
                  'propmodel.PropModel._find_coefficients'])
def induced_angle(env):
    """The induced angle of a section is less than a radian and has the sign of the angle between the blade and
    the undisturbed flow."""
    d, pm = varied(env, ('num_of_blades',))
    pm._J = env.real('J', pos=True, gen=(.1, 1.5))
    env.patch(pm, '_get_CL', Lift(env))
    env.patch(pm, 'get_coefficients_alpha', Sections(env))
    pm._find_coefficients()
    e = pm.get_induced_angle()
    b, a = pm.get_aero_pitch_angle(), pm.get_advance_angle()

    def station(i):
        env.ensure('less than a radian', abs(e[i]) < 1)
        env.ensure('towards the blade', env.implies(b[i] > a[i], e[i] >= 0))
        env.ensure('towards the blade', env.implies(b[i] < a[i], e[i] <= 0))
    env.forall(env.n, station)


# ---------------------------------------------------------------- P05
class Slipstream:
    """Wash at distance s behind the disc: each annulus of the disc keeps its mass flow while its axial speed rises."""

    def __init__(self, env, pm, d, s, V, first=1):
        np = self.np = env.np
        self.env, self.pm, self.d, self.first = env, pm, d, first
        self.kd = 1 + s / np.sqrt(s * s + d['diameter'] * d['diameter'] / 4)
        self.V = V
        self.Vx, self.Vt = pm.get_axial_Vi(), pm.get_tangential_Vi()

    def r(self, i):
        return zeta(self.env, self.d, i) * self.d['diameter'] / 2

    def radius(self, i):
        """Radius of the annulus boundary that starts at station i."""
        r = self.r

        def grown(k):
            V, w = 2 * self.V, self.Vx[k] + self.Vx[k + 1]
            return (r(k + 1) * r(k + 1) - r(k) * r(k)) * (V + w) / (V + self.kd * w)
        return self.np.sqrt(self.first * r(0) * self.first * r(0) + self.env.sum(i, grown))

    def axial(self, i):
        return self.kd * self.Vx[i]

    def swirl(self, i):
        """Angular momentum is kept; the innermost tenth turns as a solid body."""
        c = self.env.n // 10
        return self.env.ite(i < c, 2 * self.Vt[c] * self.r(c) / self.radius(c) / self.radius(c) * self.radius(i),
                            2 * self.Vt[i] * self.r(i) / self.radius(i))

    def at(self, dist, f):
        return self.env.interp(*self.table(f), dist)

    def table(self, f):
        n = (self.env.n,)
        return self.env.array_of(n, self.radius), self.env.array_of(n, f)

    def nothing(self, dist):
        """There is no wash outside the annuli."""
        for f in (self.axial, self.swirl):
            self.env.beyond(*self.table(f), dist)


WASH = SETUP + ['propmodel.PropModel._calc_immersed_wing_points', 'propmodel.PropModel._vec_mag_mult',
                'propmodel.PropModel._calc_prop_wing_vel', 'propmodel.PropModel._stone_slipstream']


def washing(env, d, pts):
    """A propeller with any induced velocities that leave the air moving backwards."""
    pm = build(env, d, points=pts)
    V = env.real('V', pos=True, gen=(5, 30))
    pm._Vinf = V
    pm._Vxi = env.array_of((env.n,), lambda i: env.array('w', env.n, pos=True, gen=(1, 9))[i] - V / 2)
    pm._Vti = env.array('Vt', env.n)
    return pm, V


@contract('P05', WASH, variants=['turned', 'straight'])
def wash(env, kind):
    """The wash at any point: none ahead of the disc or outside its radius, else that of the slipstream."""
    d = dims(env, ('position', 'orientation') if kind == 'turned' else ('position', 'rot_dir'))
    if kind == 'turned':
        d['rot_dir'] = env.choice('rotation', ['CCW', 'CW'])
    env.points = env.size('points')
    pts = env.array('r_cp', env.points, 3)
    pm, V = washing(env, d, pts)
    v = pm._calc_prop_wing_vel()
    judge(env, d, pm, V, pts, v, forward(env, d) if kind == 'turned' else [1, 0, 0], 1)


@contract('P05', SETUP + ['propmodel.PropModel._find_propwash_velocities'], variants=['turned', 'straight'])
def wash_at(env, kind):
    """The same at points given later; here the slipstream reaches in to a hundredth of the hub radius."""
    d = dims(env, ('position', 'orientation') if kind == 'turned' else ('position', 'rot_dir'))
    if kind == 'turned':
        d['rot_dir'] = env.choice('rotation', ['CCW', 'CW'])
    env.points = env.size('points')
    pts = env.array('r_cp', env.points, 3)
    pm, V = washing(env, d, None)
    v = pm._find_propwash_velocities(pts)
    judge(env, d, pm, V, pts, v, forward(env, d) if kind == 'turned' else [1, 0, 0], 0.01)


def judge(env, d, pm, V, pts, v, f, first):
    turn = 1 if d['rot_dir'] in ('CCW', 1) else -1

    def point(i):
        rel = [pts[i, k] - d['position'][k] for k in range(3)]
        ahead = dot(rel, f)
        off = [rel[k] - ahead * f[k] for k in range(3)]
        dist = env.np.sqrt(dot(off, off))
        if env.case(env.both(ahead < 0, dist <= d['diameter'] / 2)):
            z = Slipstream(env, pm, d, -ahead, V, first)
            around = cross(f, off)
            size = env.np.sqrt(dot(around, around)) if first == 1 else dist
            env.lemma('turning about the shaft keeps the distance', env.equal(dot(around, around), dot(off, off)))
            A, B = z.at(dist, z.axial), turn * z.at(dist, z.swirl)
            on = env.case(env.equal(size, 0))
            for k in range(3):
                env.eq('wash', v[i, k], -A * f[k] + B * around[k] / (1 if on else size))
            if on:
                env.lemma('the hub', z.radius(0) > dist)
                z.nothing(dist)
                env.eq('no axial wash on the axis', A, 0)
                env.eq('no swirl on the axis', B, 0)
            elif env.case(z.radius(env.n - 1) < dist):
                z.nothing(dist)
                env.eq('no axial wash outside the contracted slipstream', A, 0)
                env.eq('no swirl outside the contracted slipstream', B, 0)
        else:
            for k in range(3):
                env.eq('no wash', v[i, k], 0)
    env.forall(env.points, point)


@contract('P05', WASH)
def axis(env):
    """On the axis, inside the hub, there is no wash."""
    d = dims(env, ('position', 'rot_dir'))
    env.points = env.size('points')
    x = env.array('x_cp', env.points)
    pts = env.array_of((env.points, 3), lambda i, k: env.ite(env.equal(k, 0), x[i], d['position'][k]))
    pm, V = washing(env, d, pts)
    v = pm._calc_prop_wing_vel()

    def point(i):
        if env.case(x[i] < d['position'][0]):
            z = Slipstream(env, pm, d, d['position'][0] - x[i], V)
            env.lemma('the hub', z.radius(0) > 0)
            z.nothing(0)
        for k in range(3):
            env.eq('no wash on the axis', v[i, k], 0)
    env.forall(env.points, point)

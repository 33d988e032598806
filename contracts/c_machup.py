"""Contracts on MU.py: the analyses built on one solution of the airplane.

The lifting-line model and the propeller model are stand-ins: their answers are
arbitrary functions of the state they are given (their own contracts are in
c_llmodel.py and c_prop.py), so every claim below holds whatever they compute.
"""
from vc.api import contract, Stub

KEYS = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
RATES = ('roll_rate', 'pitch_rate', 'yaw_rate')
CONTROLS = ('aileron', 'elevator', 'rudder', 'flap')
OPTIONAL = ('alpha', 'beta') + RATES


def smooth(r, *a):
    """A concrete answer that is nearly linear in each input (witness search only)."""
    import math
    c = r.uniform(-1, 1)
    for x in a:
        c += r.choice([-1, 1]) * r.uniform(.2, 1) * (x / 8 + .02 * math.sin(x / 9))
    return c


class Answers(Stub):
    """Total forces and moments as functions of everything they may depend on."""

    def __init__(self, env, tag):
        self._env = env
        self._f = {k: env.fun(tag + k, conc=smooth) for k in KEYS}

    def total(self, key):
        return {k: self._f[k](*key) for k in KEYS}


def wing_key(aero, control):
    """What the wings' forces depend on; what is not given is zero."""
    control = control or {}
    ls = aero.get('local_state')
    return (aero['V_mag'], aero['rho']) + tuple(aero.get(k, 0) for k in OPTIONAL) + tuple(control.get(k, 0) for k in CONTROLS) + (
        ls[0, 1] if ls is not None else 0, ls[0, 0] if ls is not None else 0)


def prop_key(aero, prop):
    return (aero['V_mag'], aero['rho']) + tuple(aero.get(k, 0) for k in OPTIONAL) + (prop['J'] if prop else 0,)


class GridStub(Stub):
    def __init__(self, env):
        self._env = env

    def get_reference_area(self):
        return self._env.real('Sw', pos=True)

    def get_control_point_pos(self):
        return self._env.array('r_cp', 1, 3)

    def get_cg_location(self):
        return self._env.array('cg', 3)


class Wings(Stub):
    """Stand-in for LLModel."""

    def __init__(self, env):
        self._env = env
        self._grid = GridStub(env)
        self._answers = Answers(env, 'W')
        self._count = 0
        self._last = self._prev = None
        self._fail_at = None
        self._stalled = env.fun('stalled', conc=lambda r, V, rho, al, *a: al - r.uniform(0, 2) - .01 * V)
        self._where = env.fun('where')

    def solve(self, stype, aero_state=None, control_state=None):
        if stype != 'linear':
            raise RuntimeError('type')
        if 'V_mag' not in aero_state or 'rho' not in aero_state:
            raise RuntimeError('Must supply')
        if self._fail_at is not None and self._count == self._fail_at:
            raise RuntimeError('no solution')
        self._count = self._count + 1
        self._prev = self._last
        self._last = wing_key(aero_state, control_state)
        t = self._answers.total(self._last)
        return {'inviscid': {}, 'viscous': {}, 'total': t}

    def _find_stall_location(self):
        if self._stalled(*self._last) > 0:
            return {'stalled_wing': 'right_w', 'span_location': self._where(*self._last)}
        return None

    def _distributions(self):
        env = self._env
        n = env.size('N')
        d = {k: env.array('d_' + k, n) for k in SECTION}
        d['name'] = env.name_array(n)
        for k in VECTOR:
            d[k] = env.array('d_' + k, n, 3)
        return d


SECTION = ('chord', 'twist', 'dihedral', 'sweep', 'area', 'alpha', 'section_CL', 'section_Cm', 'section_CD_parasitic', 'section_alpha_L0')
VECTOR = ('control_points', 'forces_xyz')
BLADE = ('radial_position', 'chord', 'pitch', 'advance_angle', 'induced_angle', 'alpha', 'section_CL', 'section_CD', 'Vi', 'Vi_x', 'Vi_t')


class Props(Stub):
    """Stand-in for PropsSolver."""

    def __init__(self, env, points):
        self._env = env
        self._points = points
        self._answers = Answers(env, 'P')
        self._wash = env.fun('wash', conc=smooth)
        self._dens = env.fun('dens', conc=smooth)
        self._last = None

    def velocity(self, key):
        env = self._env
        return env.array_of((1, 4), lambda i, c: self._dens(*key) if env.equal(c, 0) is True or (not env.symbolic and c == 0)
                            else self._wash(*key))

    def solve(self, aero_state=None, prop_state=None):
        if 'V_mag' not in aero_state or 'rho' not in aero_state:
            raise RuntimeError('Must supply')
        key = self._last = prop_key(aero_state, prop_state)
        r = {'total': self._answers.total(key)}
        if self._points is None:
            return r, None
        v = self._env.np.zeros((1, 4))
        v[0, 0] = self._dens(*key)
        v[0, 1] = self._wash(*key)
        return r, v

    def _distributions(self):
        env = self._env
        n = env.size('NP')
        d = {k: env.array('b_' + k, n) for k in BLADE}
        d['name'] = env.name_array(n)
        return d

    def get_prop_models(self):
        return []


class PlaneStub(Stub):
    def __init__(self, env, wings, props):
        self._env = env
        self._wings = {'w': 1} if wings else {}
        self._props = {'p': 1} if props else {}

    def get_lat_ref(self):
        return self._env.real('b_ref', pos=True)

    def get_long_ref(self):
        return self._env.real('c_ref', pos=True)


def machup(env, parts='wings', plane=None):
    MU = env.mod('MU')
    env.wings = env.props = None

    def ll(plane):
        env.wings = Wings(env)
        return env.wings

    def ps(plane, points):
        env.props = Props(env, points)
        return env.props
    env.patch(MU, 'LLModel', ll)
    env.patch(MU, 'PropsSolver', ps)
    env.plane = plane or PlaneStub(env, 'wings' in parts, 'props' in parts)
    return MU.MachUp(inputAirplane=env.plane)


def total(env, aero, control, prop):
    """Specification of one solution: wings in the wash of the propellers, plus propellers."""
    r = {k: 0 for k in KEYS}
    if env.props is not None:
        k = prop_key(aero, prop)
        t = env.props._answers.total(k)
        r = {q: r[q] + t[q] for q in KEYS}
    if env.wings is not None:
        k = wing_key(aero, control)
        if env.props is not None:
            k = k[:-2] + (env.props._wash(*prop_key(aero, prop)), env.props._dens(*prop_key(aero, prop)))
        t = env.wings._answers.total(k)
        r = {q: r[q] + t[q] for q in KEYS}
    return r


def aero_state(env, keys=None, tag=''):
    s = {'V_mag': env.real(tag + 'V', pos=True, gen=(5, 30)), 'rho': env.real(tag + 'rho', pos=True)}
    if keys is None:
        keys = env.choice(tag + 'given', [('alpha', 'beta'), (), OPTIONAL, ('alpha', 'pitch_rate')])
    for k in keys:
        s[k] = env.real(tag + k, gen=(-10, 10))
    return s


def control_state(env, keys=None):
    if keys is None:
        keys = env.choice('controls', [CONTROLS, ('elevator',)])
    return {k: env.real(k, gen=(-20, 20)) for k in keys}


def prop_state(env):
    return {'J': env.real('J', pos=True)}


DEFAULT = {'V_mag': 10, 'rho': 0.0023769, 'alpha': 0}
PARTS = ['wings', 'props', 'wings props']


# ---------------------------------------------------------------- M01
@contract('M01', ['MU.MachUp.__init__', 'MU.MachUp.solve'], variants=PARTS)
def totals(env, parts):
    """The airplane's forces and moments are those of its wings plus those of its propellers."""
    mu = machup(env, parts)
    a, p = aero_state(env), env.choice('prop', [None, 1]) and prop_state(env)
    c = env.choice('control', [None, 1]) and control_state(env)
    r = mu.solve(a, c, p)
    env.eq('totals', r, total(env, a, c, p))
    # again, in another state: nothing is carried over
    b = aero_state(env, ('alpha',), 'second_')
    env.eq('totals of a second state', mu.solve(aero_state=b, prop_state=p), total(env, b, None, p))
    if env.props is not None:
        if env.wings is None:
            env.eq('no points to wash', env.props._points, None)
        else:
            env.eq('wash computed at the control points', env.props._points, env.wings._grid.get_control_point_pos())


@contract('M01', ['MU.MachUp.solve'], variants=PARTS)
def default_state(env, parts):
    """Without an aerodynamic state the stated default applies."""
    mu = machup(env, parts)
    c, p = control_state(env), prop_state(env)
    env.eq('totals', mu.solve(control_state=c, prop_state=p), total(env, DEFAULT, c, p))
    env.eq('totals', mu.solve(), total(env, DEFAULT, None, None))


@contract('M01', ['MU.MachUp.solve'], variants=PARTS)
def result_file(env, parts):
    """The results written are the results returned."""
    mu = machup(env, parts)
    a = env.choice('state', [None, 1]) and aero_state(env)
    c, p = control_state(env), prop_state(env)
    f = env.out_file('results.json')
    r = mu.solve(a, c, p, f)
    d = env.json_written(f)
    env.eq('totals written', d['total_results'], r)
    env.eq('totals', r, total(env, a or DEFAULT, c, p))
    w, q = d['wing_results'].get('total', {}), d['prop_results'].get('total', {})
    for k in KEYS:
        env.eq('parts add up', w.get(k, 0) + q.get(k, 0), r[k])
    env.eq('wing results', 'total' in d['wing_results'], 'wings' in parts)
    env.eq('propeller results', 'total' in d['prop_results'], 'props' in parts)


# ---------------------------------------------------------------- M02
def refs(env, aero):
    V, rho = aero.get('V_mag', 10), aero.get('rho', 0.0023769)
    S, b, c = env.real('Sw', pos=True), env.real('b_ref', pos=True), env.real('c_ref', pos=True)
    q = rho * V * V * S / 2
    return {k: q * {'MX': b, 'MY': c, 'MZ': b}.get(k, 1) for k in KEYS}


NAMES = {'FL': 'CL', 'FD': 'CD', 'FS': 'CS', 'FX': 'CX', 'FY': 'CY', 'FZ': 'CZ', 'MX': 'Cl', 'MY': 'Cm', 'MZ': 'Cn'}


def central(env, which, key, step, per, suffix, aero, control, prop):
    """{name: central difference of the coefficient over 2*step in `key`, divided by 2*per}."""
    def at(d):
        a, c = dict(aero), dict(control or {})
        s = a if which == 'aero' else c
        s[key] = s.get(key, 0) + d
        return total(env, a, c, prop)
    lo, hi = at(-step), at(step)
    ref = refs(env, aero)
    return {NAMES[k] + suffix: (hi[k] - lo[k]) / (2 * per) / ref[k] for k in KEYS}


def stability(env, aero, control, prop):
    r = {}
    for key, s in (('alpha', '_a'), ('beta', '_b')):
        r.update(central(env, 'aero', key, 0.5, 0.5 * env.pi / 180, s, aero, control, prop))
    return r


def damping(env, aero, control, prop):
    r = {}
    V = aero.get('V_mag', 10)
    for key, s, l in (('roll_rate', '_pbar', 'b_ref'), ('pitch_rate', '_qbar', 'c_ref'), ('yaw_rate', '_rbar', 'b_ref')):
        step = 0.005 * 2 * V / env.real(l, pos=True)
        r.update(central(env, 'aero', key, step, 0.005, s, aero, control, prop))
    return r


def control_effects(env, aero, control, prop):
    r = {}
    for key, s in zip(CONTROLS, ('_da', '_de', '_dr', '_df')):
        r.update(central(env, 'control', key, 0.25, 0.25 * env.pi / 180, s, aero, control, prop))
    return r


DERIVS = {'stability': ('stability_derivatives', stability), 'damping': ('damping_derivatives', damping),
          'control': ('control_derivatives', control_effects)}
KINDS = [[k, p] for k in DERIVS for p in ('wings', 'wings props')]


@contract('M02', ['MU.MachUp.stability_derivatives', 'MU.MachUp.damping_derivatives', 'MU.MachUp.control_derivatives',
                  'MU.MachUp.solve'], variants=KINDS)
def derivative(env, kind):
    """Each derivative is the central difference about the given state."""
    name, spec = DERIVS[kind[0]]
    mu = machup(env, kind[1])
    a, c, p = aero_state(env), control_state(env), prop_state(env)
    env.eq('derivatives', getattr(mu, name)(dict(a), dict(c), dict(p)), spec(env, a, c, p))


@contract('M02', ['MU.MachUp.stability_derivatives', 'MU.MachUp.damping_derivatives', 'MU.MachUp.control_derivatives'],
          variants=list(DERIVS))
def derivative_defaults(env, kind):
    """States that are not given take their defaults."""
    name, spec = DERIVS[kind]
    mu = machup(env)
    a = env.choice('aero', [None, 1]) and aero_state(env)
    c = env.choice('control', [None, 1]) and control_state(env)
    env.eq('derivatives', getattr(mu, name)(a and dict(a), c and dict(c)), spec(env, a or DEFAULT, c, None))


@contract('M02', ['MU.MachUp.derivatives'], variants=['wings', 'wings props'])
def report(env, parts):
    """The combined report holds those derivatives, the static margin is -Cm_a/CL_a, and the file the same."""
    mu = machup(env, parts)
    a, c, p = aero_state(env, ('alpha', 'beta')), control_state(env, CONTROLS), prop_state(env)
    f = env.choice('file', [None, 1]) and env.out_file('derivatives.json')
    s = stability(env, a, c, p)
    env.assume(env.no(env.equal(s['CL_a'], 0)))
    s['static_margin'] = -s['Cm_a'] / s['CL_a']
    r = mu.derivatives(dict(a), dict(c), dict(p), f)
    want = {'stability_derivatives': s, 'control_derivatives': control_effects(env, a, c, p), 'damping_derivatives': damping(env, a, c, p)}
    env.eq('parts', sorted(r) == sorted(want), True)
    for k in want:
        env.eq(k, r[k], want[k])
    if f:
        env.eq('written', env.json_written(f), r)


@contract('M02', ['MU.MachUp.derivatives'])
def no_wings(env):
    """Without wings there is nothing to derive: reported, not made up."""
    mu = machup(env, 'props')
    env.raises('no wings', RuntimeError, lambda: mu.derivatives(aero_state(env), control_state(env)))
    f = env.out_file('d.json')
    r = mu.derivatives(aero_state(env), control_state(env), None, f)
    env.eq('reported', 'error' in r, True)
    env.eq('written', env.json_written(f), r)


# ---------------------------------------------------------------- M03
ANALYSES = {
    'solve': lambda mu, s: mu.solve(*s),
    'stability': lambda mu, s: mu.stability_derivatives(*s),
    'damping': lambda mu, s: mu.damping_derivatives(*s),
    'control': lambda mu, s: mu.control_derivatives(*s),
    'all derivatives': lambda mu, s: mu.derivatives(*s),
    'distributions': lambda mu, s: mu.distributions(*s),
    'aero center': lambda mu, s: mu.find_aero_center(*s),
    'stall': lambda mu, s: mu.stall_onset(*s),
    'stall airspeed': lambda mu, s: mu.stall_airspeed(mu._env.real('weight'), *s),
    'target lift': lambda mu, s: mu.target_lift(mu._env.real('lift'), *s),
    'trim': lambda mu, s: mu.pitch_trim(mu._env.real('lift'), mu._env.real('moment'), *s),
}
METHODS = {'solve': 'solve', 'stability': 'stability_derivatives', 'damping': 'damping_derivatives', 'control': 'control_derivatives',
           'all derivatives': 'derivatives', 'distributions': 'distributions', 'aero center': 'find_aero_center',
           'stall': 'stall_onset', 'stall airspeed': 'stall_airspeed', 'target lift': 'target_lift', 'trim': 'pitch_trim'}


def copy_states(s):
    return [None if x is None else dict(x) for x in s]


@contract('M03', ['MU.MachUp.' + v for v in METHODS.values()] + ['MU.MachUp._lift_slope', 'MU.MachUp._moment_slope'],
          variants=[[k, p] for k in ANALYSES for p in ('wings', 'wings props')])
def frame(env, kind):
    """The states passed in are not changed, whether the analysis succeeds or fails."""
    what, parts = kind
    mu = machup(env, parts)
    mu._env = env
    given = env.choice('keys', [('alpha', 'beta')] if what == 'trim' else [('alpha', 'beta'), (), OPTIONAL])
    s = [aero_state(env, given), env.choice('control', [1, None]) and control_state(env, ('elevator', 'flap')),
         (what == 'trim' or env.choice('prop', [1, None])) and prop_state(env) or None]
    if what == 'stall airspeed':
        mu.stall_onset = Stalls(env, mu)      # the caller is checked against the callee's contract
    elif what == 'aero center':
        env.wings._fail_at = env.choice('fails', [None, 0, 1])
    elif what not in ('stall', 'target lift', 'trim'):
        if env.choice('fails', [0, 1]):
            env.wings._fail_at = env.size('fail_at', lo=0, gen=(0, 12))
    was = copy_states(s)
    try:
        ANALYSES[what](mu, s)
    except RuntimeError:
        pass
    for now, before in zip(s, was):
        env.eq('states unchanged', now, before)


class Stalls(Stub):
    """stall_onset as its contracts describe it: states untouched, lift a function of the state."""

    def __init__(self, env, mu):
        self._env = env
        self._mu = mu
        self._lift = env.fun('stall_lift', conc=smooth)
        self._angle = env.fun('stall_angle', conc=smooth)
        self._last = self._prev = None
        self._count = 0

    def key(self, aero, control, prop):
        return tuple(aero.get(k, 0) for k in ('V_mag', 'rho', 'beta') + RATES) + tuple((control or {}).get(k, 0) for k in CONTROLS) + (
            prop['J'] if prop else 0,)

    def __call__(self, aero_state=None, control_state=None, prop_state=None, filename=None):
        if filename is not None:
            raise RuntimeError('file')
        self._count = self._count + 1
        self._prev = self._last
        self._last = self.key(aero_state, control_state, prop_state)
        return {'stalled_wing': 'right_w', 'span_location': .5, 'alpha': self._angle(*self._last), 'lift': self._lift(*self._last)}


# ---------------------------------------------------------------- M04
@contract('M04', ['MU.MachUp.pitch_trim', 'MU.MachUp._lift_slope', 'MU.MachUp._moment_slope'],
          variants=[[p, d] for p in ('wings', 'wings props') for d in ('both', 'aero', 'control', 'none')], seeds=.5)
def trim(env, kind):
    """The angle of attack and elevator returned meet both targets within the tolerance;
    when there is no answer this is reported."""
    parts, given = kind
    mu = machup(env, parts)
    a = aero_state(env, ('alpha', 'beta')) if given in ('both', 'aero') else None
    c = control_state(env) if given in ('both', 'control') else None
    p = prop_state(env)
    L, M, tol = env.real('lift'), env.real('moment'), env.real('tolerance', pos=True, gen=(1e-9, .1))
    f = env.choice('file', [None, 1]) and env.out_file('trim.json')
    try:
        r = mu.pitch_trim(L, M, a, c, p, f, tol)
    except RuntimeError:
        env.eq('failure is raised only without a file', f, None)
        return
    if f:
        d = env.json_written(f)
        if 'error' in d:
            env.ensure('no angle on failure', r is None or 'alpha' not in r)
            env.ensure('no angle on failure', 'alpha' not in d and 'elevator' not in d)
            return
        env.eq('written', d, r)
    env.eq('answer', sorted(r) == ['alpha', 'elevator'], True)
    a = dict(a or {'V_mag': 10, 'rho': 0.0023769}, alpha=r['alpha'])
    c = dict(c or {}, elevator=r['elevator'])
    t = total(env, a, c, p)
    env.ensure('lift met', abs(t['FL'] - L) < tol)
    env.ensure('pitching moment met', abs(t['MY'] - M) < tol)


@contract('M04', ['MU.MachUp.target_lift'], variants=[[p, d] for p in ('wings', 'wings props') for d in ('given', 'default')], seeds=.5)
def target_lift(env, kind):
    """The angle returned is within the tolerance of the last angle solved, and is the
    point where the straight line through the last two solutions meets the target."""
    parts, given = kind
    env.loops(2)
    mu = machup(env, parts)
    a = aero_state(env, env.choice('angle', [('alpha', 'beta'), ()])) if given == 'given' else None
    c = env.choice('control', [1, None]) and control_state(env, ('elevator',))
    p = prop_state(env)
    L, tol = env.real('lift'), env.real('tolerance', pos=True, gen=(1e-9, .1))
    f = env.choice('file', [None, 1]) and env.out_file('lift.json')
    try:
        r = mu.target_lift(L, a, c, p, f, tol)
    except RuntimeError:
        env.eq('failure is raised only without a file', f, None)
        return
    if f:
        d = env.json_written(f)
        env.eq('written', d, r)
        if 'error' in d:
            env.ensure('no angle on failure', 'alpha' not in d)
            return
    env.eq('answer', sorted(r) == ['alpha'], True)
    i = 2 + OPTIONAL.index('alpha')
    x1, x0 = env.wings._last[i], env.wings._prev[i]
    base = a or {'V_mag': 10, 'rho': 0.0023769}
    y1 = total(env, dict(base, alpha=x1), c, p)['FL'] - L
    y0 = total(env, dict(base, alpha=x0), c, p)['FL'] - L
    env.ensure('within the tolerance of the last angle solved', abs(r['alpha'] - x1) < tol)
    env.assume(env.no(env.equal(y1, y0)))
    env.eq('meets the target', r['alpha'], x1 - y1 * (x1 - x0) / (y1 - y0))


# ---------------------------------------------------------------- M05
@contract('M05', ['MU.MachUp.stall_onset'], variants=['wings', 'wings props'], seeds=.5)
def stall(env, parts):
    """Lift and angle reported are those of the first step at which a section stalls."""
    mu = machup(env, parts)
    a = env.choice('aero', [1, None]) and aero_state(env, ('alpha', 'beta'))
    c, p = control_state(env, ('elevator',)), prop_state(env)
    f = env.choice('file', [None, 1]) and env.out_file('stall.json')
    r = mu.stall_onset(a, c, p, f)
    n = env.wings._count                 # steps taken
    base = a or DEFAULT
    env.ensure('at least one step', n > 0)

    def key(j):
        s = dict(base, alpha=j / 10)
        k = wing_key(s, c)
        if env.props is not None:
            k = k[:-2] + (env.props._wash(*prop_key(s, p)), env.props._dens(*prop_key(s, p)))
        return k
    env.eq('angle of attack', r['alpha'], (n - 1) / 10)
    env.eq('lift', r['lift'], total(env, dict(base, alpha=(n - 1) / 10), c, p)['FL'])
    env.ensure('a section is stalled', env.wings._stalled(*key(n - 1)) > 0)
    env.eq('wing', r['stalled_wing'], 'right_w')
    env.eq('location', r['span_location'], env.wings._where(*key(n - 1)))
    env.forall(n - 1, lambda j: env.ensure('no earlier stall', env.no(env.wings._stalled(*key(j)) > 0)))
    if f:
        env.eq('written', env.json_written(f), r)


@contract('M05', ['MU.MachUp.stall_onset', 'MU.MachUp.stall_airspeed'])
def stall_needs_wings(env):
    mu = machup(env, 'props')
    a = aero_state(env)
    env.raises('no wings', RuntimeError, lambda: mu.stall_onset(a))
    env.raises('no wings', RuntimeError, lambda: mu.stall_airspeed(env.real('w'), a))
    f, g = env.out_file('s.json'), env.out_file('t.json')
    env.eq('reported', 'error' in mu.stall_onset(a, filename=f) and 'error' in env.json_written(f), True)
    env.eq('reported', 'error' in mu.stall_airspeed(env.real('w'), a, filename=g) and 'error' in env.json_written(g), True)


@contract('M05', ['MU.MachUp.stall_airspeed'], variants=['given', 'default'], seeds=.5)
def stall_airspeed(env, given):
    """The airspeed returned is within the tolerance of the last airspeed tried, and is where the straight
    line through the stall lifts of the last two airspeeds tried meets the weight."""
    env.loops(2)
    mu = machup(env, 'wings')
    mu.stall_onset = s = Stalls(env, mu)
    a = aero_state(env, ('beta',)) if given == 'given' else None
    if a and env.choice('speed', [0, 1]):
        del a['V_mag']
    c = env.choice('control', [1, None]) and control_state(env, ('elevator',))
    p = prop_state(env)
    W, tol = env.real('weight'), env.real('tolerance', pos=True, gen=(1e-9, .1))
    f = env.choice('file', [None, 1]) and env.out_file('speed.json')
    r = mu.stall_airspeed(W, a, c, p, f, tol)
    V1, V0 = s._last[0], s._prev[0]
    base = a or {'rho': 0.0023769}
    k1, k0 = s.key(dict(base, V_mag=V1), c, p), s.key(dict(base, V_mag=V0), c, p)
    y1, y0 = s._lift(*k1) - W, s._lift(*k0) - W
    env.ensure('within the tolerance of the last airspeed tried', abs(r['airspeed'] - V1) < tol)
    env.assume(env.no(env.equal(y1, y0)))
    env.eq('lifts the weight at stall', r['airspeed'], V1 - y1 * (V1 - V0) / (y1 - y0))
    env.eq('angle of attack', r['alpha'], s._angle(*k1))
    if f:
        env.eq('written', env.json_written(f), r)


# ---------------------------------------------------------------- M07
WING_COLUMNS = [('Name', 'name', None), ('ControlPoint(x)', 'control_points', 0), ('ControlPoint(y)', 'control_points', 1),
                ('ControlPoint(z)', 'control_points', 2), ('Chord', 'chord', None), ('Twist(deg)', 'twist', None),
                ('Dihedral(deg)', 'dihedral', None), ('Sweep(deg)', 'sweep', None), ('Area', 'area', None), ('Alpha(deg)', 'alpha', None),
                ('Force(x)', 'forces_xyz', 0), ('Force(y)', 'forces_xyz', 1), ('Force(z)', 'forces_xyz', 2),
                ('SectionCL', 'section_CL', None), ('SectionCm', 'section_Cm', None), ('SectionCDParasitic', 'section_CD_parasitic', None),
                ('SectionAlpha_L0', 'section_alpha_L0', None), ('SectionCL_ref', 'section_CL_ref', None)]
PROP_COLUMNS = [('Name', 'name', None), ('RadialPosition', 'radial_position', None), ('Chord', 'chord', None), ('Pitch(deg)', 'pitch', None),
                ('AdvangeAngle(deg)', 'advance_angle', None), ('InducedAngle(deg)', 'induced_angle', None), ('Alpha(deg)', 'alpha', None),
                ('SectionCL', 'section_CL', None), ('SectionCD', 'section_CD', None), ('InducedVelocity,Vi', 'Vi', None),
                ('Vi(Axial)', 'Vi_x', None), ('Vi(Tangential)', 'Vi_t', None)]


@contract('M07', ['MU.MachUp.distributions'], variants=[[p, f] for p in PARTS for f in ('none', 'txt', 'json')])
def section_tables(env, kind):
    """The report is the data of the parts, solved in the given state; the file holds the same values under their headings."""
    parts, how = kind
    mu = machup(env, parts)
    full = how == 'none' or parts != 'wings props'
    a = aero_state(env, ('alpha', 'beta')) if not full else env.choice('aero', [1, None]) and aero_state(env)
    c, p = control_state(env, None if full else CONTROLS), prop_state(env)
    f = env.out_file('dist.' + how) if how != 'none' else None
    w, q = mu.distributions(a, c, p, f)
    if env.wings is not None:
        k = wing_key(a or DEFAULT, c)
        if env.props is not None:
            pk = prop_key(a or DEFAULT, p)
            k = k[:-2] + (env.props._wash(*pk), env.props._dens(*pk))
        env.eq('solved in this state', env.wings._last, k)
        d = env.wings._distributions()
        for x in d:
            env.eq(x, w[x], d[x])
        env.forall(env.size('N'), lambda i: env.eq('lift coefficient on the reference chord', w['section_CL_ref'][i],
                                                   d['section_CL'][i] * d['chord'][i] / env.real('c_ref', pos=True)))
        env.eq('wing data', sorted(w) == sorted(list(d) + ['section_CL_ref']), True)
    else:
        env.eq('no wing data', w, {})
    if env.props is not None:
        env.eq('propeller data', q, env.props._distributions())
        env.eq('propellers solved in this state', env.props._last, prop_key(a or DEFAULT, p))
    else:
        env.eq('no propeller data', q, {})
    if f:
        t = env.tables_written(f)
        want = {}
        if env.wings is not None:
            want['WingDistributions'] = (WING_COLUMNS, w)
        if env.props is not None:
            want['PropellerDistributions'] = (PROP_COLUMNS, q)
        env.eq('tables', sorted(t) == sorted(want), True)
        for title in want:
            cols, d = want[title]
            env.eq('headings', list(t[title]) == [h for h, k, i in cols], True)
            for h, k, i in cols:
                env.eq('column ' + h, t[title][h], d[k] if i is None else d[k][:, i])


class Half(Stub):
    """One wing half of any span."""

    def __init__(self, env, k):
        self._env = env
        self._k = k

    def get_span(self):
        return self._env.spans[self._k]


@contract('M06', ['MU.MachUp.__init__'], variants=['both', 'lateral', 'longitudinal', 'neither'])
def reference_lengths(env, given):
    """Reference lengths are those given; one that is not given makes their product the reference area; with
    neither, the lateral one is twice the longest half span."""
    plane = PlaneStub(env, True, False)
    lat, lon = plane.get_lat_ref(), plane.get_long_ref()
    plane.get_lat_ref = lambda: lat if given in ('both', 'lateral') else None
    plane.get_long_ref = lambda: lon if given in ('both', 'longitudinal') else None
    env.halves = env.size('halves', gen=(1, 4))
    env.spans = env.array('span', env.halves, pos=True, gen=(.5, 5))
    plane.get_wingsegments = lambda: env.list_of(env.halves, lambda k: Half(env, k))
    mu = machup(env, plane=plane)
    S = env.wings._grid.get_reference_area()
    env.eq('reference area', mu.Sw, S)
    if given in ('both', 'lateral'):
        env.eq('lateral reference', mu.lat_ref, lat)
    if given in ('both', 'longitudinal'):
        env.eq('longitudinal reference', mu.long_ref, lon)
    if given != 'both':
        env.eq('together they make the reference area', mu.lat_ref * mu.long_ref, S)
    if given == 'neither':
        env.forall(env.halves, lambda k: env.ensure('no half is longer', 2 * Half(env, k).get_span() <= mu.lat_ref))
        env.ensure('one half is as long', env.np.max(2 * env.spans) >= mu.lat_ref)


@contract('M01', ['MU.MachUp.__init__'], variants=PARTS)
def parts(env, parts):
    """The models built are those of the parts there are; the propellers blow on the wings' control points."""
    mu = machup(env, parts)
    env.ensure('wings', (env.wings is not None) == ('wings' in parts))
    env.ensure('propellers', (env.props is not None) == ('props' in parts))
    env.ensure('airplane', mu.myairplane is env.plane)
    if env.props is not None:
        if env.wings is None:
            env.ensure('no points', env.props._points is None)
        else:
            env.eq('wing points', env.props._points, env.wings._grid.get_control_point_pos())


@contract('S01', ['MU.MachUp.create_stl'], variants=PARTS)
def export(env, parts):
    """The mesh is that of all the wings and propellers there are, under the name given."""
    mu = machup(env, parts)
    calls = []

    def create(llgrid=None, prop_models=None, filename='plane.stl'):
        calls.append((llgrid, prop_models, filename))
    env.patch(env.mod('outputstl'), 'create_from_grid', create)
    models = [object()]
    if env.props is not None:
        env.props.get_prop_models = lambda: models
    mu.create_stl('mine.stl')
    env.ensure('one mesh', len(calls) == 1)
    grid, props, name = calls[0]
    env.ensure('wings', grid is (env.wings._grid if env.wings is not None else None))
    env.ensure('propellers', props is (models if env.props is not None else None))
    env.ensure('file', name == 'mine.stl')

"""Contracts on outputstl.py: airfoil outlines, rotations and the exported surface mesh."""
from vc.api import contract, Stub

N = 50      # outline points per section


def foil(env, name, at=()):
    """Digits of an arbitrary four-digit airfoil: percent camber, tenths of its place, percent thickness."""
    return [env.int(name + q, lo=0, gen=(0, 9 if q != '_t' else 40)) for q in ('_m', '_p', '_t')]


def sections(env, m, p, t, j):
    """(chordwise place, camber, camber slope, half thickness, side) of outline point j of a unit chord."""
    np = env.np
    theta = -env.pi + 2 * env.pi * j / (N - 1)
    x = (1 - np.cos(theta)) / 2
    m, p, t = m / 100, p / 10, t / 100
    yt = 5 * t * (0.2969 * np.sqrt(x) - 0.126 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 - 0.1015 * x ** 4)
    flat = env.either(m == 0, p == 0)
    pp = env.ite(flat, 1, p)        # (no division by zero where it does not matter)
    fore = x < p
    y = env.ite(fore, m * (2 * p * x - x * x) / (pp * pp), m * (1 - 2 * p + 2 * p * x - x * x) / ((1 - p) * (1 - p)))
    dy = env.ite(fore, 2 * m * (p - x) / (pp * pp), 2 * m * (p - x) / ((1 - p) * (1 - p)))
    return x, env.ite(flat, 0, y), env.ite(flat, 0, dy), yt


@contract('S02', ['outputstl.plotNACA'])
def outline(env):
    """Every four-digit airfoil: the points lie half the stated thickness from the camber line, at right angles to it."""
    m, p, t = foil(env, 'foil')
    env.assume(m <= 9)
    env.assume(p <= 9)
    env.assume(t <= 99)
    X, Z = env.mod('outputstl').plotNACA(env.naca(m, p, t)[4:], N)
    env.eq('as many points as asked for', [X.shape[0], Z.shape[0]], [N, N])

    def point(j):
        x, y, dy, yt = sections(env, m, p, t, j)
        # from the quarter chord, forward and down
        u, w = 0.25 - X[j] - x, -Z[j] - y
        env.eq('measured at right angles to the camber line', u + w * dy, 0)
        side = env.ite(j < N // 2, -1, 1)
        env.eq('the point is half the thickness from the camber line, the first half below it',
               w * env.np.sqrt(1 + dy * dy), side * yt)
    env.forall(N, point)


@contract('S02', ['outputstl.plotNACA'])
def ends(env):
    """The outline starts and ends at the trailing edge, 0.0105 of the thickness from the end of the camber line."""
    m, p, t = foil(env, 'foil')
    env.assume(m <= 9)
    env.assume(p <= 9)
    env.assume(t <= 99)
    X, Z = env.mod('outputstl').plotNACA(env.naca(m, p, t)[4:], N)
    for e in (0, N - 1):
        u, w = X[e] + 0.75, Z[e]
        env.eq('trailing edge', u * u + w * w, (0.0105 * t / 100) ** 2)
    env.eq('the trailing edge is midway', [X[0] + X[N - 1], Z[0] + Z[N - 1]], [-1.5, 0])


def rotation(env, phi, theta, psi, v, half=True):
    """v in the axes turned by the Euler angles (about z, then y, then x), seen in the fixed axes."""
    def cs(a):
        if not half:
            return env.np.cos(a), env.np.sin(a)
        h = a / 2
        c, s = env.np.cos(h), env.np.sin(h)
        return 1 - 2 * s * s, 2 * s * c
    x, y, z = v
    c, s = cs(phi)
    y, z = y * c - z * s, y * s + z * c
    c, s = cs(theta)
    x, z = x * c + z * s, -x * s + z * c
    c, s = cs(psi)
    x, y = x * c - y * s, x * s + y * c
    return x, y, z


def vec(env, name):
    return [env.real(name + q) for q in 'xyz']


@contract('S02', ['outputstl.Euler2Quat', 'outputstl.Body2Fixed', 'outputstl.QuatMult'])
def turning(env):
    """Points turned by any Euler angles keep their distances, their handedness, and are where the angles say."""
    stl = env.mod('outputstl')
    a = [env.real(q, gen=(-7, 7)) for q in ('phi', 'theta', 'psi')]
    b = [env.real(q, gen=(-7, 7)) for q in ('phi2', 'theta2', 'psi2')]
    u, v = vec(env, 'u'), vec(env, 'v')
    e = stl.Euler2Quat(tuple(a))
    U, V = stl.Body2Fixed(u, e), stl.Body2Fixed(v, e)
    env.eq('distances are kept', sum((p - q) ** 2 for p, q in zip(U, V)), sum((p - q) ** 2 for p, q in zip(u, v)))
    env.eq('angles are kept', sum(p * q for p, q in zip(U, V)), sum(p * q for p, q in zip(u, v)))
    env.eq('the rotation is that of the Euler angles', list(U), list(rotation(env, *a, u)))
    e2 = stl.Euler2Quat(tuple(b))
    both = stl.QuatMult(e, e2)
    W = stl.Body2Fixed(u, both)
    env.eq('a product of rotations is one after the other', list(W), list(stl.Body2Fixed(stl.Body2Fixed(u, e2), e)))


@contract('S02', ['outputstl.linear_inter'])
def blend(env):
    """Between two airfoils, outlines are blended in proportion to the place along the span."""
    n = env.size('n', gen=(1, 4))
    left, right = env.array('left', N), env.array('right', N)
    s = env.array('s', n, gen=(0, 1))
    r = env.mod('outputstl').linear_inter(left, right, s)
    env.eq('one outline per section', [r.shape[0], r.shape[1]], [n, N])
    env.forall(n, lambda i: env.forall(N, lambda j: env.eq('outline', r[i, j], left[j] * (1 - s[i]) + right[j] * s[i])))


class Foil(Stub):
    """An airfoil with an arbitrary four-digit name, or one without such a name."""

    def __init__(self, env, tag, n, k, digits=True):
        self._env = env
        self.d = [env.intarray(tag + q, n, lo=0, gen=(0, 9 if q != '_t' else 40))[k] for q in ('_m', '_p', '_t')]
        self.digits = digits

    def get_name(self):
        if self.digits is not True:
            return self.digits
        return self._env.naca(*self.d)

    def outline(self):
        name = self._env.naca(*self.d)[4:] if self.digits is True else '2412'
        return self._env.mod('outputstl').plotNACA(name, N)


class Seg(Stub):
    """A wing segment with arbitrary properties; `k` is its number."""

    def __init__(self, env, k):
        self._env = env
        self._k = k
        self.n = env.intarray('n', env.K, lo=1)[k]

    def p(self, name, **kw):
        return self._env.array(name, self._env.K, **kw)[self._k]

    def is_left(self):
        return self._env.case(self.p('is_left') > 0)

    def get_side(self):
        return 'left' if self.is_left() else 'right'

    def get_num_sections(self):
        return self.n

    def get_airfoils(self):
        e = self._env
        return [Foil(e, q, e.K, self._k, d) for q, d in zip(('root', 'tip'), e.digits)]


class Plane(Stub):
    def __init__(self, env):
        self._env = env

    def get_num_sections(self):
        return self._env.sum(self._env.K, lambda k: Seg(self._env, k).n)

    def get_wingsegments(self):
        return self._env.list_of(self._env.K, lambda k: Seg(self._env, k))


class Grid(Stub):
    """Lattice data: any values, the rows of a segment following those of the segments before it."""

    def __init__(self, env):
        self._env = env
        self._plane = Plane(env)
        self._num_sections = self.n = self._plane.get_num_sections()
        self._segment_slices = env.list_of(env.K, lambda k: self.rows(k))

    def rows(self, k):
        start = self._env.sum(k, lambda m: Seg(self._env, m).n)
        return slice(start, start + Seg(self._env, k).n)

    def get_num_sections(self):
        return self.n

    def get_control_point_pos(self):
        return self._env.array('cp', self.n, 3)

    def get_chord_length(self):
        return self._env.array('chord', self.n, gen=(.1, 3))

    def get_twist(self):
        return self._env.array('twist', self.n, gen=(-20, 20))

    def get_dihedral(self):
        return self._env.array('dihedral', self.n, gen=(-90, 90))

    def get_cp_spacing(self):
        return self._env.array('spacing', self.n, gen=(0, 1))


def outlines(env):
    """Outlines are any function of the four digits and the point (S02 says which)."""
    stl = env.mod('outputstl')

    def outline(airfoil, n):
        d = [env.digit(airfoil[i]) for i in range(4)]
        return tuple(env.array_of((n,), lambda j, f=env.fun(q): f(*d, j)) for q in ('outline_x', 'outline_z'))
    env.summary(stl, 'plotNACA', outline)
    return stl


NAMES = {'four digits': (True, True), 'five digits at the tip': (True, 'NACA23012'), 'custom root': ('custom', True),
         'not digits': ('NACA64A0', 'naca')}


def wing_panels(env, g, V):
    """The triangles of every segment of the lattice."""
    cp, chord, twist = g.get_control_point_pos(), g.get_chord_length(), g.get_twist()
    dih, frac = g.get_dihedral(), g.get_cp_spacing()

    def seg(k):
        s = Seg(env, k)
        start = env.sum(k, lambda m: Seg(env, m).n)
        first = env.sum(k, lambda m: 2 * (N - 1) * (Seg(env, m).n - 1))
        env.prefix('segments take their turn', env.K, k, lambda m: Seg(env, m).n - 1)
        left = s.is_left()
        root, tip = s.get_airfoils()
        a, b = (tip, root) if left else (root, tip)
        (ax, az), (bx, bz) = a.outline(), b.outline()

        def place(i, j):
            """Outline point j of section i of the segment."""
            r = start + i
            t = frac[r]
            x = chord[r] * (ax[j] * (1 - t) + bx[j] * t)
            z = chord[r] * (az[j] * (1 - t) + bz[j] * t)
            # turned by the twist, then by the dihedral
            roll = dih[r] * env.pi / 180
            return [cp[r, c] + q for c, q in enumerate(rotation(
                env, roll if left else -roll, 0, 0, rotation(env, 0, twist[r] * env.pi / 180, 0, (x, 0, z), False), False))]

        def panel(i, j):
            q = first + 2 * (N - 1) * i + 2 * j
            for v, (di, dj) in enumerate([(0, 0), (0, 1), (1, 0)]):
                env.eq('first triangle %d' % v, [V[q, v, c] for c in range(3)], place(i + di, j + dj))
            for v, (di, dj) in enumerate([(0, 1), (1, 1), (1, 0)]):
                env.eq('second triangle %d' % v, [V[q + 1, v, c] for c in range(3)], place(i + di, j + dj))
        env.forall(s.n - 1, lambda i: env.forall(N - 1, lambda j: panel(i, j)))
    env.forall(env.K, seg)


@contract('S01', ['outputstl.create_from_grid'], variants=list(NAMES))
def wings(env, names):
    """Every panel of every segment of any lattice."""
    stl = outlines(env)
    env.simplified(stl, 'Body2Fixed')
    env.K = env.size('K', gen=(1, 3))
    env.digits = NAMES[names]
    g = Grid(env)
    out = env.out_file('plane.stl')
    stl.create_from_grid(llgrid=g, filename=out)
    V = env.stl_vectors(out)
    env.eq('triangles', V.shape[0], env.sum(env.K, lambda k: 2 * (N - 1) * (Seg(env, k).n - 1)))
    wing_panels(env, g, V)


class Prop(Stub):
    """Propeller data: any values at any number of stations and blades."""

    def __init__(self, env, tag, several, turn):
        self._env = env
        self._tag = tag
        self._nodes = env.size(tag + '_nodes', lo=2, gen=(2, 4))
        self._k = env.size(tag + '_blades', gen=(1, 4))
        self._turn = turn
        self._zeta = self.v('zeta', gen=(.1, 1))
        self._prop = self
        if several:
            self.A = env.size(tag + '_airfoils', lo=2, gen=(2, 3))
            gap = env.array(tag + '_gap', self.A, pos=True, gen=(.05, .5))
            self._airfoil_span_list = env.list_of(self.A, lambda a: (env.sum(a, lambda q: gap[q]), Foil(env, tag + '_foil', self.A, a)))
        else:
            self.A = 1
            self._airfoil_span_list = [(None, Foil(env, tag + '_foil', 1, 0))]

    def v(self, name, **kw):
        return self._env.array('%s_%s' % (self._tag, name), self._nodes, **kw)

    def get_num_nodes(self):
        return self._nodes

    def get_num_blades(self):
        return self._k

    def get_position(self):
        return self._env.array(self._tag + '_position', 3)

    def get_rotation_direction(self):
        return self._turn

    def get_chord(self):
        return self.v('chord', gen=(.1, 1))

    def get_aero_pitch_angle(self):
        return self.v('pitch', gen=(0, 1.5))

    def get_zero_lift_alpha(self):
        return self.v('zero_lift', gen=(-.1, .1))

    def get_radial_position(self):
        return self.v('radius', gen=(.1, 2))

    def get_orientation(self):
        return self._env.real(self._tag + '_theta', gen=(-1, 1)), self._env.real(self._tag + '_gamma', gen=(-1, 1))


def blade_panels(env, stl, V, p, first):
    """The triangles of every blade of propeller p, whose first one is number `first`."""
    np = env.np
    pos = p.get_position()
    theta, gamma = p.get_orientation()
    turn = p.get_rotation_direction()
    chord, pitch = p.get_chord(), p.get_aero_pitch_angle() - p.get_zero_lift_alpha()
    radius = p.get_radial_position()
    foils = p._airfoil_span_list
    per = 2 * (N - 1) * (p._nodes - 1)

    def outline(i, j):
        if p.A == 1:
            x, z = foils[0][1].outline()
            return x[j], z[j]
        loc = env.array_of((p.A,), lambda a: foils[a][0])
        return [env.interp(loc, env.array_of((p.A,), lambda a: foils[a][1].outline()[c][j]), p._zeta[i],
                           foils[0][1].outline()[c][j], foils[p.A - 1][1].outline()[c][j]) for c in (0, 1)]

    def place(i, j):
        """Outline point j of station i of the first blade, in the propeller's own axes."""
        x, z = outline(i, j)
        # the chord lies in the plane of rotation, then is pitched about the blade
        x, y, _ = rotation(env, 0, 0, -turn * pitch[i], (-z * chord[i], turn * x * chord[i], 0), False)
        return x, y, -radius[i]

    def seen(v):
        return [pos[c] + q for c, q in enumerate(rotation(env, 0, theta, gamma, v, False))]
    corners = [[(0, 0), (0, 1), (1, 0)], [(0, 1), (1, 1), (1, 0)]]
    if turn != 1:
        # the other way round, so that the outside stays outside
        corners = [[a, c, b] for a, b, c in corners]

    def panel(i, j):
        for t, tri in enumerate(corners):
            for v, (di, dj) in enumerate(tri):
                q = first + 2 * (N - 1) * i + 2 * j + t
                env.eq('first blade, triangle %d %d' % (t, v), [V[q, v, c] for c in range(3)], seen(place(i + di, j + dj)))

                def blade(b):
                    # undone: position and orientation of the propeller
                    def own(b):
                        x, y, z = [V[q + per * b, v, c] - pos[c] for c in range(3)]
                        x, y, z = rotation(env, 0, 0, -gamma, (x, y, z), False)
                        return rotation(env, 0, -theta, 0, (x, y, z), False)
                    env.eq('next blade, triangle %d %d' % (t, v), list(own(b + 1)),
                           list(rotation(env, 2 * env.pi / p._k, 0, 0, own(b), False)))
                env.forall(p._k - 1, blade)
    env.forall(p._nodes - 1, lambda i: env.forall(N - 1, lambda j: panel(i, j)))


@contract('S01', ['outputstl.create_from_grid'], variants=[(s, t) for s in ('one airfoil', 'several airfoils') for t in (1, -1)])
def blades(env, case):
    """Every panel of every blade; blade b+1 is blade b turned about the propeller axis by an equal share of the circle."""
    foils, turn = case
    stl = outlines(env)
    env.simplified(stl, 'Body2Fixed')
    p = Prop(env, 'prop', foils != 'one airfoil', turn)
    out = env.out_file('prop.stl')
    stl.create_from_grid(prop_models=[p], filename=out)
    V = env.stl_vectors(out)
    env.eq('triangles', V.shape[0], 2 * (N - 1) * (p._nodes - 1) * p._k)
    blade_panels(env, stl, V, p, 0)


@contract('S01', ['outputstl.create_from_grid'], variants=[(1, -1), (-1, 1)])
def plane(env, turns):
    """Wings, then one propeller after another: nothing overwrites or leaves out another's triangles."""
    stl = outlines(env)
    env.simplified(stl, 'Body2Fixed')
    env.K = env.size('K', gen=(1, 2))
    env.digits = NAMES['four digits']
    g = Grid(env)
    ps = [Prop(env, 'prop%d' % i, False, t) for i, t in enumerate(turns)]
    out = env.out_file('plane.stl')
    stl.create_from_grid(llgrid=g, prop_models=ps, filename=out)
    V = env.stl_vectors(out)
    first = env.sum(env.K, lambda k: 2 * (N - 1) * (Seg(env, k).n - 1))
    wing_panels(env, g, V)
    for p in ps:
        blade_panels(env, stl, V, p, first)
        first = first + 2 * (N - 1) * (p._nodes - 1) * p._k
    env.eq('triangles', V.shape[0], first)

"""Contracts on llgrid.py: the lattice built from any list of wing segments.

The plane is a stand-in whose segments have arbitrary properties (one arbitrary
value per segment and property), any number of them and any number of sections
each; every claim is about section j of segment k, whose row in the grid is the
number of sections before segment k plus j.
"""
from vc.api import contract, Stub

BASE = ['llgrid.LLGrid.__init__', 'llgrid.LLGrid._update_data']


class Foil(Stub):
    def __init__(self, env, tag, k):
        self.a = {p: env.array(tag + p, env.K)[k] for p in ('CLa', 'aL0', 'Cma', 'CmL0', 'CD0', 'CD1', 'CD2', 'CLmax')}

    def get_lift_slope(self):
        return self.a['CLa']

    def get_zero_lift_alpha(self):
        return self.a['aL0']

    def get_moment_slope(self):
        return self.a['Cma']

    def get_zero_lift_moment(self):
        return self.a['CmL0']

    def get_drag_coefficients(self):
        return self.a['CD0'], self.a['CD1'], self.a['CD2']

    def get_max_lift(self):
        return self.a['CLmax']


class Seg(Stub):
    """A wing segment with arbitrary properties; `k` is its number."""

    def __init__(self, env, k):
        self._env = env
        self._k = k
        self.n = env.intarray('n', env.K, lo=1)[k]
        self.lt = env.array('left_tip', env.K, 3)[k]
        self.rt = env.array('right_tip', env.K, 3)[k]

    def p(self, name, **kw):
        return self._env.array(name, self._env.K, **kw)[self._k]

    def is_left(self):
        return self._env.case(self.p('is_left') > 0)

    @property
    def name(self):
        return 'left_w' if self.is_left() else 'right_w'

    def get_side(self):
        return 'left' if self.is_left() else 'right'

    @property
    def _is_main(self):
        return self._env.case(self.p('is_main') > 0)

    def get_num_sections(self):
        return self.n

    def get_position(self, side):
        return self.lt if side == 'left_tip' else self.rt

    def get_chord(self):
        return self.p('root_chord', pos=True), self.p('tip_chord', pos=True)

    def get_sweep(self):
        return self.p('sweep', gen=(-40, 40))

    def get_dihedral(self):
        return self.p('dihedral', gen=(-40, 40))

    def get_mounting_angle(self):
        return self.p('mount', gen=(-10, 10))

    def get_washout(self):
        return self.p('washout', gen=(-10, 10))

    def get_airfoils(self):
        return Foil(self._env, 'root_', self._k), Foil(self._env, 'tip_', self._k)

    def get_control_surface_span(self):
        a = self.p('surf_start', gen=(0, .5))
        return a, a + self.p('surf_width', pos=True, gen=(.1, .6))

    def get_control_surface_chord(self):
        return self.p('surf_c1', gen=(0.02, .98)), self.p('surf_c2', gen=(0.02, .98))

    def get_control_mix(self):
        return self.p('mix_a'), self.p('mix_e'), self.p('mix_r'), self.p('mix_f')

    def is_control_surface_sealed(self):
        return self._env.case(self.p('sealed') > 0)


class Plane(Stub):
    def __init__(self, env):
        self._env = env

    def get_num_sections(self):
        return self._env.sum(self._env.K, lambda k: Seg(self._env, k).n)

    def get_wingsegments(self):
        return self._env.list_of(self._env.K, lambda k: Seg(self._env, k))

    def get_cg_location(self):
        return self._env.array('cg', 3)


def build(env, cosine=True):
    llgrid = env.mod('llgrid')
    env.K = env.size('K', gen=(1, 3))
    g = llgrid.LLGrid(Plane(env), cosine)
    return g


def each(env, f):
    """f(segment, section number, row) for every section of every segment."""
    def one(k):
        s = Seg(env, k)
        start = env.sum(k, lambda m: Seg(env, m).n)
        env.forall(s.n, lambda j: f(s, j, start + j))
    env.forall(env.K, one)


def spacing(env, s, j, cosine, off):
    """Fraction of the segment's span, from its left end, of point j."""
    if cosine:
        return (1 - env.np.cos(env.pi * (j - off) / s.n)) / 2
    return (j - off) / s.n


@contract('G02', BASE + ['llgrid.LLGrid._calc_control_points', 'llgrid.LLGrid._cosine_spacing', 'llgrid.LLGrid._linear_spacing',
                         'llgrid.LLGrid._calc_segment_points', 'llgrid.LLGrid._calc_unit_s'], variants=[True, False])
def lattice_points(env, cosine):
    """Corner and control points lie on the line between the segment's ends at the required fractions."""
    g = build(env, cosine)
    env.eq('sections', env.np.shape(g.get_control_point_pos())[0], Plane(env).get_num_sections())
    r = g.get_control_point_pos()
    r1, r2 = g.get_corner_point_pos()
    sp = g.get_cp_spacing()

    def row(s, j, i):
        t = spacing(env, s, j + 1, cosine, 1 / 2)
        t1 = spacing(env, s, j, cosine, 0)
        t2 = spacing(env, s, j + 1, cosine, 0)
        d = s.rt - s.lt
        env.assume(env.np.dot(d, d) > 0)
        env.eq('spacing', sp[i], t)
        for c in range(3):
            env.eq('control point', r[i, c], s.lt[c] + t * d[c])
            env.eq('corner 1', r1[i, c], s.lt[c] + t1 * d[c])
            env.eq('corner 2', r2[i, c], s.lt[c] + t2 * d[c])
        name = s.name
        env.eq('name', g.get_wing_names()[i], name)
    each(env, row)

    def ends(k):
        s = Seg(env, k)
        start = env.sum(k, lambda m: Seg(env, m).n)
        d = s.rt - s.lt
        env.assume(env.np.dot(d, d) > 0)
        for c in range(3):
            env.eq('first corner is the left end', r1[start, c], s.lt[c])
            env.eq('last corner is the right end', r2[start + s.n - 1, c], s.rt[c])
        env.forall(s.n - 1, lambda j: [env.eq('sections join', r2[start + j, c], r1[start + j + 1, c]) for c in range(3)])
    env.forall(env.K, ends)
    env.eq('cg', g.get_cg_location(), Plane(env).get_cg_location())


def chord_at(env, s, t):
    """Chord at fraction t of the span from the segment's left end."""
    root, tip = s.get_chord()
    if s.is_left():
        return tip + t * (root - tip)
    return root + t * (tip - root)


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def area(env, s, j, cosine):
    """Width of the section normal to the sweep line times its mean chord."""
    np = env.np
    t1 = spacing(env, s, j, cosine, 0)
    t2 = spacing(env, s, j + 1, cosine, 0)
    d = s.rt - s.lt
    # |corner 2 - corner 1|, written on the corners themselves
    e = [(s.lt[c] + t2 * d[c]) - (s.lt[c] + t1 * d[c]) for c in range(3)]
    length = np.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
    return np.cos(s.get_sweep() * env.pi / 180) * length * (chord_at(env, s, t1) + chord_at(env, s, t2)) / 2


@contract('G03', BASE + ['llgrid.LLGrid._calc_chord', 'llgrid.LLGrid._interp_accross_segment', 'llgrid.LLGrid._calc_area',
                         'llgrid.LLGrid._calc_integral_chord2'], variants=[True, False])
def chords_and_areas(env, cosine):
    """Chords are linear along each segment; areas, chord-squared integrals follow from them."""
    np = env.np
    g = build(env, cosine)
    c = g.get_chord_length()
    c1, c2 = g.get_chord_lengths()
    dS = g.get_section_areas()
    ic = g.get_integral_chord2()

    def row(s, j, i):
        d = s.rt - s.lt
        env.assume(dot3(d, d) > 0)
        t1 = spacing(env, s, j, cosine, 0)
        t2 = spacing(env, s, j + 1, cosine, 0)
        a, b = chord_at(env, s, t1), chord_at(env, s, t2)
        env.eq('chord', c[i], chord_at(env, s, spacing(env, s, j + 1, cosine, 1 / 2)))
        env.eq('chord 1', c1[i], a)
        env.eq('chord 2', c2[i], b)
        env.eq('area', dS[i], area(env, s, j, cosine))
        G = s.get_dihedral() * env.pi / 180
        sgn = -1 if s.is_left() else 1
        width = np.abs(sgn * (t2 * d[2] - t1 * d[2]) * np.sin(G) - (t2 * d[1] - t1 * d[1]) * np.cos(G))
        env.eq('integral of chord squared', ic[i], width * (a * a + a * b + b * b) / 3)
    each(env, row)


@contract('G03', BASE + ['llgrid.LLGrid._calc_area', 'llgrid.LLGrid.get_reference_area'], variants=[True, False])
def reference_area(env, cosine):
    """The reference area is the total area of the sections of main segments."""
    g = build(env, cosine)

    def has_length(k):
        s = Seg(env, k)
        d = s.rt - s.lt
        env.assume(dot3(d, d) > 0)
    env.forall(env.K, has_length)

    def seg_area(k):
        s = Seg(env, k)
        main = s.p('is_main') > 0
        left = s.p('is_left') > 0
        root, tip = s.get_chord()

        def one(j):
            t1 = spacing(env, s, j, cosine, 0)
            t2 = spacing(env, s, j + 1, cosine, 0)
            d = s.rt - s.lt
            e = [(s.lt[c] + t2 * d[c]) - (s.lt[c] + t1 * d[c]) for c in range(3)]
            length = env.np.sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2])
            mean = env.ite(left, tip + (t1 + t2) / 2 * (root - tip), root + (t1 + t2) / 2 * (tip - root))
            return env.np.cos(s.get_sweep() * env.pi / 180) * length * mean
        return env.ite(main, env.sum(s.n, one), 0)
    env.eq('reference area', g.get_reference_area(), env.sum(env.K, seg_area))


@contract('G04', BASE + ['llgrid.LLGrid._calc_unit_vectors', 'llgrid.LLGrid._calc_washout', 'llgrid.LLGrid._calc_sweep',
                         'llgrid.LLGrid._calc_dihedral', 'llgrid.LLGrid._calc_mount_angle'], variants=[True, False])
def section_frames(env, cosine):
    """Axial, normal and spanwise vectors of every section: right-handed, orthonormal, set by twist and dihedral."""
    np = env.np
    g = build(env, cosine)
    ua, un, us = g.get_unit_axial_vectors(), g.get_unit_normal_vectors(), g.get_unit_spanwise_vectors()
    tw, sw, dh = g.get_twist(), g.get_sweep(), g.get_dihedral()

    def row(s, j, i):
        t = spacing(env, s, j + 1, cosine, 1 / 2)
        wash = s.get_washout()
        frac = 1 - t if s.is_left() else t
        twist = s.get_mounting_angle() - frac * wash
        env.eq('twist', tw[i], twist)
        env.eq('sweep', sw[i], s.get_sweep())
        env.eq('dihedral', dh[i], s.get_dihedral())
        a, n, u = ([v[i, c] for c in range(3)] for v in (ua, un, us))
        T = twist * env.pi / 180
        G = s.get_dihedral() * env.pi / 180
        y = -1 if s.is_left() else 1
        want_n = [-np.sin(T), -y * np.sin(G) * np.cos(T), -np.cos(G) * np.cos(T)]
        want_a = [-np.cos(T), y * np.sin(G) * np.sin(T), np.cos(G) * np.sin(T)]
        env.eq('normal', n, want_n)
        env.eq('axial', a, want_a)
        env.eq('unit normal', dot3(n, n), 1)
        env.eq('unit axial', dot3(a, a), 1)
        env.eq('axial and normal orthogonal', dot3(a, n), 0)
        env.eq('right-handed', u, [a[1] * n[2] - a[2] * n[1], a[2] * n[0] - a[0] * n[2], a[0] * n[1] - a[1] * n[0]])
        env.eq('spanwise', u, [0, -np.cos(G), y * np.sin(G)])
        env.eq('unit spanwise', dot3(u, u), 1)
    each(env, row)


@contract('G05', BASE + ['llgrid.LLGrid._calc_coefficients', 'llgrid.LLGrid._interp_accross_segment'], variants=[True, False])
def airfoil_blend(env, cosine):
    """Section properties blend linearly from the root airfoil to the tip airfoil."""
    g = build(env, cosine)
    cd = g.get_drag_coefficients()
    cdl, cdr = g.get_left_drag_coeff(), g.get_right_drag_coeff()
    ms = g.get_moment_slopes()

    def row(s, j, i):
        t = spacing(env, s, j + 1, cosine, 1 / 2)
        left = s.is_left()
        root, tip = s.get_airfoils()

        def three(label, p, mid, l=None, r=None):
            a, b = (tip.a[p], root.a[p]) if left else (root.a[p], tip.a[p])
            if mid is not None:
                env.eq(label, mid[i], a + t * (b - a))
            if l is not None:
                env.eq(label + ' left', l[i], a)
                env.eq(label + ' right', r[i], b)
        three('lift slope', 'CLa', g.get_lift_slopes(), g.get_left_lift_slopes(), g.get_right_lift_slopes())
        three('zero-lift alpha', 'aL0', g.get_zero_lift_alpha(), g.get_left_zero_lift_alpha(), g.get_right_zero_lift_alpha())
        three('moment slope', 'Cma', ms[0], g.get_left_moment_slopes(), g.get_right_moment_slopes())
        three('zero-lift moment', 'CmL0', ms[1], g.get_left_zero_lift_moments(), g.get_right_zero_lift_moments())
        three('CD0', 'CD0', cd[0], cdl[0], cdr[0])
        three('CD1', 'CD1', cd[1], cdl[1], cdr[1])
        three('CD2', 'CD2', cd[2], cdl[2], cdr[2])
        three('max lift', 'CLmax', g.get_max_lifts())
    each(env, row)


@contract('G06', BASE + ['llgrid.LLGrid._calc_control_surfaces', 'llgrid.LLGrid.get_control_mix', 'llgrid.LLGrid.get_flap_effectiveness',
                         'llgrid.LLGrid.get_moment_slopes'], variants=[True, False])
def control_surfaces(env, cosine):
    """Sections strictly inside the surface's span get its mixing and thin-airfoil effectiveness; others get none."""
    np = env.np
    g = build(env, cosine)
    mix = g.get_control_mix()
    eff = g.get_flap_effectiveness()
    cmd = g.get_moment_slopes()[2]

    def row(s, j, i):
        t = spacing(env, s, j + 1, cosine, 1 / 2)
        a, b = s.get_control_surface_span()
        ca, cb = s.get_control_surface_chord()
        if env.case(env.both(a < t, t < b)):
            cf = ca + (t - a) / (b - a) * (cb - ca)
            th = np.arccos(2 * cf - 1)
            ideal = 1 - (th - np.sin(th)) / env.pi
            eta = 3.9598 * np.arctan((cf + 0.006527) * 89.2574 + 4.898015) - 5.18786
            if not s.is_control_surface_sealed():
                eta = 0.8 * eta
            for q, m in zip(mix, s.get_control_mix()):
                env.eq('mixing', q[i], m)
            env.eq('effectiveness', eff[i], eta * ideal)
            env.eq('moment slope', cmd[i], (np.sin(2 * th) - 2 * np.sin(th)) / 4)
            env.cover('covered')
        else:
            for q in mix:
                env.eq('no mixing', q[i], 0)
            env.eq('no effectiveness', eff[i], 0)
            env.eq('no moment slope', cmd[i], 0)
            env.cover('uncovered')
    each(env, row)

"""Contracts on geometry.py: placement of wing segments, airfoils, control surfaces."""
from vc.api import contract, Stub

WING = ['geometry.Wing.__init__', 'geometry.Wing.connect_to', 'geometry.Wing.get_position', 'geometry.Wing.get_wingsegments',
        'geometry.WingSegment.__init__', 'geometry.WingSegment._unpack', 'geometry.WingSegment.connect_to',
        'geometry.WingSegment.get_position', 'geometry.WingSegment._get_parent_position']


class Parent(Stub):
    """Any object a wing can attach to: its connection points are arbitrary."""

    def __init__(self, env):
        self.pts = {'left_tip': env.array('parent_left', 3), 'right_tip': env.array('parent_right', 3)}

    def get_position(self, at):
        return self.pts[at]


def wing_dims(env, tag=''):
    return {'position': [env.real(tag + 'dx'), env.real(tag + 'dy'), env.real(tag + 'dz')],
            'yoffset': env.real(tag + 'yoffset'),
            'semispan': env.real(tag + 'span', pos=True, gen=(0.5, 8)),
            'sweep': env.real(tag + 'sweep', lo=-89, hi=89, gen=(-45, 45)),
            'dihedral': env.real(tag + 'dihedral', gen=(-40, 40)),
            'mount_angle': env.real(tag + 'mount', gen=(-10, 10)),
            'washout': env.real(tag + 'washout', gen=(-10, 10)),
            'root_chord': env.real(tag + 'root_chord', pos=True),
            'tip_chord': env.real(tag + 'tip_chord', pos=True)}


def any_dims(env):
    """Any wing: all dimensions, any number of sections, main or not."""
    d = wing_dims(env)
    d['grid'] = env.size('grid')
    main = env.choice('main', [None, True, False])
    if main is not None:
        d['is_main'] = main
    return d


def outboard(env, d, side, base):
    """Position of the outboard end: attachment + offset + the span's projection."""
    np = env.np
    s = -1 if side == 'left' else 1
    L = d['sweep'] * env.pi / 180
    G = d['dihedral'] * env.pi / 180
    p = d['position']
    return [base[0] + p[0] - d['semispan'] * np.tan(L),
            base[1] + p[1] + s * (d['yoffset'] + d['semispan'] * np.cos(G)),
            base[2] + p[2] - d['semispan'] * np.sin(G)]


def inboard(env, d, side, base):
    s = -1 if side == 'left' else 1
    p = d['position']
    return [base[0] + p[0], base[1] + p[1] + s * d['yoffset'], base[2] + p[2]]


def other(side):
    return 'right' if side == 'left' else 'left'


@contract('G01', WING, variants=['both', 'left', 'right'])
def segment_ends(env, side):
    """Both ends of every segment of a wing attached to an arbitrary parent."""
    geom = env.mod('geometry')
    d = wing_dims(env)
    par = Parent(env)
    w = geom.Wing('w', side, d)
    w.connect_to(par, 'tip')
    segs = w.get_wingsegments()
    sides = ['left', 'right'] if side == 'both' else [side]
    env.eq('segments', len(segs), len(sides))
    env.eq('sides', sorted([s.get_side() for s in segs]), sides)
    for s in segs:
        sd = s.get_side()
        base = par.get_position(sd + '_tip')
        env.eq('outboard end', s.get_position(sd + '_tip'), outboard(env, d, sd, base))
        env.eq('inboard end', s.get_position(other(sd) + '_tip'), inboard(env, d, sd, base))
        if side == 'both' or side == sd:
            env.eq('wing connection point', w.get_position(sd + '_tip'), outboard(env, d, sd, base))
    env.cover('end')


@contract('G01', WING + ['geometry.Airplane.add_wing', 'geometry.Airplane.get_position', 'geometry.Airplane.get_wingsegments'],
          variants=[('both', 'both'), ('both', 'left'), ('both', 'right'), ('left', 'left'), ('right', 'right')])
def wing_chain(env, sides):
    """A wing attached to the tip of another starts exactly where the other ends, on its own side."""
    geom = env.mod('geometry')
    a = geom.Airplane()
    d1, d2 = wing_dims(env, 'a_'), wing_dims(env, 'b_')
    w1 = a.add_wing('one', side=sides[0], **d1)
    w2 = a.add_wing('two', connect_to=('one', 'tip'), side=sides[1], **d2)
    zero = [0, 0, 0]
    n = 0
    for s in a.get_wingsegments():
        sd = s.get_side()
        n = n + 1
        if n <= len(w1.get_wingsegments()):
            env.eq('first outboard', s.get_position(sd + '_tip'), outboard(env, d1, sd, zero))
            env.eq('first inboard', s.get_position(other(sd) + '_tip'), inboard(env, d1, sd, zero))
        else:
            base = outboard(env, d1, sd, zero)
            env.eq('second inboard', s.get_position(other(sd) + '_tip'), inboard(env, d2, sd, base))
            env.eq('second outboard', s.get_position(sd + '_tip'), outboard(env, d2, sd, base))
    env.eq('segment count', n, len(w1.get_wingsegments()) + len(w2.get_wingsegments()))


@contract('G01', WING)
def mirror(env):
    """A two-sided wing is symmetric: the left half is the right half reflected in y = dy."""
    geom = env.mod('geometry')
    d = wing_dims(env)
    a = geom.Airplane()
    w = a.add_wing('w', side='both', **d)
    for l in w.get_wingsegments():
        for r in w.get_wingsegments():
            if l.get_side() == 'left' and r.get_side() == 'right':
                for e in ['tip', 'root']:
                    lp = l.get_position('left_tip' if e == 'tip' else 'right_tip')
                    rp = r.get_position('right_tip' if e == 'tip' else 'left_tip')
                    env.eq('x ' + e, lp[0], rp[0])
                    env.eq('y ' + e, lp[1] + rp[1], 2 * d['position'][1])
                    env.eq('z ' + e, lp[2], rp[2])
                env.cover('pair')


FOIL = ['alpha_L0', 'CL_alpha', 'CL_max', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2']


def foil(env, tag):
    return {p: env.real(tag + p) for p in FOIL}


def check_foil(env, label, a, d):
    env.eq(label + ' lift slope', a.get_lift_slope(), d['CL_alpha'])
    env.eq(label + ' zero-lift alpha', a.get_zero_lift_alpha(), d['alpha_L0'])
    env.eq(label + ' moment slope', a.get_moment_slope(), d['Cm_alpha'])
    env.eq(label + ' zero-lift moment', a.get_zero_lift_moment(), d['Cm_L0'])
    env.eq(label + ' max lift', a.get_max_lift(), d['CL_max'])
    env.eq(label + ' drag', list(a.get_drag_coefficients()), [d['CD0'], d['CD0_L'], d['CD0_L2']])


@contract('G05', ['geometry.Wing.airfoil', 'geometry.WingSegment.airfoil', 'geometry.WingSegment.get_airfoils', 'geometry.Airfoil'],
          variants=[(s, e) for s in ('both', 'left', 'right') for e in ('both', 'root', 'tip', 'each')])
def wing_airfoils(env, v):
    """An airfoil set on an end of a wing is the one every segment of the wing reports there."""
    side, end = v
    geom = env.mod('geometry')
    w = geom.Airplane().add_wing('w', side=side, **any_dims(env))
    a, b = foil(env, 'a_'), foil(env, 'b_')
    segs = w.get_wingsegments()
    before = [s.get_airfoils() for s in segs]
    if end == 'each':
        w.airfoil('one', 'root', **a)
        w.airfoil('two', 'tip', **b)
    else:
        w.airfoil('one', end, **a)
    for s, old in zip(segs, before):
        root, tip = s.get_airfoils()
        if end in ('both', 'root', 'each'):
            check_foil(env, 'root', root, a)
        else:
            env.ensure('root kept', root is old[0])
        if end == 'each':
            check_foil(env, 'tip', tip, b)
        elif end in ('both', 'tip'):
            check_foil(env, 'tip', tip, a)
        else:
            env.ensure('tip kept', tip is old[1])


@contract('G06', ['geometry.Wing.control_surface', 'geometry.WingSegment.get_control_surface_span', 'geometry.WingSegment.get_control_mix',
                  'geometry.WingSegment.get_control_surface_chord', 'geometry.WingSegment.is_control_surface_sealed', 'geometry.ControlSurface'],
          variants=['both', 'left', 'right'])
def surface_on_segments(env, side):
    """A control surface occupies mirrored spans on the two sides; aileron and rudder mix antisymmetrically."""
    geom = env.mod('geometry')
    w = geom.Airplane().add_wing('w', side=side, **any_dims(env))
    names = ['aileron', 'elevator', 'rudder', 'flap']
    used = [n for n in names if env.boolean('has_' + n)]
    mix = {n: env.real('mix_' + n) for n in used}
    span = [env.real('span_root', gen=(0, .5)), env.real('span_tip', gen=(.5, 1))]
    single = env.boolean('single_chord')
    ch = [env.real('chord_root'), env.real('chord_tip')]
    given = env.boolean('sealed_given')
    sealed = env.boolean('sealed')
    props = {'percent_span': span, 'percent_chord': ch[0] if single else ch, 'mix': mix}
    if given:
        props['sealed'] = sealed
    w.control_surface(**props)
    if single:
        ch = [ch[0], ch[0]]
    for s in w.get_wingsegments():
        m = s.get_control_mix()
        sg = -1 if s.get_side() == 'left' else 1
        want = [mix.get(n, 0) for n in names]
        env.eq('mixing', list(m), [sg * want[0], want[1], sg * want[2], want[3]])
        a, b = s.get_control_surface_span()
        c, d = s.get_control_surface_chord()
        if s.get_side() == 'right':
            env.eq('span', [a, b], span)
            env.eq('chord', [c, d], ch)
        else:
            env.eq('span', [a, b], [1 - span[1], 1 - span[0]])
            env.eq('chord', [c, d], [ch[1], ch[0]])
        env.eq('sealed', bool(s.is_control_surface_sealed()), sealed if given else True)


@contract('G06', ['geometry.WingSegment.__init__', 'geometry.ControlSurface.__init__'], variants=['both', 'left', 'right'])
def no_surface(env, side):
    """A wing without control surface mixes nothing."""
    w = env.mod('geometry').Airplane().add_wing('w', side=side, **any_dims(env))
    for s in w.get_wingsegments():
        env.eq('mixing', list(s.get_control_mix()), [0, 0, 0, 0])


def file_wing(env, tag, ID, parent, side, nfoil, control):
    d = {'ID': ID, 'side': side,
         'connect': {'ID': parent, 'location': 'tip', 'dx': env.real(tag + 'dx'), 'dy': env.real(tag + 'dy'), 'dz': env.real(tag + 'dz'),
                     'yoffset': env.real(tag + 'yoffset')},
         'span': env.real(tag + 'span', pos=True), 'sweep': env.real(tag + 'sweep', gen=(-40, 40)),
         'dihedral': env.real(tag + 'dihedral', gen=(-40, 40)), 'mounting_angle': env.real(tag + 'mounting'),
         'washout': env.real(tag + 'washout'), 'root_chord': env.real(tag + 'root_chord', pos=True),
         'tip_chord': env.real(tag + 'tip_chord', pos=True), 'grid': env.size(tag + 'grid'),
         'airfoils': {'foil%d' % i: {'properties': foil(env, tag + 'f%d_' % i)} for i in range(nfoil)}, 'control': {}}
    main = env.choice(tag + 'is_main', [True, False, None])
    if main is not None:
        d['is_main'] = main
    if control:
        d['control'] = {'span_root': env.real(tag + 'span_root'), 'span_tip': env.real(tag + 'span_tip'),
                        'chord_root': env.real(tag + 'chord_r'), 'chord_tip': env.real(tag + 'chord_t'),
                        'is_sealed': env.choice(tag + 'sealed', [1, 0]),
                        'mix': {'aileron': env.real(tag + 'mixa'), 'elevator': env.real(tag + 'mixe'), 'rudder': env.real(tag + 'mixr'), 'flap': env.real(tag + 'mixf')}}
    return d


def check_file_wing(env, segs, d, base):
    """Every number of the file's wing is the number its segments report."""
    if d['side'] == 'both':
        env.eq('sides', sorted([s.get_side() for s in segs]), ['left', 'right'])
    else:
        env.eq('sides', [s.get_side() for s in segs], [d['side']])
    foils = list(d['airfoils'])
    for s in segs:
        env.eq('chord', list(s.get_chord()), [d['root_chord'], d['tip_chord']])
        env.eq('sweep', s.get_sweep(), d['sweep'])
        env.eq('dihedral', s.get_dihedral(), d['dihedral'])
        env.eq('mounting angle', s.get_mounting_angle(), d['mounting_angle'])
        env.eq('washout', s.get_washout(), d['washout'])
        env.eq('sections', s.get_num_sections(), d['grid'])
        env.eq('main', bool(s._is_main), d.get('is_main', True))
        root, tip = s.get_airfoils()
        check_foil(env, 'root', root, d['airfoils'][foils[0]]['properties'])
        check_foil(env, 'tip', tip, d['airfoils'][foils[-1]]['properties'])
        sd = s.get_side()
        c = d['connect']
        dims = {'position': [c['dx'], c['dy'], c['dz']], 'yoffset': c['yoffset'], 'semispan': d['span'], 'sweep': d['sweep'], 'dihedral': d['dihedral']}
        env.eq('outboard end', s.get_position(sd + '_tip'), outboard(env, dims, sd, base(sd)))
        env.eq('inboard end', s.get_position(other(sd) + '_tip'), inboard(env, dims, sd, base(sd)))
        k = d['control']
        if k:
            sg = -1 if sd == 'left' else 1
            m = k['mix']
            env.eq('mix', list(s.get_control_mix()), [sg * m['aileron'], m['elevator'], sg * m['rudder'], m['flap']])
            env.eq('sealed', bool(s.is_control_surface_sealed()), k['is_sealed'] == 1)
            sp, ch = [k['span_root'], k['span_tip']], [k['chord_root'], k['chord_tip']]
            env.eq('surface span', list(s.get_control_surface_span()), sp if sd == 'right' else [1 - sp[1], 1 - sp[0]])
            env.eq('surface chord', list(s.get_control_surface_chord()), ch if sd == 'right' else [ch[1], ch[0]])
        else:
            env.eq('mix', list(s.get_control_mix()), [0, 0, 0, 0])


@contract('M06', ['geometry.Airplane._buildfrominputfile', 'geometry.Airplane._map_wing_connections', 'geometry.Airplane._add_wing_from_inputfile',
                  'geometry.Airplane.cg_location', 'geometry.Airplane._check_units', 'geometry.Airplane.get_num_sections'],
          variants=[('both', 'both', 1, True), ('both', 'left', 2, True), ('both', 'right', 2, False), ('left', 'left', 1, False), ('right', 'right', 2, True)])
def file_wings(env, v):
    """An aircraft read from a file reports the numbers in the file."""
    s1, s2, nf, ctl = v
    geom = env.mod('geometry')
    d1 = file_wing(env, 'a_', 3, 0, s1, nf, ctl)
    d2 = file_wing(env, 'b_', 7, 3, s2, 3 - nf, not ctl)
    units = env.choice('units', ['English', 'SI', None])
    data = {'plane': {'name': 'p', 'CGx': env.real('CGx'), 'CGy': env.real('CGy'), 'CGz': env.real('CGz')},
            'reference': {'longitudinal_length': env.real('lon', pos=True), 'lateral_length': env.real('lat', pos=True)},
            'condition': {'units': units}, 'wings': {'one': d1, 'two': d2}}
    a = geom.Airplane(inputfile=env.json_file(data))
    env.eq('name', a.name, 'p')
    env.eq('cg', a.get_cg_location(), [data['plane'][k] for k in ('CGx', 'CGy', 'CGz')])
    env.eq('longitudinal length', a.get_long_ref(), data['reference']['longitudinal_length'])
    env.eq('lateral length', a.get_lat_ref(), data['reference']['lateral_length'])
    env.eq('units', a.get_units(), units)
    segs = a.get_wingsegments()
    n1 = 2 if s1 == 'both' else 1
    n2 = 2 if s2 == 'both' else 1
    env.eq('segments', len(segs), n1 + n2)
    env.eq('sections in all', a.get_num_sections(), n1 * d1['grid'] + n2 * d2['grid'])
    c = d1['connect']
    dims = {'position': [c['dx'], c['dy'], c['dz']], 'yoffset': c['yoffset'], 'semispan': d1['span'], 'sweep': d1['sweep'], 'dihedral': d1['dihedral']}
    check_file_wing(env, segs[:n1], d1, lambda sd: [0, 0, 0])
    check_file_wing(env, segs[n1:], d2, lambda sd: outboard(env, dims, sd, [0, 0, 0]))


@contract('M06', ['geometry.Airplane._add_prop_from_inputfile', 'geometry.Airplane.get_props', 'geometry.Prop'], variants=[1, 2])
def file_props(env, nf):
    """A propeller read from a file reports the numbers in the file."""
    geom = env.mod('geometry')
    d = {'position': {'dx': env.real('dx'), 'dy': env.real('dy'), 'dz': env.real('dz')},
         'orientation': {'elevation_angle': env.real('el'), 'heading_angle': env.real('he')},
         'radial_nodes': env.size('nodes'), 'diameter': env.real('dia', pos=True), 'hub_diameter': env.real('hub', pos=True),
         'num_of_blades': env.size('blades'), 'rotation_direction': env.choice('rot', ['CCW', 'CW']),
         'pitch': {'type': 'ratio', 'value': env.real('pv')}, 'chord': {'type': 'linear', 'root': env.real('cr'), 'tip': env.real('ct')},
         'airfoils': {'foil%d' % i: {'properties': foil(env, 'f%d_' % i)} for i in range(nf)}}
    motor = env.boolean('motor')
    if motor:
        d['electric_motor'] = {'kv': env.real('kv')}
    data = {'plane': {'name': 'p', 'CGx': 0, 'CGy': 0, 'CGz': 0}, 'reference': {'longitudinal_length': 1, 'lateral_length': 1},
            'condition': {}, 'propellers': {'pp': d}}
    a = geom.Airplane(inputfile=env.json_file(data))
    env.eq('number of props', len(a.get_props()), 1)
    p = a.get_props()[0]
    env.eq('name', p.name, 'pp')
    env.eq('position', p.get_position(), [d['position'][k] for k in ('dx', 'dy', 'dz')])
    env.eq('orientation', p.get_orientation(), [d['orientation']['elevation_angle'], d['orientation']['heading_angle']])
    env.eq('nodes', p.get_number_of_nodes(), d['radial_nodes'])
    env.eq('diameter', p.get_diameter(), d['diameter'])
    env.eq('hub diameter', p.get_hub_diameter(), d['hub_diameter'])
    env.eq('blades', p.get_num_of_blades(), d['num_of_blades'])
    env.eq('rotation', p.get_rot_dir(), 1 if d['rotation_direction'] == 'CCW' else -1)
    env.eq('pitch', p.get_pitch_info(), d['pitch'])
    env.eq('chord', p.get_chord_info(), d['chord'])
    env.eq('motor', p.get_motor_info(), d['electric_motor'] if motor else {})
    fs = p.get_airfoils()
    env.eq('airfoils', sorted(fs), sorted(d['airfoils']))
    for n in fs:
        check_foil(env, 'airfoil', fs[n], d['airfoils'][n]['properties'])
        env.eq('span position', fs[n].get_span_position(), None if nf == 1 else ('root' if n == 'foil0' else 'tip'))


@contract('M06', ['geometry.Airplane.cg_location', 'geometry.Airplane.set_reference_lengths'])
def set_cg(env):
    """cg_location sets exactly the coordinates it is given, whatever their values and history."""
    a = env.mod('geometry').Airplane()
    x, y, z = env.real('x0'), env.real('y0'), env.real('z0')
    a.cg_location(x, y, z)
    env.eq('first', a.get_cg_location(), [x, y, z])
    u, w = env.real('x1'), env.real('z1')
    if env.boolean('some'):
        a.cg_location(x_coord=u)
        env.eq('x only', a.get_cg_location(), [u, y, z])
        a.cg_location(z_coord=w)
        env.eq('z only', a.get_cg_location(), [u, y, w])
    else:
        a.cg_location(u, w, x)
        env.eq('all', a.get_cg_location(), [u, w, x])
    a.set_reference_lengths(lateral=u, longitudinal=w)
    env.eq('reference lengths', [a.get_lat_ref(), a.get_long_ref()], [u, w])

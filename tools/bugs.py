"""Planted bugs: see plant.py.  edits = [(file, old, new)]; every `old` occurs exactly once in the file."""

PREAMBLE = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import machup.geometry as geom
from machup import LLModel, LLGrid

AF = dict(alpha_L0=-0.03, CL_alpha=6.2, Cm_L0=-0.05, Cm_alpha=-0.08, CD0=0.0055, CD0_L=-0.0045, CD0_L2=0.01, CL_max=1.4)


def plane(**k):
    p = geom.Airplane()
    p.cg_location(-0.3, 0.1, 0.2)
    d = dict(position=[0., 0., 0.], semispan=4., root_chord=1., tip_chord=0.6, dihedral=4., sweep=10., mount_angle=2.,
             washout=1., grid=6)
    d.update(k)
    w = p.add_wing("main", **d)
    w.airfoil("root", "root", **AF)
    w.airfoil("tip", "tip", **dict(AF, alpha_L0=-0.01, CL_alpha=5.7, CL_max=1.2, Cm_L0=-0.02))
    w.control_surface(percent_span=(0.4, 0.9), percent_chord=(0.2, 0.3), mix={"aileron": 1., "elevator": 0.5})
    return p


def same(a, b, what):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-11):
        print("WRONG", what, a, b)
        sys.exit(1)

'''

BUGS = [
 dict(id='g05-left-drag-swap', property='G05',
      needs='a wing whose root and tip airfoils differ in the linear drag coefficient; only the right-end value of right halves is off',
      breaks='the end values of the drag polar reported for a section are not those of the segment end',
      edits=[('llgrid.py', "        self._data[\"CD1_right\"][seg_slice] = cd1_right\n", "        self._data[\"CD1_right\"][seg_slice] = self._data[\"CD1\"][seg_slice]\n")],
      demo='''
p = geom.Airplane()
w = p.add_wing("main", semispan=4., root_chord=1., grid=5)
w.airfoil("a", "root", **AF)
w.airfoil("b", "tip", **dict(AF, CD0_L=0.02))
g = LLGrid(p)
r = g.get_right_drag_coeff()[1]
same(r, [AF["CD0_L"]] * 5 + [0.02] * 5, "CD1 at the right end")
'''),
 dict(id='g06-flap-at-tip', property='G06',
      needs='control chord tapered along the span and a left half: the chord fraction is taken from the wrong end',
      breaks='flap effectiveness of left halves with a tapered flap',
      edits=[('geometry.py', '''        if self._side == "left":
            right_chord, left_chord = self._control_surface.get_control_chord()
''', '''        if self._side == "left" and self._is_main:
            right_chord, left_chord = self._control_surface.get_control_chord()
        elif self._side == "left":
            left_chord, right_chord = self._control_surface.get_control_chord()
''')],
      demo='''
p = plane(is_main=0)
g = LLGrid(p)
e = g.get_flap_effectiveness()
same(e[:6], e[:5:-1], "mirrored flap effectiveness")
'''),
 dict(id='l01-rate-local', property='L01',
      needs='a local velocity field given together with a yaw rate only',
      breaks='the velocity due to rotation is not superimposed on a given local velocity field when only yawing',
      edits=[('llmodel.py', """                    'pitch_rate' in state or
                    'yaw_rate' in state):""", """                    'pitch_rate' in state or
                    ('yaw_rate' in state and 'local_state' not in state)):""")],
      demo="""
p = plane()
m = LLModel(p)
n = p.get_num_sections()
ls = np.tile([0.002, -10., 0., -0.5], (n, 1))
a = m.solve("linear", {"local_state": ls, "V_mag": 10., "alpha": 3., "yaw_rate": 0.5})["total"]["MZ"]
b = LLModel(p).solve("linear", {"local_state": ls, "V_mag": 10., "alpha": 3., "yaw_rate": 0.5, "roll_rate": 0.0})["total"]["MZ"]
same(a, b, "yawing moment")
"""),
 dict(id='l04-up-deflection', property='L04',
      needs='a section that deflects more than eleven degrees trailing edge up',
      breaks='the efficiency of large negative deflections does not fall off',
      edits=[('llmodel.py', "        df_abs = np.absolute(delta_f)*180/np.pi", "        df_abs = np.maximum(delta_f, 0.)*180/np.pi")],
      demo="""
def flapped(d):
    p = plane(mount_angle=0., washout=0.)
    w = p.add_wing("flat", semispan=3., grid=5, is_main=0, position=[-30., 0., -30.])
    w.airfoil("sym", "both", **dict(AF, alpha_L0=0.))
    w.control_surface(percent_span=(0., 1.), percent_chord=(0.2, 0.2), mix={"flap": 1.})
    m = LLModel(p)
    m.solve("linear", {"V_mag": 10., "rho": 1.}, {"flap": d})
    return m._effective_flap_deflection()[12:]

same(flapped(18.), -flapped(-18.), "effective deflection up and down")
"""),
 dict(id='l02-right-leg', property='L02',
      needs='three or more sections and an asymmetric distance from the two corners (every off-diagonal section); hidden at zero sweep and symmetric sections',
      breaks='induced velocity of the right trailing leg uses the left corner distance in its denominator',
      edits=[('llmodel.py', "term_1 /= (rj2i_mag*(rj2i_mag - np.inner(u_inf, rj2i)))[:, :, None]",
              "term_1 /= (rj1i_mag*(rj2i_mag - np.inner(u_inf, rj2i)))[:, :, None]")],
      demo="""
p = plane()
m = LLModel(p)
m.solve("linear", {"V_mag": 10., "rho": 1., "alpha": 4., "beta": 5.})
g = m._grid
r1, r2 = g.get_corner_point_pos()
c = g.get_control_point_pos()
u = m._aero_data["u_inf"]
i, j = 2, 9
a, b = c[i] - r1[j], c[i] - r2[j]
na, nb = np.linalg.norm(a), np.linalg.norm(b)
v = np.cross(u, b)/(nb*(nb - u @ b)) + (na + nb)*np.cross(a, b)/(na*nb*(na*nb + a @ b)) - np.cross(u, a)/(na*(na - u @ a))
same(m._vji[i, j], v/(4*np.pi), "induced velocity")
"""),
 dict(id='l03-side-force-wind', property='L03',
      needs='sideslip: the total side force must include the viscous part',
      breaks='the viscous side force is left out of the total when drag is small',
      edits=[('llmodel.py', 'self._results["total"]["FS"] = side + side_p', 'self._results["total"]["FS"] = side + side_p*(abs(drag_p) > 1e-3*abs(lift))')],
      demo="""
p = plane()
m = LLModel(p)
p2 = plane()
w = p2._wings["main"]
w.airfoil("thin", "both", **dict(AF, CD0=1e-4, CD0_L=0., CD0_L2=0.))
r = LLModel(p2).solve("linear", {"V_mag": 10., "rho": 1., "alpha": 6., "beta": 9.})
same(r["total"]["FS"], r["inviscid"]["FS"] + r["viscous"]["FS"], "side force")
"""),
 dict(id='l05-alias-local', property='L05',
      needs='a local velocity field together with rotation rates, solved twice with the same arrays',
      breaks='the local velocity field passed in is changed by the solve, so a second solve starts from another flow',
      edits=[('llmodel.py', "                v_local[:] = state[\"local_state\"][:, 1:]\n", "                v_local = self._aero_data[\"v_loc\"] = state[\"local_state\"][:, 1:]\n")],
      demo="""
p = plane()
n = p.get_num_sections()
ls = np.tile([0.002, -10., 0., -0.5], (n, 1))
keep = ls.copy()
m = LLModel(p)
st = {"local_state": ls, "V_mag": 10., "alpha": 3., "roll_rate": 0.5}
m.solve("linear", st)
same(ls, keep, "local state passed in")
"""),
 dict(id='g01-left-yoffset', property='G01',
      needs='a left-side wing with a y offset and dihedral of ninety degrees or a child on its tip',
      breaks='the y offset is dropped at the tip of left halves with no horizontal extent',
      edits=[('geometry.py', "                left_pos[1] -= self._dimensions[\"yoffset\"]", "                left_pos[1] -= self._dimensions[\"yoffset\"] if span*np.cos(dihedral) > 1e-9 else 0.")],
      demo="""
p = geom.Airplane()
w = p.add_wing("fin", semispan=1., dihedral=90., yoffset=0.5, side="both", grid=4)
a = w._left_segment.get_position("left_tip")
b = w._right_segment.get_position("right_tip")
same(a*[1, -1, 1], b, "mirrored fin tips")
"""),
 dict(id='g03-area-sweep', property='G03',
      needs='a forward-swept wing with dihedral (negative sweep)',
      breaks='section area of forward-swept halves is taken along the sweep line',
      edits=[('llgrid.py', "        sweep = seg.get_sweep()*np.pi/180.\n", "        sweep = max(seg.get_sweep(), 0.)*np.pi/180.\n")],
      demo="""
a = LLGrid(plane(sweep=-25., dihedral=0.)).get_section_areas()
b = LLGrid(plane(sweep=25., dihedral=0.)).get_section_areas()
same(a, b, "areas of forward and aft sweep")
"""),
 dict(id='m06-unsealed', property='M06',
      needs='an input file whose control surface is unsealed (is_sealed equal to zero)',
      breaks='an unsealed hinge given in the file is taken as sealed',
      edits=[('geometry.py', 'sealed=control_dict["is_sealed"])', 'sealed=control_dict["is_sealed"] or 1)')],
      demo="""
import json, tempfile
d = json.load(open("test/use_cases/u1_from_file/use_case_1.json"))
k = list(d["wings"])[0]
for w in d["wings"].values():
    if w["control"]:
        w["control"]["is_sealed"] = 0
with tempfile.TemporaryDirectory() as t:
    json.dump(d, open(t + "/a.json", "w"))
    p = geom.Airplane(inputfile=t + "/a.json")
s = [x.is_control_surface_sealed() for x in p.get_wingsegments() if any(x.get_control_mix())]
if not s or any(s):
    print("WRONG sealed", s)
    sys.exit(1)
"""),
]

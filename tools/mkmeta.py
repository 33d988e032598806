#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below; a property is
claimed when contracts for it exist under contracts/."""
import json
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, R, L, M, P, PS, S, H = ('machup/' + x for x in ('geometry.py', 'llgrid.py', 'llmodel.py', 'MU.py', 'propmodel.py', 'propssolver.py', 'outputstl.py', 'helpers.py'))

# id: (title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], note)
PROPS = {
'G01': ('Wings sit where they are placed and connected',
 'A wing half starts at its connection point plus its given offset (y offset pushed outboard on each side), and every child wing connects to the root or the computed tip of its parent half on the same side, the end being root plus span laid out along the given sweep and dihedral. Left halves are the mirror images of right halves for the same inputs.',
 ['inputs', 'configurations'], 'all spans, sweeps, dihedrals, offsets, sides, parent chains, and one or two sided wings',
 'Tests place three fixed airplanes; connection chains, offsets and mirroring over all values are unreachable by examples.',
 [G], [('endpoint and connection computation', G + ' WingSegment'), ('tree building', G + ' Wing, Airplane')]),
'G02': ('Sections tile each wing from tip to tip without gaps or overlap',
 'Every wing segment with n sections contributes exactly n consecutive sections whose corner points run along its quarter-chord line from one end to the other: first corner and last corner are the segment ends and neighbouring sections share a corner, and each control point lies strictly inside its section at the stated spacing fraction. This holds for linear and cosine spacing, for any number of sections and segments.',
 ['inputs', 'configurations'], 'all section counts, segment counts, spans, sweeps, dihedrals and both spacing kinds',
 'Tests compare a handful of grids with stored numbers; the tiling must hold for every count and geometry.',
 [R, G], [('corner and control point layout', R + ' LLGrid._calc_grid_positions')]),
'G03': ('Section chords, areas and chord integrals add up to the true planform',
 'Chord varies linearly from root to tip along each wing half; each section area is the integral of the chord over the width of the section normal to the sweep line, and each squared-chord integral is the integral of the squared chord over the section\'s width along the span, for any number of sections. The reference area is the total area of the sections of main wings.',
 ['inputs', 'configurations'], 'all root and tip chords, spans, sweeps, dihedrals, section counts and spacings',
 'Stored-number tests cannot show an identity for every taper and section count.',
 [R, G, M], [('section areas and integrals', R + ' LLGrid'), ('reference area', G + ' Airplane')]),
'G04': ('Section axes are orthonormal, right-handed and mirrored left to right',
 'The axial, normal and spanwise directions of every section are mutually perpendicular unit vectors forming a right-handed frame for all dihedral, sweep, twist and mounting angles. The frames of the two halves of a symmetric wing are mirror images of each other.',
 ['inputs', 'configurations'], 'all dihedral, mounting angle and washout values and section positions',
 'Tests check the frames of a few airplanes numerically; orthonormality is a universally quantified identity.',
 [R, G], [('unit vectors', R + ' LLGrid._calc_unit_vectors')]),
'G05': ('Airfoil properties vary linearly from root airfoil to tip airfoil',
 'Every airfoil property of a section is the linear blend of the root and tip airfoil values at the section\'s position along the segment, and the left and right end values reported for a section are the blend of the segment ends in left-to-right order. An airfoil set on one end or on both ends of a wing is the one every half of that wing reports there.',
 ['inputs', 'configurations'], 'all airfoil values, positions along the span, sides, and one or two airfoils per segment',
 'Tests sample one blended airplane; a swapped end or skipped blend on another property goes unnoticed.',
 [R, G], [('airfoil getters', R + ' LLGrid.get_*'), ('airfoil data', G + ' Airfoil, WingSegment')]),
'G06': ('Control surfaces cover the stated span and mix as stated',
 'A section carries a flap exactly when its control point lies between the root and tip positions given for the control surface, and it then has the thin-airfoil effectiveness and moment slope of the local flap chord fraction, corrected for the hinge and lowered to four fifths for unsealed hinges; other sections have none. The mixing gains given for each control reach each covered section unchanged, except that aileron and rudder change sign on the left half, where spans and chords are mirrored.',
 ['inputs', 'configurations'], 'all flap spans, chord fractions, seal options, mixing gains, sides and section positions',
 'Tests use a couple of flaps; edges, tapering flap chords and mixing combinations are not reachable by samples.',
 [R, G], [('flap effectiveness and mixing', R + ' LLGrid._calc_control_surfaces')]),
'L01': ('Every section sees the stated freestream, rates and local flow',
 'For every way of giving the flow (nothing, speed with optional angles, rotation rates, or a local velocity and density per section), each section\'s velocity is the stated one minus the velocity of the section due to roll, pitch and yaw rates about the centre of gravity. Lift, drag and side force are the components of the body-axis force in the wind axes of that freestream, and a state that lacks the needed speed or density is refused.',
 ['inputs', 'configurations'], 'all speeds, angles, rates, local states and lattices of any size',
 'Tests use a few angles with tolerances; they cannot show the transformation for every combination of optional inputs.',
 [L], [('aerodynamic state processing', L + ' LLModel._process_aero_state, _superimpose_rotation'), ('wind axes', L + ' LLModel._rotate_aero_forces')]),
'L02': ('Circulations satisfy the lifting-line equations of the lattice',
 'The circulation returned for every section satisfies the linear lifting-line system built from Biot-Savart velocities of horseshoe vortices trailing along the freestream, where a bound vortex induces nothing on its own section. The reported local angle of attack and force of each section follow from the freestream plus the velocity all vortices induce.',
 ['inputs', 'configurations'], 'lattices of any size and shape, all freestreams and deflections',
 'Tests compare totals of three airplanes with stored values; the equations must hold for every lattice.',
 [L], [('influence coefficients', L + ' LLModel._calc_induced_velocities'), ('linear system', L + ' LLModel._setup_linear_matrices, _solve_linear_system')]),
'L03': ('Reported forces and moments are the sums over all sections',
 'Inviscid force and moment totals are the sums over sections of the vortex force, its moment about the centre of gravity and the section pitching moment; viscous totals are the sums of the section drag along the local velocity and its moment. Totals are inviscid plus viscous, and the lift-to-drag ratio is formed from the total lift and total drag.',
 ['inputs', 'configurations'], 'lattices of any size, all flows and deflections',
 'Only a few total values are compared in tests; most components and cross terms are never sampled.',
 [L], [('forces', L + ' LLModel._compute_forces'), ('moments', L + ' LLModel._compute_moments')]),
'L04': ('Control inputs deflect each section by its mixing',
 'Aileron, elevator, rudder and flap inputs in degrees add up on each section in proportion to its mixing gains, the efficiency of a deflection falls off linearly past eleven degrees whatever its sign, and lift, drag and moment of a section follow the deflection. Inputs that are not given count as zero.',
 ['inputs', 'configurations'], 'all deflections, mixings and subsets of the inputs given',
 'Tests deflect few surfaces by few values, never past the fall-off on both signs.',
 [L], [('control state processing', L + ' LLModel._process_control_state, _compute_deflection_efficiency')]),
'L05': ('A solution depends only on the states given, not on earlier solves',
 'Solving after any earlier solve gives exactly what a freshly built model gives for the same states. Neither the states passed in nor results returned earlier are changed by a later solve.',
 ['histories', 'inputs'], 'all pairs of consecutive solves over all kinds of states',
 'History independence ranges over sequences of calls; tests solve each model once or twice.',
 [L], [('solver state reset', L + ' LLModel.solve')]),
'L06': ('Loads scale with density and the square of airspeed',
 'At given angles and deflections and without rotation, multiplying the airspeed and the density by positive factors multiplies every force and moment by the density factor times the squared speed factor. Section angles of attack and coefficients and the lift-to-drag ratio do not change.',
 ['inputs'], 'all speeds, densities and factors, all angles, deflections and lattices',
 'A relation between two runs for every input; tests compare single runs.',
 [L], [('linear system and forces', L + ' LLModel')]),
'M01': ('Airplane totals combine wings and propellers',
 'The forces and moments reported for an airplane are the sums of what its wings and its propellers produce, in the same axes; an airplane with only wings or only propellers reports that part alone. Results written to file are the results returned.',
 ['inputs', 'configurations'], 'all wing and propeller results, with and without each part and a file',
 'Tests run few airplane configurations and compare a few numbers.',
 [M, PS], [('aggregation', M + ' MachUp.solve')]),
'M02': ('Derivatives are central differences of the coefficients about the given state',
 'Each stability, damping and control derivative equals the central difference of the corresponding force or moment coefficient of the airplane about the given flight condition, over the stated perturbation and per radian (or per nondimensional rate), with every other input held at its given value. The reported static margin and the combined report agree with those derivatives.',
 ['inputs', 'histories'], 'all flight conditions, all solver responses, any subset of optional inputs given',
 'Tests compare one flight condition with stored values; missing restores between perturbations show only at other conditions.',
 [M], [('derivative routines', M + ' MachUp.stability_derivatives, damping_derivatives, control_derivatives')]),
'M03': ('Analyses leave the caller\'s states as they were',
 'No solve or analysis changes the aerodynamic, control or propulsion states passed to it, whether it succeeds or fails to find an answer.',
 ['inputs', 'histories'], 'all analyses, all states and all solver responses',
 'Tests use literal dictionaries once and do not look at them afterwards.',
 [M], [('analysis routines', M)]),
'M04': ('Trim and target-lift answers meet their targets',
 'When pitch trim returns an angle of attack and elevator deflection, the airplane there meets both the lift and the pitching moment targets within the tolerance. When target lift returns an angle of attack, it is where the straight line through the lifts of the last two angles solved meets the target, within the tolerance of the last of them. When no answer is found this is reported instead of an angle.',
 ['inputs', 'histories'], 'all targets, tolerances, states and solver responses',
 'Tests check one trim point; the certificate must hold for whatever the solver returns.',
 [M], [('target lift', M + ' MachUp.target_lift'), ('trim', M + ' MachUp.pitch_trim')]),
'M05': ('Stall onset is the first step at which a section exceeds its maximum lift',
 'The stall analysis steps the angle of attack up in the stated increments and reports the lift and angle at the first step at which some section exceeds its maximum lift coefficient, no earlier step doing so, and the wing and span position of such a section. The stall airspeed is where the straight line through the stall lifts of the last two airspeeds tried meets the weight, within the tolerance of the last of them.',
 ['inputs', 'histories'], 'all section lift responses and maximum lift coefficients',
 'Tests use one airplane; the first-crossing property ranges over all responses.',
 [M, L], [('stall search', M + ' MachUp.stall_onset')]),
'M06': ('Every quantity given in an input file reaches the model',
 'Building an airplane from an input file gives the same airplane as building it with the same values in code: every wing, airfoil, control surface and propeller quantity in the file reaches the corresponding part, and quantities that are left out take the documented defaults. Values equal to zero count as given.',
 ['inputs', 'configurations'], 'all values and all subsets of optional keys of the input format',
 'Tests load a few files; optional-key combinations and zero values are not enumerated.',
 [G, M], [('input parsing', G + ' Airplane.add_*, load')]),
'M07': ('Spanwise distributions report each section\'s own data',
 'A distributions report has one row per section, in lattice order, holding that section\'s name, position, geometry, local angle, coefficients and forces, in the stated units and column; the returned data and the written file hold the same values.',
 ['inputs', 'configurations'], 'lattices of any size and all results, with and without propellers and a file',
 'Tests do not read the report.',
 [M, L], [('report', M + ' MachUp.distributions'), ('section data', L + ' LLModel._distributions')]),
'P01': ('Propeller blade geometry follows the inputs',
 'Blade stations run from hub to tip, and the chord and pitch at every station follow the given rule (constant, linear, elliptical, ratio or table), a pitch increment being added everywhere. Twist corresponds to the advance per revolution at that radius, and airfoil properties are interpolated between the stations of the airfoils given.',
 ['inputs', 'configurations'], 'all radii, numbers of stations, chords, pitches and rules',
 'Tests use one propeller.', [P], [('blade set-up', P + ' PropModel._calc_pitch, _calc_chord')]),
'P02': ('Propellers run at the stated operating condition',
 'The propeller state given as advance ratio, rotation rate, brake power or throttle sets the rotation rate and advance ratio consistently with airspeed and diameter (V = J n d), and states that are incomplete are refused. Each propeller runs at its own state where one is given under its name, in the flow stated for the airplane.',
 ['inputs', 'configurations'], 'all airspeeds, diameters and ways of giving the state',
 'Tests use one operating condition.', [P], [('propeller state', P + ' PropModel._set_prop_state')]),
'P03': ('Blade section coefficients are defined for every angle of attack',
 'The lift and drag coefficient of a blade section is the stated function of its angle of attack on every branch (attached, stalled, reversed), for every angle including the branch boundaries.',
 ['inputs'], 'all section angles of attack and airfoil values',
 'Tests hit few branches.', [P], [('section coefficients', P + ' PropModel._get_CL, _get_CD_Viterna')]),
'P04': ('Propeller forces and moments follow from its coefficients',
 'Thrust, normal force, torque and yawing moment are the coefficients scaled by density, rotation rate and diameter; the force and moment on the airplane are their vectors in body axes plus the moment of the force about the centre of gravity, for both rotation directions. Totals are the sums over all propellers, and the coefficients integrate the section coefficients along the blade.',
 ['inputs', 'configurations'], 'all coefficients, positions, orientations and rotation directions',
 'Tests use one propeller on one axis.', [P, PS], [('forces', P + ' PropModel._calc_forces')]),
'P05': ('Propeller wash reaches only points inside the slipstream',
 'The velocity a propeller adds to the flow at a point is zero ahead of the disc and outside the contracted slipstream, and inside it is the axial and swirl velocity of the slipstream at that station, swirl following the rotation direction.',
 ['inputs', 'configurations'], 'all point positions and propeller states', 'Tests use one wing and propeller.',
 [P, PS], [('slipstream', P + ' PropModel')]),
'S01': ('The exported surface mesh is the stated geometry',
 'The exported mesh holds, for every pair of neighbouring sections of a wing segment, two triangles per step along the airfoil outline, joining the outlines of the two sections. Every vertex is the outline of the local airfoil (blended between the segment ends, the default outline where an airfoil has no four-digit name) scaled by the local chord, turned by the local twist and dihedral and placed with its quarter chord at the section\'s control point; propeller blades likewise, every further blade being the first turned about the axis by an equal share of the circle.',
 ['inputs', 'configurations'], 'all lattices, airfoil names and outline points', 'Tests only check that a file is produced.',
 [S], [('mesh', S + ' create_from_grid')]),
'S02': ('Airfoil outlines and rotations keep shape',
 'The generated outline of every four-digit airfoil starts and ends at the trailing edge, and every point of it lies half the stated thickness from the stated camber line, measured at right angles to it, below it in the first half and above it in the second. Turning points by Euler angles or products of such turns keeps distances and is the turn the angles state; outlines between two airfoils are blended in proportion to the place along the span.',
 ['inputs'], 'all camber, thickness, angles and points', 'No test looks at the outline.',
 [S], [('outline', S + ' plotNACA'), ('rotations', S + ' Euler2Quat, Body2Fixed, QuatMult')]),
}

NOTE = {}
UNCLAIMED = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())


def claimed():
    have = set()
    for f in os.listdir(os.path.join(HERE, 'contracts')):
        if f.startswith('c_') and f.endswith('.py'):
            have |= set(re.findall(r"@contract\('([A-Z]\d\d)'", open(os.path.join(HERE, 'contracts', f)).read()))
    return have


def main():
    have = claimed() - set(UNCLAIMED)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for i, (title, st, over, text, why, files, mech) in sorted(PROPS.items()):
            assert len(title) <= 80, title
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}) + '\n')
    checks = []
    for i in sorted(PROPS):
        if i in have:
            checks.append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'contract-based deductive verification of the real Python source (own verification-condition generator; term rewriting, polynomial arithmetic and z3 discharge)',
                           'level': 'proof', 'level_note': NOTE.get(i, DEFAULT_NOTE)})
    na = [{'property': i, 'reason': UNCLAIMED.get(i, 'no contract built for it yet')} for i in sorted(PROPS) if i not in have]
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: contracts live in /verif/contracts and the checked text is loaded from /repo on every run. See DESIGN.md.'},
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed;', [x['property'] for x in na])


main()

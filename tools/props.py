"""the properties: source of properties.jsonl and MANIFEST.json (python3 tools/mk.py)"""
G, L, M, PM, PS, MU, ST = ('machup/%s.py' % x for x in ('geometry', 'llgrid', 'llmodel', 'propmodel', 'propssolver', 'MU', 'outputstl'))
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   observe_at=list(observe), hook_needed=None)))


P('C01', 'Wing segments sit where the dimensions put them',
  'The root and tip ends of every wing lie at the position given by its connection point, offsets, span, sweep and dihedral, mirrored for the left side, and a wing connected to the tip of another starts at that tip on the same side. Moving the airplane origin moves every unattached wing with it.',
  ['inputs', 'configurations'], 'all span, sweep, dihedral, offset and position values; sides left/right/both; chains of up to three wings',
  'tests read the end points of one fixed wing file; they never vary dihedral, sweep, chain depth and side together',
  [G], [('placement of segment ends', G + ' WingSegment.get_position'), ('parent connection', G + ' Wing.connect_to, WingSegment._get_parent_position'), ('origin', G + ' Airplane.get_position')],
  ['WingSegment.get_position', 'Wing.get_position', 'LLGrid control and corner points'])
P('C02', 'The lifting-line grid tiles every wing exactly',
  'Sections of a wing meet end to end from one tip to the other, each control point lies inside its section at the cosine or linear station, and chord, area and chord-squared integral of each section are those of the linearly tapered planform. The reference area is the sum of section areas of the main wings.',
  ['inputs', 'configurations'], 'all dimensions; 1-6 (cosine), 2 and 20 (linear) sections per side; left/right/both; main and non-main wings',
  'grid tests compare stored arrays for single airplanes (and are stale); tiling and area identities hold for every dimension and count',
  [L, G], [('section spacing and corner points', L + ' LLGrid._calc_control_points, _cosine_spacing, _linear_spacing, _calc_segment_points'), ('chord, area, integral', L + ' LLGrid._calc_chord, _calc_area, _calc_integral_chord2'), ('reference area', L + ' LLGrid.get_reference_area')],
  ['LLGrid getters', 'distributions control_points, chord, area', 'MachUp.Sw'])
P('C03', 'Section axes are orthonormal and set by mount, washout, dihedral',
  'At every section the axial, normal and spanwise directions are unit vectors at right angles; the section is rotated by mounting angle minus the linear share of washout about the spanwise direction tilted by dihedral. The two halves of a two-sided wing are mirror images.',
  ['inputs', 'configurations'], 'all mounting angles, washouts, dihedrals, sweeps; 1-8 sections per side',
  'tests use a handful of angles; sign or unit errors in the combination of washout and dihedral only show when several angles are non-zero',
  [L], [('unit vectors', L + ' LLGrid._calc_unit_vectors'), ('twist', L + ' LLGrid._calc_washout, _calc_mount_angle')], ['distributions twist', 'forces of a solve'])
P('C04', 'Section airfoil properties blend linearly from root to tip',
  'Lift slope, zero-lift angle, moment and drag coefficients and maximum lift of each section are the linear blend, by spanwise position from root to tip, of the airfoils given for the wing ends; an airfoil given once applies to both ends and an end without one uses the defaults.',
  ['inputs', 'configurations'], 'all airfoil coefficients, both ends independent; left/right/both; 1-11 sections per side, two wings',
  'the shipped cases use the same airfoil at root and tip, for which any blend is right',
  [L, G], [('blending', L + ' LLGrid._calc_coefficients, _interp_accross_segment'), ('end airfoils', G + ' Wing.airfoil, WingSegment.get_airfoils, Airfoil')], ['section coefficients in distributions', 'results of solve'])
P('C05', 'Control surfaces act on exactly the sections they span',
  'A control surface affects the sections whose control point lies within its span limits, on both sides, with the flap effectiveness of thin-airfoil theory for the chord fraction at that section and the sealing correction; aileron and rudder mixing act antisymmetrically, elevator and flap mixing symmetrically.',
  ['inputs', 'configurations'], 'all span limits, root and tip chord fractions, mixing ratios, sealed or not; left/right/both; 2-5 sections',
  'tests check two fixed flaps; coverage by span and antisymmetry must hold for all limits and sides',
  [L, G], [('flap effectiveness', L + ' LLGrid._calc_control_surfaces'), ('mixing', G + ' ControlSurface.get_control_mix, WingSegment.get_control_surface_span')], ['results of solve with deflections'])
P('C06', 'An input file and the equivalent API calls describe the same airplane',
  'An airplane read from an input file equals the one built by the corresponding add_wing, airfoil, control_surface, add_prop, cg and reference-length calls: same geometry, section data, propellers, units and results. Optional entries left out take the same defaults in both ways.',
  ['inputs', 'configurations'], 'all numeric values of the file; one and two airfoils, with and without control surface, connections, propellers with constant or ratio pitch and chord types',
  'tests load a few fixed files; a field read from the wrong key or swapped between ends agrees with them when values coincide',
  [G], [('file reader', G + ' Airplane._buildfrominputfile, _add_wing_from_inputfile, _add_prop_from_inputfile, _map_wing_connections'), ('API', G + ' Airplane.add_wing, add_prop, Wing.airfoil, Wing.control_surface')], ['Airplane, Wing and Prop getters', 'grid of the airplane'])
P('C07', 'Every form of state means the same onset flow',
  'For any combination of speed, angle of attack, sideslip, local velocities and rotation rates, each section is worked with onset velocity of the given magnitude and direction (or the given local one) minus omega x (r - r_cg), and with the given density. Angles left out are zero; with no state at all the documented default state is used.',
  ['inputs', 'configurations'], 'all speeds, densities, angles, rates, local velocities, control point and cg positions; 1-3 sections',
  'tests use one or two states, mostly with zero sideslip and no rates; sign errors of rate terms and mixed forms go unseen',
  [M], [('onset velocity', M + ' LLModel._process_aero_state, _superimpose_rotation')], ['results of solve', 'distributions'])
P('C08', 'The vortex strengths solve the numerical lifting-line equations',
  'The vortex strengths satisfy, at every section, the linearised equation equating the vortex lift with the section lift from airfoil data, with velocities induced by horseshoe vortices whose legs trail along the freestream.',
  ['inputs'], 'all section positions, directions, areas, airfoil data, deflections, onset velocities and freestream directions; 2-4 sections',
  'regression numbers for one wing cannot tell a wrong coefficient that is small there, e.g. a term that vanishes without sweep or sideslip',
  [M], [('induced velocities', M + ' LLModel._calc_induced_velocities'), ('linear system', M + ' LLModel._setup_linear_matrices, _solve_linear_system')], ['results of solve'])
P('C09', 'Section forces obey Kutta-Joukowski and add up to the totals',
  'Each section force is density times vortex strength times total velocity crossed with the bound vortex, parasitic drag acts along the total velocity, and the reported inviscid, viscous and total forces are their sums. Lift, drag and side force are the components of the total force along and normal to the freestream.',
  ['inputs'], 'all vortex strengths, velocities, geometry, densities; 1-3 sections',
  'tests compare totals of symmetric wings where lateral components vanish',
  [M], [('forces', M + ' LLModel._compute_velocities, _compute_forces'), ('wind axes', M + ' LLModel._rotate_aero_forces')], ['results of solve: inviscid, viscous, total', 'distributions forces_xyz'])
P('C10', 'Section coefficients and moments follow the airfoil data',
  'Section lift, moment and drag coefficients come from the airfoil data at the local angle of attack, deflection and drag polar, and moments about the centre of gravity are the section moments plus arm times force.',
  ['inputs'], 'all airfoil data, deflections, onset flows, vortex strengths, cg positions; 1-4 sections',
  'tests never compare section values with independently computed ones; moments are only compared in total for one airplane',
  [M], [('moments', M + ' LLModel._compute_moments, _local_moment_coefficient'), ('drag polar', M + ' LLModel._local_parasitic_drag_coefficient')], ['results of solve', 'distributions section_CL, section_Cm, section_CD_parasitic'])
P('C11', 'Mirror-image airplanes in mirror-image flight give mirror-image loads',
  'Reflecting an airplane and its flight state in the plane of symmetry leaves lift, drag, axial and normal force and pitching moment unchanged and reverses side force, rolling and yawing moment, section by section. In particular a symmetric airplane in symmetric flight has no lateral loads.',
  ['inputs', 'configurations'], 'all grids, states with sideslip and rates, deflections, local velocities; one- and two-sided wings; 1-4 sections',
  'a relation between two runs, over all states; tests run single states',
  [M, L], [('side handling', M + ' LLModel.solve'), ('left/right sections', L + ' LLGrid._update_data')], ['results of solve', 'distributions'])
P('C12', 'Results scale with speed, density and size as similarity demands',
  'Multiplying speed, density or all lengths by a factor multiplies forces by density x speed^2 x length^2 and moments by one more length, with rotation rates scaled by speed over length; section coefficients and angles stay the same.',
  ['inputs'], 'all scale factors, grids, states and deflections; 1-3 sections',
  'a relation between two runs for all factors; a hidden dimensional constant is invisible at one scale',
  [M], [('whole solve', M + ' LLModel.solve')], ['results of solve', 'distributions'])
P('C13', 'Moving the cg only moves the moment reference',
  'Moving the whole airplane, cg included, changes no result. Moving only the cg leaves forces and coefficients unchanged without rotation and changes moments by the arm crossed with the total force.',
  ['inputs'], 'all displacements, grids, states; 1-3 sections',
  'relation between runs; tests keep the cg of the file',
  [M, L], [('moment arms', M + ' LLModel._compute_moments'), ('rotation arms', M + ' LLModel._superimpose_rotation')], ['results of solve'])
P('C14', 'Results do not depend on the order wings are added in',
  'Adding the same wings in another order gives the same totals, reference area and lengths, and the same sections in another order.',
  ['inputs', 'configurations'], 'all dimensions, states and deflections; every order of two and three wings',
  'tests fix the order of the file',
  [L, M, G], [('segment slices', L + ' LLGrid._update_data'), ('wing list', G + ' Airplane.add_wing, get_wingsegments')], ['results of solve', 'distributions'])
P('C15', 'A solve depends only on its arguments, not on earlier solves',
  'After any earlier solves with other aero, control and propeller states, a solve returns the result a fresh model returns; results handed out earlier are not changed by later solves.',
  ['histories', 'inputs'], 'all states of up to two earlier solves of any form followed by a solve with any subset of state entries',
  'leaks show only for particular sequences (e.g. rates or deflections given once and then left out)',
  [M, MU, PS, PM], [('state reset', M + ' LLModel._process_aero_state, _process_control_state'), ('result copies', M + ' LLModel.solve')], ['results of solve and distributions'],
  [('aero/control state', 'kept only for the current solve', M + ' LLModel.solve')])
P('C16', "Analyses leave the caller's states and the model as they found them",
  "solve, distributions, derivatives, target_lift, pitch_trim, stall_onset, stall_airspeed and find_aero_center do not change the state dictionaries passed to them, whether they succeed or raise.",
  ['inputs', 'configurations', 'histories'], 'all state values, with and without each optional key; every analysis',
  'tests never look at their arguments after a call, and never at the failing paths',
  [MU, M], [('copies of the states', MU + ' MachUp.* analyses')], ['the dictionaries passed in'])
P('C17', 'Airplane totals are wings plus propellers, coupled by the slipstream',
  'The totals of a combined solve are the sums of the wing and propeller results component by component, the wings see the propeller slipstream velocities, and models with only wings or only propellers give those alone.',
  ['inputs', 'configurations'], 'all wing and propeller results (arbitrary values), all states; wings only, propellers only, both',
  'tests have no case with independent propeller and wing values for all nine components',
  [MU], [('sum and coupling', MU + ' MachUp.solve')], ['MachUp.solve result and file'])
P('C18', 'Derivatives are nondimensional central differences',
  'Each stability, damping and control derivative is the central difference of the matching force or moment over the perturbed angle (radians) or nondimensional rate about the given state, divided by dynamic pressure times reference area (and the matching reference length for moments); static margin is minus Cm_a over CL_a.',
  ['inputs'], 'arbitrary force and moment functions of the nine state variables, all states, areas and reference lengths',
  'tests cover one airplane; wrong reference length, missing restore of a perturbed state or swapped component need independent values in every slot',
  [MU], [('derivatives', MU + ' MachUp.stability_derivatives, damping_derivatives, control_derivatives, derivatives')], ['returned dictionaries'])
P('C19', 'target_lift returns an angle that gives the lift, or reports failure',
  'When it returns an angle of attack, that is the secant step from the last two angles solved at and lies within the error of the last one, so that for a lift linear in angle the lift is exact; otherwise it stops after a bounded number of solves and reports that the lift cannot be reached (in the file if one was named, else by an exception). Other state entries are used unchanged.',
  ['inputs', 'histories'], 'all linear lift functions and all sequences of lift values the solver may return (fresh unknown per call), targets, errors',
  'tests cover one smooth case; behaviour under non-converging lift needs every sequence of values',
  [MU], [('secant iteration', MU + ' MachUp.target_lift')], ['returned state, file, exception, states solved'])
P('C20', 'pitch_trim returns a trimmed state, or reports failure',
  'A returned angle of attack and elevator deflection give the target lift and pitching moment within the error; with no elevator authority, or when not converged in a bounded number of steps, failure is reported in the file or by an exception, never a wrong state.',
  ['inputs', 'histories'], 'all affine lift/moment functions; arbitrary values per call for the acceptance test; with and without file',
  'tests cover one trimmable airplane',
  [MU], [('Newton iteration', MU + ' MachUp.pitch_trim, _lift_slope, _moment_slope')], ['returned state, file, exception'])
P('C21', 'Stall onset is the first angle at which a section reaches its maximum lift',
  'stall_onset steps the angle of attack upward from zero and returns the first at which some section lift coefficient exceeds its maximum, with that section\'s wing and span location and the lift there; stall_airspeed returns the speed at which that lift equals the weight.',
  ['inputs', 'histories'], 'all section lift values and maxima in up to a few steps; all weights and quadratic lift functions',
  'tests do not check which section stalls nor the airspeed relation',
  [MU, M], [('stall search', MU + ' MachUp.stall_onset, stall_airspeed'), ('stall location', M + ' LLModel._find_stall_location')], ['returned dictionaries and files'])
P('C22', 'The aerodynamic centre found is that of the loads',
  'When the loads act at a fixed point (no moment about it) over the angle range, find_aero_center returns that point, wherever the cg is and whatever the scale; when a moment varying as sin(2 alpha) is added to sinusoidal lift and parabolic drag, it returns the point displaced by the expressions of Phillips in the coefficients of lift, drag and moment. The y coordinate is zero.',
  ['inputs'], 'all positions of the point and cg, dynamic pressures, areas, lengths and force curves; 5 angles of the range',
  'tests check one stored value',
  [MU], [('least squares fit', MU + ' MachUp.find_aero_center')], ['returned array and file'])
P('C23', 'Reference lengths default to span and mean chord of the planform',
  'Given reference lengths are used as they are; missing ones are derived so that lateral times longitudinal length equals the reference area, with the lateral length twice the largest semispan when neither is given.',
  ['inputs', 'configurations'], 'all spans, chords, given lengths; none, one or both given; one and two wings',
  'tests always give both', [MU], [('reference lengths', MU + ' MachUp.__init__')], ['derivatives', 'printed reference lengths'])
P('C24', 'Analyses called without states use the documented defaults',
  'Every analysis called without an aero state behaves as if given speed 10, density 0.0023769 and zero angles, without a control state as if all deflections were zero, and without a propeller state as if J = 0.5 were given; other arguments still count.',
  ['inputs', 'configurations'], 'all other arguments; every analysis; each combination of omitted states',
  'tests always pass states', [MU, M, PS], [('default branches', MU + ' MachUp.*')], ['results', 'files'])
P('C25', 'Saved files hold exactly what the call returned',
  'A file written by solve, distributions or any analysis holds the complete returned results (angles in degrees where the column says so), one document, nothing else, whatever was in the file before.',
  ['inputs', 'configurations'], 'all result values; every analysis with a file name; wings, propellers or both',
  'tests do not read the files back', [MU], [('json and table output', MU + ' MachUp.solve, distributions, ...')], ['the files'])
P('C26', 'The propeller operating point is the one asked for',
  'Given an advance ratio or a rotation rate the other follows from J = V/(n d), also at zero and negative advance, and a ratio gives the same results as the equivalent rate. Given a brake power or an electric throttle setting, the rotation rate used is one at which the propeller takes that power, or the torque of its motor. States given per propeller by name act as the same state applied to that propeller alone. Incomplete states are rejected.',
  ['inputs', 'configurations'], 'all speeds, diameters, advance ratios, rates, inflow directions; one and two propellers',
  'tests use a single J', [PM, PS], [('operating point', PM + ' PropModel._set_prop_state, _set_aero_state'), ('distribution to propellers', PS + ' PropsSolver._calc_forces')], ['results of solve'])
P('C27', 'Blade stations, pitch and chord follow the propeller description',
  'Blade stations are spread evenly from the hub to 0.999 of the tip radius. The chord at each station follows the given type (default, linear with or without tip, elliptical, table of c/R over r/R) and the chord line pitch the given type (default ratio 0.5, ratio of pitch to diameter, pitch length, table of degrees over r/R); the aerodynamic pitch angle is the chord line angle less the zero-lift angle, plus the pitch increment if any. Zero-lift angles are interpolated linearly between the airfoils given along the blade and constant beyond them. The distributions report these; unknown types are rejected.',
  ['inputs', 'configurations'], 'all diameters, hubs, pitch and chord values; every type; 2-4 stations',
  'tests use one propeller', [PM], [('blade geometry', PM + ' PropModel._calc_spacing, _calc_pitch, _calc_chord')], ['PropModel getters'])
P('C28', 'Blade section lift and drag follow the airfoil data to stall and beyond',
  'Section lift is proportional to the angle of attack with the slope of the airfoil up to stall, at positive and negative angles, and drag is the parabolic polar in lift up to the delayed stall angle; stall is delayed by the documented chord-to-radius correction. Beyond, lift blends over 2 degrees into, and drag is, the post-stall curve of Viterna through the stall point, at positive and negative angles. The lift slope reported is the central difference of the lift.',
  ['inputs'], 'all angles and airfoil data', 'tests never evaluate post-stall sections',
  [PM], [('coefficients', PM + ' PropModel._get_CL, _get_CD, _CD_Viterna, _calc_coefficients')], ['get_coefficients_alpha', 'distributions'])
P('C29', 'Propeller forces and moments are assembled about the cg',
  'The force of a propeller is its thrust along its axis plus a force along the transverse inflow; its moment about the cg is the moment of that force about the cg, plus a torque along the axis against its rotation, plus a moment along the transverse inflow. Transverse loads are proportional to the angle between axis and inflow and vanish without it; reversing the rotation reverses torque and transverse moment only. Loads scale with density and, at the same advance ratio, with speed squared; totals of several propellers are the sums, in body and in wind axes. Both senses of rotation can be given by name (CCW, CW) or number (1, -1 or 0).',
  ['inputs', 'configurations'], 'all thrust, torque, normal-force coefficients, orientations, inflow directions, positions; both rotation directions',
  'tests use propellers aligned with the x axis', [PM, PS], [('forces', PM + ' PropModel._calc_forces'), ('sum and wind axes', PS + ' PropsSolver._calc_forces, _rotate_aero_forces')], ['results of solve'])
P('C30', 'Blade loads satisfy blade-element momentum balance and integrate to totals',
  "The induced angle at each station lies between zero and the angle that leaves the section without lift and, to within a millionth of a radian, balances blade-element loading against induced momentum with tip loss. Thrust, torque, power, transverse force and transverse moment are the integrals (Simpson's rule) of the section loads over the blade, scaled with density, rotation rate squared and diameter. The distributions report angle of attack (aerodynamic pitch less advance and induced angle), induced velocities and section coefficients of each station.",
  ['inputs'], 'all section coefficients, blade numbers, sizes, speeds, advance ratios; 2-5 stations', 'tests compare one total',
  [PM], [('induced angle', PM + ' PropModel._find_ei, _ei_function'), ('integration', PM + ' PropModel._find_coefficients')], ['distributions', 'results of solve'])
P('C31', 'The slipstream is confined, axial plus swirl, and superposes',
  'Points ahead of a propeller, beside its disk, within its hub radius or outside its contracted slipstream see the freestream velocity. Points inside see in addition an axial velocity along the propeller axis, away from the propeller, and a swirl about the axis in the sense of rotation, interpolated between the blade stations of the tube contracted so that the flow of each annulus is kept, the axial velocity growing from its value at the disk to twice that far behind. Local density is that of the freestream. The contributions of several propellers add.',
  ['inputs', 'configurations'], 'all points, orientations, induced velocities; one and two propellers', 'tests have one propeller on the symmetry plane',
  [PM, PS], [('Stone slipstream', PM + ' PropModel._stone_slipstream, _find_propwash_velocities'), ('superposition', PS + ' PropsSolver.solve, _initialize_velocity_field')], ['wing local velocities', 'results of a combined solve'])
P('C32', 'The exported surface is the wing surface',
  'MachUp.create_stl writes, for every wing segment in order, one section per control point of the lifting line: the outline has its quarter chord at the control point and is scaled by the local chord, turned nose up by the local twist in the plane tilted by the dihedral of that side, and blended linearly from the root to the tip outline. Neighbouring sections of a segment, left to right, are joined by a strip of triangles without gaps; no triangle is left unused, with any number of wings, one-sided or attached wings, and propellers beside them.',
  ['inputs', 'configurations'], 'all positions, spans, sweeps, dihedrals, mounting angles, washouts and chords; 1-3 sections a side; several wings and propellers', 'no test reads the exported file',
  [ST], [('wing mesh', ST + ' create_from_grid, linear_inter, Euler2Quat, QuatMult, Body2Fixed'), ('entry', MU + ' MachUp.create_stl')], ['the STL file'])
P('C33', 'Exported sections are NACA four-digit sections',
  'The outline of a section named NACAmptt or nacamptt is the four-digit thickness distribution of tt laid off on both sides normal to the camber line of m and p, at cosine-spaced chordwise stations, with the standard open trailing edge; sections without camber or place of camber are symmetric. Sections whose name is not of that form are exported as NACA 2412. Wings and blades use the same outlines.',
  ['inputs', 'configurations'], 'all digits; all 50 outline points; names of other forms', 'no test reads the exported file',
  [ST], [('NACA outline', ST + ' plotNACA'), ('names', ST + ' create_from_grid')], ['the STL file'])
P('C34', 'Exported blades follow the blade geometry',
  'MachUp.create_stl writes, for every propeller after the wings, each blade with one section per blade station at its radius, scaled by the local chord with the quarter chord on the blade axis, its chord line at the geometric pitch (aerodynamic pitch plus zero-lift angle), leading edge in the sense of rotation, outlines interpolated linearly between the airfoils along the blade and constant beyond them. The blades are equally spaced copies turned about the axis, and the whole is turned by elevation and heading and moved to the position of the propeller. Triangles fill the strips between neighbouring stations, mirrored in order for clockwise propellers, and none is left unused.',
  ['inputs', 'configurations'], 'all chords, pitches, radii, positions, orientations; 1-7 blades of 2-3 stations, 1-3 airfoils, both rotation directions; several propellers, beside a wing or not', 'no test reads the exported file',
  [ST, PM], [('blade mesh', ST + ' create_from_grid'), ('entry', MU + ' MachUp.create_stl')], ['the STL file'])

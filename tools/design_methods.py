METHOD = {
'C01': 'symbolic dimensions of chains of up to three wings; ends compared with the closed formulas of the documented dimensions. Polynomial identities over sin/cos atoms. 2 s.',
'C02': 'grid of one and two wings against the tapered planform: corners, control points, chord, area, integral of chord squared; reference area over main wings. 3 s.',
'C03': 'axes of each section: unit length, orthogonality, and the rotation by mounting less washout about the tilted span direction; mirror image of the two halves. 2 s.',
'C04': 'root and tip airfoils with independent unknown coefficients; linear blend at the station of every section. 2 s.',
'C05': 'span limits, chord fractions, mixing and sealing unknown: one path per set of covered sections, thin-airfoil effectiveness at each. 3 s.',
'C06': 'a virtual input file with unknown numbers and the equivalent calls: identity of everything the two airplanes expose. 3 s.',
'C07': 'the right-hand side of the system and the section forces on an arbitrary grid, for each form of state, against onset velocity V u(alpha, beta) - omega x r. 15 s.',
'C08': 'matrix and right-hand side handed to the linear solver on an arbitrary grid against the linearised lifting-line equations of Phillips & Snyder. 5 s.',
'C09': 'vector Kutta-Joukowski law and sums, with the vortex strengths unknown (contract of the linear solve). 3 s.',
'C10': 'section coefficients from airfoil data and moments about the cg, same setting. 3 s.',
'C11': 'two symbolic runs, the second on the mirror image of the first grid; hint for the solution of the second system (a permutation), verified by substitution. 5 s.',
'C12': 'two symbolic runs, sizes, speed and density scaled; solution hint scaled, verified by substitution. 5 s.',
'C13': 'two symbolic runs with everything or only the cg moved. 5 s.',
'C14': 'symbolic runs for every order of two and three wings; permuted solution hints, verified. 12 s.',
'C15': 'a solve after other solves against a fresh model, same unknown final state; arrays handed out before compared with copies. 40 s.',
'C16': 'every analysis with unknown states against frozen copies of the arguments, for a model that may refuse any solve. 30 s.',
'C17': 'sums over arbitrary wing and propeller models, and the same with the real models coupled. 11 s.',
'C18': 'the 81 coefficients against central differences of an uninterpreted load function. 4 s.',
'C19': 'affine lift (exact), and an unknown lift per angle asked for: every path of the secant iteration up to the bound. 105 s.',
'C20': 'affine loads (exact), and unknown loads per pair of angles over up to three Newton steps. 31 s.',
'C21': 'stall search on an arbitrary grid: first angle with a section above its maximum; speeds by affine or arbitrary lift. 40 s.',
'C22': 'loads acting at an unknown fixed point; and loads of the sinusoidal/parabolic form of the fit, least squares solved symbolically (normal equations). 14 s.',
'C23': 'the used reference lengths read back from the coefficients for each combination of given lengths. 9 s.',
'C24': 'each analysis with each combination of states left out against the call with the defaults written out. 31 s.',
'C25': 'a virtual file system keeps what is written; parsed back and compared term by term with the returned results. 50 s.',
'C26': 'operating points read back from public quantities; search for the rate by the contract of the bracketing root search. 45 s.',
'C27': 'stations, chord and pitch against the formulas of each type; tables through the exact rational not-a-knot cubic spline. 20 s.',
'C28': 'section coefficients within each regime, regimes as assumptions on the angle; Viterna curves as reference. 45 s.',
'C29': 'force and moment assembly for uninterpreted section data. 30 s.',
'C30': 'Simpson integrals of section loads; the search for the induced angle (a) stopped early, for any lift curve, brackets a change of sign, (b) run to the end, about 47 halvings, for lifts of unknown steepness that balance at a given share of the range. 100 s.',
'C31': 'velocity at an unknown point, one path per interval of the tube; mass conservation of the contracted annuli and the axial development as reference. 130 s.',
'C32': 'the triangles written (recorded by the stand-in of numpy-stl) against outlines placed by independent formulas of position, chord, twist and dihedral, all dimensions unknown. 65 s.',
'C33': 'names with unknown digits (each any real number of its range, which includes the ten digits): all 98 triangles of a strip against the four-digit formulas. 6 s.',
'C34': 'the triangles of blades against outlines placed by the geometric pitch, blade number, elevation, heading and position. 40 s.',
}

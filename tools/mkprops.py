"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))
IN, CF, HI, PR, SC = 'inputs', 'configurations', 'histories', 'programs', 'schedules'
M = 'panels/models/'
C = 'panels/multidomain/connections/'
SM = 'panels/stiffener/models/'

prop('C01', 'Shape functions and derivatives are the hierarchic Bardell polynomials',
 'For every term index supported (0 to 29) the value returned for a shape function is the Bardell hierarchic polynomial of that index (four cubic Hermite edge functions scaled by the translation/rotation flags of the two edges, then the bubble functions), and the first- and second-derivative evaluations are the exact first and second derivatives of that same polynomial. The one-term and the all-terms evaluators agree for every index, every coordinate in [-1, 1] and every flag value.',
 [IN, CF], 'all 30 term indices, all coordinates, all real edge-flag values, both evaluator families',
 'The tests evaluate the functions only indirectly through a few global matrices with low term counts; a wrong coefficient in one high-order term changes nothing they assert.',
 ['panels/core/src/bardell_functions.cpp', 'panels/core/include/bardell_functions.hpp', 'panels/bardell.pyx'],
 [('polynomial tables', 'panels/core/src/bardell_functions.cpp: calc_vec_f, calc_vec_fp, calc_vec_fpp, calc_f, calc_fp, calc_fpp')])

prop('C02', 'Precomputed shape-function integrals are exact on the whole domain',
 'For every pair of term indices (0 to 29 each) and every edge-flag value, the tabulated integral over the full domain [-1, 1] of a product of two shape functions or their derivatives (f f, f f\', f f\'\', f\' f\', f\' f\'\', f\'\' f\'\') equals the exact integral of the product of the corresponding polynomials, to floating-point literal precision.',
 [IN, CF], '6 tables x 900 index pairs x 8 edge flags',
 'A test can only sample index pairs; about 5400 symbolic entries exist and nothing cross-checks them against the polynomials.',
 ['panels/core/src/bardell.cpp', 'panels/core/include/bardell.hpp'],
 [('integral tables', 'panels/core/src/bardell.cpp: integral_ff, integral_ffp, integral_ffpp, integral_fpfp, integral_fpfpp, integral_fppfpp')])

prop('C03', 'Gauss-Legendre tables integrate exactly for every supported order',
 'For every supported number of points n (2 to 64) the table returns exactly n distinct points inside (-1, 1) that are the roots of the Legendre polynomial of degree n, paired with their own positive weights, so that every polynomial of degree up to 2n-1 is integrated exactly to table precision; points and weights are written to the output slots 0 to n-1 and nowhere else.',
 [IN, CF], 'all orders 2..64 and all point positions',
 'Numeric matrices in the tests use a handful of orders; a corrupted point of another order is never read.',
 ['panels/core/src/legendre_gauss_quadrature.cpp', 'panels/core/include/legendre_gauss_quadrature.hpp', 'panels/legendre_gauss_quadrature.pyx'],
 [('quadrature switch', 'panels/core/src/legendre_gauss_quadrature.cpp: leggauss_quad')])

prop('C04', 'Analytic linear stiffness is the exact Hessian of the strain energy',
 'For every panel geometry, term counts, edge flags and ABD matrix, each coefficient of the closed-form linear constitutive stiffness matrix (flat plate and cylindrical panel) equals the second derivative of the Donnell strain energy with respect to the two Ritz amplitudes, and it is placed at the row and column of those two amplitudes.',
 [IN, CF], 'all a, b, r, m, n, flags, ABD entries (including fully coupled and unsymmetric laminates)',
 'Tests use balanced or isotropic laminates where many coupling terms vanish or are tiny, with one set of boundary conditions each.',
 [M + 'plate_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell.pyx'],
 [('closed-form kernels', 'fk0 of both analytic model modules')])

prop('C05', 'Numerically integrated stiffness is the Hessian of the same energy',
 'For every panel, laminate (uniform or given point by point), displacement state and rectangular sub-domain, each coefficient of the numerically integrated constitutive stiffness equals the quadrature sum of B^T ABD B with the Donnell strain-displacement matrix B, with the von Karman terms of the current displacement state when the nonlinear option is on and without them when it is off. Points, weights and the area jacobian are those of the requested sub-domain, and every coefficient is placed at the row and column of its two amplitudes.',
 [IN, CF], 'all displacement states, laminates, sub-domains, quadrature orders, flat and cylindrical',
 'Tests compare one linear case with the analytic matrix and one converged nonlinear load case.',
 [M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
 [('numeric kernels', 'fkC_num of both numeric model modules')])

prop('C06', 'Geometric stiffness matches the work of the membrane state',
 'For every panel and membrane state, each geometric stiffness coefficient couples only out-of-plane amplitudes and equals the integral of Nxx w,x dw,x + Nyy w,y dw,y + Nxy (w,x dw,y + w,y dw,x); in the numeric version the membrane forces are the given constants plus those recovered from the displacement state through ABD, including the von Karman strains when the nonlinear option is on.',
 [IN, CF], 'all membrane states and displacement states, analytic and numeric, flat and cylindrical',
 'Tests have pure uniaxial compression; shear or transverse terms and nonlinear recovery are not isolated.',
 [M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
 [('geometric kernels', 'fkG0 and fkG_num of the model modules')])

prop('C07', 'Internal force is the gradient of the nonlinear strain energy',
 'For every displacement state, each entry of the internal force vector equals the quadrature sum over the panel of the stress resultants (ABD times the full von Karman strains of that state) times the first variation of those strains with respect to that amplitude. The same state with the nonlinear option off gives exactly the linear strain terms.',
 [IN, CF], 'all displacement states, laminates and sub-domains, flat and cylindrical',
 'Only one plate case under one load reaches this code; consistency between force and tangent for general states is never asserted.',
 [M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
 [('internal force kernels', 'calc_fint of both numeric model modules')])

prop('C08', 'Mass matrices match the kinetic energy including offset and rotary inertia',
 'For every panel, density, thickness and offset, each mass coefficient equals the one of the kinetic energy of a plate of uniform thickness (translations, offset coupling between in-plane and rotation terms, and rotary inertia d^2 + h^2/12), in the closed-form version and in the numerically integrated version, where density and thickness may vary from point to point.',
 [IN, CF], 'all geometries, offsets, densities, sub-domains',
 'The tests check a single zero-offset frequency; every offset coupling term is multiplied by zero there.',
 [M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
 [('mass kernels', 'fkM and fkM_num of the model modules')])

prop('C09', 'Aerodynamic matrices match piston theory in both flow directions',
 'For every panel and flow direction, aerodynamic stiffness and damping couple only out-of-plane amplitudes and equal the virtual work of the piston-theory pressure: the streamwise slope term with the derivative taken along the requested flow axis, the displacement (curvature) term where the model carries one, and the damping term proportional to the displacement product; the pressure parameters are the ones set by the user or, without them, those of linear piston theory for the air density, speed, Mach number and radius, at every supersonic Mach number and radius.',
 [IN, CF], 'both flow axes, analytic and numeric kernels, flat and cylindrical',
 'One flutter example uses a single flow axis on a flat plate.',
 [M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
 [('aero kernels', 'fkAx, fkAy, fcA, fkAx_num, fkAy_num of the model modules')])

prop('C10', 'Displacement recovery and load vectors use the same Ritz expansion',
 'For every amplitude vector and every set of points, the recovered displacements and rotations (u, v, w, -w,x, -w,y) are the Ritz sums of the amplitudes with the panel\'s own edge flags at the points\' natural coordinates, every point is written exactly once, and the load shape vector at a point holds exactly the derivative of those five quantities with respect to every amplitude.',
 [IN, CF, SC], 'all amplitude vectors, points, term counts, edge flags and number of worker threads',
 'Plots and loads in the tests use few points and symmetric flags; mixed-up flags or a sign in one rotation do not show.',
 [M + 'clpt_bardell_field.pyx'],
 [('field kernels', 'fuvw, fg and their inner loops')])

prop('C11', 'Strain recovery matches the strain-displacement relations',
 'For every amplitude vector and every set of points, the recovered strains and curvatures are the Donnell strain-displacement relations (with the 1/r hoop term exactly when the radius is non-zero) of the Ritz field, plus the von Karman terms w,x^2/2, w,y^2/2 and w,x w,y exactly when the nonlinear option is on.',
 [IN, CF, SC], 'all amplitude vectors, points, radii and both nonlinear options',
 'The tests never compare a nonlinear strain component with the relations; linear ones only at plot level.',
 [M + 'clpt_bardell_field.pyx', 'panels/shell.py'],
 [('strain kernel', 'fstrain and its inner loop')])

prop('C12', 'Stress resultants are the laminate matrix times the recovered strains',
 'For every panel and every multi-panel group, each recovered force and moment resultant is the matching row of that panel\'s own ABD matrix times the six strain components at the same point, and the results are returned under the names of those resultants.',
 [IN, CF], 'all laminates (fully populated ABD), single panels and panel groups',
 'Tests check one component for laminates with vanishing coupling.',
 ['panels/shell.py', 'panels/multidomain/multidomain.py'],
 [('stress recovery', 'Shell.stress, MultiDomain.stress')])

prop('C13', 'Panel-to-panel edge connections are the Hessian of the jump penalty energy',
 'For two panels joined along an edge, the three connection blocks (first-first, first-second, second-second) are exactly the second derivatives of one half the integral along the edge of kt times the squared displacement jump plus kr times the squared rotation jump, every field evaluated at the stated edge coordinate with its own panel\'s flags and size. This holds for both edge directions.',
 [IN, CF], 'all panel sizes, flags, edge coordinates and penalty constants',
 'Tests join identical panels with free edges, where many sign, flag or size mix-ups cancel.',
 [C + 'kCSSxcte.pyx', C + 'kCSSycte.pyx'],
 [('connection kernels', 'fkCSSxcte11/12/22 and fkCSSycte11/12/22')])

prop('C14', 'Base-to-flange connections are the Hessian of the rotated jump penalty energy',
 'For a flange standing at a right angle on a base panel, the three connection blocks are exactly the second derivatives of one half the integral along the joint of kt times the squared jump of the displacement vectors (each expressed in the base frame) plus kr times the squared rotation jump, every field evaluated at the stated joint coordinate with its own panel\'s flags and size. This holds for both joint directions.',
 [IN, CF], 'all panel sizes, flags, joint coordinates and penalty constants',
 'Tests cover one joint direction with one set of free edges; the swapped components or mixed flags cancel or stay unobserved.',
 [C + 'kCBFxcte.pyx', C + 'kCBFycte.pyx'],
 [('connection kernels', 'fkCBFxcte11/12/22 and fkCBFycte11/12/22')])

prop('C15', 'Surface connections tie the two facing surfaces with the thickness offset',
 'For a panel bonded on top of another one of the same in-plane size, the three connection blocks are exactly the second derivatives of one half the area integral of kt times the squared jump between the displacements of the two facing surfaces, in-plane displacements being taken at the mid-surface distance given.',
 [IN, CF], 'all panel sizes, flags, offsets and penalty constants',
 'Only small reference cases with one flag set are exercised.',
 [C + 'kCSB.pyx'],
 [('connection kernels', 'fkCSB11, fkCSB12, fkCSB22')])

prop('C16', 'Prescribed-displacement penalties act on their own displacement component',
 'For a prescribed displacement at a point or along a line, the penalty matrix and the matching force contribution are those of one half ku u^2 + kv v^2 + kw w^2 at that place: each constant acts only on its own displacement component, with that component\'s edge flags, and along a line the integral carries the line\'s own length jacobian; a point constraint of the model adds k g g^T built from exactly the constrained translations and rotations of that point.',
 [IN, CF], 'points, lines in both directions, all constants, all flags',
 'Tests prescribe one component at a time on symmetric setups, or do not reach the line kernels at all.',
 [C + 'kCpd.pyx'],
 [('penalty kernels', 'fkCpd, fkCld_xcte, fkCld_ycte')])

prop('C17', 'One-dimensional blade stiffener matrices match the beam energies',
 'For every blade stiffener attached at a line of a panel, the flange stiffness, geometric stiffness and mass coefficients equal those of the beam strain, load and kinetic energies with the panel displacement field evaluated on that line with the panel\'s own flags, placed at the rows and columns of the two amplitudes; the section constants handed to these matrices (membrane and bending stiffness, bend-twist coupling, axis distance) are those of the flange laminate and of the skin and base thickness.',
 [IN, CF], 'all positions, sections, laminates and flags',
 'No test imports the stiffener code at all.',
 [SM + 'bladestiff1d_clt_donnell_bardell.pyx'],
 [('beam kernels', 'fkCf, fkGf, fkMf'), ('section constants', 'panels/stiffener/bladestiff1d.py BladeStiff1D._rebuild')])

prop('C18', 'Flange-panel connection matrices match the joint penalty energy',
 'For a blade flange modelled as its own panel and joined to the skin along a line, the skin-skin, skin-flange and flange-flange blocks equal the second derivatives of the penalty energy of the displacement and rotation jumps along that line, with the skin field on the stiffener line and the flange field on its attached edge.',
 [IN, CF], 'all positions, sizes, penalty constants and flags',
 'No test imports the stiffener code at all.',
 [SM + 'bladestiff2d_clt_donnell_bardell.pyx'],
 [('joint kernels', 'fkCss, fkCsf, fkCff')])

prop('C19', 'Native kernels only write inside the memory they own',
 'For every term count and every number of points, the coefficient triplets written by a native kernel never exceed the storage it allocated and no triplet slot is written twice; every native buffer is allocated large enough for the 30-term tables, released exactly once on every path, and buffers used by parallel workers are never shared between them.',
 [IN, CF, SC], 'all term counts, point counts and thread counts',
 'Out-of-bounds writes with bounds checking disabled usually go unnoticed on small cases.',
 [M + '*.pyx', C + '*.pyx', SM + '*.pyx', 'panels/bardell.pyx'],
 [('triplet storage', 'fdim and the slot counter of each kernel'), ('buffers', 'malloc/free pairs and prange loops')])

prop('C20', 'Assembled matrices hold every contribution exactly once at its own block',
 'For every assembly of panels and connections, the global stiffness, geometric stiffness, mass, tangent and force results are the sum of each panel\'s own contribution placed at that panel\'s degree-of-freedom range and each connection\'s blocks placed at the ranges of its two panels; ranges of different panels are disjoint and together fill the global size. Each matrix a calculation of a panel or an assembly returns is also the one kept on the object under its own name (matrices[\'kC\'], kC and so on), and no other kept matrix is replaced.',
 [IN, CF, PR], 'all panel lists, term counts and connection lists',
 'Tests assemble a few fixed layouts; a contribution dropped or doubled for another layout is not seen.',
 ['panels/multidomain/multidomain.py', 'panels/shell.py'],
 [('assembly', 'MultiDomain.__init__, get_size, calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext, get_kC_conn')])

prop('C21', 'Half-computed symmetric matrices are completed by symmetry',
 'Every assembled stiffness, geometric stiffness, mass or damping matrix returned to the caller by default is the complete matrix: kernels that produce only the upper triangle are completed by symmetry after all half contributions are added, pieces that are already complete are not mirrored again, and matrices that are not symmetric (the aerodynamic ones) are never forced to be.',
 [CF, PR], 'all public matrix entry points with their finalize option on or off',
 'Eigenvalue tests cannot distinguish a mirrored from a half matrix for every entry point.',
 ['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
 [('completion', 'finalize_symmetric_matrix / make_skew_symmetric call sites')])

prop('C22', 'External force vector is the virtual work of every registered load',
 'For every set of registered point loads, distributed edge loads and prescribed displacements, the external force vector is the sum over all of them of the load shape vector at the load position times the load components, constant loads unscaled and incremental loads times the load factor, edge loads integrated along the edge with its own length; each registration method stores its load in the matching list.',
 [IN, CF], 'all load lists, positions, load factors',
 'Tests register one or two loads; a list that is skipped or wrongly scaled is not seen.',
 ['panels/shell_fext.py', 'panels/shell.py', 'panels/multidomain/multidomain.py'],
 [('load lists', 'Shell.add_* methods'), ('integration', 'shell_fext and Shell.calc_fext')])

prop('C23', 'Every connection type reaches its own kernels with its own data',
 'For every connection type documented as available, the dispatch calls that type\'s three kernels, passes each panel and its edge coordinate in the order the kernel expects, places the three blocks at (first, first), (first, second) and (second, second), and uses the penalty constants of that type and the current thicknesses of the panels; an unknown type is rejected with an error.',
 [CF, PR], 'all documented connection types and both panel orders',
 'Tests use some of the types with panels already in order.',
 ['panels/multidomain/multidomain.py', C + '__init__.py'],
 [('dispatch', 'MultiDomain.get_kC_conn')])

prop('C24', 'Penalty constants follow the documented laminate formulas',
 'For every pair of panels and connection type, translational and rotational penalty constants are 4 K1 K2 / ((K1 + K2)(h1 + h2)) with the membrane, respectively bending, stiffness of each panel across the joint and its total thickness, divided for surface connections by the smaller in-plane size; swapping the two panels together with their directions gives the same constants. The constant of a prescribed-displacement penalty is the membrane stiffness of its own direction per unit length of the edge, and the linear cohesive stiffness is a fixed constant spread over the common area.',
 [IN, CF], 'all laminates and connection types',
 'Tests join panels with equal laminates where exchanged stiffness entries give the same number.',
 [C + 'penalties.py'],
 [('formulas', 'calc_kt_kr and the prescribed-displacement constants')])

prop('C25', 'Multi-panel results use each panel\'s own slice of the solution',
 'For every multi-panel model and group name, displacements, strains, stresses and Gauss-point results are computed for every panel of that group, and only those, from that panel\'s own slice of the global amplitude vector, with that panel\'s own geometry, and are returned in panel order.',
 [IN, CF], 'all models, groups and amplitude vectors',
 'Tests plot a single group or a single quantity.',
 ['panels/multidomain/multidomain.py', 'panels/shell.py'],
 [('field methods', 'MultiDomain.uvw, strain, stress, calc_results and Gauss-point variants')])

prop('C26', 'User-set panel options reach the computation they control',
 'Every option a user sets on a panel or passes to an analysis call - edge flags, sizes, radius, term counts, quadrature orders, sub-domain limits, offset, density, prescribed membrane state, flow direction, nonlinear switch, displacement state - is what the selected kernel actually receives, in the position the kernel expects.',
 [IN, CF], 'all options, all analysis entry points, both models',
 'Tests set a few options; an option read from the wrong attribute or passed in the wrong position has no effect on them.',
 ['panels/shell.py', 'panels/modelDB.py'],
 [('dispatch', 'Shell.calc_kC, calc_kG, calc_kM, calc_kA, calc_cA, calc_fint, uvw, strain')])

prop('C27', 'Analyses leave user inputs unchanged and do not depend on call history',
 'Calling any analysis or result method does not modify objects the caller passed in (connection descriptions, amplitude vectors, laminate definitions, panels of the model beyond their own results), and calling it again with the same arguments gives the same result regardless of what was called before; after the user gives an object new data (geometry, laminate, loads, boundary conditions, number of terms), results follow the new data.',
 [HI, IN], 'all sequences of public analysis calls',
 'Each test builds fresh objects and calls each method once.',
 ['panels/multidomain/multidomain.py', 'panels/shell.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
 [('effects', 'stores on parameters and self in analysis methods')])

prop('C28', 'Every internal call matches an existing callable and attribute',
 'On every path of every public method, each function, method, kernel or module attribute used exists, is called with arguments that bind to its signature, each attribute written on a slotted object is one of its slots, and every local variable and module name is defined before use - so no supported configuration can fail with a name, attribute, missing-argument or unexpected-argument error.',
 [CF, PR], 'all call sites of the package in all branches',
 'Branches the tests do not take (closed connections, flutter, stiffened bays, error paths) are never executed.',
 ['panels/**/*.py', 'panels/**/*.pyx'],
 [('call sites', 'all modules of the package')])

prop('C29', 'Invalid inputs are rejected before native code runs',
 'An amplitude vector of the wrong size, an object that is not a panel, missing required geometry or laminate data, and an unknown model, load direction or connection type raise an exception; they never reach a native kernel, which works without bounds checks, and never return a result.',
 [IN, CF], 'all public analysis entry points that take user data',
 'Tests only pass valid input.',
 ['panels/shell.py', 'panels/multidomain/multidomain.py', M + '*.pyx'],
 [('guards', 'check_c, class-name guards in kernels, modelDB validation')])

prop('C30', 'Saving and loading a model preserves what the user defined',
 'Saving a panel or a stiffened bay writes it to the named file without losing user-defined data (only recomputable matrices are dropped), works for every reachable state of the object, and loading returns the object from the same file.',
 [HI, CF], 'all object states at the time of saving',
 'No test saves or loads.',
 ['panels/shell.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
 [('persistence', 'save/load/_clear_matrices')])

prop('C31', 'Every registered model provides the complete set of kernels',
 'For every registered panel or stiffener model, the registry entry names the right number of degrees of freedom and modules that exist and define every kernel that analyses look up through it, the curved and the flat models exposing the same interface; the number of degrees of freedom per term in the kernels equals that of the registry.',
 [CF, PR], 'all models x all kernels looked up',
 'Tests exercise some kernels of the models only.',
 ['panels/modelDB.py', 'panels/models/__init__.py', 'panels/stiffener/modelDB.py', 'panels/shell.py'],
 [('registry', 'modelDB.db and its users')])

prop('C32', 'Stiffened bays assemble skins, stiffeners and couplings at their own ranges',
 'For every stiffened bay, stiffness, geometric stiffness, mass and force results are the sum of every skin panel on the skin range and every stiffener base, flange and coupling at that stiffener\'s own ranges, which are consecutive, disjoint and fill the global size; each matrix of each component is added exactly once; every panel and stiffener part the bay builds gets the geometry, laminate, terms and edge flags it was asked for, each stiffener joins the skin strips on its two sides, each stiffener base is offset by half the skin plus half its own thickness, the flange of a two-dimensional blade is held at the two bay ends and free along its length, and displacements are recovered from the same ranges. Each matrix is kept on the bay under its own name and replaces no other.',
 [IN, CF, PR], 'all numbers and types of panels and stiffeners',
 'No test builds a stiffened bay.',
 ['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py'],
 [('assembly', 'StiffPanelBay.calc_kC/kG/kM/fext/get_size and the stiffeners\' calc_* methods')])

prop('C33', 'Ready-made assemblies are geometrically consistent and honour their arguments',
 'Every ready-made cylinder and stiffened-panel builder positions its panels so that connected edges coincide, connects each pair of neighbouring panels exactly once (closing the circumference for complete cylinders), refers only to panels of the model it builds, every argument of the builder influences the model the way its name says, and the loads, boundary conditions and matrices handed to the solvers are those of the analysis the function is named after.',
 [IN, CF], 'all builder arguments and panel counts',
 'Tests run the builders with default-like arguments and compare one eigenvalue.',
 ['panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py', 'panels/multidomain/tstiff2d_1stiff_compression.py', 'panels/multidomain/tstiff2d_1stiff_freq.py', 'panels/multidomain/tstiff2d_1stiff_flutter.py'],
 [('builders', 'create_cylinder, cylinder_compression_lb_*, tstiff2d_1stiff_*')])

prop('C36', 'Contour plots draw the requested field at its own points',
 'For every panel, assembly or bay, Ritz constants and plotting options, the contour that is drawn is the requested component computed from the given constants at the requested points (xs and ys, the requested grid or the requested integration points) and with the requested NLgeom; it is located at the panel\'s own coordinates plus the requested offset (or the origin of the panel in its assembly) and, when asked, displaced by the scaled displacements of those same points; its levels span vecmin to vecmax, each taken from the plotted field when not given; unknown components and an ax that is no Axes object raise ValueError; axes that are given are used and returned, a plot without given axes is saved under the given file name; and plotting leaves the fields an object already held together with the mesh they belong to. Every option a plot accepts is used.',
 [IN, CF, HI], 'all plotted objects, components, options and results held before',
 'Tests only call the plots and never look at what was drawn or at the state left behind.',
 ['panels/plot_shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
 [('contours', 'plot_shell, MultiDomain.plot, StiffPanelBay.plot_skin, StiffPanelBay.plot_stiffener')])

prop('C34', 'The Ritz approximation converges to the exact plate and shell solutions',
 'For every plate and shell problem in range, increasing the number of terms makes displacements, buckling loads, frequencies and flutter speeds converge to the analytical or finite-element reference from above.',
 [IN, CF], 'all problems and term counts',
 'Tests compare a few values at fixed term counts.',
 ['panels/shell.py', 'panels/multidomain/multidomain.py'],
 [('solution path', 'matrices handed to structsolve/scipy solvers')])

prop('C35', 'Nonlinear static solutions are in equilibrium',
 'For every load history, the Newton-type solution returned at each load level satisfies internal force equals external force within the solver tolerance.',
 [IN, HI], 'all load histories',
 'Tests run a few load steps of single cases.',
 ['panels/shell.py', 'panels/multidomain/multidomain.py'],
 [('solver callbacks', 'calc_kT, calc_fint, calc_fext handed to structsolve')])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))

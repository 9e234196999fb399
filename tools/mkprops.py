import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=None)))
E='weac/eigensystem.py';M='weac/mixins.py';L='weac/layered.py';I='weac/inverse.py';T='weac/tools.py';PL='weac/plot.py'
p('C01','Dimensions and unit conversions are consistent everywhere',
 "Every quantity the library computes is dimensionally homogeneous in its documented unit system (mm, N, t, s, kg/m^3 and degrees at the interface): no expression adds, compares, stores or plots together quantities of different physical dimension or different scale. Each documented output unit differs from the base unit by exactly the physical conversion factor, and inclinations are converted from degrees to radians exactly once before a trigonometric function sees them.",
 ['inputs','configurations'],'all model inputs, all documented output units, all systems and contact stages, every expression of the package that the public API reaches',
 'The tests call a handful of functions with one homogeneous slab and compare one or two conversions (mm to cm, rad to deg); a wrong scale in any other unit or branch passes.',
 [E,M,T,PL,L,I],[('conversion tables','FieldQuantitiesMixin.w/u/sig/tau/Gi/Gii; AnalysisMixin.Sxx/Txz/Szz; tools.tensile_strength_slab'),('degree conversion','Eigensystem.get_weight_load/get_surface_load/get_skier_load, tools.calc_vertical_bc_center_of_gravity'),('density conversion 1e-12','Eigensystem.get_weight_load, tools.calc_center_of_gravity, AnalysisMixin.Sxx')],['return values of every public method','axis labels and plotted arrays'])
p('C02','Mirroring the experiment mirrors the result',
 "Reflecting an experiment about a vertical axis (opposite slope sign, crack cut from the other side, reversed x-axis) yields exactly the reflected result: deflection, normal force, moment, normal stresses and energy release rates keep their value, while axial displacement, rotation, shear force and shear stresses change sign. This holds for loads, governing equations, segment solutions, end and touchdown conditions, section forces, stresses and segment layouts.",
 ['inputs','configurations'],'all inclinations of either sign, all layerings, left/right variants of every system, every contact stage',
 'Tests use phi=0 or one positive inclination and never compare a left-cut with a right-cut experiment.',
 [E,M,T],[('left/right branches','SolutionMixin.bc, SolutionMixin.calc_segments, SolutionMixin.assemble_and_solve'),('sign of tangential loads','Eigensystem.get_weight_load/get_surface_load/get_skier_load'),('field quantities','FieldQuantitiesMixin')],['assembled boundary conditions and right-hand sides','field quantities'])
p('C03','Response is linear in the loads, energies are quadratic',
 "For a fixed geometry, stiffness and contact stage the solution depends linearly on the applied loads: scaling gravity and the surface load (and the prescribed crack height) by a factor scales displacements, section forces and stresses by that factor, and energy release rates and potential energies by its square. The coefficient matrix of the solved system, stiffnesses and eigenvalues do not depend on the loads.",
 ['inputs'],'all slabs, weak layers, inclinations, load magnitudes, systems and contact stages',
 'No test evaluates the same model under two load magnitudes; superposition quantifies over all load pairs.',
 [E,M,T],[('load vectors','Eigensystem.get_load_vector, Eigensystem.zp'),('assembly','SolutionMixin.assemble_and_solve'),('energies','FieldQuantitiesMixin.Gi/Gii/int1/int2, OutputMixin.internal_potential/external_potential')],['assembled matrix and right-hand side','field quantities','potentials'])
p('C04','Segment solutions satisfy the beam and foundation equations',
 "At every position of a bedded or free segment the closed-form solution satisfies force and moment equilibrium of the layered shear-deformable slab: the derivatives of normal force, shear force and moment balance the weak-layer tractions (absent without foundation), the slab weight acting at its centre of gravity and the surface load acting at the top. First and second derivatives offered by the API equal the derivatives of that solution.",
 ['inputs'],'all positions, segment lengths, layerings, weak layers, inclinations, weights and surface loads; both bedded and free segments',
 'Tests only check array shapes of the segment solutions; equilibrium has to hold for every x and every layering, and e.g. an error that multiplies the coupling stiffness is invisible for homogeneous slabs.',
 [E,M],[('system matrix and load vector','Eigensystem.calc_system_matrix, Eigensystem.get_load_vector'),('particular integrals','Eigensystem.zp'),('complementary solutions','Eigensystem.zh'),('superposition','Eigensystem.z'),('derivatives','FieldQuantitiesMixin.dz_dx, dz_dxdx and wrappers')],['z(x), N(x), M(x), V(x), sig(x), tau(x)'])
p('C05','Segments are joined continuously; only skier loads jump',
 "The linear system solved for an assembly of any number of segments states, once for each interface, that axial displacement, deflection, rotation, normal force, moment and shear force are continuous, except that section forces jump by exactly the skier load applied at that interface (tangential force acting at the top surface, hence with its moment, and normal force). The same conditions are imposed on the complementary and the particular part of the solution, and every segment's constants are returned in the order of the segments.",
 ['inputs','configurations'],'all numbers of segments, lengths, bedded/free patterns, skier weights and inclinations; all systems',
 'The tests solve two segments and look at shapes; a mis-indexed row or a wrong jump at the third interface of a four-segment model is never observed.',
 [M],[('row layout and jumps','SolutionMixin.assemble_and_solve'),('transmission conditions','SolutionMixin.eqs')],['matrix and right-hand side given to the linear solver','returned constants'])
p('C06','End conditions match the experiment and contact stage',
 "Ends of a propagation saw test are free of normal force, moment and shear force; a cut end in point contact is free of normal force and moment and deflected by exactly the crack height; a cut end in full contact is deflected by the crack height, carries the rotational resistance of the resting part as moment and the tangential load of that part as normal force. Ends with vertical faces carry the weight and moment of the wedge, infinite ends of skier models carry no complementary solution, and the auxiliary spring problems carry exactly one unit load, whose ratio to the response at its point of attack is the substitute stiffness.",
 ['inputs','configurations'],'all systems, both ends, all contact stages, all inclinations, loads and geometries',
 'Tests never inspect boundary rows and never reach contact stages B and C.',
 [M],[('boundary operator','SolutionMixin.bc'),('right-hand side','SolutionMixin.assemble_and_solve')],['first and last three equations of the solved system'],
 [('mode','contact stage A, B or C','SlabContactMixin.calc_touchdown_mode'),('tc','crack height','SlabContactMixin.set_tc'),('td','touchdown length','SlabContactMixin.calc_touchdown_length')])
p('C07','Slab stiffness and weight depend only on the physical layering',
 "Extensional, coupling, bending and shear stiffness are the zeroth, first and second through-thickness moments of the plane-strain modulus (and the shear modulus times the correction factor), thickness and centre of gravity are the corresponding sums, and weight is density times thickness times gravity summed over the layers. Consequently splitting a layer into identical sublayers changes none of them, a homogeneous slab has no coupling stiffness and its centre of gravity at mid-height.",
 ['inputs'],'all layer counts, thicknesses, densities, moduli and Poisson ratios; top-to-bottom order as documented',
 'The tests use one-layer slabs for which the moments degenerate (coupling zero) and only check signs.',
 [E,T],[('laminate stiffness','Eigensystem.calc_laminate_stiffness_matrix'),('ply coordinates','Eigensystem.get_ply_coordinates'),('centre of gravity','tools.calc_center_of_gravity'),('slab matrix','Eigensystem.set_beam_properties'),('weight','Eigensystem.get_weight_load')],['A11, B11, D11, kA55, K0, h, zs, weight load'])
p('C08','Energy release rates are additive, non-negative and work-consistent',
 "Every reported total energy release rate is the sum of its mode I and mode II parts; differential mode I and II rates are half the squared weak-layer normal and shear stress over the respective stiffness at the crack tip, hence never negative, and interior tips of multi-tip cracks are weighted with one half. Incremental rates integrate, over exactly the segments that lose their foundation, half the product of weak-layer stress before and weak-layer deformation after cracking and divide by the new crack length, so that for coinciding states the integrand equals the differential rate.",
 ['inputs','configurations'],'all solutions, crack patterns, numbers of crack tips, units',
 'The tests compute one PST and check that three numbers are returned.',
 [M],[('differential rates','FieldQuantitiesMixin.Gi/Gii, AnalysisMixin.gdif'),('incremental rates','FieldQuantitiesMixin.int1/int2, AnalysisMixin.ginc')],['Gi, Gii, gdif, ginc'])
p('C09','Weak-layer stress, strain and stiffness obey one elastic law',
 "Weak-layer normal and shear stress equal the foundation stiffness times thickness times the respective strain for every solution, the stiffnesses are the plane-strain modulus and the shear modulus divided by the thickness, and tension/compression signs agree (downward deflection is compression). Principal stresses in weak layer and slab are the eigenvalues of the reported stress components, so minimum never exceeds maximum, and normalised stresses are the ratio of stress and strength in the same unit.",
 ['inputs','configurations'],'all solutions, weak layers, units, principal-stress options',
 'Tests check w, dw/dx and psi only; no stress or strain relation is asserted.',
 [M,E,T],[('stress and strain','FieldQuantitiesMixin.sig/tau/eps/gamma'),('stiffness','Eigensystem.calc_foundation_stiffness'),('principal stresses','AnalysisMixin.principal_stress_slab/principal_stress_weaklayer')],['sig, tau, eps, gamma, kn, kt, principal stresses'])
p('C10','Evaluating results changes neither the model nor caller data',
 "Field quantities, segment solutions, assembling and solving, rasterising, energy release rates, stresses, potentials, output lists and plots leave every attribute of the model and every array, list or dictionary passed by the caller as they were, whatever options are chosen. Repeating the call with the same arguments therefore gives the same answer.",
 ['histories','inputs'],'all call sequences of evaluation methods with all arguments and options; normal completion',
 'Tests build a fresh model per case and never compare state before and after a call.',
 [E,M,PL,T],[('pure evaluation methods','FieldQuantitiesMixin, Eigensystem.zh/zp/z, AnalysisMixin, OutputMixin'),('copies before normalising inputs','SolutionMixin.assemble_and_solve, AnalysisMixin.rasterize_solution/ginc'),('save and restore','SlabContactMixin.substitute_stiffness')],['model attributes and argument objects after the call'])
p('C11','Results depend on current settings, not on call history',
 "After any sequence of setter calls and recalculation the model is in the same state as a freshly built model given the final settings: no derived quantity keeps a value computed from superseded inputs. In particular laying out a test for one inclination, crack length or collapse factor gives the same result whatever was laid out before.",
 ['histories'],'all sequences of property setters (with recalculation) and segment layouts on one instance',
 'Every test configures a fresh instance once; staleness needs two configurations on one instance.',
 [E,M,T],[('recalculation','Eigensystem.calc_fundamental_system, set_foundation_properties, set_beam_properties'),('order of touchdown setters','SlabContactMixin.set_touchdown_attributes, calc_touchdown_system')],['model attributes, segment layout'],
 [('kn, kt, A11..K0, ew, ev','derived from settings','Eigensystem'),('tc, mode, td','derived from settings and loads','SlabContactMixin')])
p('C12','Temporary reconfiguration is always undone',
 "Computations that temporarily change the model (the auxiliary problems for substitute spring stiffness) leave system type, weak-layer stiffness and fundamental system exactly as before when they return, and also when they fail with an exception at any point. No evaluation leaves the model in the auxiliary configuration.",
 ['fault_sequences','histories'],'all support types and degrees of freedom, every point at which the computation can raise',
 'No test makes the auxiliary solve fail or looks at the model afterwards.',
 [M],[('save/restore','SlabContactMixin.substitute_stiffness')],['system, kn, kt, eigenvalues and eigenvectors after the call'])
p('C13','Segment functions stay bounded on arbitrarily long segments',
 "The exponential factors of the complementary solution of a bedded segment never exceed one anywhere within the segment, however long or stiff it is: growing exponentials are shifted to the right end and decaying ones start at the left end. The shift is the same wherever the functions of one segment are evaluated (assembly, rasterisation, energy release rates).",
 ['inputs'],'all segment lengths, positions within the segment and spectra (real and complex pairs)',
 'Tests use segments of one or a few metres; overflow needs long or stiff segments.',
 [E,M],[('shifts','Eigensystem.calc_eigensystem (sR, sC)'),('shifted exponentials','Eigensystem.zh'),('segment length passed through','SolutionMixin.assemble_and_solve, AnalysisMixin.rasterize_solution/ginc/gdif')],['exponents of the complementary solution'])
p('C14','Documented options work, undocumented options are refused',
 "Every option value listed in the documentation of a public method (units, systems, positions, locations, components, fields, support types, profiles) is accepted and gives a result; any other value is refused with an explicit error (ValueError or a failing look-up), never answered with a result of another option or an internal unbound-variable error.",
 ['inputs'],'all documented option values of all public methods and arbitrary other values',
 'Tests exercise one or two valid options and no invalid one.',
 [M,T,PL,E],[('unit tables','FieldQuantitiesMixin.*, AnalysisMixin.*, tools.tensile_strength_slab'),('option branches','FieldQuantitiesMixin.psi, SolutionMixin.bc/eqs/calc_segments, SlabContactMixin.substitute_stiffness, plot.deformed')],['return or exception of each call'])
p('C15','Segment layouts account for the whole model',
 "For every system the laid-out segments add up to the model length (minus the part resting on the base in full contact), unsupported segments add up to the crack (or touchdown) length and sit at the documented place, and there is exactly one foundation flag per segment in cracked and uncracked state and one load per interface. The cracked state never supports a segment the uncracked state does not, and the combined layout equals its parts.",
 ['inputs','configurations'],'all systems, lengths, crack lengths, skier weights, contact stages',
 'Tests check one layout for one system.',
 [M],[('layout tables','SolutionMixin.calc_segments'),('touchdown lengths','SlabContactMixin.calc_touchdown_length')],['li, mi, ki, k0 of the returned layouts'])
p('C16','Slab stresses satisfy local equilibrium layer by layer',
 "At each through-thickness grid point the axial slab stress follows from the layer's own modulus and the beam strain, the shear stress is the depth integral from the loaded top face (surface load) of the axial stress gradient together with the tangential weight, and the transverse normal stress the double depth integral of the second gradient together with the normal weight. Mesh points carry the density, stiffness and Poisson ratio of the layer they lie in, and the mesh covers every layer including both faces.",
 ['inputs'],'all layerings, mesh sizes, solutions and inclinations',
 'Slab stresses are not asserted anywhere in the tests.',
 [M],[('mesh','AnalysisMixin.get_zmesh'),('stress recovery','AnalysisMixin.Sxx/Txz/Szz')],['stress fields and mesh columns'])
p('C17','Touchdown thresholds and lengths follow from one contact theory',
 "The crack length of first contact is where the free end of the cut slab, held by the substitute springs of the supported part, sinks by the crack height; the onset of full contact is where the slab touches with horizontal tangent and free rotation; the touchdown length solves the same condition with the rotational resistance of the resting part, so both agree when that resistance vanishes. Stages follow each other with growing crack length and each stage uses its own touchdown length.",
 ['inputs','configurations'],'all slab and weak-layer stiffnesses, spring stiffnesses, loads, crack heights, column and crack lengths',
 'No test enables touchdown; polynomial coefficients are never compared with beam theory.',
 [M],[('threshold equations','SlabContactMixin.calc_a1/calc_a2/calc_lC'),('stage selection','SlabContactMixin.calc_touchdown_mode/calc_touchdown_length'),('crack height','SlabContactMixin.set_tc')],['equations handed to the root finder, stage and touchdown length'])
p('C18','Ill-posed assemblies are refused before they are solved',
 "An assembly without any supported segment, with inconsistent numbers of lengths, flags and loads, or (for infinite skier models) with an unsupported end segment is refused with a ValueError before any equation is assembled or solved, and an unknown system or position is refused likewise. A well-posed assembly of any number of segments, including a single one, is never refused.",
 ['inputs'],'all lists of lengths, flags and loads, all systems',
 'Tests only feed valid assemblies.',
 [M],[('input checks','SolutionMixin.assemble_and_solve'),('else-branches','SolutionMixin.bc/eqs/calc_segments')],['exception or result of solving'])
p('C19','Every public model class offers a complete, usable interface',
 "Any model class exported by the package can be built with its default arguments and any call of a public method on it only relies on methods and attributes that exist on that class with a compatible signature once it is constructed and its segments are laid out. Both the forward and the inverse model support the full workflow from layout to evaluation. Every name any function of the package uses is defined in a scope it can see, so that no branch ends in a NameError.",
 ['programs','configurations'],'all exported classes and all their public methods, all call sites inside the package',
 'The inverse model is not tested at all and attribute errors appear only on the executed path.',
 [L,I,M,E,T,PL],[('class composition','weac/layered.py, weac/inverse.py'),('attribute initialisation','Eigensystem.__init__')],['construction and method calls'])
p('C20','Plotting leaves graphics state and file system as found',
 "Each plot function draws on a figure it created itself, closes exactly that figure and restores the default style on every normal completion, and does not alter shared colour maps. Files are written only below the plots directory of the working directory under the requested name, and a refused request leaves no figure behind.",
 ['histories','inputs'],'all plot functions and options, any figures already open in the caller, normal and refused calls',
 'Tests only check that a file appears after a call with no other figure open.',
 [PL],[('figure life cycle','plot.slab_profile/deformed/plot_data'),('file output','plot.save_plot')],['open figures, style parameters, written paths'])
p('C21','Rasterised output is aligned, complete and masked correctly',
 "The rasterised solution evaluates each grid point with the constants, length, local coordinate and foundation flag of the segment containing it, starts at zero, ends at the total length, is nowhere coarser than the requested number of points makes it, and marks a point as supported exactly when it lies on a supported segment or at the tip of one. Output lists keep coordinates and values aligned: unsupported points are either all removed from both or blanked in the values, and coordinates and values are converted consistently.",
 ['inputs','configurations'],'all numbers and lengths of segments including zero-length ones, flags, grid sizes, output options',
 'Tests check array lengths for one two-segment case.',
 [M],[('rasterisation','AnalysisMixin.rasterize_solution'),('output lists','OutputMixin.get_*')],['returned coordinates, solutions and masks'])
p('C22','Potential energy is the sum of conjugate energy parts',
 "The total potential is the internal plus the external potential, where the internal potential is the sum of non-negative parts, each half of a stiffness times the square of its conjugate deformation (slab extension, bending and shear, weak-layer compression and shear, rotational resistance of the resting part). The external potential is minus the work of slab weight and surface load on the displacements of the points they act on.",
 ['inputs'],'all solutions of propagation saw tests, all stiffnesses, loads and contact stages',
 'Potentials are not tested.',
 [M],[('potentials','OutputMixin.internal_potential/external_potential/total_potential')],['returned energies'])
p('C23','Vertical-face wedge has the weight and centre of its layers',
 "For a slope the wedge between slope-normal and vertical end face has the mass of its layers (density times the trapezoidal area each layer occupies in it), its centre of gravity is the area- and density-weighted mean of the layer centroids, and splitting a layer changes neither. On flat ground the wedge vanishes continuously.",
 ['inputs'],'all layerings and inclinations of either sign',
 'Systems with vertical faces are not tested.',
 [T,M],[('wedge geometry','tools.calc_vertical_bc_center_of_gravity'),('use as end load','SolutionMixin.assemble_and_solve')],['centre of gravity and mass, end loads'])
p('C24','Material parametrisations are positive and grow with density',
 "Each density parametrisation of stiffness or strength follows its published power law, is positive for every positive density, strictly increases with density, scales with its multiplicative constant, and is used for slab layers in the order and with the parameters the caller gave. The shear modulus follows from Young's modulus and Poisson's ratio by isotropic elasticity.",
 ['inputs'],'all densities, fitting constants and layerings',
 'One value of one parametrisation is compared with a literal.',
 [T,E,I],[('parametrisations','tools.scapozza/gerling/bergfeld/tensile_strength_slab'),('use','Eigensystem.set_beam_properties, Inverse.__init__')],['moduli, strengths, slab matrix'])
p('C25','Solved constants satisfy the assembled equations to working accuracy',
 "The constants returned for any admissible model satisfy the assembled boundary and transmission conditions to near machine precision relative to the loads.",
 ['inputs'],'all admissible slabs and segment lengths','Conditioning depends on the stiffness contrast and lengths over a continuum.',
 [M,E],[('linear solve','SolutionMixin.assemble_and_solve')],['residual of the conditions'])
p('C26','Touchdown thresholds exist, are bracketed and ordered',
 "For every admissible slab the thresholds of first and full contact exist within the searched interval whenever the documentation says so, and the first lies below the second.",
 ['inputs'],'all slabs, columns, loads and collapse factors','Existence of roots depends on magnitudes.',
 [M],[('root bracketing','SlabContactMixin.calc_a1/calc_a2/calc_lC')],['thresholds'])
p('C27','The eigenvalue classification always yields six independent solutions',
 "For every admissible slab the real and complex eigenvalues of the governing equations are classified such that exactly six linearly independent complementary functions result.",
 ['inputs'],'all slabs and weak layers','Spectrum type is decided by numerical values near degeneracies.',
 [E],[('classification','Eigensystem.calc_eigensystem')],['number and rank of complementary functions'])
p('C28','Results agree with finite elements and field experiments',
 "Displacements, stresses and energy release rates agree with two-dimensional finite-element solutions and measured propagation saw tests within the accuracy documented in the publications.",
 ['inputs'],'all snow profiles of practical interest','Needs reference computations.',
 [E,M],[('model','whole package')],['field quantities'])
p('C29','Grid resolution and adaptive quadrature meet the requested accuracy',
 "Incremental energy release rates are accurate to the model's relative integration tolerance and average-based potentials converge with grid size.",
 ['inputs'],'all integrands and tolerances','Quadrature error is a runtime quantity.',
 [M],[('quadrature','AnalysisMixin.ginc, OutputMixin.*_potential')],['numerical error'])
p('C30','Figures state truly what they show',
 "Every curve is labelled with the quantity it shows, in the unit its label or axis names, and its label sits on it; horizontal coordinates are in the unit of the axis, loads and unsupported segments are marked where they lie. The layer profile shows each layer's density over its own height above the weak layer. The contour plot draws slab and weak layer with one colour scale that is centred on zero, spans the values and names field and unit, shows the whole deformed slab with its padding or the requested window around the deepest point, and outlines the undeformed and deformed border. This holds for any number of points, also without segment lists.",
 ['inputs','configurations'],'all plot functions and options, models, point counts, segment patterns, displacement states',
 'Tests only look for the file a plot function writes; nobody compares what is drawn with the model.',
 [PL],[('curves, labels and markers','plot.plot_data and its wrappers'),('contour plot','plot.deformed, plot.outline'),('layer profile','plot.slab_profile'),('figure helpers','plot.significant_digits/tight_central_distribution/adjust_lightness')],['arguments of the drawing calls'])
p('C31','An argument left out means its documented default',
 "Leaving an optional argument of any public function out is the same as passing the default its documentation states (or, where the documentation is silent, the one its signature declares), for all values of the other arguments: output units, mesh size, resolution, foundation and slab parameters, contact and substitute-spring options, plot options. A model built without arguments has the documented attributes (gravity, ski length, tolerance, shear correction, weak layer, one layer of 240 kg/m^3 and 200 mm) and is the same as one built from the documented values explicitly; the inverse model and the touchdown helper use their own documented parameters.",
 ['inputs','configurations'],'all public functions and their optional arguments, all values of the other arguments',
 'Tests pass most arguments explicitly or compare with stored numbers of one default; nobody compares omitted and explicit arguments with the documentation.',
 [E,L,I,M,T,PL],[('defaults','signatures of public functions'),('attribute initialisation','Eigensystem.__init__, Layered.__init__, Inverse.__init__')],['results and attributes'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

_AI = 'Abstract interpretation into algebraic terms (gated value numbering)'
TECH = {
 'C04': (_AI + '; terms differentiated and compared in normal form with equilibrium',
         'All inputs of zh/zp/z/dz_dx and the section forces at once, for symbolic stiffnesses, loads, inclination, position and length; both eigenvalue patterns.'),
 'C05': (_AI + '; rows of the assembled system compared with the transmission conditions',
         'Symbolic lengths, loads and foundation patterns for one to four (thorough five) segments of every system; row order, scaling and sign are free.'),
 'C06': (_AI + '; end rows and auxiliary problems compared with the experiment\'s end conditions',
         'Every system, contact stage and foundation pattern, symbolic loads, lengths and stiffnesses.'),
 'C07': (_AI + '; section integrals compared with through-thickness moments, splitting identity in normal form',
         'One to three (thorough four) layers with symbolic density, thickness, modulus and Poisson ratio.'),
 'C08': (_AI + ' with the segment solution uninterpreted; energy release rates compared with stress/stiffness forms for every foundation pattern',
         'Foundation patterns of up to five (thorough six) segments; quadrature error itself is C29 and out of scope.'),
 'C09': (_AI + '; stress, strain, stiffness and principal values compared with the elastic law',
         'Generic symbolic solution vector; all units.'),
 'C10': ('Effect analysis by abstract interpretation: heap before and after every public call compared cell by cell',
         'Every public evaluation and plot routine, every documented option value, several systems and contact stages.'),
 'C11': ('Abstract interpretation of setter histories; heap compared with that of a freshly built model',
         'All setters singly and in ordered pairs (thorough: triples), all systems; symbolic settings.'),
 'C12': ('Exceptional control-flow analysis by abstract interpretation: every call that can fail is forced to raise in turn, heap compared at each exit',
         'Every potentially raising library call and numerical routine inside the temporary reconfiguration.'),
 'C13': (_AI + '; sign analysis of the exponents by linear forms, provenance of length and position at each evaluation site',
         'Every exponential evaluated for a bedded segment of symbolic length and stiffness; every evaluation site of segment functions.'),
 'C14': ('Abstract interpretation of every public option value, definite-assignment and must-raise analysis; terms compared for synonyms and units',
         'All options documented in the source or the table, near misses of each as undocumented values; free-form values are represented by those near misses.'),
 'C15': (_AI + ' of the layout routine for every system, stage and argument form; sums and places compared with the documented layout',
         'Symbolic lengths and loads; one to four point loads for the multi-skier system (thorough more).'),
 'C17': (_AI + '; function handed to the root finder compared in normal form with contact theory derived independently',
         'Symbolic stiffnesses, lengths and loads; existence and order of roots is C26 and out of scope.'),
 'C18': ('Typestate over abstract interpretation: refusal must dominate every segment evaluation and solve',
         'Every length/flag/load pattern up to five (thorough six) segments, list, tuple and array arguments, all systems.'),
 'C16': (_AI + '; mesh and stress terms compared with depth integrals of the equilibrium equations',
         'One to three (thorough five) layers with symbolic properties and unequal point counts, symbolic solution vectors; supported positions (free segments: known finding).'),
 'C19': ('Name resolution and call binding over the class hierarchy, plus abstract interpretation of construction, layout and every public method for missing names, attributes and incompatible calls',
         'Both model classes, all systems, contact stages, default and given layers; every option of every public method.'),
 'C22': (_AI + ' of the potentials with field values uninterpreted; quadratic and linear forms compared coefficient by coefficient with conjugate energy parts',
         'Both propagation saw tests, all contact stages, cracked, intact and zero-crack layouts, unequal grid counts, arbitrary field values at every grid point.'),
 'C21': (_AI + ' of rasterisation with uninterpreted segment functions; every grid column, mask entry, output list and plotted array compared term by term',
         'Foundation and zero-length patterns of up to four (thorough five) segments, unequal point counts; every output list, unit, location; all curve and contour plots.'),
 'C20': ('Typestate analysis: an automaton of figure stack, style and colour maps kept in the heap of the abstract interpreter; path sets of file effects',
         'Every plot function, field and option, with and without a figure of the caller open, script and notebook, plots directory present or not; normal completion and refused fields.'),
 'C23': (_AI + '; wedge mass and centre compared with integrals over the layers, splitting identity, limit of the sloped branch',
         'One to three (thorough five) layers with symbolic density and thickness, symbolic inclination; end loads of several foundation patterns.'),
 'C24': (_AI + '; sign of term and logarithmic derivative, homogeneity and power law in normal form; slab matrix compared row by row',
         'Symbolic density and parameters; one to three (thorough five) layers given as list, tuple or array; every construction path and named profile.'),
 'C02': (_AI + '; an experiment and its reflection are interpreted and compared in normal form under the parity substitution',
         'All systems, contact stages and foundation patterns of two to three (thorough four) segments; one and two layers; symbolic loads, stiffnesses, lengths and field values.'),
 'C03': (_AI + '; superposition, homogeneity, parallelogram law and independence of the loads decided in normal form',
         'Every load-dependent public method with every documented option; linear systems of all systems, contact stages and foundation patterns of one to two (thorough three) segments; substitute springs; root searches of the contact theory.'),
 'C01': ('Dimension inference (type inference with physical units) over the value numbers of an abstract interpretation; unit options compared in normal form',
         'Every public evaluation, stored stiffness, system-matrix entry, row of every assembled system (all systems, stages, one to two, thorough three, segments), searched function, comparison and drawn array; every documented unit.'),
 'C30': (_AI + '; drawing calls collected with their abstract arguments and matched with each other and with the quantities of the model in the labelled unit',
         'Every plot function; 1 to 80 points, all patterns of loads and supports of four segments, one to five layers; limits, levels and outlines for representative displacement states (constants propagate), everything else for symbolic values.'),
 'C31': ('Constant folding of the declared defaults against docstrings and a table, completed by abstract interpretation of calls with and without the argument compared in normal form',
         'Every documented default of every public function; construction of both models with and without layering and system, attribute by attribute.'),
}

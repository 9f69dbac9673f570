"""Property texts."""
B = 'products/ellipy/'
ELL = B + 'elltool/core/ellipsoid/Ellipsoid.py'
AELL = B + 'elltool/core/aellipsoid/AEllipsoid.py'
ABAS = B + 'elltool/core/abasicellipsoid/ABasicEllipsoid.py'
HYP = B + 'elltool/core/hyperplane/Hyperplane.py'
CORE = B + 'elltool/core/core.py'
PROP = B + 'elltool/conf/properties/Properties.py'
PARSE = B + 'elltool/conf/properties/_ParseProp.py'
COMMON = B + 'gen/common/common.py'
DICT = B + 'gen/dict/dict.py'
LOG = B + 'gen/logging/logging.py'
LA = B + 'gras/la/la.py'
GEN = B + 'gras/gen/gen.py'
EG = B + 'gras/geom/ell/ell.py'
SUP = B + 'gras/geom/sup/sup.py'
GEOM = B + 'gras/geom/geom.py'
TRI = B + 'gras/geom/tri/tri.py'
SYM = B + 'gras/sym/sym.py'
ALL = [ELL, AELL, ABAS, HYP, CORE, COMMON, DICT, LA, GEN, EG, SUP, GEOM, TRI, SYM, PROP, PARSE]

CLAIMED = [
    dict(id='C01', title='Operations leave everything the caller passed in unchanged',
         statement='No operation of the library changes an array, list, dictionary or object that the caller passed to it '
                   'or called it on: its contents, shape and attributes afterwards are what they were before. The only '
                   'exceptions are the operations documented as in-place (the in-place projection and the configuration '
                   'setters).',
         over=['inputs', 'histories'],
         quant='every public operation, every well-formed combination of argument values, shapes (scalar, list, flat, row, '
               'column and matrix arrays) and both outcomes (result or exception)',
         why='Tests compare results; almost none compares the inputs before and after, and an in-place step on a view or on '
             'a particular branch shows only for particular shapes or data.',
         files=ALL, mech=[('copy on read/write of object fields', 'Ellipsoid.py, Hyperplane.py property setters and getters'),
                          ('np.copy / copy=True before masked stores', 'gras/gen/gen.py, gras/la/la.py, gras/geom/ell/ell.py')],
         technique='effect analysis (abstract interpretation with points-to labels)'),
    dict(id='C02', title='Results and objects own their data',
         statement='The mutable data of a result is shared neither with the arguments nor with the operands nor with the '
                   'library itself, and the elements of a returned collection of objects share nothing with one another; so '
                   'changing one never changes another.',
         over=['inputs', 'histories'],
         quant='every public operation that builds objects, arrays or dictionaries, all input shapes, all later '
               'modifications by the caller',
         why='Aliasing is invisible until someone modifies one of the aliases later; tests do not modify results and look '
             'at the inputs, and sharing may depend on the branch or on the array shape.',
         files=ALL, mech=[('defensive copies in constructors and getters', 'Ellipsoid.py, Hyperplane.py'),
                          ('one fresh copy per element', 'ABasicEllipsoid.py get_copy, rep_mat')],
         technique='points-to / alias analysis (abstract interpretation)'),
    dict(id='C09', title='Public operations deliver a result or fail loudly',
         statement='Every public operation either delivers the result it is named for or raises an error: none silently does '
                   'nothing, finishes some branch without a result, drops an error it has built, or intercepts a rejection '
                   'raised further down.',
         over=['inputs', 'programs'],
         quant='every function and method of the library and every path through it',
         why='A branch without a result, a swallowed error or a stub is noticed only by a test that takes exactly that '
             'branch and looks at the outcome.',
         files=ALL, mech=[('throw_error', 'gen/common/common.py'), ('operations still to be ported (known findings)',
                                                                    'Ellipsoid.py, AEllipsoid.py')],
         technique='control-flow lint and exception-flow analysis'),
    dict(id='C10', title='Silent unless verbose; log messages are not duplicated',
         statement='With the default configuration no operation, and no import of the library, prints, warns or logs '
                   'anything. Turning verbosity on changes no result, and each reported message appears once however '
                   'often loggers are requested.',
         over=['inputs', 'configurations', 'histories'],
         quant='every public operation on well-formed inputs, verbosity off and on, repeated requests for loggers',
         why='Tests do not capture output and run with one setting; a message on a rare branch or a handler added per call '
             'goes unnoticed.',
         files=[LOG, ELL, AELL, PROP, COMMON, LA, GEN, EG], mech=[('verbosity guard before logging', 'Ellipsoid.py'),
                                                                 ('handler attached once', 'gen/logging/logging.py')],
         technique='effect analysis and two-run comparison of value-number pictures'),
    dict(id='C11', title='Results depend only on the arguments and the configuration',
         statement='Calling an operation again with the same arguments and configuration gives the same result, whatever was '
                   'called in between and whatever the caller did to earlier results. No operation consults the clock, random '
                   'numbers, the environment or object identities, changes process-wide settings, or alters the '
                   'configuration (its setters aside).',
         over=['histories', 'inputs'],
         quant='every public operation and every history of earlier calls of it with other arguments',
         why='Tests call each operation from a fresh state; caches, shared defaults and leaked settings show only in '
             'particular sequences of calls.',
         files=ALL, mech=[('no module-level mutable state besides the configuration', 'Properties.py'),
                          ('class-level data tables', 'gras/geom/tri/tri.py, _ParseProp.py')],
         technique='effect and state analysis, history comparison of value-number pictures'),
    dict(id='C21', title='Symbolic expressions are searched and rewritten by whole words',
         statement='A matrix of expressions depends on the variable of continuous (or, when asked for, discrete) time exactly when that name occurs '
                   'as a whole word in some entry; an occurrence inside a longer name or number does not count. Replacing a variable puts the '
                   'bracketed replacement for every whole-word occurrence in every entry and for nothing else, drops blanks, keeps the array shape '
                   'and the argument, and writes numeric entries out to fifteen decimals.',
         over=['inputs'],
         quant='every word up to a length over the character classes a pattern can distinguish, any position in arrays of any shape, names of '
               'several kinds',
         why='Tests look at a dozen expressions; a name at the very start or end of an entry, next to an underscore or digit, or repeated often enough is '
             'missed.',
         files=[SYM], mech=[('is_dependent, var_replace', 'gras/sym/sym.py')],
         technique='constant propagation of strings through the regular expressions of the source, exhaustive over words of bounded length'),
    dict(id='C22', title='Well-formed calls complete',
         statement='A call with well-formed arguments, in any of the documented forms (single objects, lists and arrays of '
                   'any shape; any supported dimension, mode and flag), completes. It never ends in an internal programming '
                   'error, and inputs that satisfy the documented requirements are not rejected.',
         over=['inputs', 'configurations'],
         quant='every public operation, every documented form, dimension, mode and flag of its arguments',
         why='Tests exercise a few shapes and flags per operation; combinations such as one-element arrays, row/column '
             'arrays, single directions or one-dimensional spaces are mostly untested (several failed when this was written).',
         files=ALL, mech=[('shape normalisation (flatten, reshape, expand_dims)', 'all vectorised operations')],
         technique='exception-flow and shape/dtype analysis (abstract interpretation)'),
    dict(id='C06', title='Invalid ellipsoids and hyperplanes cannot be constructed',
         statement='Constructing an ellipsoid or a hyperplane raises a ValueError for every invalid input: a center or '
                   'normal that is not a numeric vector, a shape that is not a symmetric positive semidefinite square '
                   'matrix, non-finite or genuinely complex data, disagreeing dimensions, a shift that is not one number, or '
                   'a property override of wrong type or sign. This holds in every form (constructor, construction from '
                   'dictionaries, replication), wherever the bad entry is.',
         over=['inputs'],
         quant='every invalid input of each listed kind: dimension, position and size of the bad entry, form of '
               'construction',
         why='Tests try one bad value per requirement; whether the check covers every position, dimension and form, or is '
             'bypassed on one branch, cannot be sampled.',
         files=[ELL, AELL, ABAS, HYP, PARSE, LA, COMMON], mech=[('validating property setters', 'Ellipsoid._shape_mat, '
                                                                'AEllipsoid._center_vec, Hyperplane._normal_vec, _shift'),
                                                               ('property checks', '_ParseProp.parse_prop')],
         technique='exception-flow analysis (interval and shape abstract interpretation)'),
    dict(id='C07', title='Operations reject unsuitable collections and arguments',
         statement='Operations on ellipsoids and hyperplanes raise a ValueError when a collection contains anything of '
                   'another class, or an empty ellipsoid where a non-empty one is needed, when dimensions or sizes of the '
                   'arguments disagree, when projection vectors are not orthogonal or too many, for an unknown mode, or for '
                   'a dimension that is not supported. The position of the offending element in the collection and the '
                   'shape of the collection do not matter.',
         over=['inputs'],
         quant='every operation, every kind of unsuitable argument, every position in lists and arrays of any shape',
         why='Tests put the offending element at one place of one kind of collection; a check that looks only at the first '
             'element or only at some shapes passes them.',
         files=[ELL, AELL, ABAS, HYP], mech=[('_check_is_me_internal over all elements', 'ABasicEllipsoid.py'),
                                             ('size, dimension and orthogonality guards', 'Ellipsoid.py, AEllipsoid.py, '
                                                                                          'Hyperplane.py')],
         technique='exception-flow analysis (interval and shape abstract interpretation)'),
    dict(id='C08', title='Numeric routines reject arguments outside their domain',
         statement='The numeric routines raise a ValueError for arguments outside their documented domain: negative '
                   'tolerances, matrices that are not square or not symmetric or not positive (semi)definite where that is '
                   'required, zero vectors for rotations, negative input of square roots, significant imaginary parts, '
                   'mismatching sizes, unknown flags, modes and properties, malformed faces and non-integer counts.',
         over=['inputs'],
         quant='every routine of the numeric packages, every kind of inadmissible argument, every size and position of the '
               'offending entry',
         why='Each guard is tested with one input; a guard that misses an entry, a sign or a size is not noticed.',
         files=[LA, GEN, EG, SUP, GEOM, TRI, SYM, COMMON, DICT, CORE, PARSE],
         mech=[('throw_error guards at the head of the routines', 'gras/*, gen/*')],
         technique='exception-flow analysis (interval and shape abstract interpretation)'),
    dict(id='C03', title='Copies and replicas carry exactly the data of their original',
         statement='An ellipsoid or hyperplane holds the center, shape, normal, shift, tolerances and plot resolutions it was '
                   'built from, and a copy or replica of it carries the same data and class. Copying or replicating a '
                   'collection gives a collection of the same (or the requested) array shape, element by element in the same '
                   'order, whatever the mixture of dimensions and settings of its elements.',
         over=['inputs'],
         quant='all centers, shapes, normals and shifts in the abstract boxes, all tolerances and resolutions, dimensions 1 to '
               '4, all forms of collections up to three array axes',
         why='Tests compare a few fixed objects with equality that ignores tolerances and resolutions; a dropped setting, a '
             'swapped pair or an order depending on the collection shape goes unnoticed.',
         files=[ELL, AELL, ABAS, HYP], mech=[('_get_single_copy', 'Ellipsoid.py, Hyperplane.py'),
                                             ('get_copy, rep_mat, from_rep_mat', 'ABasicEllipsoid.py, Ellipsoid.py, '
                                                                                 'Hyperplane.py')],
         technique='global value numbering by abstract interpretation'),
    dict(id='C04', title='The dictionary form is faithful and round-trips',
         statement='Converting objects to dictionaries yields, for each element in order and in the shape of the collection, '
                   'exactly its data (and its tolerances and resolutions when asked for), with a name, description and transform for '
                   'every field; building objects from such dictionaries restores the same data, properties and collection shape. '
                   'A hyperplane is reported with unit normal and scaled shift, with one fixed sign convention.',
         over=['inputs'],
         quant='all data in the abstract boxes, both values of the property flag, all forms of collections, dimensions 1 to 3',
         why='Tests compare a few hand-written dictionaries; a field lost, or a scale or sign wrong for some normals only, '
             'needs all data to be considered.',
         files=[ELL, HYP, ABAS], mech=[('to_dict, from_dict', 'Ellipsoid.py, Hyperplane.py')],
         technique='global value numbering by abstract interpretation'),
    dict(id='C05', title='Equality is honest, symmetric and position-wise',
         statement='Two ellipsoids (or hyperplanes) compare unequal when they differ by more than the tolerance in any single '
                   'component of their data, or in any property when properties are included, and equal when they differ by '
                   'less; the stricter of the two objects\' tolerances counts and the order of the operands does not matter. Collections '
                   'are compared position by position (one object against each of many), all forms of the comparison '
                   'agree, and the report is empty exactly when everything is equal.',
         over=['inputs'],
         quant='every component of the data, differences of either sign above and below the tolerances, every position in '
               'collections of every form, dimensions 1 to 3',
         why='Tests compare fixed pairs that differ grossly; a component, position, property or operand order that is ignored '
             'shows only on pairs differing there and nowhere else.',
         files=[ABAS, DICT, COMMON, ELL, HYP], mech=[('_is_equal_internal', 'ABasicEllipsoid.py'),
                                                    ('dict_compare_vec', 'gen/dict/dict.py'),
                                                    ('abs_rel_compare', 'gen/common/common.py')],
         technique='interval abstract interpretation of object pairs'),
    dict(id='C12', title='Changing defaults later does not reach existing objects',
         statement='Once an ellipsoid or hyperplane exists, changing the default tolerances or plot resolutions changes '
                   'neither its properties nor the outcome of any operation on it, nor those of its copies and replicas. Objects '
                   'created afterwards take the defaults of that moment for every property not given explicitly, and '
                   'the explicit value wins.',
         over=['histories', 'configurations', 'inputs'],
         quant='every property, every operation on existing objects, every value of the old and new defaults in the boxes',
         why='Tests never change the defaults in mid-course; an operation that consults the global default instead of the '
             'object gives the same answer until someone does.',
         files=[ELL, AELL, ABAS, HYP, PROP, PARSE], mech=[('properties stored at construction', 'Ellipsoid.__init__, '
                                                                                               'Hyperplane.__init__'),
                                                          ('per-object tolerances', 'ABasicEllipsoid.get_abs_tol, '
                                                                                    'get_rel_tol')],
         technique='two-run comparison of value-number pictures (history analysis)'),
    dict(id='C13', title='The configuration is a faithful store; options parse exactly',
         statement='Each configuration getter returns its own option, each setter changes its own option and nothing else, '
                   'the dictionary of options is an independent full picture, and initialisation sets the documented '
                   'defaults. Parsing options returns for each requested name the given value or else the configured '
                   'one, in the requested order, leaves the other keywords over and the arguments untouched, and rejects '
                   'unknown names and inadmissible values wherever they come from.',
         over=['histories', 'configurations', 'inputs'],
         quant='all values of all options, all subsets and orders of requested and given names, sequences of setters',
         why='Tests set one or two options and read them back; mixed-up options, shared dictionaries or an order that is '
             'right by accident need every combination.',
         files=[PROP, PARSE, COMMON], mech=[('option store', 'Properties.__get_option, __set_option'),
                                            ('parse_prop', '_ParseProp.py')],
         technique='global value numbering by abstract interpretation'),
    dict(id='C14', title='Scalar characteristics of the objects are the mathematical ones',
         statement='For each ellipsoid of a collection, in order, trace, volume, extreme eigenvalues, dimension, rank, degeneracy '
                   'and emptiness are those of its shape matrix by definition, degeneracy and emptiness being judged with the '
                   'element\'s own tolerance; a degenerate ellipsoid has volume zero. Every stored property is read back '
                   'per element, and its aggregate over the collection is the minimum or whatever function was asked for.',
         over=['inputs'],
         quant='all centers and symmetric positive (semi)definite shapes in the abstract boxes, dimensions 1 to 5, collections of '
               'every form including mixed dimensions, tolerances on either side of the small semi-axis',
         why='Tests compare a few matrices, mostly of one dimension; a formula that is right for those dimensions, for diagonal '
             'shapes or for one element only is not noticed.',
         files=[ELL, AELL, ABAS, HYP, CORE, EG], mech=[('trace, volume, min_eig, max_eig, dimension, is_degenerate', 'Ellipsoid.py'),
                                                       ('get_property and its aggregates', 'ABasicEllipsoid.py'),
                                                       ('ell_volume', 'gras/geom/ell/ell.py')],
         technique='global value numbering by abstract interpretation (polynomial normal forms)'),
    dict(id='C15', title='Negation and projection are the exact linear images',
         statement='Negating an ellipsoid gives the opposite center and the same shape, negating a hyperplane the opposite normal and '
                   'shift, and negating twice gives the original. Projecting onto orthogonal basis vectors of any lengths gives '
                   'the coordinates of center and shape in the normalised basis and keeps the tolerances and resolutions; '
                   'this holds for every element of a collection of any shape, in order, and the in-place projection turns exactly '
                   'the given objects into what the copying one returns.',
         over=['inputs'],
         quant='all centers and shapes in the abstract boxes, dimensions 1 to 4, all dimensions of the subspace, axis-parallel, '
               'permuted, sign-changed and rotated bases with arbitrary lengths',
         why='Tests project a few ellipsoids on coordinate planes; unnormalised, rotated or reordered bases and arrays of '
             'objects are the cases where a transposition or a missing factor shows.',
         files=[ELL, AELL, HYP, ABAS], mech=[('__neg__, uminus', 'Ellipsoid.py, Hyperplane.py, ABasicEllipsoid.py'),
                                             ('_get_single_projection, projection, get_projection', 'Ellipsoid.py, AEllipsoid.py')],
         technique='global value numbering by abstract interpretation (polynomial normal forms)'),
    dict(id='C16', title='Minkowski sum approximations are centered and tight in each direction',
         statement='For every direction, in order, the external and the internal ellipsoidal approximation of the sum of '
                   'ellipsoids are centered at the sum of the centers, have symmetric shape and the support value of the exact sum '
                   'in that direction. The external one has the shape that is the known optimal combination of the operands\' shapes, and a '
                   'single operand is its own approximation.',
         over=['inputs'],
         quant='one to three operands with all centers and shapes in the abstract boxes, dimensions 1 to 3, one to three directions '
               'of either sign, given as a vector or as matrix columns, collections of every form',
         why='Tests compare numbers for fixed operands; tightness for all directions and independence of the number and order of operands and '
             'of the form of the arguments cannot be sampled.',
         files=[ELL, AELL, GEN, LA], mech=[('minksum_ea, minksum_ia', 'Ellipsoid.py'), ('ml_orth_transl', 'gras/la/la.py')],
         technique='global value numbering with random interpretation of terms'),
    dict(id='C24', title='Support values, support points and boundary points are exact',
         statement='The support function of an ellipsoid in a direction is the inner product with the center plus the root of the quadratic '
                   'form, its support point lies on the boundary and attains that value, and results keep the pairing and the array '
                   'shape of ellipsoids and directions; a direction without extent yields the center. Boundary curves and '
                   'surfaces consist of exactly as many points as requested or configured, all on the boundary, in the order of the directions, '
                   'with matching directions, support values and closed curve.',
         over=['inputs', 'configurations'],
         quant='all centers and shapes in the abstract boxes (diagonal, full, degenerate), dimensions 1 to 4, one or many directions '
               'against one or many ellipsoids, array forms up to three axes, resolutions and factors',
         why='Tests compare a few support values; a wrong pairing, a transposed root or a lost point shows only for asymmetric shapes or '
             'particular forms and counts.',
         files=[ELL, AELL, CORE, EG, GEOM, SUP, TRI, GEN], mech=[('rho, get_boundary, get_rho_boundary and the by-factor forms', 'Ellipsoid.py'),
                                                         ('rho_mat', 'gras/geom/ell/ell.py'),
                                                         ('circle_part, sphere_part', 'gras/geom/geom.py')],
         technique='global value numbering with random interpretation of terms'),
    dict(id='C26', title='Polars, quadratic forms and inverses are exact',
         statement='The polar of an ellipsoid containing the origin is the ellipsoid of the linear functionals that do not exceed one on '
                   'it, position by position, and the polar of the polar is the original. Quadratic forms of vectors, centered or not and direct '
                   'or inverse in either way of inverting, have the value of the defining formula for every vector '
                   'orientation, and the matrix inverse is the inverse.',
         over=['inputs'],
         quant='all centers and shapes in the abstract boxes, dimensions 1 to 4, every mode, one or many vectors, collections of every form',
         why='Tests have a few fixed examples, mostly centered at zero or with diagonal shapes, where several wrong formulas '
             'coincide with the right one.',
         files=[ELL, AELL, EG], mech=[('polar, _get_scalar_polar_internal', 'Ellipsoid.py, AEllipsoid.py'),
                                      ('quad_mat, inv_mat', 'gras/geom/ell/ell.py')],
         technique='global value numbering with random interpretation of terms'),
    dict(id='C27', title='Containment and comparison predicates are right, element by element',
         statement='Whether points lie inside the union or intersection of ellipsoids or on hyperplanes, whether hyperplanes are '
                   'parallel, and whether one shape contains another is answered according to the definition wherever the margin '
                   'exceeds the tolerance, for either orientation of normals and every pairing of one or many operands. '
                   'Matrix predicates (symmetric, positive definite or semidefinite, non-degenerate) are true exactly when '
                   'the defining quantities pass the given tolerance.',
         over=['inputs'],
         quant='points and operands inside and outside by a margin, at every position of collections of every form, both modes, '
               'infinite components, tolerances on either side, dimensions 1 to 3',
         why='Tests ask for a handful of clear cases; a predicate that mixes up union and intersection, a pairing, a '
             'sign or whose tolerance is used passes unless the deciding element stands at a particular position.',
         files=[ELL, AELL, HYP, CORE, LA], mech=[('is_internal, is_bigger', 'Ellipsoid.py'),
                                                 ('contains, is_parallel', 'Hyperplane.py'),
                                                 ('is_mat_pos_def, is_mat_symm, is_mat_not_deg', 'gras/la/la.py')],
         technique='interval abstract interpretation with global value numbering'),
    dict(id='C17', title='Roots, regularisation and joint diagonalisation meet their equations',
         statement='The root of a positive semidefinite matrix is symmetric, positive and squares to the matrix, eigenvalues negative within '
                   'the tolerance counting as zero; regularisation raises exactly the eigenvalues (or singular values) below the '
                   'tolerance to it and keeps all others and the eigenvectors. Joint diagonalisation turns the first matrix into the identity '
                   'and the second into a diagonal one; elementwise roots, real parts, products of matrices and the '
                   'fusion coefficient have their closed forms.',
         over=['inputs'],
         quant='all matrices of the abstract boxes (diagonal, rotated, full, degenerate) of dimensions 1 to 4, every pattern of eigenvalues '
               'below and above the tolerance, scalars and arrays of every form',
         why='A test compares with numbers computed once; a transposed factor, a wrong side of the tolerance or a wrong order of '
             'eigenvalues shows only for asymmetric bases and particular patterns.',
         files=[LA, GEN, ELL], mech=[('sqrtm_pos, reg_pos_def_mat, reg_mat', 'gras/la/la.py'), ('sqrt_pos', 'gras/gen/gen.py'),
                                     ('_regularize', 'Ellipsoid.py'), ('ell_fusion_lambda, ell_sim_diag', 'core.py')],
         technique='global value numbering with random interpretation of terms'),
    dict(id='C18', title='Surface meshes are consistent and refine exactly',
         statement='The edges of a triangle mesh are exactly the pairs of neighbouring vertices, attached to exactly the faces that contain '
                   'them. A refinement, full, restricted to long edges or repeated until a size is reached, keeps the given vertices, adds exactly the midpoints of the '
                   'split edges and replaces every touched face by faces of the same orientation that cover it without gaps. Sphere and tube '
                   'triangulations are closed, outward oriented and of the requested size, mesh comparison finds exactly the equal meshes, '
                   'sorted rows come with the permutations that produce them, and boundary points reproduce the support values they were computed from.',
         over=['inputs'],
         quant='meshes of every combinatorial kind (open, closed, disconnected, any vertex order), vertices anywhere, every set of long '
               'edges, every depth and tolerance explored',
         why='Tests refine one or two meshes; a flipped face, a missed seam or a wrong index vector shows only for particular '
             'combinations of neighbouring long edges or orders of the vertices.',
         files=[TRI, GEN, SUP], mech=[('get_face_edge_info, map_face_2_edge, shrink_face_tri, sphere_tri, sphere_tri_ext, ellipsoid tubes', 'gras/geom/tri/tri.py'),
                                      ('sort_rows_tol', 'gras/gen/gen.py'), ('sup_2_boundary_2, sup_2_boundary_3', 'gras/geom/sup/sup.py')],
         technique='constant propagation over enumerated meshes with global value numbering of the vertices'),
    dict(id='C19', title='Geometric differences have the exact support values',
         statement='For two sets given by their support values along directions in the plane or in space, the geometric difference has in every '
                   'direction the exact support value of the largest set whose sum with the second one stays within the first along these '
                   'directions: the difference of the two values where the direction is active, and the value implied by the neighbouring '
                   'active directions where it is not. Neither the start nor the turn of the list of directions (any order in space), their lengths, '
                   'the scale of the sets, nor the orientation of the value vectors matters.',
         over=['inputs'],
         quant='every pattern of active and inactive directions explored (also around the end of the list), both turns, lengths and scales over '
               'several decades, faces of the hull in any order',
         why='The tests use two regular grids whose hull happens to list its edges in increasing order; inactive directions around the end of '
             'the list, edges listed backwards and large sets are never met.',
         files=[SUP], mech=[('sup_geom_diff_2d, sup_geom_diff_3d', 'gras/geom/sup/sup.py')],
         technique='interval analysis of orientations with global value numbering of the support values'),
    dict(id='C20', title='Closeness of arrays and dictionaries is judged component by component',
         statement='Two numeric arrays are close exactly when every component differs by at most the absolute tolerance or, if a relative '
                   'one is given, by at most that relative to the mean of the magnitudes, and NaNs and infinities stand in the same places; the '
                   'largest differences are reported. Dictionaries and collections of them are equal exactly when field names, types, sizes and '
                   'values agree at every depth and position within the given tolerances, in either order of the operands; the report is empty '
                   'exactly for equal ones and names the deviating field. Membership tests find exactly the elements that occur, and where.',
         over=['inputs'],
         quant='numbers of every kind, arrays of every shape, a deviation of either sign at every position, every special value, every kind '
               'of field at every depth, tolerances on either side',
         why='Tests compare a handful of dictionaries; a position, depth, kind of value, sign or operand order that is skipped shows only for a '
             'pair deviating just there.',
         files=[COMMON, DICT], mech=[('abs_rel_compare, is_member', 'gen/common/common.py'), ('dict_compare, dict_compare_vec', 'gen/dict/dict.py')],
         technique='interval abstract interpretation with global value numbering'),
    dict(id='C25', title='Stacks of matrices are processed slice by slice',
         statement='Every operation on stacks of matrices (transposing, symmetrising, triangular parts, inverting, roots, products of two and '
                   'three factors, products with vectors, quadratic forms and their inverses, evaluation of functions and expressions over time) '
                   'gives in each slice of the result exactly the matrix operation applied to that slice of the arguments. A single matrix or '
                   'a one-slice operand counts for every slice, a 1-by-1 factor multiplies as a number, and dense, sparse and spectral evaluation '
                   'give the same values.',
         over=['inputs', 'configurations'],
         quant='stacks of no, one, two and three slices with arbitrary entries, rectangular and square, sizes 1 to 3, every mode and flag',
         why='Tests use one or two stacks per operation; a mixed-up axis, slice or transposition stays invisible for symmetric, square or '
             'one-slice data.',
         files=[GEN], mech=[('MatVector, SquareMatVector, SymmetricMatVector', 'gras/gen/gen.py')],
         technique='global value numbering with random interpretation of terms'),
    dict(id='C28', title='Orthogonal translations map directions exactly',
         statement='Every orthogonal matrix computed for a pair of directions is orthogonal and turns the first direction into the second, '
                   'whatever their lengths, signs and orientation and also for equal, opposite or collinear ones. The variants that maximise a trace '
                   'or align a further pair of directions attain the maximum among such matrices, and a computed orthogonal basis spans '
                   'the given vectors in their order with the given orientation.',
         over=['inputs'],
         quant='all pairs of vectors of the abstract boxes and the special positions, dimensions 1 to 4, flat, row and column vectors, '
               'many directions at once',
         why='Tests rotate a few fixed vectors; orthogonality and the mapping must hold for all of them, and the special positions are '
             'each handled by a branch of their own.',
         files=[LA], mech=[('orth_transl, orth_transl_qr, orth_transl_haus, orth_transl_max_tr, orth_transl_max_dir, ml_orth_transl, ell_valign',
                            'gras/la/la.py, core.py')],
         technique='global value numbering with random interpretation of terms'),
]

NOT_APPLICABLE = []

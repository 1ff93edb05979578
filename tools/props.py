NN = 'escnn/nn/modules'

P('C01', 'Layers reject inputs that are not of their declared input type',
  'Every equivariant layer refuses, before producing any output, a feature field whose type differs from the input type the layer declares. '
  'The comparison covers the whole type, for every one of its inputs when the layer takes several.',
  ['inputs', 'configurations'], 'all field types of the argument, all layers, all code paths through the forward pass',
  'the suite feeds each layer fields of its own type; the rejection path is exercised for almost no layer',
  [NN, 'escnn/nn/geometric_tensor.py'],
  [('type guard of the forward pass', 'forward() of every EquivariantModule subclass'), ('type equality', 'escnn/nn/field_type.py')],
  'abstract interpretation of every forward(): must-precede (dominating guard) analysis',
  'every forward of every concrete layer is interpreted abstractly (helpers inlined) and the guard in_type == input.type must dominate each return and each use of the data')

P('C02', 'Layers emit the declared output type and carry sampling coordinates along',
  'Every equivariant layer wraps its result with exactly the output type it declares. '
  'Layers that act on each point separately return the coordinates of their input, and layers that change the sampling grid never return stale coordinates.',
  ['inputs', 'configurations'], 'all inputs, all layer configurations, all code paths through the forward pass',
  'tests inspect numerical values for a few configurations, nearly always without coordinates and without looking at the emitted type',
  [NN], [('construction of the result', 'forward() of every EquivariantModule subclass')],
  'abstract interpretation of every forward(): provenance of the type and coordinate operands of each returned field',
  'the constructor operands of every returned field are traced to their definitions on every path')

P('C03', 'Predicted output shapes equal the shapes the forward pass produces',
  'For every layer and every configuration (kernel size, stride, padding, dilation, rounding mode, target size, any number of spatial axes), the output shape a layer predicts for an input shape is the shape its forward pass yields. '
  'Containers predict by composing the predictions of their parts.',
  ['inputs', 'configurations'], 'all input shapes and all layer configurations',
  'tests call the prediction for a handful of configurations and most configuration values (per-axis padding, ceil rounding, 3-D) are never sampled',
  [NN], [('shape prediction', 'evaluate_output_shape() of every EquivariantModule subclass'), ('operators applied', 'forward() of the same classes')],
  'symbolic shape-law comparison: polynomial/floor-quotient normal form of the prediction against the law of the operator applied by forward',
  'both the prediction and the operator operands are extracted from source and compared in a canonical arithmetic normal form, axis by axis')

P('C04', 'Exported modules keep the configuration and weights of the layer they come from',
  'When an equivariant layer is exported to a plain PyTorch module, the exported module is the operator the layer applies in evaluation mode, with every setting (kernel size, stride, padding and its mode, dilation, groups, rounding, output padding, slope, epsilon, ...), every expanded filter, bias and running statistic carried over, each copied to the channels of the field it belongs to. '
  'A layer or configuration that has no equivalent plain module refuses to be exported.',
  ['inputs', 'configurations'], 'all layer configurations and all learned states',
  'export tests compare numbers for one or two configurations per layer; settings left at their defaults are carried over by accident',
  [NN], [('export', 'export() of every EquivariantModule subclass'), ('operator applied', 'forward() of the same classes')],
  'abstract interpretation of export() and forward(): operand-by-operand agreement of the operator constructed and the operator applied',
  'every operator option of the exported module is compared with the operand used by forward; every parameter and statistic must be written from its own source with matching channel indices')

P('C05', 'Evaluation-mode filters are faithful to the weights and never outlive the mode',
  'Convolutions expand their filters once when switched to evaluation mode. A forward pass right after the switch gives what the training-mode forward pass would give for the same weights. '
  'Switching modes reaches every submodule, returns the module, and leaving evaluation mode discards the expanded copies; while training, filters are always rebuilt from the current parameters and gradients reach them.',
  ['histories', 'configurations'], 'all sequences of train/eval switches, weight updates and forward passes',
  'tests switch the mode once or twice with fixed weights; stale copies only show after an update between two switches',
  [NN + '/conv', NN + '/linear.py', NN + '/equivariant_module.py', NN + '/pointconv'],
  [('mode switch', 'train() of every module that overrides it'), ('use of the copies', 'forward() of the convolutions'), ('expansion', 'expand_parameters()')],
  'typestate analysis over train()/forward(): which value each mode reads, and must-delete on leaving evaluation mode',
  'train() and forward() of every module are interpreted abstractly in both modes; the term read in evaluation mode must equal the term built in training mode, and every exit of train() must hand the mode on')

P('C06', 'Caches never hand out a result that was computed for other arguments',
  'Whatever the library memoizes (irreps, representations, kernel bases, subgroups, intertwiners, exported tables, results cached on disk), two requests that would compute different results are never served by the same cache entry, and a cached object is stored under the key it is looked up with. '
  'Caches whose key is a name chosen by the caller treat the name as the identity of the object.',
  ['inputs', 'histories'], 'all arguments and all orders of requests in one process or across processes',
  'a wrong hit needs two requests that collide in the key, in one process and in the right order; tests make one request each',
  ['escnn/group', 'escnn/gspaces', 'escnn/kernels', 'escnn/nn'],
  [('memo tables', 'every lookup-or-compute pattern and every cached function')],
  'dataflow analysis of every memo table: the parameters the stored value depends on must be determined by the key; agreement of lookup and store keys; injectivity of composed name keys',
  'every lookup-or-compute site found in source is an obligation: dependence of the stored term on parameters and on mutable state versus what the key determines')

P('C07', 'Equality and hashing of library objects agree and cover all that matters',
  'Two groups, elements, representations, spaces, field types, kernel bases or descriptions compare equal only if they are of the same kind and every setting they were constructed with agrees, and every object equals itself. '
  'Objects that compare equal have equal hashes, and hashes are computed from values, so they can be used as dictionary keys.',
  ['inputs', 'configurations'], 'all pairs of objects of the library',
  'tests compare a few objects with themselves; wrongly equal or wrongly unequal pairs need two objects that differ in exactly one setting',
  ['escnn/group', 'escnn/gspaces', 'escnn/kernels', 'escnn/nn/field_type.py'],
  [('equality', '__eq__ of every class'), ('hash', '__hash__ of every class')],
  'sibling agreement of __eq__, __hash__ and __init__: coverage of the constructor settings by the comparison and of the hash by the compared attributes',
  'every __eq__/__hash__ pair is interpreted abstractly; constructor settings not reaching the comparison, attributes hashed but not compared, unguarded kinds and identity hashes are violations')

P('C08', 'Group elements obey the group axioms in every parametrization',
  'Composition of group elements is associative, has the identity as neutral element and inverses, whatever parametrizations the operands are given in and the result is requested in. '
  'Each operand is read in its own parametrization, each result (products, inverses, conversions, sampled and grid elements) is expressed in the parametrization it is labelled with, and converting to another parametrization and back gives the same element. Groups declare themselves commutative or continuous exactly if they are.',
  ['inputs', 'configurations'], 'all elements, all pairs of parametrizations, all groups of any order',
  'tests sample a few elements, nearly always in the default parametrization and with both operands in the same one',
  ['escnn/group/groups'],
  [('composition and inversion', '_combine, _inverse, _equal of every group'), ('conversion', '_change_param and its helpers'), ('sampling', 'sample(), grid() and element()')],
  'abstract interpretation with parametrization tags (typestate of each value) and decision of the group axioms in an algebraic normal form of the extracted formulas',
  'the formulas of every group are extracted for every combination of parametrizations and compared in a canonical trigonometric/modular form (planar groups) or as words of rotations (3-D groups); rotation conversions are trusted to scipy')

P('C09', 'Planar irreps and O(3) signs are homomorphisms of their declared type',
  'Every irreducible representation that SO(2), O(2), C_N or D_N builds, for any order and any frequency, maps products of elements to products of matrices and the identity to the identity matrix; '
  'its character function is the trace of its matrices, and its declared size, type (real, complex), frequency, identifier and admitted non-linearities fit it. Frequencies that are no irrep of the group are refused. '
  'The irreps of O(3) are those of SO(3) times the sign their parity label declares.',
  ['inputs', 'configurations'], 'all group orders, all frequencies, all elements',
  'tests evaluate a few elements of a few small groups; the boundary frequencies (0, N/2) of odd and even orders and signs on composed elements are rarely all sampled',
  ['escnn/group/groups', 'escnn/group/irrep.py'],
  [('irreps', 'irrep() and the builders of SO2, O2, CyclicGroup, DihedralGroup, O3'), ('endomorphism basis', 'escnn/group/irrep.py')],
  'formula extraction by abstract interpretation, then decision of the homomorphism, trace and commutant laws in a canonical trigonometric normal form',
  'the matrix entries are extracted as trigonometric polynomials of symbolic elements; small orders are enumerated for the boundary frequencies')

P('C10', 'Subgroups of the planar groups are included, recognised and restricted alike',
  'For SO(2), O(2), C_N and D_N and each of their subgroups: the inclusion of the subgroup is a homomorphism, mapping an element into the group and back gives the same element, exactly the elements of the subgroup are recognised as such, '
  'a subgroup of a subgroup is identified as the subgroup of the group that it is, and an irrep restricted to a subgroup decomposes as declared: change of basis and listed irreps reproduce its matrices on the included elements.',
  ['inputs', 'configurations'], 'all group orders, subgroup identifiers, axes and elements; all irreps up to the enumerated orders',
  'tests loop over some subgroups of a few small groups, mostly with the mirror axis at its default',
  ['escnn/group/groups'],
  [('inclusion and membership', '_subgroup and the maps it returns'), ('identifiers', '_combine_subgroups'), ('restriction', '_restrict_irrep')],
  'formula extraction by abstract interpretation with symbolic orders, axes and elements; laws decided in a modular/trigonometric normal form',
  'inclusion, membership and identifier laws are decided for symbolic orders and axes; restriction for all irreps and subgroups of the groups enumerated (orders up to 12 in the thorough run) with symbolic elements')

P('C11', 'Layers refuse field types on which they would not be equivariant',
  'A layer can only be built if its field types make it equivariant: every field of a type that a non-linearity, dropout or pooling is applied to admits it, gates are trivial fields, input and output live on the same base space of the kind and dimension the layer works on, '
  'grouped convolutions are only built from types made of equal groups, and modules that are chained, merged or run side by side fit together.',
  ['inputs', 'configurations'], 'all field types and all constructor arguments of every layer',
  'tests build layers from types that suit them; one unsuitable field among many is hardly ever sampled',
  [NN], [('constructor guards', '__init__ (and add_module) of every EquivariantModule subclass')],
  'abstract interpretation of every constructor: universally quantified guard facts that dominate its completion',
  'the facts established on every path to the end of a constructor, quantified over the fields of a type, must contain the guard the layer needs')

P('C12', 'Operands of different groups, base spaces or types are never combined',
  'Group elements, representations, homogeneous spaces, kernel bases, field types and feature fields are combined (composed, summed, multiplied, restricted, induced, evaluated, concatenated, added) only if they belong to the same group, base space or type; fields also only if they are sampled at the same coordinates. Anything else is refused rather than mixed. '
  'A feature field is only built from data whose channels, axes and coordinates are what its type prescribes.',
  ['inputs'], 'all operands of the operations listed',
  'tests combine operands that belong together; a mixed pair that happens to have matching shapes goes unnoticed',
  ['escnn/group', 'escnn/gspaces', 'escnn/kernels', 'escnn/nn/field_type.py', 'escnn/nn/geometric_tensor.py'],
  [('operations', 'Representation, Group, GroupElement, HomSpace, DirectProductGroup, GSpace, kernel bases, FieldType, GeometricTensor')],
  'abstract interpretation of each operation: dominating equality facts at every normal completion and in-place update',
  'every return and every in-place update of the operations must be dominated by the equality of what the operands belong to, through helpers and loops')

P('C13', 'Representations admit only the non-linearities that commute with them',
  'A representation the library builds (irreps, regular, quotient and induced representations, direct sums, tensor products, restrictions, changes of basis) only declares to support a pointwise, norm or gate non-linearity if that is equivariant for it: '
  'pointwise needs permutations of the channels, norms need orthogonal matrices, gates need the trivial representation. In particular a derived representation declares no more than what it is derived from justifies, and granting a tag to one representation does not grant it to another.',
  ['inputs', 'configurations'], 'all representations that can be built with the library, in any order of construction',
  'layers trust the declaration; tests apply non-linearities to regular representations and irreps, never to changed bases or products of arbitrary factors',
  ['escnn/group'],
  [('declared support', 'supported_nonlinearities of every representation constructed'), ('triviality', 'Representation.is_trivial')],
  'type-system-like dataflow over the tags: every tag that reaches a constructor is traced to the conditions that justify it',
  'each construction site is interpreted abstractly, the tag set is decomposed into literal and inherited tags with their path conditions and compared with the table of what each construction preserves')

P('C14', 'State, statistics and randomness follow the mode of a layer',
  'In evaluation mode the forward pass of a layer changes nothing of the layer and draws no random numbers: the same input gives the same output any number of times, and tracked running statistics, not those of the batch, normalise. '
  'While training, each running statistic r moves to (1-m) r + m s for the statistic s of the batch and the momentum m (the cumulative average without momentum), every pass is counted once, and dropout draws its mask. '
  'Resetting statistics or parameters restores the values they were constructed with, and works in every configuration of the layer.',
  ['histories', 'configurations'], 'all inputs, all layer configurations, all sequences of mode switches, forward passes and resets',
  'tests compare values for fixed statistics or a single pass; a write in evaluation mode or a wrong update shows only over a history',
  [NN], [('mode dependence', 'forward() of every EquivariantModule subclass'), ('resets', 'reset_running_stats(), reset_parameters()')],
  'effect analysis by abstract interpretation of forward() with the mode fixed; update formulas compared in a polynomial normal form',
  'writes, random draws and statistics of every forward are collected per mode; resets are compared with the constructor; access to conditional state must be guarded by its condition')

P('C15', 'Nothing handed to the library is modified behind the caller\'s back',
  'Functions, constructors and layers leave their arguments as they were: no tensor, array, list or dictionary passed in is written to, except by operations that say so (in-place layers built with inplace=True, parameters named out, weight initialisers, in-place operators). '
  'Operations on groups, representations, field types, kernel bases and feature fields return new values and do not change the observable state of their operands.',
  ['inputs', 'histories'], 'all arguments, aliasing patterns and sequences of calls',
  'a test looks at the result and throws the arguments away; the damage shows when the caller uses them again',
  ['escnn/group', 'escnn/gspaces', 'escnn/kernels', 'escnn/nn'],
  [('effects', 'every function and method of the package')],
  'interprocedural effect (alias/ownership) analysis: every write is traced to the storage it reaches',
  'each in-place update, store and mutating container call is followed through views and aliases to its root; a root that is an argument or visible state of a value object is a violation unless the operation is declared in-place')

P('C16', 'Options reach what they configure',
  'Every option of a layer, kernel-basis builder, space or factory has the effect it is named for: it is kept under its own name, handed on unchanged to the constructors, factories and operators that take an option of that name, and applied in the forward pass; '
  'it is never dropped, replaced by another option or by a default. A number given for a per-axis option stands for every axis, and a filter given by the caller is combined with the built-in ones so that only what passes both remains.',
  ['configurations'], 'all combinations of options of all public constructors, factories and kernel-space builders',
  'tests leave most options at their defaults, where a dropped or crossed option cannot be told from the right one',
  ['escnn/nn', 'escnn/kernels', 'escnn/gspaces', 'escnn/group'],
  [('options', 'constructors, factories and kernel builders of the package'), ('use', 'forward() of the layers')],
  'provenance (def-use) analysis of every option by abstract interpretation',
  'each option is followed from the parameter to every call that takes an option of that name, to the attribute that keeps it and to the operator of forward; what arrives must be computed from that option')

P('C17', 'Product groups are formed component by component',
  'In a direct product (and a double group) products, inverses, comparisons, membership, conversions, identity, elements, generators and grids are formed component by component, each component by its own factor group and in its own parametrization; '
  'the subgroups are products of subgroups with the inclusion and restriction of each factor, restricting to one factor refuses elements that are not the identity in the other, and the irreps are the tensor products of those of the factors with the matching character. '
  'The product is commutative only if both factors are, and continuous if one of them is.',
  ['inputs', 'configurations'], 'all pairs of factor groups, elements, parametrizations, subgroups and irreps',
  'tests build few products, often with equal factors, for which a swapped component does not show',
  ['escnn/group/directproduct.py', 'escnn/group/doublegroup.py'],
  [('operations', 'DirectProductGroup, DoubleGroup'), ('irreps', '_build_irrep and its helpers')],
  'component-provenance typing by abstract interpretation: every value is labelled with the factor it is made of',
  'every call of a factor group, every pair that is built and every helper that receives components is checked against these labels on every path')

P('C18', 'G-spaces provide the group, action and kernels they are named for',
  'Every G-space has as fiber group the subgroup of O(d) it is built for (with the order, axis and conjugation it is given), acts on the points by the standard representation of O(d) restricted to that group, restricts to the subgroup asked for with the inclusion and restriction maps of the fiber group, '
  'and solves for the kernels of this very group; each factory builds the space of the group it is named after, the representations asked of a space are those of its fiber group, and each kernel solver restricts the harmonics of O(d) to the group it is named after.',
  ['inputs', 'configurations'], 'all spaces, orders, axes, conjugations and subgroup identifiers',
  'tests build each space with one or two orders and with the mirror axis and conjugation at their defaults',
  ['escnn/gspaces', 'escnn/kernels/r2.py', 'escnn/kernels/r3.py'],
  [('spaces', 'GSpace2D, GSpace3D, GSpace0D and their factories'), ('kernel solvers', 'kernels_*_act_R2, kernels_*_act_R3')],
  'abstract interpretation with case enumeration of the subgroup identifiers',
  'the group, maps, action and solver chosen are extracted for every form of subgroup identifier the space accepts and compared with the identifier itself')

P('C19', 'Feature fields are transformed, split, restricted and joined field by field',
  'The representation of a field type stacks those of its fields in order, and each field starts where the channels of the fields before it end. Transforming a feature field by a group element applies the representation of its type to the channels and the action of the base space, of the same element, to the points. '
  'Selecting, sorting, grouping, restricting, adding, splitting, slicing and joining fields keep data, type and coordinates in step: the channels of a piece are those of the fields its type lists. Sums, differences and multiples of fields are those of their data.',
  ['inputs', 'configurations'], 'all lists of fields of any sizes, all indices and breakpoints, all group elements',
  'tests use types of equal or ascending field sizes and slices from the start, for which a wrong offset or order does not show',
  ['escnn/nn/field_type.py', 'escnn/nn/geometric_tensor.py'],
  [('types', 'FieldType'), ('fields', 'GeometricTensor')],
  'abstract interpretation with prefix-sum, block-diagonal and slice normal forms',
  'the value returned by every operation is extracted symbolically, with loops summarised as prefix sums and stacks, and compared with the offsets and order of the fields')

P('C20', 'Derived representations combine the irreps and bases of what they derive from',
  'A representation evaluates to its change of basis times the block-diagonal matrix of its irreps times the inverse. Direct sums, tensor products, restrictions, changes of basis, disentangled blocks, regular and induced representations combine the bases, inverses and irreps of their operands in the same order; characters are the traces. '
  'Bases of intertwiners map between the bases of the input and of the output, endomorphism bases of irreps span the reals, complex numbers or quaternions, and two elements are in the same coset exactly if the inverse of one times the other lies in the subgroup. '
  'Irreps are identified alike whether given by object, name or identifier.',
  ['inputs', 'configurations'], 'all representations as operands, with any change of basis, and all group elements',
  'tests derive from irreps and regular representations, whose bases are orthogonal or trivial, so a transposed, swapped or missing factor does not show',
  ['escnn/group/representation.py', 'escnn/group/group.py', 'escnn/group/homspace.py', 'escnn/group/irrep.py'],
  [('derived representations', 'directsum, change_basis, restrict_representation, _tensor_product, disentangle, build_*_representation'), ('intertwiners', 'homomorphism_space, endomorphism_basis'), ('cosets', 'HomSpace')],
  'formula extraction by abstract interpretation; ordered matrix products, block-diagonal stacks and index contractions compared in normal form',
  'the change of basis, its inverse, the irreps and the character passed to every constructed representation are extracted as matrix formulas and compared with the derivation they stand for')

P('C21', 'Filters are assembled block by block from weights and sampled basis',
  'The weights of a layer are read in the order (pair of representations, output field, input field, basis element), a weight each; the basis descriptions list them in that order with the fields and irreps they connect. '
  'The filter entry of an output channel, an input channel and a point is the sum over basis elements of weight times sampled element; the block of a pair of representations goes to the rows of those output fields and the columns of those input fields, whether their channels are adjacent or not. '
  'Messages computed directly equal the expanded filter applied to the input, for any number of groups. Biases are added along the trivial irreps of each field only.',
  ['inputs', 'configurations'], 'all lists of input and output fields, any order and multiplicity, all weights, points and numbers of groups',
  'tests use few fields, often of one kind or sorted, so that swapped axes, counts or offsets of another side do not show',
  ['escnn/nn/modules/basismanager', 'escnn/nn/modules/linear.py', 'escnn/nn/modules/conv', 'escnn/nn/modules/pointconv'],
  [('assembly', 'BlocksBasisExpansion, BlocksBasisSampler'), ('one block', 'SingleBlockBasisExpansion, SingleBlockBasisSampler'), ('layers', '_RdConv, _RdConvTransposed, _RdPointConv, Linear')],
  'axis typing of tensors (views, permutations, contractions, index assignments) over symbolically executed code',
  'every tensor is given a list of axes made of named factors (group, output field, input field, component, basis element, point); views, einsums and indexed writes must pair equal factors in equal order, and every table must be indexed by its own side')

# ------------------------------------------------------------------ properties static analysis cannot decide here
P('N01', 'Layers commute numerically with the action of the group',
  'For every group element whose action maps the sampling grid to itself, transforming the input of a layer and applying it gives the same as applying it and transforming the output, for all weights and inputs, up to rounding.',
  ['inputs', 'configurations'], 'all layers, weights, inputs and grid-preserving group elements',
  'tests sample one layer configuration, one random input and some group elements each',
  [NN, 'escnn/nn/geometric_tensor.py'], [('forward passes', 'forward() of every EquivariantModule subclass')],
  na='equality of floating-point results of composed tensor contractions with numerically computed filters: no static domain in reach represents these values. The structural conditions it rests on are decided: types and guards (C01, C02, C11, C12), group and irrep formulas (C08, C09, C10), admitted non-linearities (C13)')

P('N02', 'Kernel bases span exactly the space of equivariant kernels',
  'Every element of a sampled kernel basis satisfies the kernel constraint of its input and output representations, the elements are linearly independent, and together they span all solutions within the band limit.',
  ['configurations'], 'all pairs of representations, groups and band limits',
  'tests check some pairs of irreps of small groups on random points',
  ['escnn/kernels'], [('analytic and numeric solutions', 'kernel basis classes')],
  na='the bases are obtained from numerical null spaces (SVD), Clebsch-Gordan coefficients and spherical harmonics at run time; rank and residual of those matrices are runtime quantities')

P('N03', 'Wigner matrices, Clebsch-Gordan coefficients and endomorphism bases are exact',
  'The irreps of SO(3), O(3) and the polyhedral groups are orthogonal homomorphisms, Clebsch-Gordan matrices intertwine products of irreps with their decomposition, and the endomorphism basis spans the commutant.',
  ['inputs', 'configurations'], 'all elements, frequencies and pairs of irreps',
  'tests sample elements and low frequencies',
  ['escnn/group'], [('numerical irreps', 'escnn/group/irrep.py, groups/so3group.py, groups/ico.py, groups/octa.py'), ('decomposition', 'escnn/group/_clebsh_gordan.py, _numerical.py')],
  na='the matrices come from binary tables (py3nj, stored arrays) and numerical eigen-decompositions; their entries are not in the source')

P('N04', 'Initialised weights keep the variance of the activations',
  'The initialisations scale the weights such that the variance of the output of a layer equals that of its input (He), for every pair of field types and every kernel basis.',
  ['configurations'], 'all field types, kernel sizes and groups',
  'tests estimate variances for a handful of layers with wide tolerances',
  ['escnn/nn/init.py'], [('initialisation', 'generalized_he_init, deltaorthonormal_init')],
  na='a statement about the distribution of sums over numerically sampled bases; the norms involved are runtime quantities')

P('N05', 'Numerical decompositions of arbitrary representations are correct',
  'Decomposing, restricting, inducing or averaging a representation given by matrices yields irreps and a change of basis that reproduce the matrices for every element.',
  ['inputs'], 'all representations, including user-supplied ones',
  'tests decompose some regular and random representations of small groups',
  ['escnn/group/_numerical.py', 'escnn/group/representation.py'], [('decomposition', 'decompose_representation_finitegroup, decompose_representation_general')],
  na='solved by Sylvester equations and SVDs with tolerances on runtime matrices; only the exact planar cases have closed formulas and those are decided by C10')

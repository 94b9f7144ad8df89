"""The properties: the source of properties.jsonl and MANIFEST.json
(written by `python3 meta/gen.py`)."""

TA = "tensap/tensor_algebra/tensors/"
PROPS = []


def prop(pid, title, statement, text, why, files, mechanism, note,
         over=("inputs",), observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, text=text,
                      why=why, files=files, mechanism=mechanism, note=note,
                      over=list(over), observe=observe or []))


TUT = ("The test suite runs the tutorials, whose few fixed configurations "
       "print errors without asserting them, and four unit tests of integer "
       "and index utilities; ")

prop("T01", "Dense tensors: arithmetic, layout and extraction",
     "Arithmetic, reshaping, matricization, transposition, concatenation, "
     "Kronecker products, diagonals, sub-tensors and pointwise or partial "
     "evaluations of a dense tensor return exactly the array defined by the "
     "corresponding index formula, with the right order and shape and with "
     "column-major conventions for reshaping. Operands are left unchanged.",
     "every dense tensor of any order and shape (size-one dimensions and "
     "order one included), every subset and order of the dimensions",
     TUT + "no test compares a dense tensor with its index formula, so a "
     "wrong axis or storage order on an unusual shape goes unnoticed.",
     [TA + "full_tensor.py"],
     [("dense tensor class: one method per operation on a numpy array",
       TA + "full_tensor.py: FullTensor")],
     "Random search against numpy index formulas on tensors of order 1 to 5 "
     "with at most a few hundred entries.")

prop("T02", "Dense tensors: contractions, factorizations, components",
     "Products of a dense tensor with vectors, matrices and diagonal "
     "matrices, contractions of two dense tensors, evaluations of diagonals "
     "of such products, weighted inner products and sums equal the sums that "
     "define them, for any choice of contracted dimensions. Orthogonal "
     "factorizations, singular values and principal components reproduce the "
     "matricization they are computed from, with orthonormal factors and the "
     "requested number or precision of components.",
     "every pair of compatible dense tensors, every choice of the contracted "
     "dimensions and of the precision or number of components",
     TUT + "contractions are only exercised through square, small, "
     "symmetric cases.",
     [TA + "full_tensor.py"],
     [("contractions with matricize/reshape, QR and SVD of matricizations",
       TA + "full_tensor.py: FullTensor.tensordot, tensor_matrix_product, "
       "orth, principal_components")],
     "Random search against numpy einsum and SVD on tensors of order 1 to 5.")

prop("T03", "Tree-based tensors: arithmetic and evaluation",
     "A tensor in tree-based format, for any dimension tree, ranks, inactive "
     "leaves and vector-valued root, represents the dense tensor obtained by "
     "contracting its node tensors; sums, products, Kronecker products, "
     "contractions, evaluations at entries or on diagonals, sub-tensors, "
     "storage counts and conversions agree with that dense tensor.",
     "every dimension tree (arbitrary arity and node numbering), rank tuple, "
     "set of inactive leaves, root rank and operand",
     TUT + "they use one or two balanced or linear trees with all leaves "
     "active and a root of rank one.",
     [TA + "tree_based_tensor.py"],
     [("recursive contraction of node tensors along the levels of the tree",
       TA + "tree_based_tensor.py: TreeBasedTensor")],
     "Random search over trees with up to 5 dimensions; the oracle contracts "
     "the node tensors with numpy.")

prop("T04", "Tree-based tensors: orthogonality, Gramians, spectra, norms",
     "Orthonormalization at any node keeps the represented tensor and makes "
     "every other node tensor orthonormal; norms, inner products, Gramians, "
     "singular values and rank statistics equal those of the represented "
     "dense tensor, whatever sequence of operations built the tensor. The "
     "recorded orthogonality state is never wrong.",
     "every tree-based tensor, every node, every history of arithmetic, "
     "orthonormalization and structural operations",
     TUT + "a stale orthogonality flag only shows after a particular "
     "sequence of operations.",
     [TA + "tree_based_tensor.py"],
     [("orthogonality flag and node used as a shortcut in norms and Gramians",
       TA + "tree_based_tensor.py: orth, orth_at_node, gramians, norm, "
       "is_orth")],
     "Random search, including operation histories, against dense SVDs.",
     over=("inputs", "histories"))

prop("T05", "Tree-based tensors: structural transformations",
     "Changing the root, permuting dimensions or leaves, exchanging nodes, "
     "optimizing the tree, inserting or removing nodes, activating or "
     "inactivating leaves, converting to and from tensor-train format and "
     "adapting ranks produce valid tensors which represent the same dense "
     "tensor up to the announced permutation and precision, with the "
     "announced tree. The input tensor is unchanged.",
     "every tree-based tensor, every node or pair of nodes, permutation and "
     "precision",
     TUT + "tree optimization is stochastic and only its final storage is "
     "printed.",
     [TA + "tree_based_tensor.py"],
     [("local re-rooting, node exchanges with truncation, rank adaptation",
       TA + "tree_based_tensor.py: change_root, permute_nodes, "
       "optimize_dimension_tree, increase_ranks_random, ...")],
     "Random search over trees with up to 5 dimensions against dense arrays.")

prop("T06", "Tree-based tensors: derivatives with respect to node tensors",
     "The derivative of evaluations of a tree-based tensor with respect to "
     "the tensor of any node, contracted with that tensor, gives back the "
     "evaluations, and is the derivative: contracting it with any other "
     "value gives the evaluations of the tensor with that node replaced. The "
     "same holds for the two-node variant and for functions represented in "
     "tree-based format.",
     "every tree-based tensor, node, set of evaluation points or matrices",
     TUT + "a wrong axis order in a derivative only degrades a learning "
     "error that no test asserts.",
     [TA + "tree_based_tensor.py", "tensap/functions/functional_tensor.py"],
     [("evaluation of the contraction above and below a node",
       TA + "tree_based_tensor.py: parameter_gradient_eval_diag, "
       "parameter_gradient_eval_diag_dmrg, eval_diag_below, eval_diag_above")],
     "Random search; the oracle evaluates the tensor with the node replaced.")

prop("T07", "Truncation of tensors: prescribed precision and ranks",
     "Truncating a matrix or tensor (singular value decomposition, "
     "higher-order, hierarchical or tensor-train variants, in dense, "
     "canonical or tree-based format) returns an approximation whose "
     "relative error is below the prescribed precision and the "
     "quasi-optimality bound unless a maximal rank prevents it, with ranks "
     "no larger than needed nor than the maximal ranks, and with the "
     "requested tree, active nodes and norm. The input and the truncation "
     "object are unchanged, so that it can be reused.",
     "every tensor, tree, precision, maximal ranks, thresholding and order "
     "of reuse",
     TUT + "the tutorials truncate one function tensor at one precision.",
     ["tensap/tensor_algebra/tools/truncator.py"],
     [("local tolerances from the global one; truncated SVD of "
       "matricizations or Gramians", "tensap/tensor_algebra/tools/"
       "truncator.py: Truncator")],
     "Random search on tensors of order 2 to 5 against the dense singular "
     "values.", over=("inputs", "histories"))

prop("T08", "Dimension trees: structure and transformations",
     "A dimension tree answers every structural question (parents, children, "
     "levels, leaves, dimensions of a node, node of a set of dimensions) "
     "consistently with its edges; standard constructions give the announced "
     "partition tree; permutations, changes of root, insertions of children "
     "and extractions of sub-trees give the tree they describe without "
     "modifying the original; two trees are equal exactly when they have the "
     "same sets of dimensions at each level.",
     "every partition tree, node numbering, and sequence of transformations",
     TUT + "they build one balanced and one linear tree.",
     [TA + "dimension_tree.py"],
     [("tables computed from the adjacency matrix and the leaf of each "
       "dimension", TA + "dimension_tree.py: DimensionTree")],
     "Random search on trees with up to 12 dimensions against a parent-list "
     "model.", over=("inputs", "histories"))

prop("T09", "Canonical and diagonal tensors agree with dense tensors",
     "Sums, differences, inner products, norms, contractions with vectors "
     "and matrices, squeezing, diagonals, derivatives, orthonormalization, "
     "conversions and storage counts of canonical (sum of rank-one) and "
     "diagonal tensors agree with the dense tensor they represent. Operands "
     "are left unchanged.",
     "every canonical or diagonal tensor (any order, rank, weights) and every "
     "subset of the dimensions",
     TUT + "canonical tensors are only evaluated through one learning "
     "tutorial.",
     [TA + "canonical_tensor.py", TA + "diagonal_tensor.py"],
     [("operations on the factors and the weights only",
       TA + "canonical_tensor.py: CanonicalTensor; " + TA
       + "diagonal_tensor.py: DiagonalTensor")],
     "Random search on tensors of order 1 to 5 and rank up to 4 against "
     "numpy. Derivatives do not include the weights (documented domain).")

prop("T10", "Sparse tensors agree with dense tensors",
     "Storage counts, layout changes, evaluations, sums, products, inner "
     "products and contractions with vectors, matrices and diagonal matrices "
     "of a tensor given by its non-zero entries agree with the dense tensor "
     "it represents, for any number of non-zero entries (none and one "
     "included) and any order. Operands are left unchanged.",
     "every sparse tensor, pattern of non-zero entries and subset of the "
     "dimensions",
     TUT + "no test builds a sparse tensor.",
     [TA + "sparse_tensor.py"],
     [("list of multi-indices and list of values kept in step",
       TA + "sparse_tensor.py: SparseTensor")],
     "Random search on tensors of order 1 to 4 against numpy.")

prop("T11", "Sets of multi-indices: set operations and constructions",
     "Unions, differences, intersections, projections, translations, "
     "comparisons, sorting, norms and conversions of sets of multi-indices "
     "give the mathematical result in the documented order without modifying "
     "their operands; margins, reduced margins, maximal elements, monotone "
     "envelopes and the downward-closedness test follow their definitions; "
     "balls, boxes, products, hyperbolic crosses and low-order interaction "
     "sets contain exactly the multi-indices that satisfy their definition.",
     "every finite set of multi-indices of any dimension, and every norm, "
     "bound and weight",
     TUT + "one test counts the elements of one box.",
     ["tensap/tools/multi_indices.py"],
     [("arrays of rows handled with numpy unique and broadcasting; growth by "
       "margins", "tensap/tools/multi_indices.py: MultiIndices")],
     "Random search in dimension 1 to 4 against sets of tuples.")

prop("T12", "Tensorization of functions and mixed-radix expansions",
     "The expansion of an integer in base b inverts its evaluation; the map "
     "from a variable to its base-b digits and remainder, and its inverse, are "
     "inverse of each other and preserve the measure; a tensorized function "
     "takes at the image of x the value of the function at x; a tensorized basis "
     "represents exactly the functions it is built from.",
     "every function, base, resolution, number of variables, ordering of the "
     "digits and point",
     TUT + "two tutorials tensorize one function of one variable.",
     ["tensap/functions/tensorizer.py",
      "tensap/functions/tensorized_function.py", "tensap/tools/utils.py"],
     [("map to digits, inverse map, tensorized function and its projection",
       "tensap/functions/tensorizer.py: Tensorizer; tensap/functions/"
       "tensorized_function.py: TensorizedFunction")],
     "Random search over bases 2 to 5, resolutions 1 to 6, 1 to 3 variables.")

prop("T13", "Orthonormal polynomials and Gauss quadrature",
     "The polynomials of a measure are orthonormal with respect to it, with the "
     "announced degree; values, derivatives, coefficients, recurrences, roots, "
     "moments and means agree with each other and with exact integration; Gauss "
     "rules with N points have positive weights, points in the support, and "
     "integrate polynomials of degree 2N-1 exactly. Two families are equal "
     "exactly when their measures are.",
     "every supported measure (uniform, normal, Lebesgue, discrete, empirical), "
     "degree and point",
     TUT + "they use polynomials of a single uniform or normal measure.",
     ["tensap/functions/polynomials/orthonormal_polynomials.py",
      "tensap/functions/polynomials/polynomials.py",
      "tensap/functions/measures/random_variable.py"],
     [("three-term recurrences and the Golub-Welsch algorithm",
       "tensap/functions/polynomials/orthonormal_polynomials.py: "
       "OrthonormalPolynomials")],
     "Random search against a QR factorization of the monomials in exact "
     "quadrature nodes, degree up to 8.")

FM = "tensap/functions/measures/"
AB = "tensap/approximation/bases/"

prop("T14", "Random variables: distribution, moments, sampling",
     "The density, distribution and quantile functions, mean, variance, moments, "
     "supports, discretizations, equal-probability grids, transfers and shifts of "
     "a random variable describe one and the same law, and two random variables "
     "are equal exactly when their laws are given by the same parameters. "
     "Samples, Latin hypercube samples included, follow this law and stay in its "
     "support. Storing moments changes no later result.",
     "every uniform, normal, discrete or empirical random variable, point, "
     "probability and order",
     TUT + "they only draw samples of uniform and normal variables.",
     [FM + "random_variable.py", FM + "uniform_random_variable.py",
      FM + "normal_random_variable.py", FM + "discrete_random_variable.py",
      FM + "empirical_random_variable.py"],
     [("generic methods built on cdf, icdf and Gauss rules",
       FM + "random_variable.py: RandomVariable")],
     "Random search against closed formulas. The variance of an empirical "
     "variable is that of its sample (documented convention), not checked.")

prop("T15", "Random vectors, product measures and discrete measures",
     "Random vectors, product measures and discrete measures in R^d have the "
     "joint density, distribution, moments, marginals, permutations, transfers, "
     "Gauss rules and samples of independent components with the given laws (or "
     "dependent ones through a copula), and are equal exactly when their "
     "components are. Building them changes none of the arguments.",
     "every dimension and choice of component laws",
     TUT + "they only draw samples of vectors of identical components.",
     [FM + "random_vector.py", FM + "product_measure.py",
      FM + "discrete_measure.py", FM + "random_multi_indices.py",
      FM + "copulas.py"],
     [("componentwise application and tensorization",
       FM + "random_vector.py: RandomVector; " + FM
       + "product_measure.py: ProductMeasure")],
     "Random search in dimension 1 to 4 against products of closed formulas; "
     "samples against the exact law with a bound of failure below 1e-15.")

prop("T16", "Integration rules and grids",
     "Points of a tensor product grid are the combinations of the points of its "
     "factors in the order of its multi-indices, full or restricted to a subset; "
     "integration rules (tensor products, composite Gauss-Legendre) pair each "
     "point with the product of its weights and have the announced exactness. "
     "Arguments are left unchanged.",
     "every grid, set of weights, dimension, set of knots and number of points",
     TUT + "they build one sparse grid and one tensor product rule.",
     ["tensap/tools/grids.py", "tensap/tools/chebyshev_points.py",
      "tensap/approximation/integration/integration_rules.py",
      "tensap/functions/sets/is_in.py"],
     [("enumeration of the grid and of the weights in the same order",
       "tensap/tools/grids.py: FullTensorGrid; tensap/approximation/"
       "integration/integration_rules.py: FullTensorProductIntegrationRule")],
     "Random search against explicit loops.")

prop("T17", "Univariate functional bases",
     "Polynomial, piecewise polynomial, B-spline, dilated B-spline, indicator "
     "(delta), user-defined and sub-bases have the announced number of functions, "
     "domain, values, derivatives, Jacobians, Gram matrices, means and "
     "orthonormality; orthonormalization keeps the span; derivatives and "
     "products expressed in a polynomial basis are exact; meshes and "
     "indices built by the helpers are those announced.",
     "every basis, set of degrees or knots, measure and point",
     TUT + "they evaluate polynomial bases at random points.",
     [AB + "functional_basis.py", AB + "polynomial_functional_basis.py",
      AB + "piecewise_polynomial_functional_basis.py",
      AB + "BSplines_functional_basis.py", AB + "delta_functional_basis.py",
      AB + "user_defined_functional_basis.py", AB + "sub_functional_basis.py"],
     [("evaluation through recurrences, local maps and coefficient matrices",
       AB + "functional_basis.py: FunctionalBasis and its sub-classes")],
     "Random search against scipy splines, QR of monomials and exact "
     "quadrature, at points away from the knots.")

prop("T18", "Multivariate bases and functions expanded in them",
     "Lists of bases, full and sparse tensor products and functions expanded in "
     "a basis have the values, derivatives, gradients, means, Gram matrices and "
     "random draws of the products of univariate functions selected by their "
     "multi-indices. Means, variances, products, projections, conditional "
     "expectations and their variances are those of the expanded function. Adding, "
     "keeping, removing, permuting or multiplying bases keeps indices, measures "
     "and orthonormality consistent, arguments unchanged.",
     "every set of univariate bases, measures, multi-indices, coefficients, "
     "points, subset or order of the variables",
     TUT + "they use full tensor products with identical polynomial bases.",
     [AB + "functional_bases.py", AB + "full_tensor_product_functional_basis.py",
      AB + "sparse_tensor_product_functional_basis.py",
      AB + "functional_basis_array.py", AB + "sub_functional_basis.py"],
     [("products of the univariate evaluations selected by multi-indices",
       AB + "sparse_tensor_product_functional_basis.py: "
       "SparseTensorProductFunctionalBasis; " + AB
       + "functional_basis_array.py: FunctionalBasisArray")],
     "Random search in 1 to 4 variables against explicit products of "
     "independently computed univariate values and exact quadrature.")

prop("T19", "Interpolation, projection and magic points",
     "Interpolation at given, magic or automatically chosen points reproduces every "
     "function of the approximation space exactly and any function at the points; "
     "projections given functions or values minimize the (discrete) L2 "
     "error; tensor product and sparse versions do so variable by variable. "
     "Magic indices and points are distinct, nested, unisolvent and each maximizes "
     "the residual of the previous ones.",
     "every basis, set of points, function and downward closed set of indices",
     TUT + "they print the errors of a few interpolations.",
     [AB + "functional_basis.py", AB + "functional_bases.py",
      AB + "sparse_tensor_product_functional_basis.py",
      "tensap/linear_algebra/magic_indices.py"],
     [("linear systems at the points, greedy selection by residuals",
       AB + "functional_basis.py: FunctionalBasis.interpolate, projection, "
       "magic_points; tensap/linear_algebra/magic_indices.py: magic_indices")],
     "Random search; a greedy step may pick any index whose residual is maximal "
     "up to rounding; points with a badly conditioned matrix are discarded.")

prop("T20", "Functions in tensor formats",
     "A function given by a full, canonical or tree-based tensor of coefficients and "
     "one basis per functional dimension has the values, grid values, partial "
     "evaluations, derivatives, gradients, means, variances, products, norms, "
     "conditional expectations and conditional variances of the function expanded "
     "in the tensor product basis. Sums, multiples and products of such functions "
     "are pointwise. Operands are left unchanged.",
     "every tensor format, tree, rank, set of inactive leaves, bases, measures, "
     "functional dimensions, points and subset of the variables",
     TUT + "they evaluate learned functions at random points only.",
     ["tensap/functions/functional_tensor.py"],
     [("contraction of the tensor with evaluations, means or Gram matrices of "
       "the bases", "tensap/functions/functional_tensor.py: FunctionalTensor")],
     "Random search in 1 to 4 variables against the dense tensor contracted with "
     "independently computed values of the bases. Evaluating a tree-based function "
     "in several but not all variables is not implemented by the library.")

prop("T21", "Least-squares learning in linear spaces",
     "Coefficients learned with the square loss minimize the (weighted) empirical "
     "risk, separately for each output or jointly when outputs share coefficients, "
     "and errors estimated by leave-one-out or k-fold cross-validation, with or "
     "without correction, are those of the refitted models. Basis adaptation and "
     "regularization paths contain the fits restricted to each support and the "
     "model with the smallest estimated error is selected. Training data are left "
     "unchanged and solving again gives the same answer.",
     "every sample, weights, number of outputs, basis evaluations, adaptation path, "
     "solver and option",
     TUT + "they learn one function with one seed and default options.",
     ["tensap/approximation/learning/linear_model_learning_square_loss.py",
      "tensap/approximation/learning/linear_model_learning.py",
      "tensap/approximation/learning/learning.py"],
     [("QR or normal equations, closed formulas for the refits",
       "tensap/approximation/learning/linear_model_learning_square_loss.py: "
       "LinearModelLearningSquareLoss")],
     "Random search against numpy least squares and explicit refits; problems that "
     "are badly conditioned are discarded.")

prop("T22", "Density estimation in linear spaces",
     "Coefficients learned with the L2 density loss are the empirical means of the "
     "basis functions, minus the coefficients of the subtracted density when one is "
     "given, and the estimated error is the leave-one-out risk. Adaptation and "
     "regularization paths contain the included functions, are restricted to each "
     "support, and the model with the smallest estimated risk is selected.",
     "every sample, orthonormal basis, subtracted density, path and option",
     TUT + "they learn one density.",
     ["tensap/approximation/learning/linear_model_learning_density_l2.py"],
     [("empirical means and closed leave-one-out formulas",
       "tensap/approximation/learning/linear_model_learning_density_l2.py: "
       "LinearModelLearningDensityL2")],
     "Random search against explicit leave-one-out estimates.")

prop("T23", "Loss functions, model selection and complexity",
     "Loss functions return one loss per sample, their risk is the mean loss, the "
     "relative risk is relative to the data and the test error is the documented "
     "(relative) error. Slope-heuristic model selection returns for each penalty "
     "the model minimizing risk plus penalty and a complexity path consistent with "
     "it, and the complexity measures of tree-based tensors count what they "
     "say (storage, sparse storage, with or without gauge freedom).",
     "every sample, format of the predictor and data, family of models, tree and rank",
     TUT + "they print them.",
     ["tensap/approximation/learning/loss_functions.py",
      "tensap/approximation/tools/model_selection.py"],
     [("losses, lower envelope of the lines risk + penalty",
       "tensap/approximation/learning/loss_functions.py: LossFunction; "
       "tensap/approximation/tools/model_selection.py: ModelSelection")],
     "Random search against elementary formulas and exhaustive minimization.")

prop("T24", "Learning with tensor formats",
     "Alternating minimization in tree-based and canonical formats never increases "
     "the empirical risk, ends at a function stationary with respect to a "
     "parameter, has the prescribed ranks, returns the selected iterate with its "
     "true test error, and leaves the solver, the data and the initial guess "
     "unchanged. Rank adaptation (standard, rank-one corrected, dmrg) visits "
     "admissible ranks increased by one at the reported nodes or bounded by the "
     "maximal rank, the greedy canonical algorithm adds one term per step with "
     "optimal weights, the functions used after basis adaptation follow the "
     "adaptation paths and tree adaptation keeps variables and outputs. The gradients with respect to parameters (one node, two "
     "merged nodes, one factor) are the derivatives of the function.",
     "every tree, set of active nodes, number of outputs, basis, sample, "
     "initialization, exploration order, loss (square, L2 density) and option",
     TUT + "they learn one function with one seed.",
     ["tensap/approximation/tensor_approximation/tensor_learning/tensor_learning.py",
      "tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py",
      "tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py",
      "tensap/functions/functional_tensor.py"],
     [("alternating minimization, rank adaptation, greedy corrections",
       "tensap/approximation/tensor_approximation/tensor_learning/tree_based_tensor_learning.py: "
       "TreeBasedTensorLearning; "
       "tensap/approximation/tensor_approximation/tensor_learning/canonical_tensor_learning.py: "
       "CanonicalTensorLearning")],
     "Random search against risks, derivatives and test errors recomputed densely; "
     "badly conditioned canonical iterates and exactly recovered functions are "
     "excluded from the monotonicity relations.")

prop("T25", "Principal component analysis of tensors and functions",
     "Approximations returned by HOPCA, the Tucker, tensor train and tree-based "
     "principal component analyses have the prescribed precision or the prescribed "
     "ranks, with the minimal number of components for the sampled fibers; they "
     "interpolate the function at the sampled entries, recover exactly functions of "
     "the format when enough fibers are sampled, and the returned number of "
     "evaluations and samples are those actually requested from the function.",
     "every black-box function of indices or variables, tree, tolerance, rank and "
     "sampling option",
     TUT + "they approximate one function and print the error.",
     ["tensap/approximation/tensor_approximation/principal_component_analysis/"
      "tensor_principal_component_analysis.py",
      "tensap/approximation/tensor_approximation/principal_component_analysis/"
      "functional_tensor_principal_component_analysis.py"],
     [("sampled fibers, SVD, empirical interpolation, tree recursion",
       "tensap/approximation/tensor_approximation/principal_component_analysis/"
       "tensor_principal_component_analysis.py: TensorPrincipalComponentAnalysis")],
     "Random search with an oracle that records every requested entry and computes "
     "the SVD of the recorded fibers itself. A maximal rank together with a "
     "tolerance below 1, and random subsampling, are not claimed.")

prop("T26", "Functions: evaluation, storage, restriction, composition",
     "A function given by a Python function, a string, a subclass, a composition "
     "along a tree or a benchmark name takes at every point, vector of points and "
     "full or sparse grid the values of its definition, one per point. Stored "
     "evaluations are those of the function whatever the history of calls, and "
     "stored points are not evaluated again. Restrictions to some variables, random "
     "evaluations and relative L2 and maximal errors are those of the function.",
     "every function, number of outputs, points, grids, history of calls and "
     "modification of the arrays by the user, tree and parameters",
     TUT + "they evaluate a few functions, without storage.",
     ["tensap/functions/function.py", "tensap/functions/user_defined_function.py",
      "tensap/functions/compositional_model_function.py",
      "tensap/functions/multivariate_functions_benchmark.py"],
     [("evaluation and storage", "tensap/functions/function.py: Function"),
      ("composition", "tensap/functions/compositional_model_function.py: "
       "CompositionalModelFunction")],
     "Random search and histories against reference functions which record the "
     "evaluated points. Benchmark functions with random parameters are judged by "
     "identities which hold for all parameters. Plots are not checked.")

prop("T27", "Results do not depend on the history of the objects",
     "Evaluating, measuring, decomposing or transforming an object (measure, family "
     "of polynomials, random vector, basis, function, tensorization map, tensor in "
     "any format, tree, set of multi-indices, grid, integration rule, truncator, "
     "model selection, loss) gives the same result, or the same refusal, whatever "
     "was asked before of this object and whatever the caller did with the arrays "
     "returned before. The arguments of every query, and the object, are left "
     "unchanged.",
     "every object, every sequence of queries and every argument",
     TUT + "they ask each object for a few results in one order.",
     ["tensap/functions", "tensap/approximation", "tensap/tensor_algebra",
      "tensap/tools"],
     [("public methods returning new results", "tensap/__init__.py: tensap")],
     "Stateful search: the same query on a used and on a freshly built object, for "
     "random sequences of queries; returned arrays are overwritten between queries, "
     "except those of the accessors (numpy, get_coefficients, to_list, "
     "get_parameters, shape, ranks). Learning solvers are covered by T21-T25.")

prop("T28", "Histories of computations with tensors of all the formats",
     "After any sequence of operations on full, diagonal, canonical, sparse and "
     "tree-based tensors (sums, products, contractions, restrictions, permutations, "
     "changes of tree, root, active nodes or format, orthogonalisations, "
     "truncations), every tensor represents the array that the same operations on "
     "arrays give, within the truncation errors, whatever the history of its "
     "flags and orthogonality. Norms, evaluations, singular values, derivatives and "
     "inner products computed at the end agree with this array, and no operation "
     "changes the tensors it was not asked to change.",
     "every history of operations on a pool of tensors",
     TUT + "each test applies one operation to a freshly created tensor.",
     ["tensap/tensor_algebra/tensors"],
     [("tensors of all the formats",
       TA + "tree_based_tensor.py: TreeBasedTensor"),
      ("conversions", TA + "full_tensor.py: FullTensor"),
      ("diagonal, canonical and sparse tensors",
       TA + "canonical_tensor.py: CanonicalTensor")],
     "Stateful model-based search: the model of each tensor of the pool is a dense "
     "array; the value of the real one is computed from its parameters by code "
     "which shares nothing with the library.")

prop("T29", "Incompatible requests are refused and change nothing",
     "Arguments which do not fit together (numbers or sizes of matrices, vectors, "
     "indices or dimensions, shapes or trees of two tensors, inactive or nested "
     "nodes, numbers of bases, points, weights or variables, missing data, unknown "
     "options of learning or approximation) raise an error in every format and "
     "class which documents the requirement or implements the check. They never "
     "give a result, and the objects involved are left as they were.",
     "every object and every incompatible argument",
     TUT + "they never pass incompatible arguments.",
     ["tensap"],
     [("checks of arguments", TA + "tree_based_tensor.py: TreeBasedTensor"),
      ("checks of arguments", TA + "full_tensor.py: FullTensor"),
      ("checks of options", "tensap/approximation/tensor_approximation/"
       "tensor_learning/tensor_learning.py: TensorLearning")],
     "Any exception is a refusal. Requests which the code of a format does not "
     "check (and does not document) are not generated.")

prop("T30", "The results do not depend on the units of the data",
     "Multiplying the data by a factor (the entries of a tensor or the values of "
     "the function to approximate, the values or the weights of a regression, the "
     "functions of a basis, a matrix, the values of a random variable and the "
     "points) multiplies the results by the power of the factor given by their "
     "dimension and changes nothing else: same ranks, patterns, selected models, "
     "indices and numbers of iterations, same relative errors, and the same "
     "relative accuracy for very small and very large data in every operation on "
     "tensors.",
     "every operation on tensors in every format; least-squares, tensor learning, "
     "principal component analysis; magic indices; random variables, orthonormal "
     "polynomials, quadratures and bases; factors from 2^-80 to 2^80",
     "The tests use data of the order of one, for which an absolute threshold is "
     "the same as a relative one.",
     ["tensap"],
     [("thresholds of truncations", TA + "truncator.py: Truncator"),
      ("tolerances of the regularized least-squares", "tensap/approximation/"
       "learning/linear_model_learning_square_loss.py: "
       "LinearModelLearningSquareLoss"),
      ("adaptive sampling", "tensap/approximation/tensor_approximation/"
       "principal_component_analysis/tensor_principal_component_analysis.py: "
       "TensorPrincipalComponentAnalysis"),
      ("recurrences of polynomials", "tensap/functions/polynomials/"
       "orthonormal_polynomials.py: DiscretePolynomials")],
     "The factors are powers of two, so that the data of both executions are "
     "equal up to the factor without rounding. Options given by the user as "
     "absolute quantities (regularization parameters) and the correction of the "
     "cross-validation error are not rescaled and not generated.")


"""T29: incompatible requests are refused, and change nothing."""
import numpy as np
import tensap
from props.tbt import *
from props import bases as B
from props import laws as L
from props import t28

P = Prop("T29", "incompatible requests are refused", effort=2)
FORMATS = t28.FORMATS


def refused(fun, what, **kw):
    try:
        out = fun()
    except Exception:
        return
    fail(what + ": accepted", got=out, **kw)


@composite
def cases(draw, min_order=1, requests=None):
    d = draw(st.integers(min_order, 4))
    n = draw(st.integers(2, 4))
    sh = [n] * d if draw(st.booleans()) else [
        draw(st.integers(2, 4)) for _ in range(d)]
    q = draw(st.sampled_from(sorted(requests)))
    return {"shape": sh, "k": "gauss", "s": draw(st.integers(0, 9999)),
            "init": [[draw(st.sampled_from(requests[q][1])),
                      draw(st.integers(0, 9999))]], "q": q}


def first(c):
    kind, s = c["init"][0]
    it = t28.initial(c, kind, s)
    it.freeze()
    return it


def end(it, what):
    it.unchanged(what)
    it.check(what)


# ------------------------------------------------------------------- products
PRODUCTS = {}


def request(table, *kinds):
    def deco(fun):
        table[fun.__name__] = (fun, kinds or FORMATS)
        return fun
    return deco


def mats(rng, sh, rows=None):
    return [rng.randn(rows or rng.randint(1, 4), n) for n in sh]


@request(PRODUCTS)
def one_matrix_missing(it, rng):
    require(it.x.ndim > 1)
    return lambda: it.X.tensor_matrix_product(mats(rng, it.x.shape)[:-1])


@request(PRODUCTS)
def one_matrix_too_many(it, rng):
    return lambda: it.X.tensor_matrix_product(
        mats(rng, it.x.shape + it.x.shape[:1]))


@request(PRODUCTS)
def matrices_and_dimensions(it, rng):
    d = it.x.ndim
    require(d > 1)
    dims = rng.permutation(d)[:rng.randint(1, d + 1)].tolist()
    M = mats(rng, [it.x.shape[i] for i in dims])
    if rng.rand() < .5 and len(dims) > 1:
        return lambda: it.X.tensor_matrix_product(M[:-1], dims)
    return lambda: it.X.tensor_matrix_product(M + M[:1], dims)


@request(PRODUCTS)
def matrix_columns(it, rng):
    d = it.x.ndim
    M = mats(rng, it.x.shape)
    i = rng.randint(d)
    n = it.x.shape[i]
    M[i] = rng.randn(2, n + 1 if rng.rand() < .5 else n - 1)
    if rng.rand() < .5:
        return lambda: it.X.tensor_matrix_product(M)
    return lambda: it.X.tensor_matrix_product([M[i]], [i])


@request(PRODUCTS, "full", "canonical", "sparse", "tree")
def one_vector_missing(it, rng):
    require(it.x.ndim > 1)
    return lambda: it.X.tensor_vector_product(
        [rng.randn(n) for n in it.x.shape[:-1]])


@request(PRODUCTS)
def one_vector_too_many(it, rng):
    return lambda: it.X.tensor_vector_product(
        [rng.randn(n) for n in it.x.shape + it.x.shape[:1]])


@request(PRODUCTS, "full", "canonical", "sparse", "tree")
def vectors_and_dimensions(it, rng):
    d = it.x.ndim
    require(d > 1)
    dims = rng.permutation(d)[:rng.randint(1, d + 1)].tolist()
    V = [rng.randn(it.x.shape[i]) for i in dims]
    if rng.rand() < .5 and len(dims) > 1:
        return lambda: it.X.tensor_vector_product(V[:-1], dims)
    return lambda: it.X.tensor_vector_product(V + V[:1], dims)


@request(PRODUCTS, "full", "canonical", "diagonal", "tree")
def vector_size(it, rng):
    V = [rng.randn(n) for n in it.x.shape]
    i = rng.randint(it.x.ndim)
    V[i] = rng.randn(it.x.shape[i] + (1 if rng.rand() < .5 else -1))
    if rng.rand() < .5 or it.kind == "diagonal":
        return lambda: it.X.tensor_vector_product(V)
    return lambda: it.X.tensor_vector_product([V[i]], [i])


@request(PRODUCTS, "full", "sparse", "tree")
def diagonal_matrices(it, rng):
    V = [rng.randn(n) for n in it.x.shape]
    q = rng.randint(3)
    if q == 0:
        require(len(V) > 1)
        V = V[:-1]
    elif q == 1:
        V = V + V[:1]
    else:
        i = rng.randint(len(V))
        V[i] = rng.randn(it.x.shape[i] + 1)
    return lambda: it.X.tensor_diagonal_matrix_product(V)


@request(PRODUCTS, "full", "canonical", "diagonal")
def diagonal_of_products(it, rng):
    d = it.x.ndim
    require(d > 1)
    M = mats(rng, it.x.shape, 3)
    q = rng.randint(3)
    if q == 0:
        M = M[:-1]
    elif q == 1:
        M = M + M[:1]
    else:
        M[rng.randint(d)] = rng.randn(3, 7)
    return lambda: it.X.tensor_matrix_product_eval_diag(M)


@request(PRODUCTS, "full", "canonical", "sparse", "tree")
def unequal_sizes(it, rng):
    require(len(set(it.x.shape)) > 1)
    return lambda: it.X.eval_diag()


@request(PRODUCTS, "full", "tree")
def number_of_indices(it, rng):
    d = it.x.ndim
    n = d + 1 if rng.rand() < .5 or d == 1 else d - 1
    m = [k for k in (1, 3, 5) if k != d and k != n][0]
    return lambda: it.X.eval_at_indices(np.zeros((m, n), dtype=int))


@request(PRODUCTS, "full", "diagonal", "tree")
def index_out_of_range(it, rng):
    i = rng.randint(0, min(it.x.shape), (3, it.x.ndim))
    k = rng.randint(it.x.ndim)
    i[1] = it.x.shape[k]
    return lambda: it.X.eval_at_indices(i)


@request(PRODUCTS, "full", "diagonal", "tree")
def sub_tensor_out_of_range(it, rng):
    s = [[0, 1] for _ in it.x.shape]
    k = rng.randint(len(s))
    s[k] = [0, it.x.shape[k]]
    return lambda: it.X.sub_tensor(*s)


@request(PRODUCTS, "full", "tree")
def sub_tensor_missing(it, rng):
    # (a single list is the list of the indices of all the dimensions)
    require(it.x.ndim > 2)
    s = [[0, 1] for _ in it.x.shape]
    return lambda: it.X.sub_tensor(*s[:-1])


@request(PRODUCTS, "full", "canonical", "tree")
def squeeze_long_dimension(it, rng):
    return lambda: it.X.squeeze([rng.randint(it.x.ndim)])


@request(PRODUCTS, "full")
def wrong_transposition(it, rng):
    require(it.x.ndim > 1)
    p = list(range(it.x.ndim))
    q = rng.randint(3)
    p = p[:-1] if q == 0 else p + [p[-1] + 1] if q == 1 else p[:-1] + [p[0]]
    return lambda: it.X.transpose(p)


@request(PRODUCTS, "full")
def wrong_reshape(it, rng):
    return lambda: it.X.reshape([it.x.size + 1])


def require(cond):
    if not cond:
        raise Discard


@P.relation("products", cases(requests=PRODUCTS), 2000, rule="always")
def products(c):
    fun, kinds = PRODUCTS[c["q"]]
    kind = c["init"][0][0]
    it = first(c)
    f = fun(it, rng_of(c))
    lab(c["q"])
    refused(f, "%s (%s)" % (c["q"].replace("_", " "), kind))
    end(it, "refused request")


# ------------------------------------------------- two tensors, and their trees
PAIRS = {}


@composite
def pair_cases(draw):
    c = draw(cases(min_order=2, requests=PAIRS))
    c["pos"] = draw(st.integers(0, 99))
    c["delta"] = draw(st.integers(1, 2))
    return c


def other(c, it, rng):
    """A tensor of the same format and order, one size excepted."""
    d = it.x.ndim
    sh = list(it.x.shape)
    k = c["pos"] % d
    sh[k] += c["delta"]
    if it.kind == "diagonal":
        sh = [sh[k]] * d
    return k, first(dict(c, shape=sh, init=[[it.kind, c["init"][0][1]]]))


@request(PAIRS, "full", "canonical", "tree", "diagonal")
def addition(it, o, k, rng):
    return lambda: it.X + o.X


@request(PAIRS, "full", "canonical", "tree", "diagonal")
def subtraction(it, o, k, rng):
    return lambda: it.X - o.X


@request(PAIRS, "full", "canonical", "tree", "diagonal")
def inner_product(it, o, k, rng):
    return lambda: it.X.dot(o.X)


@request(PAIRS, "full", "tree", "diagonal")
def entrywise_product(it, o, k, rng):
    return lambda: it.X * o.X


@request(PAIRS, "full")
def contraction(it, o, k, rng):
    j = rng.randint(it.x.ndim)
    require(it.x.shape[j] != o.x.shape[k])
    return lambda: it.X.tensordot(o.X, [j], [k])


@request(PAIRS, "full")
def contraction_of_all_but_one(it, o, k, rng):
    j = rng.choice([i for i in range(it.x.ndim) if i != k])
    return lambda: it.X.tensordot_matrix_product_except_dim(
        o.X, [np.eye(a, b) for a, b in zip(it.x.shape, it.x.shape)], j)


@request(PAIRS, "full")
def concatenation(it, o, k, rng):
    j = rng.choice([i for i in range(it.x.ndim) if i != k])
    return lambda: it.X.cat(o.X, [j])


@request(PAIRS, "full")
def diagonal_contraction(it, o, k, rng):
    m = [i for i in range(it.x.ndim) if i != k][:1]
    if rng.rand() < .5:
        return lambda: it.X.tensordot_eval_diag(o.X, [k], [k], m, m)
    return lambda: it.X.tensordot_eval_diag(o.X, m, m, [k], [k])


@request(PAIRS, "full", "canonical", "tree")
def weighted_inner_product(it, o, k, rng):
    M = [rng.randn(n, n) for n in it.x.shape]
    return lambda: it.X.dot_with_rank_one_metric(o.X, M)


@P.relation("pairs", pair_cases(), 1500, rule="always")
def pairs(c):
    fun, kinds = PAIRS[c["q"]]
    kind = c["init"][0][0]
    it = first(c)
    rng = rng_of(c)
    k, o = other(c, it, rng)
    f = fun(it, o, k, rng)
    lab(c["q"])
    refused(f, "%s (%s)" % (c["q"].replace("_", " "), kind))
    end(it, "refused request: first tensor")
    end(o, "refused request: second tensor")


# ----------------------------------------------------- trees and active nodes
TREES = {}


@composite
def tree_cases(draw):
    a = draw(tbts(min_order=2, max_order=5, max_size=120))
    n = draw(st.integers(2, 3))
    a["shape"] = [n] * len(a["shape"])
    return {"a": a, "b": draw(trees(len(a["d2i"]), len(a["d2i"]))),
            "q": draw(st.sampled_from(sorted(TREES))),
            "s": draw(st.integers(0, 9999)), "fam": draw(st.integers(0, 1))}


def treq(fun):
    TREES[fun.__name__] = fun
    return fun


@treq
def different_trees(c, X, rng):
    b = dict(c["a"], **c["b"])
    n = len(b["par"])
    b["ranks"] = [1 + rng.randint(3) for _ in range(n)]
    b["ranks"][m_root(b) - 1] = c["a"]["ranks"][m_root(c["a"]) - 1]
    if c["fam"]:
        # the same tree, other dimensions of the leaves
        b = dict(c["a"], d2i=[c["a"]["d2i"][i] for i in
                              rng.permutation(len(c["a"]["d2i"]))])
    b["off"] = []
    Y, _ = build_tbt(b)
    require(not t28.same_trees(t28.Item(X, None, "tree", 1),
                               t28.Item(Y, None, "tree", 1)))
    f = [lambda: X + Y, lambda: X - Y, lambda: X * Y, lambda: X.dot(Y),
         lambda: X.kron(Y), lambda: X.cat(Y),
         lambda: X.dot_with_rank_one_metric(
             Y, [rng.randn(n, n) for n in X.shape])]
    return f[rng.randint(len(f))]


@treq
def inactive_root(c, X, rng):
    off = [i for i in range(1, X.tree.nb_nodes + 1)
           if not X.is_active_node[i - 1]]
    require(off)
    return lambda: X.change_root(int(rng.choice(off)))


@treq
def orthogonalization_at_inactive_node(c, X, rng):
    off = [i for i in range(1, X.tree.nb_nodes + 1)
           if not X.is_active_node[i - 1]]
    require(off)
    return lambda: X.orth_at_node(int(rng.choice(off)))


@treq
def inactivation_of_internal_nodes(c, X, rng):
    n = [i for i in range(1, X.tree.nb_nodes + 1)
         if not X.tree.is_leaf[i - 1]]
    m = [int(rng.choice(n))]
    if rng.rand() < .5:
        m.append(int(X.tree.dim2ind[0]))
    return lambda: X.inactivate_nodes(m)


@treq
def permutation_of_nested_nodes(c, X, rng):
    n = [i for i in range(1, X.tree.nb_nodes + 1) if i != X.tree.root]
    i = int(rng.choice(n))
    p, asc = i, []
    while p != X.tree.root:
        p = int(X.tree.parent(p))
        asc.append(p)
    m = [i, int(rng.choice(asc))]
    if rng.rand() < .5:
        m.reverse()
    return lambda: X.permute_nodes(m)


@treq
def permutation_of_one_or_three_nodes(c, X, rng):
    n = [i for i in range(1, X.tree.nb_nodes + 1) if i != X.tree.root]
    k = 1 if rng.rand() < .5 or len(n) < 3 else 3
    return lambda: X.permute_nodes(
        [int(i) for i in rng.permutation(n)[:k]])


@treq
def product_with_another_number_of_components(c, X, rng):
    r = X.ranks[X.tree.root - 1]
    require(r > 1)
    b = dict(c["a"], ranks=list(c["a"]["ranks"]))
    b["ranks"][m_root(b) - 1] = r + 1
    Y, _ = build_tbt(b)
    return lambda: X * Y


@treq
def matrix_with_another_number_of_columns(c, X, rng):
    r = X.ranks[X.tree.root - 1]
    require(r > 1)
    return lambda: X.__rmul__(rng.randn(2, r + 1))


@treq
def division_by_a_tensor(c, X, rng):
    return lambda: X / X


@treq
def matrix_of_the_metric(c, X, rng):
    M = [rng.randn(n, n) for n in X.shape]
    i = rng.randint(len(M))
    M[i] = rng.randn(M[i].shape[0], M[i].shape[0] + 1)
    return lambda: X.dot_with_rank_one_metric(X, M)


@P.relation("trees", tree_cases, 1500, rule="always")
def trees_(c):
    X, x = build_tbt(c["a"])
    ok = frozen_tbt(X)
    f = TREES[c["q"]](c, X, rng_of(c))
    lab(c["q"])
    refused(f, c["q"].replace("_", " "))
    ok("refused request")
    same_tbt(X, x, "refused request")


# --------------------------------------------------------- the other objects
OTHERS = {}


def oreq(fun):
    OTHERS[fun.__name__] = fun
    return fun


def some_law(rng):
    return tensap.UniformRandomVariable(-1, 1 + rng.rand()) \
        if rng.rand() < .5 else tensap.NormalRandomVariable(rng.randn(), 2)


def some_bases(rng, d, degree=None):
    return tensap.FunctionalBases([
        tensap.PolynomialFunctionalBasis(
            tensap.LegendrePolynomials(),
            range((degree or rng.randint(1, 4)) + 1)) for _ in range(d)])


def pick(rng, fs):
    return fs[rng.randint(len(fs))]


@oreq
def multi_indices_of_other_dimensions(rng):
    d = rng.randint(1, 4)
    a = tensap.MultiIndices(rng.randint(0, 4, (rng.randint(1, 6), d)))
    b = tensap.MultiIndices(rng.randint(0, 4, (rng.randint(1, 6), d + 1)))
    if rng.rand() < .5:
        a, b = b, a
    return lambda: a.add_indices(b)


@oreq
def weights_of_a_discrete_measure(rng):
    n = rng.randint(2, 6)
    v = rng.randn(n, rng.randint(1, 3))
    m = n + 1 if rng.rand() < .5 or n == 2 else n - 1
    return lambda: tensap.DiscreteMeasure(v, rng.rand(m))


@oreq
def probabilities_of_a_discrete_variable(rng):
    n = rng.randint(2, 6)
    v = np.arange(n) + rng.rand()
    if rng.rand() < .5:
        p = rng.rand(n + 1 if rng.rand() < .5 else n - 1)
    else:
        p = rng.rand(n)
        p[rng.randint(n)] = -.1
    return lambda: tensap.DiscreteRandomVariable(v, p)


@oreq
def number_of_points_of_a_product_rule(rng):
    d = rng.randint(2, 5)
    X = [some_law(rng) for _ in range(d)]
    n = rng.randint(1, 4, d + 1 if rng.rand() < .5 or d == 2 else d - 1)
    return lambda: tensap.ProductMeasure(X).gauss_integration_rule(n)


@oreq
def number_of_polynomials_of_a_vector(rng):
    d = rng.randint(2, 5)
    X = tensap.RandomVector([some_law(rng) for _ in range(d)])
    return lambda: X.orthonormal_polynomials([2] * (d + 1 - 2 * (
        rng.rand() < .5)))


@oreq
def transfer_to_a_vector_of_another_size(rng):
    d = rng.randint(1, 4)
    X, Y = (tensap.RandomVector([some_law(rng) for _ in range(n)])
            for n in (d, d + 1))
    x = X.random(4)
    if rng.rand() < .5:
        return lambda: X.transfer(Y, x)
    y = Y.random(4)
    return lambda: Y.transfer(X, y)


@oreq
def random_vector_of_measures(rng):
    X = [some_law(rng), tensap.LebesgueMeasure(0, 1)]
    if rng.rand() < .5:
        X.reverse()
    return lambda: tensap.ProductMeasure(X).random_vector()


@oreq
def truncation_of_an_unbounded_measure(rng):
    a, b = pick(rng, [(0, np.inf), (-np.inf, 1), (-np.inf, np.inf)])
    return lambda: tensap.LebesgueMeasure(a, b).truncated_support()


@oreq
def bases_of_a_functional_tensor(rng):
    d = rng.randint(1, 4)
    X = tensap.FullTensor(rng.randn(*[3] * d))
    H = some_bases(rng, d + 1 if rng.rand() < .5 or d == 1 else d - 1, 2)
    if rng.rand() < .5:
        return lambda: tensap.FunctionalTensor(X, H)
    return lambda: tensap.FunctionalTensor(X, H, list(range(d)))


@oreq
def sizes_of_the_bases_of_a_functional_tensor(rng):
    d = rng.randint(1, 4)
    X = tensap.FullTensor(rng.randn(*[3] * d))
    if d > 1 and rng.rand() < .5:
        X = tensap.Truncator(1e-12).hosvd(X)
    H = some_bases(rng, d, 2)
    H.bases[rng.randint(d)] = tensap.PolynomialFunctionalBasis(
        tensap.LegendrePolynomials(), range(rng.choice([2, 4])))
    f = tensap.FunctionalTensor(X, H)
    x = rng.rand(4, d)
    return pick(rng, [lambda: f.eval(x), lambda: f.eval_on_tensor_grid(
        tensap.FullTensorGrid([x[:, [i]] for i in range(d)]))])


@oreq
def functional_tensor_without_points(rng):
    f = tensap.FunctionalTensor(tensap.FullTensor(rng.randn(3, 3)),
                                some_bases(rng, 2, 2))
    return pick(rng, [lambda: f.eval(None),
                      lambda: f.parameter_gradient_eval(1, None)])


@oreq
def random_evaluations_without_probability_measure(rng):
    f = tensap.UserDefinedFunction(lambda x: x[:, 0], 2)
    if rng.rand() < .5:
        f.measure = tensap.ProductMeasure([tensap.LebesgueMeasure(0, 1)] * 2)
    if rng.rand() < .5:
        return lambda: f.random(5, tensap.LebesgueMeasure(0, 1))
    return lambda: f.random(5)


@oreq
def partial_evaluation_without_dimension(rng):
    f = tensap.UserDefinedFunction(lambda x: x[:, 0], 2)
    f.dim = None
    return lambda: f.partial_evaluation([0], rng.rand(3, 1))


@oreq
def evaluation_on_something_else_than_a_grid(rng):
    f = tensap.UserDefinedFunction(lambda x: x[:, 0], 2)
    return lambda: f.eval_on_tensor_grid(rng.rand(4, 2))


@oreq
def number_of_orders_of_derivatives(rng):
    d = rng.randint(2, 4)
    H = some_bases(rng, d)
    return lambda: H.eval_derivative([1] * (d + 1), rng.rand(3, d))


@oreq
def random_points_of_bases_without_probability(rng):
    d = rng.randint(1, 4)
    H = some_bases(rng, d)
    return lambda: H.random(
        4, tensap.ProductMeasure([tensap.LebesgueMeasure(0, 1)] * d))


@oreq
def arguments_of_product_bases(rng):
    H = some_bases(rng, 2)
    return pick(rng, [
        lambda: tensap.FullTensorProductFunctionalBasis(H.bases),
        lambda: tensap.SparseTensorProductFunctionalBasis(
            H.bases, tensap.MultiIndices(np.array([[0, 0], [0, 1]]))),
        lambda: tensap.SparseTensorProductFunctionalBasis(
            H, np.array([[0, 0], [0, 1]])),
        lambda: tensap.FunctionalBases([H.bases[0], 2])])


@oreq
def loss_of_a_learning_problem(rng):
    return pick(rng, [
        lambda: tensap.LinearModelLearning("square"),
        lambda: tensap.Learning(None)])


def least_squares(rng, n=8, p=3):
    s = tensap.LinearModelLearningSquareLoss()
    s.basis = None
    s.basis_eval = rng.randn(n, p)
    s.training_data = [None, rng.randn(n)]
    return s


@oreq
def regularization_of_least_squares(rng):
    s = least_squares(rng)
    s.regularization = True
    s.regularization_type = pick(rng, ["l3", "lasso", "", "L1"])
    return s.solve


@oreq
def cross_validation_of_least_squares(rng):
    s = least_squares(rng)
    s.error_estimation = True
    s.error_estimation_type = pick(rng, ["loo", "cross_validation", ""])
    return s.solve


@oreq
def least_squares_without_data(rng):
    s = least_squares(rng)
    if rng.rand() < .5:
        s.training_data = None
    else:
        s.basis_eval = None
        s.training_data = [None, rng.randn(8)]
    return s.solve


@oreq
def sizes_of_the_data_of_least_squares(rng):
    s = least_squares(rng)
    s.training_data = [None, rng.randn(9 - 2 * (rng.rand() < .5))]
    return s.solve


@oreq
def density_with_a_basis_that_is_not_orthonormal(rng):
    s = tensap.LinearModelLearningDensityL2()
    s.basis_eval = rng.randn(8, 3)
    s.is_basis_orthonormal = False
    s.training_data = [None, None]
    return s.solve


@oreq
def type_of_test_error(rng):
    f = tensap.UserDefinedFunction(lambda x: x[:, 0], 2)
    x = rng.rand(5, 2)
    if rng.rand() < .5:
        loss = tensap.SquareLossFunction()
        loss.error_type = pick(rng, ["risk", "L2", ""])
        return lambda: loss.test_error(f, [x, rng.rand(5)])
    loss = tensap.DensityL2LossFunction()
    loss.error_type = pick(rng, ["relative", "L2", ""])
    return lambda: loss.test_error(f, [x, None])


@oreq
def complexity(rng):
    X = tensap.TreeBasedTensor.rand(
        tensap.DimensionTree.balanced(3), [1, 2, 2, 2, 2], [3, 3, 3])
    return pick(rng, [
        lambda: tensap.ModelSelection.complexity(rng.rand(3, 3)),
        lambda: tensap.ModelSelection.complexity_tree_based_tensor(
            X, "storage", "sparse_and_full"),
        lambda: tensap.ModelSelection.complexity_tree_based_tensor(
            X.full(), "storage", "standard")])


@oreq
def length_of_the_tolerances_or_ranks_of_pca(rng):
    d = rng.randint(3, 5)
    x = rng.rand(*[3] * d)
    s = tensap.TensorPrincipalComponentAnalysis()
    s.display = False
    kind = rng.randint(4)
    T = tensap.DimensionTree.balanced(d)
    n = [d, d, d - 1, T.nb_nodes][kind]
    m = n + 1 if rng.rand() < .5 else n - 1
    require(m > 1)
    if rng.rand() < .5:
        s.tol = np.full(m, 1e-8)
    else:
        s.max_rank = np.full(m, 3)

    def fun(i):
        return x[tuple(np.asarray(i, dtype=int).T)]

    return [lambda: s.hopca(fun, x.shape),
            lambda: s.tucker_approximation(fun, x.shape),
            lambda: s.tt_approximation(fun, x.shape),
            lambda: s.tree_based_approximation(fun, x.shape, T)][kind]


@oreq
def subsampling_of_pca(rng):
    x = rng.rand(3, 3, 3)
    s = tensap.TensorPrincipalComponentAnalysis()
    s.display = False
    s.tol = 1e-10
    s.pca_sampling_factor = 1
    s.subsampling = pick(rng, ["leja", "", "grid"])

    def fun(i):
        return x[tuple(np.asarray(i, dtype=int).T)]

    return lambda: s.tree_based_approximation(
        fun, x.shape, tensap.DimensionTree.balanced(3))


def learner(rng, canonical=False):
    d = 3
    H = some_bases(rng, d, 2)
    x = rng.rand(40, d) * 2 - 1
    loss = tensap.SquareLossFunction()
    if canonical:
        s = tensap.CanonicalTensorLearning(d, loss)
        s.rank = 1
    else:
        s = tensap.TreeBasedTensorLearning(
            tensap.DimensionTree.balanced(d), [True] * 5, loss)
        s.rank = 1
    s.bases = H
    s.bases_eval = H.eval(x)
    s.training_data = [x, x[:, 0] + x[:, 1]]
    s.initialization_type = "random"
    s.rank_adaptation = False
    s.model_selection = s.error_estimation = s.test_error = False
    s.display = False
    s.alternating_minimization_parameters["display"] = False
    s.alternating_minimization_parameters["max_iterations"] = 2
    s.linear_model_learning.display = False
    return s


@oreq
def initialization_of_tensor_learning(rng):
    s = learner(rng, rng.rand() < .5)
    s.initialization_type = pick(rng, ["zero", "", "Random"])
    return s.solve


@oreq
def number_of_linear_models(rng):
    s = learner(rng, rng.rand() < .5)
    s.linear_model_learning = [tensap.LinearModelLearningSquareLoss()
                               for _ in range(pick(rng, [2, 9]))]
    for t in s.linear_model_learning:
        t.display = False
    return s.solve


@oreq
def tensor_learning_without_data(rng):
    s = learner(rng, rng.rand() < .5)
    s.bases_eval = None
    s.training_data = [None, s.training_data[1]]
    return s.solve


@oreq
def loss_of_canonical_learning(rng):
    s = learner(rng, True)
    s.loss_function = tensap.DensityL2LossFunction()
    return s.solve


@oreq
def tree_learning_without_tree(rng):
    s = learner(rng)
    s.tree = None
    return s.solve


@oreq
def rank_adaptation_of_tensor_learning(rng):
    s = learner(rng)
    s.rank_adaptation = True
    s.rank_adaptation_options["max_iterations"] = 3
    s.rank_adaptation_options["type"] = pick(rng, ["dmrgg", "inner", 3])
    return s.solve


@composite
def other_cases(draw):
    return {"q": draw(st.sampled_from(sorted(OTHERS))),
            "s": draw(st.integers(0, 9999))}


@P.relation("others", other_cases, 1500, rule="always")
def others(c):
    rng = rng_of(c)
    f = OTHERS[c["q"]](rng)
    lab(c["q"])
    refused(f, c["q"].replace("_", " "))

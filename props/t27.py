"""T27: the result of a query depends neither on the queries made before nor
on what the caller did with their results, and queries change nothing."""
import contextlib
import io
from copy import deepcopy
import numpy as np
import tensap
from props.tbt import *
from props import bases as B
from props import laws as L
from props import multi as M
from props import t08, t09, t10, t11, t12, t15, t16, t18, t20, t26

P = Prop("T27", "queries do not depend on the history of the objects", effort=1)


# --------------------------------------------------------------- comparison
FORMATS = (tensap.FullTensor, tensap.TreeBasedTensor, tensap.CanonicalTensor,
           tensap.SparseTensor, tensap.DiagonalTensor)
# attributes which store evaluations
CACHES = ()
# known orthonormality of a basis, observed through the other results
CACHES += ("is_orthonormal",)
# documented accessors: they return what the object holds
ACCESS = ("numpy", "get_coefficients", "to_list", "get_parameters",
          "representation_rank", "shape")


def dense_any(t):
    if isinstance(t, tensap.TreeBasedTensor):
        return dense(t)
    if isinstance(t, tensap.SparseTensor):
        return t10.sp_to_dense(t, "sparse tensor")
    if isinstance(t, tensap.CanonicalTensor):
        return np.asarray(t.full().data)
    return np.asarray(t.numpy())


def alike(a, b, what, seen=None):
    """a (used object) and b (fresh object) are the same result."""
    seen = set() if seen is None else seen
    if (id(a), id(b)) in seen:
        return
    seen.add((id(a), id(b)))
    if isinstance(a, FORMATS) or isinstance(b, FORMATS):
        need(type(a) is type(b), what + ": type", got=type(a), want=type(b))
        a, b = dense_any(a), dense_any(b)
    if isinstance(a, (np.ndarray, np.number, float, int, complex)) \
            and not isinstance(a, bool):
        need(not isinstance(b, (list, dict, str)) and
             np.shape(a) == np.shape(b), what + ": shape", got=a, want=b)
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                alike(x, y, "%s[%d]" % (what, i), seen)
            return
        if a.size == 0:
            return
        same(np.isfinite(a), np.isfinite(b), what + ": finite values")
        f = np.isfinite(b)
        close(a[f], b[f], what, tol=1e-8,
              scale=np.max(np.abs(b[f].astype(float)), initial=0) + 1e-300
              if b.dtype != complex else 1)
    elif isinstance(a, (list, tuple)):
        need(isinstance(b, (list, tuple)) and len(a) == len(b),
             what + ": length", got=a, want=b)
        for i, (x, y) in enumerate(zip(a, b)):
            alike(x, y, "%s[%d]" % (what, i), seen)
    elif isinstance(a, dict):
        need(isinstance(b, dict) and sorted(map(str, a)) == sorted(
            map(str, b)), what + ": keys", got=a, want=b)
        for k in a:
            alike(a[k], b[k], "%s[%r]" % (what, k), seen)
    elif type(a).__module__.startswith(("tensap", "props")) and not callable(
            getattr(a, "__wrapped__", None)) and not isinstance(a, type):
        need(type(a) is type(b), what + ": type", got=type(a), want=type(b))
        va, vb = vars(a), vars(b)
        for k in va:
            # private attributes may store results
            if k in vb and k not in CACHES and not k.startswith("_"):
                alike(va[k], vb[k], "%s.%s" % (what, k), seen)
    elif a is None or isinstance(a, (bool, np.bool_, str)):
        need(type(a) is type(b) or isinstance(b, (bool, np.bool_)),
             what + ": type", got=a, want=b)
        need(a == b, what, got=a, want=b)


def scribble(x):
    """Overwrite the arrays returned to the caller."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                scribble(y)
        elif x.flags.writeable:
            x[...] = 1 if x.dtype == bool else 77
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y)


def attempt(q, o, c, s, what):
    np.random.seed(s)
    r = np.random.RandomState(s + 1)
    try:
        call, args = q(o, c, r)
        before = deepcopy(args)
        with contextlib.redirect_stdout(io.StringIO()):
            out = call(*args)
    except Exception as e:          # refused: must be refused every time
        return "refused", type(e).__name__
    alike(args, before, what + ": arguments after the call")
    return "answered", out


def history(make, queries):
    def check(c):
        o = make(c)
        done, answered = [], 0
        qs = queries(c) if callable(queries) else queries
        for i, s in c["ops"]:
            name, q = qs[i % len(qs)]
            want = attempt(q, make(c), c, s, name)
            got = attempt(q, o, c, s, name)
            what = name + (" after " + ", ".join(done) if done else "")
            need(got[0] == want[0], what + ": answered or refused", got=got,
                 want=want)
            alike(got[1], want[1], what)
            if got[0] == "answered":
                answered += 1
                lab(name)
                if c["write"]:
                    lab("results overwritten")
                if c["write"] and name not in ACCESS:
                    scribble(got[1])
            done.append(name)
        return answered > 1 and len(set(done)) > 1
    return check


@composite
def with_ops(draw, gen):
    c = draw(gen)
    c["ops"] = draw(st.lists(st.tuples(
        st.integers(0, 99), st.integers(0, 5)), min_size=2, max_size=8))
    c["write"] = draw(st.booleans())
    return c


def Q(name, *args):
    """Query calling the method with the given arguments (functions of the
    object, the case and a random state)."""
    def q(o, c, r):
        f = getattr(o, name)
        return (f if callable(f) else lambda: f), [
            a(o, c, r) if callable(a) else a for a in args]
    return name, q


NAMES = {}


def relation(name, gen, make, queries, n):
    NAMES[name] = [q[0] for q in queries]
    P.relation(name, with_ops(gen), n,
               rule="at least two different queries answered")(
        history(make, queries))


# ---------------------------------------------------------------- arguments
def seeded(f):
    return lambda o, c, r: f(r)


def xs(o, c, r):
    x, _ = L.nodes(c, 8)
    return r.uniform(min(x) - .5, max(x) + .5, 5)


def ps(o, c, r):
    return r.uniform(.05, .95, 4)


def small(a, b):
    return lambda o, c, r: int(r.randint(a, b))


RVQ = [Q("pdf", xs), Q("cdf", xs), Q("icdf", ps), Q("mean"), Q("std"),
       Q("variance"), Q("support"), Q("truncated_support"), Q("mass"),
       Q("random_variable_statistics"), Q("min"), Q("max"),
       Q("number_of_parameters"), Q("get_parameters"), Q("is_discrete"),
       Q("random", small(1, 5)),
       Q("moment", lambda o, c, r: np.arange(r.randint(1, 5))),
       Q("gauss_integration_rule", small(1, 4)),
       Q("iso_probabilistic_grid", small(2, 5)),
       Q("discretize", small(2, 5)), Q("discretize_support", small(2, 5)),
       Q("likelihood", xs), Q("orthonormal_polynomials"),
       Q("orthonormal_polynomials", 3),
       Q("get_standard_random_variable"),
       Q("shift", small(-2, 3), small(1, 3)),
       Q("transfer", lambda o, c, r: tensap.NormalRandomVariable(1, 2), xs)]
MEASQ = RVQ + [Q("integration_rule"), Q("ndim")]
relation("measures", L.laws(), L.measure, MEASQ, 1200)


def polynomials(c):
    return L.measure(c).orthonormal_polynomials()


def degs(o, c, r):
    return r.randint(0, L.max_degree(c) + 1, r.randint(1, 4))


POLYQ = [Q("polyval", degs, xs), Q("d_polyval", degs, xs),
         Q("dn_polyval", small(1, 3), degs, xs), Q("poly_coeff", degs),
         Q("d_poly_coef", degs), Q("one"), Q("domain"),
         Q("truncated_domain"), Q("moment", degs), Q("mean", degs),
         Q("roots", lambda o, c, r: int(r.randint(1, L.max_degree(c) + 1))),
         Q("is_orthonormal"), Q("ndim"),
         Q("moment", degs, lambda o, c, r: L.measure(c)),
         Q("random", degs, small(1, 4)),
         ("basis", lambda o, c, r: (
             lambda i, x: tensap.PolynomialFunctionalBasis(o, i).eval(x),
             [range(r.randint(1, L.max_degree(c) + 2)), xs(o, c, r)]))]
relation("polynomials", L.laws(), polynomials, POLYQ, 1000)


def vpoints(o, c, r):
    return t15.points(c, r, 4)


def dims(k=None):
    def f(o, c, r):
        d = len(c.get("laws", c.get("bases", c.get("shape", []))))
        return sorted(r.permutation(d)[:r.randint(1, d + 1)].tolist())
    return f


def perm(o, c, r):
    return r.permutation(len(c.get("laws", c.get("bases",
                                                 c.get("shape", [])))))


def other(o, c, r):
    return tensap.RandomVector([tensap.NormalRandomVariable(i, 2)
                                for i in range(len(c["laws"]))])


VQ = [Q("pdf", vpoints), Q("cdf", vpoints), Q("mean"), Q("std"),
      Q("variance"), Q("support"), Q("truncated_support"), Q("size"),
      Q("ndim"), Q("marginal", dims()), Q("transpose", perm),
      Q("get_standard_random_vector"), 
      Q("random", small(1, 4)), Q("iso_probabilistic_grid", small(2, 4)),
      Q("orthonormal_polynomials"), Q("orthonormal_polynomials", 3),
      Q("transfer", other, vpoints), Q("mass")]
relation("vectors", t15.vectors(), t15.vector, VQ, 800)


# -------------------------------------------------------------------- bases
def gx(o, c, r):
    return B.generic(c, r, 4)


def integrand(o, c, r):
    w = r.uniform(-1, 1)
    return tensap.UserDefinedFunction(
        lambda x: np.cos(w * np.ravel(x)) + w, 1)


BQ = [Q("eval", gx), Q("eval_derivative", 1, gx),
      Q("eval_derivative", small(0, 3), gx), Q("cardinal"), Q("ndim"),
      Q("domain"), Q("mean"), Q("gram_matrix"), Q("one"), Q("kron"),
      Q("orthonormalize"), Q("interpolation_points"), Q("magic_points"),
      Q("magic_points", lambda o, c, r: B.generic(c, r, 25)[:, None]),
      Q("interpolation_points", lambda o, c, r: B.generic(c, r, 25)),
      Q("christoffel"), Q("christoffel", gx), Q("adaptation_path"),
      Q("storage"), Q("random", small(1, 4)), Q("derivative", 1),
      Q("derivative", 2), Q("gradient"), Q("hessian"),
      Q("optimal_sampling_measure"), Q("eval_jacobian", gx),
      Q("gram_matrix_h1_0"), Q("random_variable"),
      Q("projection", integrand,
        lambda o, c, r: tensap.IntegrationRule.gauss(o.measure, 12)),
      ("interpolate", lambda o, c, r: (
          lambda f, x: o.interpolate(f, x),
          [integrand(o, c, r), o.interpolation_points()]))]
relation("bases", B.bases(), B.make, BQ, 1500)


def mx(o, c, r):
    return M.generic(c, r, 4)


def someder(o, c, r):
    return r.randint(0, 3, len(c["bases"])).tolist()


def pool(c, r, n=6):
    return [B.generic(b, r, B.cardinal(b) + n)[:, None] for b in c["bases"]]


def function_of(c, r):
    w = r.uniform(-1, 1, len(c["bases"]))
    f = tensap.UserDefinedFunction(
        lambda x: np.cos(np.asarray(x) @ w) + w[0], len(c["bases"]))
    f.evaluation_at_multiple_points = True
    return f


MQ = [Q("eval", mx), Q("eval_derivative", someder, mx), Q("cardinal"),
      Q("cardinals"), Q("ndim"), Q("length"), Q("domain"), Q("mean"),
      Q("gram_matrix"), Q("gram_matrices"), Q("one"), Q("orthonormalize"),
      Q("remove_bases", dims()), Q("keep_bases", dims()),
      Q("transpose", perm), Q("adaptation_path"), Q("derivative", someder),
      Q("random", small(1, 3)), Q("get_random_vector"), Q("storage"),
      Q("interpolation_points"), Q("optimal_sampling_measure"),
      Q("conditional_expectation", dims()), Q("christoffel", mx),
      Q("magic_points", lambda o, c, r: pool(c, r)),
      Q("kron", lambda o, c, r: M.make(c)),
      Q("gram_matrix_h1_0"),
      Q("eval", mx, lambda o, c, r: list(range(len(c["bases"]))), 2),
      ("keep_mapping", lambda o, c, r: (
          o.keep_mapping, [sorted(r.permutation(o.cardinal())[:2].tolist())])),
      ("remove_mapping", lambda o, c, r: (
          o.remove_mapping,
          [sorted(r.permutation(o.cardinal())[:1].tolist())])),
      ("tensor_product_interpolation", lambda o, c, r: (
          o.tensor_product_interpolation, [function_of(c, r)]))]
relation("products_of_bases",
         M.multis(kinds=("poly", "canonical", "sub", "piecewise"),
                  forms=("full", "sparse", "bases")), M.make, MQ, 1000)


# ---------------------------------------------------------------- functions
def fun18(c):
    return t18.fun(c)[0]


def same18(o, c, r):
    return t18.fun(c, 1)[0]


def fx(o, c, r):
    x = M.generic(c, r, 4)
    return x[:, 0] if c["form"] == "univariate" else x


FQ = [Q("eval", fx), Q("__call__", fx), Q("eval_derivative", someder, fx),
      Q("eval_derivative", 1, fx), Q("derivative", someder),
      Q("eval_gradient", fx), Q("mean"), Q("expectation"), Q("variance"),
      Q("std"), Q("norm"), Q("norm", 1), Q("norm_expectation"),
      Q("conditional_expectation", dims()),
      Q("variance_conditional_expectation", lambda o, c, r: [dims()(o, c, r)]),
      Q("dot_product_expectation", same18), Q("dot", same18),
      Q("random", small(1, 3)), Q("get_random_vector"), Q("storage"),
      Q("sparse_storage"), Q("get_coefficients"), Q("sub_functional_basis"),
      Q("projection", lambda o, c, r: t18.basis(c)), Q("is_random"),
      Q("__add__", same18), Q("__sub__", same18), Q("__neg__"),
      Q("__mul__", 2.5), Q("__eq__", same18)]
relation("expansions", t18.funs(), fun18, FQ, 1000)


def ft(c):
    return t20.make(c)[0]


def ft2(o, c, r):
    return t20.make(c, 1)[0]


TQ = [Q("eval", mx), Q("__call__", mx), Q("eval_derivative", someder, mx),
      Q("eval_gradient", mx), Q("derivative", someder), Q("mean"),
      Q("expectation"), Q("variance"), Q("std"), Q("norm"),
      Q("conditional_expectation", dims()),
      Q("variance_conditional_expectation", lambda o, c, r: [dims()(o, c, r)]),
      Q("dot_product_expectation", ft2), Q("random", small(1, 3)),
      Q("get_random_vector"), Q("storage"), Q("is_random"),
      Q("__add__", ft2), Q("__sub__", ft2), Q("__neg__"), Q("__mul__", 2.5),
      Q("eval_on_grid", lambda o, c, r: [
          B.generic(b, r, 2) for b in c["bases"]]),
      Q("parameter_gradient_eval", small(1, 4), mx),
      ("partial_evaluation", lambda o, c, r: (
          lambda k, x: o.partial_evaluation(k, x).eval(
              mx(o, c, np.random.RandomState(3))[
                  :, [i for i in range(len(c["bases"])) if i not in k]]),
          [[0], mx(o, c, r)[:1, :1]])),
      ("bases", lambda o, c, r: (lambda: [
          b.eval(x) for b, x in zip(o.bases.bases, mx(o, c, r).T)], []))]
relation("functional_tensors", t20.funs(extra=True), ft, TQ, 800)


FCQ = [Q("eval", lambda o, c, r: t26.points(r, 4, c["dim"])),
       Q("__call__", lambda o, c, r: t26.points(r, 4, c["dim"])),
       Q("store_eval", lambda o, c, r: t26.points(r, 3, c["dim"])),
       ("partial_evaluation", lambda o, c, r: (
           lambda k, x: np.asarray(o.partial_evaluation(k, x).eval(
               t26.points(np.random.RandomState(3), 3, c["dim"] - 1))),
           [[0], t26.points(r, 1, 1)])),
       Q("eval_on_tensor_grid", lambda o, c, r: tensap.FullTensorGrid(
           [t26.points(r, 2, 1) for _ in range(c["dim"])])),
       Q("random", small(1, 3), lambda o, c, r: tensap.RandomVector(
           tensap.UniformRandomVariable(), c["dim"]))]


def function26(c):
    return t26.make(t26.valid(c))[0]


def values_only(queries):
    """The stored evaluations are part of the returned functions."""
    def drop(q):
        def r_(o, c, r):
            call, args = q(o, c, r)

            def f(*a):
                out = call(*a)
                return out[0] if isinstance(out, tuple) else out
            return f, args
        return r_
    return [(n, drop(q)) for n, q in queries]


relation("functions", t26.functions(), function26, values_only(FCQ), 600)


def tens(c):
    return t12.make(c)[0]


def ux(o, c, r):
    u = r.uniform(.1, .9, (4, c["dim"]))
    X = o.X if hasattr(o, "X") else None
    return X.icdf(u) if hasattr(X, "icdf") else u


def uz(o, c, r):
    return np.hstack([r.randint(0, c["b"], (4, c["d"] * c["dim"])),
                      r.uniform(.1, .9, (4, c["dim"]))])


ZQ = [("map", lambda o, c, r: (o.map, [ux(o, c, r)])),
      ("inverse_map", lambda o, c, r: (o.inverse_map, [uz(o, c, r)])),
      ("tensorize", lambda o, c, r: (
          lambda z: o.tensorize(t12.FUNS[0]).eval(z), [uz(o, c, r)])),
      ("bases", lambda o, c, r: (
          lambda: o.tensorized_function_functional_bases(
              tensap.PolynomialFunctionalBasis(
                  tensap.LegendrePolynomials(), range(2))).cardinals(), []))]
relation("tensorizers", t12.tensorizers(), tens, ZQ, 500)


# ------------------------------------------------------------------ tensors
def vecs(o, c, r):
    return [r.standard_normal(n) for n in c["shape"]]


def mats(o, c, r):
    return [r.standard_normal((2, n)) for n in c["shape"]]


def square(o, c, r):
    out = []
    for n in c["shape"]:
        a = r.standard_normal((n, n))
        out.append(a @ a.T + np.eye(n))
    return out


def idx(o, c, r):
    return np.stack([r.randint(0, n, 4) for n in c["shape"]], 1)


def subs(o, c, r):
    return [r.randint(0, n, r.randint(1, 3)).tolist() for n in c["shape"]]


def star(name, arg):
    """Query with a variable number of arguments."""
    def q(o, c, r):
        return getattr(o, name), list(arg(o, c, r))
    return name, q


def some(name, arg):
    """Query on some of the dimensions."""
    def q(o, c, r):
        k = dims()(o, c, r)
        a = arg(o, c, r)
        return getattr(o, name), [[a[i] for i in k], k]
    return name + " on some dimensions", q


COMMON = [Q("full"), Q("numpy"), Q("storage"), Q("sparse_storage"),
          Q("norm"), Q("ndim"), Q("size"),
          Q("tensor_vector_product", vecs), Q("tensor_matrix_product", mats),
          some("tensor_vector_product", vecs),
          some("tensor_matrix_product", mats),
          some("tensor_diagonal_matrix_product", vecs),
          Q("tensor_diagonal_matrix_product", vecs),
          Q("tensor_matrix_product_eval_diag", mats),
          Q("eval_at_indices", idx), Q("eval_diag"), Q("reduce_sum"),
          Q("reduce_sum", dims()), star("sub_tensor", subs), Q("squeeze"),
          Q("transpose", perm), Q("orth"), Q("singular_values"),
          Q("__neg__"), Q("__mul__", 2.5), Q("__rmul__", 2.5),
          Q("__truediv__", 2.), Q("__eq__", lambda o, c, r: deepcopy(o))]


def tens_queries(make, more=()):
    second = lambda o, c, r: make(dict(c, s=c["s"] + 7)) if "s" in c \
        else make(c)
    return COMMON + [Q("dot", second), Q("__add__", second),
                     Q("__sub__", second), Q("kron", second),
                     Q("cat", second), Q("hadamard_product", second),
                     Q("dot_with_rank_one_metric", second, square)] + list(
        more)


@composite
def arrays(draw):
    return {"shape": draw(shapes(1, 4, 4, 100)),
            "k": draw(st.sampled_from(["gauss", "int", "sparse"])),
            "s": draw(st.integers(0, 2 ** 16))}


def fulls(c):
    return tensap.FullTensor(np.array(build(c), dtype=float))


def second_full(o, c, r):
    return fulls(dict(c, s=c["s"] + 7))


relation("dense_tensors", arrays(), fulls, tens_queries(fulls, [
    Q("reshape", lambda o, c, r: [prod(c["shape"])]), Q("reduce_mean"),
    Q("matricize", dims()), Q("principal_components", 1e-3),
    Q("alpha_principal_components", dims(), 1e-3), Q("orth", 0),
    Q("tree_based_tensor"), Q("sparse"),
    Q("tensordot", second_full, 0, 0),
    Q("outer_product_eval_diag", second_full, 0, 0),
    Q("tensordot_matrix_product_except_dim", second_full, square, 0)]), 800)


def tbt(c):
    return build_tbt(c)[0]


def anynode(o, c, r):
    return int(r.randint(1, len(c["par"]) + 1))


relation("tree_based_tensors", tbts(), tbt, tens_queries(tbt, [
    Q("orth_at_node", anynode), Q("change_root", anynode), Q("gramians"),
    Q("gramians", anynode), Q("representation_rank"), Q("rank"),
    Q("active_nodes"), Q("non_active_nodes"), Q("active_dims"),
    Q("is_admissible_rank"), Q("sparse_leaves_storage"),
    Q("permute_nodes", lambda o, c, r: [anynode(o, c, r), anynode(o, c, r)]),
    Q("permute_leaves", perm), Q("inactivate_nodes", anynode),
    Q("activate_nodes", lambda o, c, r: o.non_active_nodes),
    Q("remove_unique_children"), Q("eval_diag_below"), Q("eval_diag_above"),
    Q("parameter_gradient_eval_diag", anynode),
    Q("nodes_permutation_cost", 2.),
    Q("optimize_dimension_tree", 1e-8, 3),
    Q("optimize_leaves_permutations", 1e-8, 3)]), 1200)


relation("canonical_tensors", t09.cps(), lambda c: t09.build_cp(c)[0],
         tens_queries(lambda c: t09.build_cp(c)[0], [
             Q("representation_rank"),
             Q("parameter_gradient_eval_diag", 0, mats),
             Q("tree_based_tensor", lambda o, c, r:
               tensap.DimensionTree.trivial(len(c["shape"])))]), 600)
relation("sparse_tensors", t10.sps(), lambda c: t10.build_sp(c)[0],
         tens_queries(lambda c: t10.build_sp(c)[0], [
             Q("count_non_zero"),
             Q("reshape", lambda o, c, r: [prod(c["shape"])])]), 600)


@composite
def diagonals(draw):
    n, d = draw(st.integers(1, 4)), draw(st.integers(2, 4))
    return {"shape": [n] * d, "s": draw(st.integers(0, 2 ** 16))}


def diag(c):
    r = np.random.RandomState(c["s"])
    return tensap.DiagonalTensor(r.standard_normal(c["shape"][0]),
                                 len(c["shape"]))


relation("diagonal_tensors", diagonals(), diag, tens_queries(diag, [
    Q("tree_based_tensor"), Q("sparse")]), 400)


# ------------------------------------------------------ trees, sets, grids
def order_of(c):
    return len(c["d2i"])


relation("trees", trees(), build_tree, [
    Q("children", anynode), Q("parent", anynode), Q("child_number", anynode),
    Q("ascendants", anynode), Q("descendants", anynode),
    Q("change_root", anynode), Q("add_child", anynode),
    Q("sub_dimension_tree", anynode),
    Q("permute", lambda o, c, r: r.permutation(order_of(c))),
    Q("ipermute", lambda o, c, r: r.permutation(order_of(c))),
    Q("node_with_dims", lambda o, c, r: sorted(
        r.permutation(order_of(c))[:2].tolist())),
    Q("nodes_with_level", small(0, 3)), Q("tree_layout"),
    Q("update_dims_from_leaves"),
    Q("__eq__", lambda o, c, r: build_tree(c)),
    ("attributes", lambda o, c, r: (lambda: [
        np.array(o.dim2ind), np.array(o.level), np.array(o.is_leaf),
        np.array(o.adjacency_matrix), o.nb_nodes, o.arity,
        [np.array(d) for d in o.dims]], []))], 600)


def mi(c):
    return t11.build_mi(c["rows"], c.get("how", 0))


@composite
def rows(draw):
    return {"rows": draw(t11.sets())}


def mdims(o, c, r):
    d = o.ndim()
    return sorted(r.permutation(d)[:r.randint(1, d + 1)].tolist())


def mset(o, c, r):
    return tensap.MultiIndices(r.randint(0, 4, (3, o.ndim())))


def sel(o, c, r):
    return sorted(r.permutation(o.cardinal())[:2].tolist())


relation("multi_indices", rows(), mi, [
    Q("cardinal"), Q("ndim"), Q("to_list"), Q("norm", 2), Q("norm", np.inf),
    Q("weighted_norm", 2, lambda o, c, r: r.uniform(.5, 2, o.ndim())),
    Q("sort_by_norm", 1), Q("sort_by_norm", 1, "descend"), Q("sort"),
    Q("sort_by_weighted_norm", 1,
      lambda o, c, r: r.uniform(.5, 2, o.ndim())),
    Q("add_indices", mset), Q("remove_indices", mset),
    Q("intersect_indices", mset), Q("product", mset),
    Q("remove_dims", mdims), Q("keep_dims", mdims), Q("keep_indices", sel),
    Q("get_indices", sel), Q("is_downward_closed"),
    Q("get_maximal_indices"), Q("get_margin"), Q("get_reduced_margin"),
    Q("envelope", lambda o, c, r: r.uniform(0, 1, o.cardinal())),
    Q("__add__", 1), Q("__sub__", 1), Q("__eq__", mset),
    Q("sub2ind", lambda o, c, r: [9] * o.ndim())], 600)


# --------------------------------------------------------------- integration
def rule(c):
    return tensap.IntegrationRule.gauss(L.measure(c["laws"][0]), c["n"]) \
        if len(c["laws"]) == 1 else tensap.FullTensorProductIntegrationRule(
            tensap.FullTensorGrid([L.nodes(a, c["n"])[0] for a in c["laws"]]),
            [L.nodes(a, c["n"])[1] for a in c["laws"]])


def summed(o, c, r):
    return lambda x: np.sum(np.cos(np.reshape(x, (len(x), -1))), 1)


def keep(name, *args):
    """Query whose arguments are functions."""
    def q(o, c, r):
        a = [f(o, c, r) for f in args]
        return (lambda: getattr(o, name)(*a)), []
    return name, q


relation("integration_rules",
         t15.vectors(kinds=("uniform", "normal"), max_d=3), rule, [
             Q("ndim"), keep("integrate", summed), Q("integration_rule"),
             Q("weights_on_grid"), Q("tensorize", small(1, 3)),
             ("points", lambda o, c, r: (lambda: np.array(
                 o.points if not hasattr(o, "grid") else o.grid.array()),
                 []))], 300)


def grid(c):
    return tensap.FullTensorGrid([np.array(g, dtype=float) for g in c["g"]])


@composite
def grid_cases(draw):
    return {"g": [[v / 2 for v in draw(st.lists(
        st.integers(-6, 6), min_size=1, max_size=3, unique=True))]
        for _ in range(draw(st.integers(1, 3)))]}


relation("grids", grid_cases(), grid, [
    Q("array"), Q("size"), Q("ndim"), Q("multi_indices"), Q("shape"),
    Q("eval_at_indices", lambda o, c, r: np.stack(
        [r.randint(0, len(g), 3) for g in c["g"]], 1)),
    ("grids", lambda o, c, r: (lambda: [np.array(g) for g in o.grids],
                               []))], 300)


# ------------------------------------------------------------------- solvers
@composite
def truncators(draw):
    return {"shape": draw(shapes(3, 4, 4, 100)),
            "tol": draw(st.sampled_from([1e-12, 1e-2, .3])),
            "max": draw(st.sampled_from([np.iinfo(int).max, 1, 2]))}


def truncator(c):
    return tensap.Truncator(tolerance=c["tol"], max_rank=c["max"])


def low(o, c, r):
    """A tensor whose singular values are well separated."""
    x = 0.
    for k in range(3):
        t = np.ones(())
        for n in c["shape"]:
            t = np.multiply.outer(t, r.standard_normal(n))
        x = x + 10. ** (-2 * k) * t
    return tensap.FullTensor(x)


def low_matrix(o, c, r):
    return tensap.FullTensor(low(o, c, r).data.reshape(c["shape"][0], -1))


def random_tree(o, c, r):
    np.random.seed(r.randint(1000))
    return tensap.DimensionTree.random(len(c["shape"]), 2)


relation("truncators", truncators(), truncator, [
    Q("truncate", low), Q("hosvd", low), Q("ttsvd", low),
    Q("hsvd", low, random_tree), Q("hsvd", low), Q("svd", low_matrix),
    Q("truncate", low_matrix),
    Q("trunc_svd", lambda o, c, r: low_matrix(o, c, r).data, .1),
    Q("trunc_svd", lambda o, c, r: low_matrix(o, c, r).data, 1e-8, 2, 1)],
    300)


@composite
def selections(draw):
    n = draw(st.integers(2, 6))
    return {"n": n, "s": draw(st.integers(0, 9999))}


def selection(c):
    r = np.random.RandomState(c["s"])
    m = tensap.ModelSelection()
    m.data["complexity"] = np.sort(r.permutation(40)[:c["n"]] + 1.)
    m.data["empirical_risk"] = np.sort(r.uniform(0, 1, c["n"]))[::-1].copy()
    return m


relation("model_selection", selections(), selection, [
    Q("m_lambda", lambda o, c, r: r.uniform(0, 3, 3)), Q("m_lambda", .3),
    Q("lambda_path"), Q("slope_heuristic"),
    Q("slope_heuristic", lambda o, c, r: o.lambda_path()[0],
      lambda o, c, r: o.lambda_path()[1])], 300)


def losses(c):
    return tensap.DensityL2LossFunction() if c["density"] \
        else tensap.SquareLossFunction()


@composite
def loss_cases(draw):
    c = draw(t18.funs(kinds=("poly",), multi=False))
    c.update(density=draw(st.booleans()))
    c["shape"] = []
    return c


def data18(o, c, r):
    x = fx(o, c, r)
    return [x, r.standard_normal(len(x))] if not c["density"] else [x]


def loss(name):
    def q(o, c, r):
        f = fun18(c)
        return (lambda d: np.array(getattr(o, name)(f, d))), [data18(o, c, r)]
    return name, q


relation("losses", loss_cases(), losses, [
    loss("eval"), loss("risk_estimation"), loss("test_error"),
    loss("relative_test_error")], 200)

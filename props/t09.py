"""T09: canonical and diagonal tensors against dense arrays."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T09", "canonical and diagonal tensors against dense arrays", effort=3)


@composite
def cps(draw, shape=None, min_order=1, max_order=4, max_rank=4, kinds=None):
    sh = shape or draw(shapes(min_order, max_order, 4, 200))
    return {"shape": list(sh), "r": draw(st.integers(1, max_rank)),
            "k": draw(st.sampled_from(kinds or ["gauss", "int", "sparse"])),
            "s": draw(st.integers(0, 2 ** 16)),
            "unit": draw(st.sampled_from([False, False, True]))}


def build_cp(spec):
    """(tensor, factors, weights, dense array)"""
    r = spec["r"]
    fac = [build({"shape": [n, r], "k": spec["k"], "s": spec["s"] + 3 * i})
           for i, n in enumerate(spec["shape"])]
    c = build({"shape": [r], "k": spec["k"], "s": spec["s"] + 99})
    if spec["unit"]:
        c = np.ones(r)
    X = tensap.CanonicalTensor([f.copy() for f in fac], c.copy())
    return X, fac, c, cp_dense(fac, c)


def cp_dense(fac, c):
    args = []
    for i, f in enumerate(fac):
        args += [f, [i, 99 - 50]]
    return np.einsum(c, [49], *args, list(range(len(fac))))


def froz(X):
    fz = Frozen(X.core.data, *X.space)
    sp, core, order, sh = list(X.space), X.core, X.order, list(X.shape)

    def ok(what):
        fz.check(what)
        need(len(X.space) == len(sp) and all(
            a is b for a, b in zip(X.space, sp)) and X.core is core and
            X.order == order and list(X.shape) == sh,
            what + ": the tensor was modified")
    return ok


def is_cp(Y, want, what, tol=1e-9, **kw):
    """A valid canonical tensor representing the array."""
    need(isinstance(Y, tensap.CanonicalTensor), what + ": type", got=type(Y))
    need(Y.order == want.ndim and Y.ndim == want.ndim, what + ": order",
         got=Y.order, **kw)
    same(np.asarray(Y.shape), want.shape, what + ": shape", **kw)
    r = np.asarray(Y.core.data).size
    for i, f in enumerate(Y.space):
        same(np.shape(f), (want.shape[i], r), what + ": factor shape")
    close(cp_dense([np.asarray(f) for f in Y.space],
                   np.asarray(Y.core.data).reshape(-1)), want, what, tol=tol,
          **kw)
    close(arr(Y.full()), want, what + ": full", tol=tol, **kw)


@composite
def g_arith(draw):
    a = draw(cps())
    return {"a": a, "b": draw(cps(shape=a["shape"])),
            "c": draw(st.integers(-3, 3))}


@P.relation("arithmetic", g_arith, 2000,
            rule="pairs of tensors of different ranks; trivial if rank 1 or "
                 "one entry")
def _(case):
    X, fx, cx, x = build_cp(case["a"])
    Y, fy, cy, y = build_cp(case["b"])
    okx, oky = froz(X), froz(Y)
    is_cp(X, x, "constructor")
    close(arr(X.numpy()), x, "numpy")
    is_cp(X + Y, x + y, "x+y")
    is_cp(X - Y, x - y, "x-y")
    is_cp(-X, -x, "-x")
    is_cp(X + Y - X, y, "x+y-x", tol=1e-8)
    nn = np.linalg.norm
    sx = sum(abs(cx[k]) * np.prod([nn(f[:, k]) for f in fx])
             for k in range(len(cx)))
    sy = sum(abs(cy[k]) * np.prod([nn(f[:, k]) for f in fy])
             for k in range(len(cy)))
    close(X.dot(Y), np.sum(x * y), "dot", scale=sx * sy, shape=False)
    close(Y.dot(X), np.sum(x * y), "dot", scale=sx * sy, shape=False)
    close(X.norm() ** 2, np.sum(x * x), "norm^2", scale=sx * sx, shape=False)
    need(int(X.storage()) == cx.size + sum(f.size for f in fx), "storage")
    need(int(X.sparse_storage()) == np.count_nonzero(cx)
         + sum(np.count_nonzero(f) for f in fx), "sparse_storage")
    need(X.representation_rank() == len(cx), "representation_rank")
    need((X + Y).representation_rank() == len(cx) + len(cy),
         "representation rank of a sum")
    okx("arithmetic")
    oky("arithmetic")
    lab("order%d" % x.ndim, "rank%d" % len(cx))
    return x.size > 1 and len(cx) + len(cy) > 2


@composite
def g_contr(draw):
    a = draw(cps())
    d = len(a["shape"])
    return {"a": a, "dims": draw(subset(d, 1)),
            "rows": [draw(st.integers(1, 3)) for _ in range(d)],
            "s": draw(st.integers(0, 2 ** 16)),
            "list": draw(st.booleans()), "col": draw(st.booleans())}


def val(got, want, what, **kw):
    if np.ndim(want) == 0:
        close(np.asarray(arr(got)).reshape(()), want, what, **kw)
    else:
        is_cp(got, want, what, **kw)


@P.relation("contraction", g_contr, 2000,
            rule="products with vectors and matrices along any subset of the "
                 "dimensions, sums, squeezing; trivial if order 1")
def _(case):
    X, fx, cx, x = build_cp(case["a"])
    ok = froz(X)
    rng = np.random.RandomState(case["s"])
    sh, d = x.shape, x.ndim
    dims = case["dims"]
    V = [rng.randn(n) for n in sh]
    M = [rng.randn(m, n) for m, n in zip(case["rows"], sh)]
    vv = [v.reshape(-1, 1) if case["col"] else v for v in V]
    arg = dims if case["list"] else np.array(dims)
    fz = Frozen(*V, *M, *([arg] if not case["list"] else []))
    tol = 1e-8

    def vec(ds):
        return np_matprod(x, [V[i][None] for i in ds], ds).reshape(
            [n for i, n in enumerate(sh) if i not in ds])

    val(X.tensor_vector_product(vv), vec(list(range(d))),
        "tensor_vector_product(all)", tol=tol)
    val(X.tensor_vector_product([vv[i] for i in dims], arg), vec(dims),
        "tensor_vector_product(dims)", tol=tol, dims=dims)
    val(X.tensor_vector_product(vv[dims[0]], dims[0]), vec(dims[:1]),
        "tensor_vector_product(one)", tol=tol)
    val(X.tensor_matrix_product(M), np_matprod(x, M, range(d)),
        "tensor_matrix_product(all)", tol=tol)
    val(X.tensor_matrix_product([M[i] for i in dims], arg),
        np_matprod(x, [M[i] for i in dims], dims),
        "tensor_matrix_product(dims)", tol=tol)
    val(X.tensor_matrix_product(M[dims[0]], dims[0]),
        np_matprod(x, [M[dims[0]]], dims[:1]),
        "tensor_matrix_product(one)", tol=tol)
    val(X.reduce_sum(), x.sum(), "reduce_sum()", tol=tol)
    val(X.reduce_sum(arg), x.sum(axis=tuple(dims)), "reduce_sum(dims)",
        tol=tol)
    if 1 in sh:
        val(X.squeeze(), np.squeeze(x), "squeeze()", tol=tol)
        one = [i for i in dims if sh[i] == 1]
        if one:
            val(X.squeeze(one), np.squeeze(x, tuple(one)), "squeeze(dims)",
                tol=tol)
            val(X.squeeze(one[0]), np.squeeze(x, one[0]), "squeeze(int)",
                tol=tol)
            lab("squeeze")
    fz.check("contraction")
    ok("contraction")
    lab("order%d" % d, "dims%d" % len(dims))
    return d > 1


@composite
def g_diag(draw):
    d = draw(st.integers(2, 4))
    dims = draw(subset(d, 2))
    n = draw(st.integers(1, 4))
    sh = [n if i in dims else draw(st.integers(1, 3)) for i in range(d)]
    return {"a": draw(cps(shape=sh)), "dims": dims, "n": n,
            "m": draw(st.integers(1, 4)), "s": draw(st.integers(0, 2 ** 16)),
            "list": draw(st.booleans())}


@P.relation("diagonal", g_diag, 2000,
            rule="diagonals over any subset of at least two dimensions, with "
                 "and without matrices; trivial if rank 1 and size 1")
def _(case):
    X, fx, cx, x = build_cp(case["a"])
    ok = froz(X)
    dims, d = case["dims"], x.ndim
    arg = dims if case["list"] else np.array(dims)
    rng = np.random.RandomState(case["s"])
    M = [rng.randn(case["m"], n) for n in x.shape]

    def res(got, want, what):
        if want.ndim == 1 and len(dims) == d:
            close(arr(got), want, what, tol=1e-8)
        else:
            is_cp(got, want, what, tol=1e-8)

    if len(set(x.shape)) == 1:
        close(arr(X.eval_diag()), np_diag(x, range(d)), "eval_diag()",
              tol=1e-8)
        ok("eval_diag()")
        close(arr(X.eval_diag()), np_diag(x, range(d)), "eval_diag() again",
              tol=1e-8)
    res(X.eval_diag(arg), np_diag(x, dims), "eval_diag(dims)")
    ok("eval_diag(dims)")
    close(arr(X.tensor_matrix_product_eval_diag(M)),
          np_diag(np_matprod(x, M, range(d)), range(d)),
          "tensor_matrix_product_eval_diag()", tol=1e-8)
    res(X.tensor_matrix_product_eval_diag([M[i] for i in dims], arg),
        np_diag(np_matprod(x, [M[i] for i in dims], dims), dims),
        "tensor_matrix_product_eval_diag(dims)")
    ok("tensor_matrix_product_eval_diag")
    lab("dims%d" % len(dims), "order%d" % d)
    return x.size > 1 or len(cx) > 1


@composite
def g_grad(draw):
    d = draw(st.integers(2, 4))
    n = draw(st.integers(1, 4))
    mu = draw(st.integers(1, d + 1))
    sh = [n] * d
    if mu <= d:
        sh[mu - 1] = draw(st.integers(1, 4))
    return {"a": draw(cps(shape=sh)), "mu": mu,
            "s": draw(st.integers(0, 2 ** 16))}


@P.relation("gradient", g_grad, 1000,
            rule="derivatives with respect to a factor or the weights of the "
                 "evaluations; trivial if rank 1 and one evaluation")
def _(case):
    X, fx, cx, x = build_cp(case["a"])
    ok = froz(X)
    mu, d, r = case["mu"], x.ndim, len(cx)
    n = x.shape[0] if mu != 1 else x.shape[1]
    other = np.ones((n, r))
    for i, f in enumerate(fx):
        if i != mu - 1:
            other = other * f
    if mu == d + 1:
        close(arr(X.parameter_gradient_eval_diag(mu)), other,
              "derivative with respect to the weights")
    else:
        m = x.shape[mu - 1]
        close(arr(X.parameter_gradient_eval_diag(mu)),
              np.einsum("nk,ij->nkij", other, np.eye(m)),
              "derivative with respect to a factor (evaluations of a "
              "partial diagonal)")
        H = [np.random.RandomState(case["s"] + i).randn(n, 3)
             for i in range(d)]
        close(arr(X.parameter_gradient_eval_diag(mu, H)),
              np.einsum("nk,ni->nki", other, H[mu - 1]),
              "derivative with respect to a factor, with matrices")
    ok("parameter_gradient_eval_diag")
    lab("weights" if mu == d + 1 else "factor")
    return n > 1 or r > 1


@composite
def g_conv(draw):
    a = draw(cps(min_order=2, max_order=5, max_rank=3))
    d = len(a["shape"])
    t = draw(trees(d, d))
    return {"a": a, "tree": t, "off": sorted(draw(subset(d)))
            if draw(st.booleans()) else None,
            "k": draw(st.integers(0, 2)), "r": draw(st.integers(1, 3)),
            "s": draw(st.integers(0, 2 ** 16))}


@P.relation("orth_conversion_creation", g_conv, 1500,
            rule="orthonormal representation, conversion to a tree-based "
                 "format with any tree and inactive leaves, generators; "
                 "trivial if one entry")
def _(case):
    X, fx, cx, x = build_cp(case["a"])
    ok = froz(X)
    Y = X.orth()
    ok("orth")
    for i, f in enumerate(Y.space):
        close(f.T @ f, np.eye(f.shape[1]), "orth: factor %d" % i)
    close(np_matprod(arr(Y.core.full()), Y.space, range(x.ndim)), x,
          "orth: the tensor changed")
    close(arr(Y.full()), x, "orth: full")
    close(np.linalg.norm(arr(Y.core.full())), np.linalg.norm(x),
          "orth: norm of the core")
    close(Y.norm(), np.linalg.norm(x), "orth: norm", shape=False)
    T = build_tree(case["tree"])
    off = case["off"]
    act = None
    if off is not None:
        act = np.ones(T.nb_nodes, dtype=bool)
        for i in off:
            act[case["tree"]["d2i"][i] - 1] = False
    Z = X.tree_based_tensor(T) if act is None else X.tree_based_tensor(T, act)
    ok("tree_based_tensor")
    same_tbt(Z, x, "tree_based_tensor")
    if act is not None:
        same(np.asarray(Z.is_active_node), act, "tree_based_tensor: activity")
    same(np.asarray(Z.tree.adjacency_matrix), T.adjacency_matrix,
         "tree_based_tensor: tree")
    sh, r = case["a"]["shape"], case["r"]
    C = tensap.CanonicalTensor
    is_cp(C.zeros(r, sh), np.zeros(sh), "zeros")
    is_cp(C.ones(1, sh), np.ones(sh), "ones")
    np.random.seed(case["s"])
    for f, lo, hi in ((C.rand, 0, 1), (C.randn, -np.inf, np.inf)):
        Y = f(r, sh)
        need(Y.representation_rank() == r, "creation: rank")
        same(np.asarray(Y.shape), sh, "creation: shape")
        need(all(np.all(s > lo) and np.all(s < hi) and s.shape == (n, r)
                 for s, n in zip(Y.space, sh)), "creation: factors")
    lab("off" if off else "on")
    return x.size > 1


# ------------------------------------------------------------------- diagonal
@composite
def g_dg(draw):
    d = draw(st.integers(2, 4))
    r = draw(st.integers(1, 4))
    r2 = draw(st.integers(1, 4))
    return {"x": draw(array_spec([r], ("gauss", "int"))), "d": d,
            "y": draw(array_spec([r], ("gauss", "int"))),
            "z": draw(array_spec([r2], ("gauss", "int"))),
            "dims": draw(subset(d, 1)), "m": draw(st.integers(1, 3)),
            "s": draw(st.integers(0, 2 ** 16)),
            "n": draw(st.integers(1, 5)),
            "perm": list(draw(st.permutations(range(d)))),
            "arity": draw(trees(d, d))}


def dg(x, d):
    out = np.zeros((x.size,) * d)
    out[(np.arange(x.size),) * d] = x
    return out


@P.relation("diagonal_tensor", g_dg, 2000,
            rule="diagonal tensors of order 2 to 4; trivial if rank 1")
def _(case):
    xv, yv, zv, d = (build(case[k]) if k != "d" else case[k]
                     for k in ("x", "y", "z", "d"))
    r, r2 = xv.size, zv.size
    D = tensap.DiagonalTensor
    X, Y, Z = D(xv.copy(), d), D(yv.copy(), d), D(zv.copy(), d)
    x, y, z = dg(xv, d), dg(yv, d), dg(zv, d)
    fz = Frozen(X.data, Y.data, Z.data)
    rng = np.random.RandomState(case["s"])
    tol = 1e-8

    def eq(got, want, what):
        need(isinstance(got, D), what + ": type", got=type(got))
        need(got.order == want.ndim, what + ": order", got=got.order)
        same(np.asarray(got.shape), want.shape, what + ": shape")
        close(arr(got.full()), want, what, tol=tol)

    eq(X, x, "constructor")
    eq(D(X), x, "copy")
    eq(X + Y, x + y, "x+y")
    eq(X - Y, x - y, "x-y")
    eq(-X, -x, "-x")
    eq(X * Y, x * y, "x*y")
    close(arr(X.numpy()), x, "numpy")
    close(arr(X.sparse().full()), x, "sparse")
    close(X.dot(Y), np.sum(x * y), "dot", shape=False)
    close(X.norm(), np.linalg.norm(xv), "norm", shape=False)
    need(int(X.storage()) == r and int(X.sparse_storage())
         == np.count_nonzero(xv), "storage")
    eq(X.transpose(case["perm"]), x, "transpose")
    eq(X.itranspose(case["perm"]), x, "itranspose")
    want = np.zeros([r + r2] * d)
    want[(slice(0, r),) * d] = x
    want[(slice(r, None),) * d] = z
    eq(X.cat(Z), want, "cat")
    eq(X.kron(Z), np.kron(x, z), "kron")
    V = [rng.randn(r) for _ in range(d)]
    M = [rng.randn(case["m"], r) for _ in range(d)]
    W = [rng.randn(r, r2) for _ in range(d)]
    dims = case["dims"]
    close(X.tensor_vector_product(V),
          np_matprod(x, [v[None] for v in V], range(d)).reshape(()),
          "tensor_vector_product", shape=False)
    close(arr(X.tensor_matrix_product(M)), np_matprod(x, M, range(d)),
          "tensor_matrix_product")
    close(arr(X.tensor_matrix_product([M[i] for i in dims], dims)),
          np_matprod(x, [M[i] for i in dims], dims),
          "tensor_matrix_product(dims)")
    close(arr(X.tensor_matrix_product_eval_diag(M)),
          np_diag(np_matprod(x, M, range(d)), range(d)),
          "tensor_matrix_product_eval_diag")
    eq(X.tensor_diagonal_matrix_product(V),
       np_matprod(x, [np.diag(v) for v in V], range(d)),
       "tensor_diagonal_matrix_product")
    close(X.dot_with_rank_one_metric(Z, W),
          np.sum(x * np_matprod(z, W, range(d))), "dot_with_rank_one_metric",
          shape=False, tol=tol)
    mu = dims[0]
    oth = [i for i in range(d) if i != mu]
    zz = np_matprod(z, [W[i] for i in oth], oth)
    close(X.tensordot_matrix_product_except_dim(Z, W, mu),
          np.tensordot(x, zz, axes=(oth, oth)),
          "tensordot_matrix_product_except_dim", tol=tol)
    close(arr(X.tensordot(Y, dims, dims)),
          np.tensordot(x, y, axes=(dims, dims)), "tensordot")
    close(arr(X.eval_diag()), np_diag(x, range(d)), "eval_diag()")
    if 1 < len(dims) < d:
        eq(X.eval_diag(dims), np_diag(x, dims), "eval_diag(dims)")
        lab("partial diagonal")
    ind = rng.randint(0, r, (case["n"], d))
    ind[0] = ind[0, 0]
    close(X.eval_at_indices(ind), x[tuple(ind.T)], "eval_at_indices")
    sub = [rng.randint(0, r, 2).tolist() for _ in range(d)]
    close(arr(X.sub_tensor(*sub)), x[np.ix_(*sub)], "sub_tensor")
    T = build_tree(case["arity"])
    t = X.tree_based_tensor(T)
    same_tbt(t, x, "tree_based_tensor(tree)")
    same_tbt(X.tree_based_tensor(), x, "tree_based_tensor()")
    same_tbt(X.tree_based_tensor(T, np.ones(T.nb_nodes, dtype=bool)), x,
             "tree_based_tensor(tree, active)")
    eq(D.zeros(r, d), dg(np.zeros(r), d), "zeros")
    eq(D.ones(r, d), dg(np.ones(r), d), "ones")
    u = D.rand(r, d)
    need(np.all(u.data >= 0) and np.all(u.data <= 1) and u.data.shape == (r,),
         "rand")
    fz.check("diagonal tensor")
    lab("order%d" % d)
    return r > 1

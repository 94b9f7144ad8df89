"""T10: sparse tensors against dense arrays."""
import numpy as np
import tensap
from props.common import *

P = Prop("T10", "sparse tensors against dense arrays", effort=3)
ST = tensap.SparseTensor


@composite
def sps(draw, shape=None, min_order=1, max_order=4):
    sh = shape or draw(shapes(min_order, max_order, 4, 200))
    return {"shape": list(sh), "nz": draw(st.sampled_from(
        ["0", "1", "2", "some", "some", "some", "half", "all"])),
        "k": draw(st.sampled_from(["int", "gauss"])),
        "s": draw(st.integers(0, 2 ** 16)),
        "how": draw(st.sampled_from(["array", "full", "indices"]))}


def sp_dense(spec):
    rng = np.random.RandomState(spec["s"])
    sh = tuple(spec["shape"])
    n = prod(sh)
    k = {"0": 0, "1": 1, "2": 2, "some": max(1, n // 3), "half": n // 2,
         "all": n}[spec["nz"]]
    pos = rng.permutation(n)[:k]
    v = rng.randn(n) if spec["k"] == "gauss" else \
        rng.randint(1, 4, n) * (2.0 * rng.randint(0, 2, n) - 1)
    x = np.zeros(n)
    x[pos] = v[pos]
    return x.reshape(sh)


def build_sp(spec):
    x = sp_dense(spec)
    if spec["how"] == "array":
        X = ST(x.copy())
    elif spec["how"] == "full":
        X = tensap.FullTensor(x.copy()).sparse()
    else:
        rng = np.random.RandomState(spec["s"] + 1)
        ind = np.argwhere(x)
        ind = ind[rng.permutation(len(ind))]
        X = ST(x[tuple(ind.T)], tensap.MultiIndices(
            ind.reshape(-1, x.ndim)), list(x.shape))
    return X, x


def froz(X):
    fz = Frozen(np.asarray(X.data), X.indices.array, np.asarray(X.shape))
    order = X.order

    def ok(what):
        fz.check(what)
        need(X.order == order, what + ": the order was modified")
    return ok


def sp_to_dense(Y, what):
    need(isinstance(Y, ST), what + ": type", got=type(Y))
    ind = np.asarray(Y.indices.array).reshape(-1, len(np.atleast_1d(Y.shape)))
    data = np.asarray(Y.data).reshape(-1)
    need(len(ind) == len(data), what + ": as many indices as values",
         got=(ind.shape, data.shape))
    sh = tuple(int(i) for i in np.atleast_1d(Y.shape))
    need(np.all(ind >= 0) and np.all(ind < np.array(sh)),
         what + ": indices out of the tensor", got=ind)
    need(len(set(map(tuple, ind.tolist()))) == len(ind),
         what + ": repeated indices", got=ind)
    out = np.zeros(sh)
    out[tuple(ind.T)] = data
    return out


def is_sp(Y, want, what, **kw):
    got = sp_to_dense(Y, what)
    need(Y.order == want.ndim and Y.ndim == want.ndim, what + ": order",
         got=(Y.order, Y.ndim), want=want.ndim)
    close(got, want, what, **kw)
    close(arr(Y.full()), want, what + ": full", **kw)


@composite
def g_basic(draw):
    a = draw(sps())
    sh = a["shape"]
    new, rest = [], prod(sh)
    while rest > 1 and len(new) < 3:
        k = draw(st.sampled_from([k for k in range(1, rest + 1)
                                  if rest % k == 0]))
        new.append(k)
        rest //= k
    if rest > 1 or not new:
        new.append(rest)
    return {"a": a, "b": draw(sps(shape=sh)), "new": new,
            "perm": list(draw(st.permutations(range(len(sh))))),
            "n": draw(st.integers(1, 6)), "list": draw(st.booleans())}


@P.relation("storage_and_layout", g_basic, 2500,
            rule="tensors of order 1 to 4 with any number of non-zero entries "
                 "(none and one included); trivial if one entry")
def _(case):
    X, x = build_sp(case["a"])
    ok = froz(X)
    is_sp(X, x, "constructor")
    is_sp(ST(X), x, "copy")
    n = np.count_nonzero(x)
    need(int(X.storage()) == n and int(X.sparse_storage()) == n
         and int(X.count_non_zero()) == n, "storage", got=X.storage())
    need(int(X.size) == x.size, "size", got=X.size)
    if x.ndim == 2:
        close(X.numpy().toarray(), x, "numpy")
    is_sp(X.transpose(case["perm"]), np.transpose(x, case["perm"]),
          "transpose")
    is_sp(X.itranspose(case["perm"]),
          np.transpose(x, np.argsort(case["perm"])), "itranspose")
    new = case["new"] if case["list"] else np.array(case["new"])
    is_sp(X.reshape(new), x.reshape(case["new"], order="F"), "reshape")
    rng = rng_of(case)
    ind = np.column_stack([rng.randint(0, m, case["n"]) for m in x.shape])
    nz = np.argwhere(x)
    if len(nz):
        ind[0] = nz[0]
    want = x[tuple(ind.T)]
    for what, arg in (("array", ind), ("MultiIndices",
                                       tensap.MultiIndices(ind))):
        got = X.eval_at_indices(arg)
        got = got.toarray() if hasattr(got, "toarray") else arr(got)
        close(got, want, "eval_at_indices(%s)" % what, shape=False)
    got = X.eval_at_indices(ind, np.arange(x.ndim))
    got = got.toarray() if hasattr(got, "toarray") else arr(got)
    close(got, want, "eval_at_indices(dims)", shape=False)
    if len(set(x.shape)) == 1 and x.ndim > 1:
        got = X.eval_diag()
        got = got.toarray() if hasattr(got, "toarray") else arr(got)
        close(got, np_diag(x, range(x.ndim)), "eval_diag", shape=False)
        lab("eval_diag")
    ok("layout")
    lab("order%d" % x.ndim, "nnz_" + case["a"]["nz"])
    return x.size > 1


@P.relation("arithmetic", g_basic, 2500,
            rule="pairs of tensors with overlapping supports; trivial if one "
                 "entry")
def _(case):
    X, x = build_sp(case["a"])
    Y, y = build_sp(case["b"])
    okx, oky = froz(X), froz(Y)
    is_sp(X + Y, x + y, "x+y")
    is_sp(X + X, 2 * x, "x+x")
    is_sp(X * Y, x * y, "x*y")
    is_sp(X * tensap.FullTensor(y), x * y, "x*dense")
    close(X.dot(Y), np.sum(x * y), "dot", shape=False)
    close(X.dot(tensap.FullTensor(y)), np.sum(x * y), "dot(dense)",
          shape=False)
    close(X.norm(), np.linalg.norm(x.ravel()), "norm", shape=False)
    okx("arithmetic")
    oky("arithmetic")
    lab("nnz_%s_%s" % (case["a"]["nz"], case["b"]["nz"]))
    return x.size > 1


@composite
def g_contr(draw):
    a = draw(sps())
    d = len(a["shape"])
    return {"a": a, "b": draw(sps(shape=[draw(st.integers(1, 3))
                                         for _ in range(d)])),
            "dims": draw(subset(d, 1)),
            "rows": [draw(st.integers(1, 3)) for _ in range(d)],
            "m": draw(st.integers(1, 3)), "list": draw(st.booleans()),
            "zero": draw(st.sampled_from([False, False, False, True])),
            "s": draw(st.integers(0, 2 ** 16))}


@P.relation("contraction", g_contr, 2500,
            rule="products with vectors and matrices (zeros included) along "
                 "any subset of the dimensions; trivial if the tensor is zero")
def _(case):
    X, x = build_sp(case["a"])
    Y, y = build_sp(case["b"])
    ok, d, sh, dims = froz(X), x.ndim, x.shape, case["dims"]
    rng = np.random.RandomState(case["s"])
    V = [rng.randn(n) * (rng.rand(n) < 0.7) for n in sh]
    M = [rng.randn(m, n) for m, n in zip(case["rows"], sh)]
    if case["zero"]:
        V[dims[0]] *= 0
        M[dims[0]] *= 0
    H = [rng.randn(case["m"], n) for n in sh]
    W = [rng.randn(n, m) for n, m in zip(sh, y.shape)]
    arg = list(dims) if case["list"] else np.array(dims)
    fz = Frozen(*V, *M, *H, *W, *([arg] if not case["list"] else []))
    tol = 1e-8

    def vec(ds):
        return np_matprod(x, [V[i][None] for i in ds], ds).reshape(
            [n for i, n in enumerate(sh) if i not in ds])

    def val(got, want, what):
        if want.ndim:
            is_sp(got, want, what, tol=tol)
        else:
            close(np.asarray(arr(got), dtype=float).reshape(-1),
                  want.reshape(-1), what, tol=tol)

    val(X.tensor_vector_product(list(V)), vec(list(range(d))),
        "tensor_vector_product(all)")
    val(X.tensor_vector_product([V[i] for i in dims], arg), vec(dims),
        "tensor_vector_product(dims)")
    val(X.tensor_vector_product(V[dims[0]], [dims[0]]), vec(dims[:1]),
        "tensor_vector_product(one)")
    val(X.tensor_matrix_product(list(M)), np_matprod(x, M, range(d)),
        "tensor_matrix_product(all)")
    val(X.tensor_matrix_product([M[i] for i in dims], arg),
        np_matprod(x, [M[i] for i in dims], dims),
        "tensor_matrix_product(dims)")
    val(X.tensor_matrix_product(M[dims[0]], dims[0]),
        np_matprod(x, [M[dims[0]]], dims[:1]), "tensor_matrix_product(one)")
    close(X.tensor_matrix_product_eval_diag(H),
          np_diag(np_matprod(x, H, range(d)), range(d)),
          "tensor_matrix_product_eval_diag", tol=tol)
    dv = [np.diag(v) for v in V]
    val(X.tensor_diagonal_matrix_product(list(V)), np_matprod(x, dv, range(d)),
        "tensor_diagonal_matrix_product(all)")
    val(X.tensor_diagonal_matrix_product([V[i] for i in dims], arg),
        np_matprod(x, [dv[i] for i in dims], dims),
        "tensor_diagonal_matrix_product(dims)")
    if len(set(sh)) == 1:
        val(X.tensor_diagonal_matrix_product(np.column_stack(V)),
            np_matprod(x, dv, range(d)),
            "tensor_diagonal_matrix_product(array)")
    close(X.dot_with_rank_one_metric(Y, W),
          np.sum(x * np_matprod(y, W, range(d))), "dot_with_rank_one_metric",
          shape=False, tol=tol)
    fz.check("contraction")
    ok("contraction")
    lab("order%d" % d, "dims%d" % len(dims), "zero" if case["zero"] else "")
    return bool(np.any(x))

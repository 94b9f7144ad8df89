"""T03: tree-based tensors behave as the dense arrays they represent."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T03", "tree-based tensors: algebra and evaluation", effort=2)


@composite
def g_two(draw):
    a = draw(tbts(max_order=5, max_size=200))
    tree = {"par": a["par"], "d2i": a["d2i"]}
    b = draw(tbts(tree=tree, shape=a["shape"],
                  root_rank=a["ranks"][m_root(a) - 1]))
    if draw(st.booleans()):
        b["off"] = a["off"]
    if draw(st.sampled_from([False, False, True])):
        # equal trees, whose nodes have other numbers
        b = renumbered(b, draw(st.permutations(range(len(b["par"])))))
    return {"a": a, "b": b, "c": draw(st.sampled_from([2.0, -0.5, 3, 0.0]))}


def tree_labels(spec):
    off = len(spec["off"])
    d = len(spec["d2i"])
    lab("order%d" % d, "root_rank>1" if spec["ranks"][m_root(spec) - 1] > 1
        else "root_rank1",
        "all_active" if not off else "all_inactive" if off == d else "mixed")


@P.relation("arithmetic", g_two, 1500,
            rule="two tree-based tensors on the same tree (any activity "
                 "pattern, root rank 1 to 3); trivial if all ranks are 1")
def _(case):
    X, x = build_tbt(case["a"])
    Y, y = build_tbt(case["b"])
    c = case["c"]
    ok = frozen_tbt(X, Y)
    same_tbt(X, x, "constructor")
    same_tbt(X + Y, x + y, "x + y")
    same_tbt(X - Y, x - y, "x - y")
    same_tbt(-X, -x, "-x")
    same_tbt(X * c, x * c, "x * scalar")
    same_tbt(c * X, x * c, "scalar * x")
    if c:
        same_tbt(X / c, x / c, "x / scalar")
    ok("arithmetic")
    sc = np.max(np.abs(x)) * np.max(np.abs(y)) * 10
    same_tbt(X * Y, x * y, "x * y (Hadamard)", scale=sc)
    same_tbt(X.hadamard_product(Y), x * y, "hadamard_product", scale=sc)
    ok("Hadamard product")
    S = X + Y
    if case["a"]["off"] == case["b"]["off"] and \
            case["a"]["par"] == case["b"]["par"] and \
            case["a"]["d2i"] == case["b"]["d2i"]:
        for node in range(1, len(case["a"]["par"]) + 1):
            if node != X.tree.root and X.is_active_node[node - 1]:
                need(S.ranks[node - 1] == X.ranks[node - 1]
                     + Y.ranks[node - 1], "ranks of a sum", got=S.ranks,
                     x=X.ranks, y=Y.ranks)
    rr = case["a"]["ranks"][m_root(case["a"]) - 1]
    if rr > 1:
        M = build({"shape": [max(1, rr - 1), rr], "k": "gauss", "s": 5})
        M2 = build({"shape": [rr + 1, rr], "k": "gauss", "s": 6})
        got = X.__rmul__(M2)
        same_tbt(got, x @ M2.T, "matrix * x")
        del M
        ok("matrix product")
    tree_labels(case["a"])
    return max(case["a"]["ranks"]) > 1


@composite
def g_eval(draw):
    a = draw(tbts(max_order=5, max_size=300))
    sh, d = a["shape"], len(a["shape"])
    n = draw(st.integers(1, 5))
    nodes = list(range(1, len(a["par"]) + 1))
    node = draw(st.sampled_from(nodes))
    eq = draw(st.booleans())
    if eq:                                  # equal sizes on the node's dims
        for i in m_dims(a, node):
            a["shape"][i] = a["shape"][m_dims(a, node)[0]]
    return {"a": a, "n": n, "node": node, "eq": eq,
            "s": draw(st.integers(0, 2 ** 16)),
            "sub": [draw(st.one_of(
                st.just(":"), st.lists(st.integers(0, k - 1), min_size=1,
                                       max_size=4))) for k in a["shape"]],
            "dim": draw(st.integers(0, d - 1))}


@P.relation("evaluation", g_eval, 1500,
            rule="full, sub-tensors, pointwise and partial evaluations, "
                 "diagonals; trivial if the tensor has one entry")
def _(case):
    a = case["a"]
    X, x = build_tbt(a)
    d = len(a["shape"])
    rr = x.ndim > d
    rng = np.random.RandomState(case["s"])
    ok = frozen_tbt(X)
    close(arr(X.full()), x, "full")
    close(X.numpy(), x, "numpy")
    # sub-tensor
    sub = [s if s == ":" else np.array(s) for s in case["sub"]]
    want = x
    for i, s in enumerate(sub):
        if not isinstance(s, str):
            want = np.take(want, s, axis=i)
    same_tbt(X.sub_tensor(*sub), want, "sub_tensor")
    # pointwise
    idx = np.stack([rng.randint(0, k, case["n"]) for k in a["shape"]], 1)
    got = X.eval_at_indices(idx)
    want = x[tuple(idx.T)]
    close(arr(got), want, "eval_at_indices", shape=False, idx=idx)
    ok("evaluation")
    # one dimension
    i = case["dim"]
    got = X.eval_at_indices(idx[:, [i]], [i])
    same_tbt(got, np.take(x, idx[:, i], axis=i), "eval_at_indices(one dim)")
    ok("partial evaluation")
    # the dimensions of a node
    dims = m_dims(a, case["node"])
    if len(dims) > 1:
        got = X.eval_at_indices(idx[:, dims], dims)
        rest = [j for j in range(x.ndim) if j not in dims]
        want = np.transpose(x, dims + rest)[tuple(idx[:, dims].T)]
        if case["n"] > 1:
            close(dense(got), want, "eval_at_indices(dims of a node)",
                  dims=dims, shape=len(dims) < d)
        else:
            g = dense(got)
            close(np.squeeze(g), np.squeeze(want),
                  "eval_at_indices(dims of a node)", dims=dims)
        ok("partial evaluation at a node")
        lab("node_dims")
    if case["eq"]:
        if len(dims) > 1 and len(dims) < d:
            got = X.eval_diag(dims)
            want = np.moveaxis(np_diag(x, dims), min(dims), 0)
            same_tbt(got, want, "eval_diag(dims of a node)", dims=dims)
            ok("diagonal over the dimensions of a node")
            lab("diag_dims")
        if len(dims) == d:
            close(arr(X.eval_diag()), np_diag(x, list(range(d))),
                  "eval_diag", shape=False)
            ok("diagonal")
            lab("diag")
    tree_labels(a)
    return x.size > 1


@composite
def g_prod(draw):
    a = draw(tbts(max_order=5, max_size=200))
    sh, d = a["shape"], len(a["shape"])
    dims = draw(subset(d, 1))
    n = draw(st.integers(1, 4))
    tree = {"par": a["par"], "d2i": a["d2i"]}
    b = draw(tbts(tree=tree, shape=draw(shapes(d, d, 3, 60)),
                  root_rank=a["ranks"][m_root(a) - 1]))
    if draw(st.booleans()):
        b["off"] = a["off"]
    if draw(st.sampled_from([False, False, True])):
        b = renumbered(b, draw(st.permutations(range(len(b["par"])))))
    return {"a": a, "b": b, "dims": dims,
            "m": [draw(array_spec([draw(st.integers(1, 4)), sh[i]]))
                  for i in dims],
            "all": [draw(array_spec([draw(st.integers(1, 3)), k]))
                    for k in sh],
            "h": [draw(array_spec([n, k])) for k in sh],
            "v": [draw(array_spec([sh[i]])) for i in dims],
            "va": [draw(array_spec([k])) for k in sh]}


@P.relation("products", g_prod, 1200,
            rule="matrices and vectors along any subset of dimensions, "
                 "diagonal evaluations, sums, Kronecker products and "
                 "concatenations; trivial if all ranks are 1")
def _(case):
    a, dims = case["a"], case["dims"]
    X, x = build_tbt(a)
    d = len(a["shape"])
    alld = list(range(d))
    ok = frozen_tbt(X)
    M, A, H, V, VA = ([build(m) for m in case[k]]
                      for k in ("m", "all", "h", "v", "va"))
    fz = Frozen(*(M + A + H + V + VA))
    ax = magnitude(X)

    def size(mats, dims=alld):
        """Sum of the absolute values of the terms which are added."""
        return np.max(np_matprod(ax, [np.abs(m) for m in mats], dims))

    same_tbt(X.tensor_matrix_product(list(A)), np_matprod(x, A, alld),
             "tensor_matrix_product", scale=size(A))
    same_tbt(X.tensor_matrix_product(list(M), dims), np_matprod(x, M, dims),
             "tensor_matrix_product(dims)", dims=dims, scale=size(M, dims))
    same_tbt(X.tensor_matrix_product(M[0], dims[0]),
             np_matprod(x, M[:1], dims[:1]), "tensor_matrix_product(int)",
             scale=size(M[:1], dims[:1]))
    DA, D = [np.diag(v) for v in VA], [np.diag(v) for v in V]
    same_tbt(X.tensor_diagonal_matrix_product(list(VA)),
             np_matprod(x, DA, alld), "tensor_diagonal_matrix_product",
             scale=size(DA))
    same_tbt(X.tensor_diagonal_matrix_product(list(V), dims),
             np_matprod(x, D, dims), "tensor_diagonal_matrix_product(dims)",
             scale=size(D, dims))
    want = np.squeeze(np_matprod(x, [v[None] for v in V], dims), tuple(dims))
    got = X.tensor_vector_product(list(V), dims)
    sc = size([v[None] for v in V], dims)
    if len(dims) < d:
        same_tbt(got, want, "tensor_vector_product(dims)", dims=dims,
                 scale=sc)
    else:
        close(arr(got), want, "tensor_vector_product(dims)", dims=dims,
              shape=False, scale=sc)
    want = np.squeeze(np_matprod(x, [v[None] for v in VA], alld), tuple(alld))
    close(arr(X.tensor_vector_product(list(VA))), want,
          "tensor_vector_product", shape=False,
          scale=size([v[None] for v in VA]))
    close(arr(X.reduce_sum()), x.sum(tuple(alld)), "reduce_sum", shape=False,
          scale=ax.sum())
    close(dense(X.reduce_sum(list(dims))), x.sum(tuple(dims)),
          "reduce_sum(dims)", dims=dims, shape=False, scale=ax.sum())
    want = np_diag(np_matprod(x, H, alld), alld)
    close(arr(X.tensor_matrix_product_eval_diag(list(H))), want,
          "tensor_matrix_product_eval_diag", shape=False, scale=size(H))
    ok("products")
    fz.check("products")
    Y, y = build_tbt(case["b"])
    if x.ndim == d:
        same_tbt(X.kron(Y), np.kron(x, y), "kron")
        want = np.zeros([p + q for p, q in zip(x.shape, y.shape)])
        want[tuple(slice(0, k) for k in x.shape)] = x
        want[tuple(slice(k, None) for k in x.shape)] = y
        same_tbt(X.cat(Y), want, "cat")
        ok("kron, cat")
        lab("kron_cat")
    tree_labels(a)
    lab("sub%d" % len(dims))
    return max(a["ranks"]) > 1


@composite
def g_dot(draw):
    case = draw(g_two())
    case["m"] = [draw(array_spec([k, k])) for k in case["a"]["shape"]]
    if draw(st.booleans()):
        case["b"]["off"] = case["a"]["off"]
    return case


@P.relation("inner_products", g_dot, 1200,
            rule="dot, rank-one metric, norm; trivial if all ranks are 1")
def _(case):
    X, x = build_tbt(case["a"])
    Y, y = build_tbt(case["b"])
    d = len(case["a"]["shape"])
    M = [build(m) for m in case["m"]]
    ok = frozen_tbt(X, Y)
    nx = np.linalg.norm(x)
    close(X.norm(), nx, "norm", tol=1e-8)
    my = np_matprod(y, M, list(range(d)))
    # sums of the absolute values of the terms which are added
    ax, ay = magnitude(X), magnitude(Y)
    amy = np_matprod(ay, [np.abs(m) for m in M], list(range(d)))
    want = np.tensordot(x, y, (range(d), range(d)))
    close(arr(X.dot(Y)), want, "dot", shape=False,
          scale=np.max(np.tensordot(ax, ay, (range(d), range(d)))))
    if x.ndim == d:
        close(arr(X.dot_with_rank_one_metric(Y, list(M))),
              np.sum(x * my), "dot_with_rank_one_metric", shape=False,
              scale=np.sum(ax * amy))
    lab("dot")
    ok("inner products")
    tree_labels(case["a"])
    return max(case["a"]["ranks"]) > 1

"""T04: orthogonal representations, Gram matrices, singular values, norms."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T04", "tree-based tensors: orthogonal representations and spectra", effort=2)


def is_orthonormal(a):
    m = np.asarray(a).reshape(-1, np.shape(a)[-1])
    return m.shape[0] >= m.shape[1] and np.allclose(
        m.T @ m, np.eye(m.shape[1]), atol=1e-9)


@composite
def g_one(draw):
    a = draw(tbts(max_order=5, max_size=250, kinds=("gauss", "int", "sparse")))
    return {"a": a, "node": draw(st.integers(1, len(a["par"]))),
            "pre": draw(st.booleans())}


def start(case):
    a = case["a"]
    X, x = build_tbt(a)
    if case["pre"]:
        X = X.orth()
    lab("order%d" % len(a["d2i"]),
        "off" if a["off"] else "all_active",
        "root_rank%d" % a["ranks"][m_root(a) - 1],
        "zero" if not np.any(x) else "nonzero")
    return X, x


@P.relation("orth", g_one, 1500,
            rule="any tree, ranks, activity and root rank; trivial if all "
                 "ranks are 1 or the tensor is zero")
def _(case):
    X, x = start(case)
    ok = frozen_tbt(X)
    a, node = case["a"], case["node"]
    Y = X.orth()
    same_tbt(Y, x, "orth")
    need(bool(Y.is_orth) and int(Y.orth_node) == Y.tree.root,
         "orth: attributes is_orth and orth_node")
    for n in range(1, len(a["par"]) + 1):
        if n != Y.tree.root and Y.is_active_node[n - 1]:
            need(is_orthonormal(Y.tensors[n - 1].data),
                 "orth: node %d is not an orthonormal basis" % n)
            _, u = below(Y, n)
            need(is_orthonormal(u), "orth: the functions of node %d are not "
                 "orthonormal" % n)
    close(Y.norm(), np.linalg.norm(x), "norm after orth")
    ok("orth")
    if not X.is_active_node[node - 1]:
        raises(lambda: X.orth_at_node(node), "orth_at_node(inactive node)",
               (ValueError,))
        return bool(np.any(x)) and max(a["ranks"]) > 1
    Z = X.orth_at_node(node)
    ok("orth_at_node")
    dims = m_dims(a, node)
    s = sv(x, dims)
    same_tbt(Z, x, "orth_at_node", tol=1e-6)
    close(Z.norm(), np.linalg.norm(x), "norm after orth_at_node", tol=1e-7)
    if node == m_root(a):
        need(int(Z.orth_node) == node, "orth_at_node: orth_node")
    elif np.any(x):
        r = int(np.sum(s > 1e-5 * s[0]))
        asc = {int(i) for i in Z.tree.ascendants(node)} | {node}
        for n in range(1, len(a["par"]) + 1):
            if n not in asc and Z.is_active_node[n - 1]:
                need(is_orthonormal(Z.tensors[n - 1].data),
                     "orth_at_node: node %d is not orthonormal" % n)
        need(int(Z.orth_node) == node, "orth_at_node: orth_node",
             got=Z.orth_node, want=node)
        if r == int(Z.ranks[node - 1]):
            _, w = above(Z, node)
            close(w.T @ w, np.eye(r), "orth_at_node: the functions of the "
                  "complementary indices are not orthonormal", tol=1e-5)
            lab("orth_at_node")
    return bool(np.any(x)) and max(a["ranks"]) > 1


@P.relation("spectra", g_one, 1500,
            rule="Gram matrices, singular values and ranks of every node "
                 "compared to matricizations of the dense tensor; trivial if "
                 "all ranks are 1 or the tensor is zero")
def _(case):
    X, x = start(case)
    ok = frozen_tbt(X)
    a, node = case["a"], case["node"]
    gram, Y = X.gramians()
    ok("gramians")
    same_tbt(Y, x, "tensor returned by gramians")
    svals = X.singular_values()
    rank = X.rank
    ok("singular_values")
    need(len(svals) == len(a["par"]) and len(gram) == len(a["par"]),
         "number of nodes")
    root = m_root(a)
    nx = np.linalg.norm(x)
    for n in range(1, len(a["par"]) + 1):
        if n == root or not X.is_active_node[n - 1]:
            continue
        _, w = above(Y, n)
        close(gram[n - 1], w.T @ w, "Gram matrix of node %d" % n,
              scale=nx ** 2)
        want = sv(x, m_dims(a, n))
        got = np.sort(np.asarray(svals[n - 1], dtype=float))[::-1]
        k = max(len(got), len(want))
        got = np.pad(got, (0, k - len(got)))
        want = np.pad(want, (0, k - len(want)))
        close(got, want, "singular values of node %d" % n, tol=1e-6,
              scale=nx)
        pos = want[want > 1e-12 * max(nx, 1e-300)]
        need(rank[n - 1] <= X.ranks[n - 1], "rank above the representation "
             "rank at node %d" % n, rank=rank, ranks=X.ranks)
        if len(pos) and np.min(pos) > 1e-4 * nx:
            need(rank[n - 1] >= len(pos), "rank of node %d" % n,
                 got=rank[n - 1], want=len(pos))
            if len(pos) == Y.ranks[n - 1]:
                need(rank[n - 1] == len(pos), "rank of node %d" % n,
                     got=rank[n - 1], want=len(pos))
                lab("full_rank_node")
    if X.is_active_node[node - 1] and node != root:
        g, Y = X.gramians(node)
        _, w = above(Y, node)
        close(np.asarray(g), w.T @ w, "gramians(node)", scale=nx ** 2)
        others = [n for n in range(1, len(a["par"]) + 1)
                  if n != root and X.is_active_node[n - 1]][:3]
        if len(others) > 1:
            g, Y = X.gramians(np.array(others))
            for i, n in enumerate(others):
                _, w = above(Y, n)
                close(g[i], w.T @ w, "gramians(nodes)", scale=nx ** 2)
        ok("gramians(nodes)")
    return bool(np.any(x)) and max(a["ranks"]) > 1


OPS = ["orth", "orth_at", "neg", "scale", "div", "add", "sub_tensor", "matprod",
       "change_root", "inactivate", "activate", "permute_leaves",
       "permute_nodes", "diagprod", "had"]


@composite
def g_hist(draw):
    a = draw(tbts(max_order=4, max_dim=3, max_size=81, max_rank=2,
                  kinds=("gauss",), root_rank=1))
    n = draw(st.integers(2, 7))
    return {"a": a, "ops": [[draw(st.sampled_from(OPS)),
                             draw(st.integers(0, 10 ** 6))]
                            for _ in range(n)]}


@P.relation("histories", g_hist, 1500,
            rule="2 to 7 successive operations (orthogonalisations, algebra, "
                 "contractions, changes of root, permutations, "
                 "(in)activations), norm, inner product and spectra checked "
                 "after each one; trivial if no operation follows an "
                 "orthogonalisation")
def _(case):
    X, x = build_tbt(case["a"])
    seen = False
    nontriv = False
    for step, (op, s) in enumerate(case["ops"]):
        rng = np.random.RandomState(s)
        T = X.tree
        d = x.ndim
        ok = frozen_tbt(X)
        old = X
        act = [int(i) for i in X.active_nodes]
        what = "step %d (%s)" % (step, op)
        tol = 1e-7
        if op == "orth":
            X = X.orth()
        elif op == "orth_at":
            X = X.orth_at_node(int(rng.choice(act)))
        elif op == "neg":
            X, x = -X, -x
        elif op == "scale":
            X, x = X * 1.5, x * 1.5
        elif op == "div":
            X, x = X / 2.0, x / 2.0
        elif op == "add":
            if max(X.ranks) > 8:
                continue
            X, x = X + X.orth() * 0.5, 1.5 * x
        elif op == "had":
            if max(X.ranks) > 3 or X.non_active_nodes.size:
                continue
            X, x = X * X, x * x
        elif op == "sub_tensor":
            idx = [rng.permutation(k)[:max(1, rng.randint(k + 1))]
                   for k in x.shape]
            X, x = X.sub_tensor(*idx), x[np.ix_(*idx)]
        elif op == "matprod":
            i = rng.randint(d)
            m = rng.randn(rng.randint(1, 4), x.shape[i])
            X, x = X.tensor_matrix_product(m, i), np_matprod(x, [m], [i])
        elif op == "diagprod":
            i = rng.randint(d)
            m = rng.randn(x.shape[i])
            X = X.tensor_diagonal_matrix_product([m], [i])
            x = np_matprod(x, [np.diag(m)], [i])
        elif op == "change_root":
            cand = [n for n in act if n not in T.dim2ind]
            X = X.change_root(int(rng.choice(cand)))
        elif op == "inactivate":
            X = X.inactivate_nodes([int(rng.choice(T.dim2ind))])
        elif op == "activate":
            X = X.activate_nodes([int(i) for i in X.non_active_nodes])
        elif op == "permute_leaves":
            if max(X.ranks) > 8:
                continue
            X = X.permute_leaves(rng.permutation(d), 1e-12)
        elif op == "permute_nodes":
            if max(X.ranks) > 8:
                continue
            n1, n2 = rng.choice(np.arange(1, T.nb_nodes + 1), 2, False)
            if n1 in T.descendants(n2) or n2 in T.descendants(n1):
                continue
            X = X.permute_nodes([int(n1), int(n2)], 1e-12)
        if X is not old:
            ok(what)
        nontriv = nontriv or (seen and not op.startswith("orth"))
        seen = seen or op.startswith("orth")
        lab(op)
        nx = np.linalg.norm(x)
        same_tbt(X, x, what, tol=tol)
        ok = frozen_tbt(X)
        close(X.norm(), nx, what + ": norm", tol=tol)
        close(arr(X.dot(X)), nx ** 2, what + ": dot(x, x)", tol=tol,
              shape=False)
        S = X.singular_values()
        node = int(rng.choice([int(i) for i in X.active_nodes]))
        if node != X.tree.root:
            want = sv(x, [int(i) for i in X.tree.dims[node - 1]])
            got = np.sort(np.asarray(S[node - 1], dtype=float))[::-1]
            k = min(len(got), len(want))
            close(got[:k], want[:k], what + ": singular values", tol=1e-6,
                  scale=nx)
        ok(what + ": norm, dot, singular_values")
    return nontriv

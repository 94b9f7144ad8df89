"""T05: structural transformations of tree-based tensors."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T05", "tree-based tensors: structural transformations", effort=2.5)


def par_of(T):
    return (np.arange(1, T.adjacency_matrix.shape[0] + 1)
            @ np.asarray(T.adjacency_matrix)).astype(int).tolist()


def same_tree(T, par, d2i, what):
    same(par_of(T), par, what + ": parents")
    same(np.asarray(T.dim2ind), d2i, what + ": leaves of the dimensions")
    spec = {"par": list(par), "d2i": list(d2i)}
    for n in range(1, len(par) + 1):
        same(np.sort(T.dims[n - 1]), m_dims(spec, n),
             what + ": dimensions of node %d" % n)


@composite
def g_root(draw):
    a = draw(tbts(max_order=5, max_size=200))
    return {"a": a, "node": draw(st.integers(1, len(a["par"]))),
            "node2": draw(st.integers(1, len(a["par"])))}


@P.relation("change_root", g_root, 1500,
            rule="one or two successive changes of root to any active node, "
                 "leaves and root rank > 1 included; trivial if the node is "
                 "the root")
def _(case):
    a = case["a"]
    X, x = build_tbt(a)
    ok = frozen_tbt(X)
    root, node, node2 = m_root(a), case["node"], case["node2"]
    if not X.is_active_node[node - 1]:
        raises(lambda: X.change_root(node), "change_root(inactive node)")
        return False
    Y = X.change_root(node)
    ok("change_root")
    same_tbt(Y, x, "change_root", node=node)
    need(Y.tree.root == node, "change_root: root", got=Y.tree.root, want=node)
    need(int(Y.order) == (x.ndim if node != root else len(a["shape"])),
         "change_root: order", got=Y.order)
    n = len(a["par"]) + (x.ndim > len(a["shape"]) and node != root) \
        + (node in a["d2i"] and node != root)
    need(Y.tree.nb_nodes == n, "change_root: number of nodes",
         got=Y.tree.nb_nodes, want=n)
    close(arr(Y.full()), x, "full after change_root")
    close(Y.norm(), np.linalg.norm(x), "norm after change_root")
    if node2 <= Y.tree.nb_nodes and Y.is_active_node[node2 - 1]:
        ok = frozen_tbt(Y)
        Z = Y.change_root(node2)
        ok("second change_root")
        same_tbt(Z, x, "two changes of root")
        need(Z.tree.root == node2, "second change_root: root")
    if node != root and Y.is_active_node[root - 1] and x.ndim == len(
            a["shape"]) and node not in a["d2i"]:
        Z = Y.change_root(root)
        same_tree(Z.tree, a["par"], a["d2i"], "change_root and back")
        for i, (p, q) in enumerate(zip(X.tensors, Z.tensors)):
            if X.is_active_node[i]:
                close(q.data, p.data, "change_root and back: tensor %d" % i)
    lab("leaf" if node in a["d2i"] else "internal",
        "root_rank>1" if x.ndim > len(a["shape"]) else "root_rank1",
        "depth%d" % len(X.tree.ascendants(node)))
    return node != root


@composite
def g_perm(draw):
    a = draw(tbts(min_order=3, max_order=5, max_size=200, max_rank=3,
                  kinds=("gauss", "int"),
                  root_rank=draw(st.sampled_from([1, 1, 2]))))
    n = len(a["par"])
    return {"a": a, "n1": draw(st.integers(1, n)), "n2": draw(st.integers(1, n)),
            "perm": list(draw(st.permutations(range(len(a["shape"]))))),
            "pre": draw(st.booleans())}


@P.relation("permutations", g_perm, 900,
            rule="exchange of two nodes and permutations of the leaves; "
                 "trivial if the two nodes are siblings or nested and the "
                 "permutation is the identity")
def _(case):
    a = case["a"]
    X, x = build_tbt(a)
    if case["pre"]:
        X = X.orth()
    ok = frozen_tbt(X)
    n1, n2 = case["n1"], case["n2"]
    nontriv = False
    if n1 in m_sub(a["par"], n2) or n2 in m_sub(a["par"], n1):
        if n1 != n2:
            raises(lambda: X.permute_nodes([n1, n2]),
                   "permutation of nested nodes", (ValueError,))
    else:
        Y = X.permute_nodes([n1, n2])
        ok("permute_nodes")
        same_tbt(Y, x, "permute_nodes", nodes=(n1, n2))
        par = list(a["par"])
        par[n1 - 1], par[n2 - 1] = par[n2 - 1], par[n1 - 1]
        same_tree(Y.tree, par, a["d2i"], "permute_nodes")
        close(Y.norm(), np.linalg.norm(x), "norm after permute_nodes")
        nontriv = a["par"][n1 - 1] != a["par"][n2 - 1]
        if nontriv:
            lab("permute_nodes")
    perm = np.array(case["perm"])
    Y = X.permute_leaves(perm, 1e-14)
    ok("permute_leaves")
    same(perm, case["perm"], "permutation given to permute_leaves")
    same_tbt(Y, x, "permute_leaves", perm=perm)
    same(np.asarray(Y.tree.dim2ind), a["d2i"], "permute_leaves: dim2ind")
    got = sorted(sorted(int(i) for i in q) for q in Y.tree.dims)
    want = sorted(sorted(int(perm[i]) for i in m_dims(a, n))
                  for n in range(1, len(a["par"]) + 1))
    need(got == want, "permute_leaves: dimensions of the nodes", got=got,
         want=want, perm=perm)
    if a["off"]:
        lab("off")
    return nontriv or list(perm) != sorted(perm)


@composite
def g_perm_tol(draw):
    c = draw(g_perm())
    c["a"]["k"] = "gauss"
    c["tol"] = draw(st.integers(1, 18)) / 20
    c["decay"] = draw(st.sampled_from([0, .5, 1]))
    return c


@P.relation("truncated_permutations", g_perm_tol, 1200,
            rule="something was truncated")
def truncated(case):
    """The error of the permutations is within the given tolerance."""
    a = case["a"]
    X, x = build_tbt(a)
    if case["decay"]:
        # directions of decreasing importance
        M = [np.diag(np.exp(-case["decay"] * np.arange(n)))
             for n in a["shape"]]
        X = X.tensor_matrix_product(M)
        x = check_tbt(X, "products with matrices")
    if case["pre"]:
        X = X.orth()
    ok = frozen_tbt(X)
    n1, n2, tol = case["n1"], case["n2"], case["tol"]
    smaller = False
    for name, arg in (("permute_nodes", [n1, n2]),
                      ("permute_leaves", list(case["perm"]))):
        if name == "permute_nodes" and (
                n1 in m_sub(a["par"], n2) or n2 in m_sub(a["par"], n1)):
            continue
        Y = getattr(X, name)(arg, tol)
        ok(name)
        y = check_tbt(Y, name)
        n = np.linalg.norm(x)
        err = np.linalg.norm(y - x)
        need(err <= tol * n * (1 + 1e-6) + 1e-12, name + ": error within "
             "the tolerance", error=err / n, tol=tol)
        if err > 1e-6 * n:
            lab(name)
            smaller = True
    return smaller


@composite
def g_opt(draw):
    a = draw(tbts(min_order=2, max_order=5, max_size=200, max_rank=3,
                  kinds=("gauss",), root_rank=draw(st.sampled_from([1, 1, 2]))))
    return {"a": a, "n": draw(st.integers(1, 4)),
            "tol": draw(st.sampled_from([1e-12, 1e-6, 1e-2]))}


@P.relation("tree_optimization", g_opt, 350,
            rule="random searches of a better tree or ordering of the leaves; "
                 "trivial if the order is 2")
def _(case):
    a = case["a"]
    X, x = build_tbt(a)
    ok = frozen_tbt(X)
    nx = np.linalg.norm(x)
    for name in ("optimize_dimension_tree", "optimize_leaves_permutations"):
        Y = getattr(X, name)(case["tol"], case["n"])
        ok(name)
        got = check_tbt(Y, name)
        err = np.linalg.norm(got - x)
        need(err <= case["tol"] * nx * (1 + 1e-6) + 1e-9 * max(1, nx),
             name + ": error above the tolerance", err=err / nx,
             tol=case["tol"])
        need(Y.storage() <= X.storage(), name + ": larger storage",
             got=Y.storage(), want=X.storage())
        if Y.storage() < X.storage():
            lab("improved")
        same(np.asarray(Y.tree.dim2ind), a["d2i"], name + ": dim2ind")
        if name == "optimize_leaves_permutations":
            # only the leaves move
            got = sorted(len(q) for q in Y.tree.dims)
            want = sorted(len(m_dims(a, n))
                          for n in range(1, len(a["par"]) + 1))
            need(got == want, name + ": shape of the tree", got=got, want=want)
    leaf = X.tree.dim2ind[0]
    cost = X.nodes_permutation_cost(leaf)
    ok("nodes_permutation_cost")
    need(np.shape(cost) == (len(a["par"]),) and np.all(cost >= 0),
         "nodes_permutation_cost")
    for n in range(1, len(a["par"]) + 1):
        movable = not (n in m_sub(a["par"], leaf) or leaf in m_sub(
            a["par"], n) or a["par"][n - 1] == a["par"][leaf - 1])
        need((cost[n - 1] > 0) == movable, "nodes_permutation_cost is "
             "non-zero exactly for the nodes that can be exchanged", node=n,
             cost=cost)
    return len(a["shape"]) > 2


@composite
def g_act(draw):
    a = draw(tbts(max_order=5, max_size=200))
    return {"a": a, "dims": draw(subset(len(a["shape"])))}


@P.relation("activity", g_act, 900,
            rule="activation and inactivation of leaves; trivial if nothing "
                 "changes")
def _(case):
    a, dims = case["a"], case["dims"]
    X, x = build_tbt(a)
    ok = frozen_tbt(X)
    nodes = [a["d2i"][i] for i in dims]
    Y = X.inactivate_nodes(nodes)
    ok("inactivate_nodes")
    same_tbt(Y, x, "inactivate_nodes", nodes=nodes)
    off = sorted(set(a["off"]) | set(dims))
    same(Y.non_active_dims, off, "inactivate_nodes: inactive dimensions")
    same(Y.active_dims, [i for i in range(len(a["shape"])) if i not in off],
         "inactivate_nodes: active dimensions")
    same(np.sort(Y.non_active_nodes), sorted(a["d2i"][i] for i in off),
         "inactivate_nodes: inactive nodes")
    Z = X.activate_nodes(nodes)
    ok("activate_nodes")
    same_tbt(Z, x, "activate_nodes", nodes=nodes)
    off = [i for i in a["off"] if i not in dims]
    same(Z.non_active_dims, off, "activate_nodes: inactive dimensions")
    for i in range(len(a["shape"])):
        need(bool(Z.is_active_dim(i)) == (i not in off), "is_active_dim")
    W = Y.activate_nodes([int(i) for i in Y.non_active_nodes])
    same_tbt(W, x, "inactivate_nodes then activate_nodes")
    inner = [n for n in range(1, len(a["par"]) + 1) if n not in a["d2i"]]
    raises(lambda: X.inactivate_nodes([inner[-1]]),
           "inactivate an internal node", (ValueError,))
    return bool(dims)


@composite
def g_sq(draw):
    a = draw(trees(2, 6))
    par, d2i = list(a["par"]), list(a["d2i"])
    if draw(st.booleans()):                      # nodes with a single child
        for _ in range(draw(st.integers(1, 3))):
            n = draw(st.integers(1, len(par)))
            par.append(n)
            new = len(par)
            if n in d2i:
                d2i[d2i.index(n)] = new
            else:
                kids = m_children(par, n)
                for c in kids[:-1]:
                    par[c - 1] = new
    tree = {"par": par, "d2i": d2i}
    shape = [draw(st.sampled_from([1, 1, 2, 3])) for _ in d2i]
    t = draw(tbts(tree=tree, shape=shape))
    ones = [i for i, k in enumerate(shape) if k == 1]
    return {"a": t, "dims": [ones[i] for i in draw(subset(len(ones)))],
            "leafless": 0}


@P.relation("squeeze", g_sq, 1500,
            rule="removal of singleton dimensions and of nodes with a single "
                 "child; trivial if nothing is removed")
def _(case):
    a, dims = case["a"], case["dims"]
    X, x = build_tbt(a)
    d = len(a["shape"])
    ok = frozen_tbt(X)
    kids = [len(m_children(a["par"], n)) for n in range(1, len(a["par"]) + 1)]
    Y = X.remove_unique_children()
    ok("remove_unique_children")
    same_tbt(Y, x, "remove_unique_children")
    need(not any(len(Y.tree.children(n)) == 1
                 for n in range(1, Y.tree.nb_nodes + 1)),
         "remove_unique_children: a node still has a single child")
    need(Y.tree.nb_nodes == len(kids) - kids.count(1),
         "remove_unique_children: number of nodes", got=Y.tree.nb_nodes,
         want=len(kids) - kids.count(1))
    ones = tuple(i for i in range(d) if x.shape[i] == 1)
    if ones:
        Y = X.squeeze()
        ok("squeeze")
        want = np.squeeze(x, ones)
        if len(ones) < d:
            same_tbt(Y, want, "squeeze")
        else:
            close(arr(Y), want, "squeeze", shape=False)
            lab("all_ones")
    if dims:
        Y = X.squeeze(dims)
        ok("squeeze(dims)")
        want = np.squeeze(x, tuple(dims))
        if len(dims) < d:
            same_tbt(Y, want, "squeeze(dims)", dims=dims)
        else:
            close(arr(Y), want, "squeeze(dims)", shape=False)
        lab("dims%d" % len(dims))
    if kids.count(1):
        lab("unique_children")
    if a["off"]:
        lab("off")
    return bool(ones) or kids.count(1) > 0


@composite
def g_new(draw):
    a = draw(tbts(max_order=5, max_dim=4, max_rank=4, max_size=300,
                  kinds=("gauss",)))
    n = draw(st.integers(2, 5))
    return {"a": a, "tt": [draw(st.integers(1, 3)) for _ in range(n - 1)],
            "tts": draw(shapes(n, n, 3, 100)),
            "tto": list(draw(st.permutations(range(n))))}


@P.relation("constructors", g_new, 900,
            rule="random / constant tensors of prescribed shape, ranks and "
                 "activity, tensor trains, storage, admissibility of ranks; "
                 "trivial if all the ranks are 1")
def _(case):
    a = case["a"]
    T = build_tree(a)
    n, d = len(a["par"]), len(a["shape"])
    X, x = build_tbt(a)
    act = np.array([not (i + 1 in a["d2i"] and a["d2i"].index(i + 1)
                         in a["off"]) for i in range(n)])
    ranks = np.array(a["ranks"]) * act
    ranks[m_root(a) - 1] = a["ranks"][m_root(a) - 1]
    shape = np.array(a["shape"])
    fz = Frozen(ranks, shape, act)
    for name in ("randn", "rand", "ones", "zeros"):
        Y = getattr(tensap.TreeBasedTensor, name)(
            T, np.array(a["ranks"]), shape, act)
        y = check_tbt(Y, name)
        same(y.shape[:d], a["shape"], name + ": shape")
        same(Y.ranks, ranks, name + ": ranks")
        same(np.asarray(Y.is_active_node), act, name + ": active nodes")
        if name in ("ones", "zeros"):
            need(all(np.all(t.data == (name == "ones")) for t in Y.tensors
                     if np.size(t.data)), name + ": node tensors")
    fz.check("constructors")
    Y = tensap.TreeBasedTensor(X)
    same_tbt(Y, x, "copy constructor")
    # storage
    data = [t for t in node_arrays(a) if t is not None]
    need(X.storage() == sum(t.size for t in data), "storage")
    need(X.sparse_storage() == sum(np.count_nonzero(t) for t in data),
         "sparse_storage")
    full = [np.size(t) if i + 1 not in a["d2i"] else np.count_nonzero(t)
            for i, t in enumerate(node_arrays(a)) if t is not None]
    need(X.sparse_leaves_storage() == sum(full), "sparse_leaves_storage")
    # admissible ranks: a generic tensor has its representation ranks
    if a["ranks"][m_root(a) - 1] == 1:
        gen = True
        for i in range(1, n + 1):
            if act[i - 1] and i != m_root(a):
                s = sv(x, m_dims(a, i))
                gen = gen and len(s) >= ranks[i - 1] and \
                    s[ranks[i - 1] - 1] > 1e-10 * s[0]
        ok = frozen_tbt(X)
        need(bool(X.is_admissible_rank()) == gen, "is_admissible_rank",
             ranks=ranks, got=X.is_admissible_rank(), want=gen)
        need(bool(X.is_admissible_rank(ranks)) == gen,
             "is_admissible_rank(ranks)", ranks=ranks)
        ok("is_admissible_rank")
        lab("admissible" if gen else "not_admissible")
    # tensor train
    r, sh = case["tt"], case["tts"]
    m = len(sh)
    rng = np.random.RandomState(a["s"])
    cores = [rng.randn(sh[0], r[0])]
    for i in range(1, m - 1):
        cores.append(rng.randn(r[i - 1], sh[i], r[i]))
    cores.append(rng.randn(r[-1], sh[-1]))
    want = cores[0]
    for c in cores[1:]:
        want = np.tensordot(want, c, 1)
    wrap = [tensap.FullTensor(c) for c in cores]
    same_tbt(tensap.TreeBasedTensor.tensor_train(list(wrap)), want,
             "tensor_train")
    o = case["tto"]
    got = tensap.TreeBasedTensor.tensor_train([wrap[i] for i in o], o)
    same_tbt(got, want, "tensor_train(cores, dims)", dims=o)
    return max(a["ranks"]) > 1

"""Generators and the dense reference model of tree-based tensors."""
import numpy as np
import tensap
from props.common import *


# ----------------------------------------------------------------------- trees
@composite
def trees(draw, min_order=2, max_order=5, max_arity=4, relabel=True,
          min_depth=0):
    """A random partition tree: {"par": parent of each node (1-based, 0 for
    the root), "d2i": leaf node of each dimension}."""
    d = draw(st.integers(min_order, max_order))
    if min_order < max_order and max_order >= 5 and \
            draw(st.integers(0, 15)) == 15:
        d, max_arity = d + 2, max_arity + 2
    kind = draw(st.sampled_from(["random", "random", "random", "trivial",
                                 "caterpillar"]))
    perm = list(draw(st.permutations(range(d))))
    par, leaf = [0], {}

    def split(node, dims):
        if len(dims) == 1 and node != 1:
            leaf[dims[0]] = node
            return
        if kind == "trivial":
            parts = [[i] for i in dims]
        elif kind == "caterpillar":
            parts = [dims[:1], dims[1:]]
        else:
            a = draw(st.integers(2, min(max_arity, len(dims))))
            cuts = sorted(draw(st.lists(st.integers(1, len(dims) - 1),
                                        min_size=a - 1, max_size=a - 1,
                                        unique=True)))
            cuts = [0] + cuts + [len(dims)]
            parts = [dims[i:j] for i, j in zip(cuts, cuts[1:])]
        nodes = []
        for _ in parts:
            par.append(node)
            nodes.append(len(par))
        for n, p in zip(nodes, parts):
            split(n, p)

    if d == 1:
        par.append(1)
        leaf[0] = 2
    else:
        split(1, perm)
    n = len(par)
    d2i = [leaf[i] for i in range(d)]
    if relabel and draw(st.booleans()):
        return renumbered({"par": par, "d2i": d2i},
                          draw(st.permutations(range(n))))
    return {"par": par, "d2i": d2i}


def renumbered(spec, perm):
    """The same tree (or tree-based tensor), whose node i + 1 has the number
    perm[i] + 1."""
    p = [0] + [i + 1 for i in perm]
    out = dict(spec, par=[0] * len(perm), d2i=[p[i] for i in spec["d2i"]])
    for i, q in enumerate(spec["par"]):
        out["par"][p[i + 1] - 1] = p[q]
    if "ranks" in spec:
        out["ranks"] = [0] * len(perm)
        for i, r in enumerate(spec["ranks"]):
            out["ranks"][p[i + 1] - 1] = r
    return out


def build_tree(spec):
    n = len(spec["par"])
    adj = np.zeros((n, n), dtype=int)
    for i, p in enumerate(spec["par"]):
        if p:
            adj[p - 1, i] = 1
    return tensap.DimensionTree(np.array(spec["d2i"]), adj)


def m_children(par, node):
    return [i + 1 for i, p in enumerate(par) if p == node]


def m_dims(spec, node):
    """Model: sorted dimensions of a node."""
    if node in spec["d2i"] and not m_children(spec["par"], node):
        return [spec["d2i"].index(node)]
    out = []
    for c in m_children(spec["par"], node):
        out += m_dims(spec, c)
    return sorted(out)


def m_root(spec):
    return spec["par"].index(0) + 1


# --------------------------------------------------------------------- tensors
@composite
def tbts(draw, tree=None, shape=None, min_order=2, max_order=5, max_dim=4,
         max_rank=3, root_rank=None, inactive=True, max_size=300,
         kinds=("gauss", "int", "sparse"), relabel=True):
    spec = dict(tree if tree is not None
                else draw(trees(min_order, max_order, relabel=relabel)))
    d, n = len(spec["d2i"]), len(spec["par"])
    if shape is None:
        shape = draw(shapes(d, d, max_dim, max_size))
    spec["shape"] = list(shape)
    if draw(st.integers(0, 15)) == 15 and d <= 4:
        max_rank = 2 * max_rank
    spec["ranks"] = [draw(st.integers(1, max_rank)) for _ in range(n)]
    rr = root_rank if root_rank is not None else draw(
        st.sampled_from([1, 1, 1, 2, 3]))
    spec["ranks"][m_root(spec) - 1] = rr
    spec["off"] = []
    if inactive and d > 1 and draw(st.sampled_from([False, False, True])):
        few = draw(st.sampled_from([True, False]))
        spec["off"] = sorted(
            [draw(st.integers(0, d - 1))] if few else draw(subset(d)))
    spec["k"] = draw(st.sampled_from(list(kinds)))
    spec["s"] = draw(st.integers(0, 2 ** 16))
    return spec


def node_arrays(spec):
    """The arrays of the node tensors of a tree-based tensor description."""
    out, root = [], m_root(spec)
    for node in range(1, len(spec["par"]) + 1):
        ch = m_children(spec["par"], node)
        if not ch:
            dim = spec["d2i"].index(node)
            if dim in spec["off"]:
                out.append(None)
                continue
            sh = [spec["shape"][dim], spec["ranks"][node - 1]]
        else:
            sh = []
            for c in ch:
                if c in spec["d2i"] and spec["d2i"].index(c) in spec["off"]:
                    sh.append(spec["shape"][spec["d2i"].index(c)])
                else:
                    sh.append(spec["ranks"][c - 1])
            if node != root or spec["ranks"][node - 1] > 1:
                sh.append(spec["ranks"][node - 1])
        out.append(build({"shape": sh, "k": spec["k"],
                          "s": spec["s"] + 7 * node}))
    return out


def build_tbt(spec):
    """The tensap object and its dense counterpart computed with numpy."""
    data = node_arrays(spec)
    cores = np.empty(len(data), dtype=object)
    for i, a in enumerate(data):
        cores[i] = tensap.FullTensor(np.array(a)) if a is not None else []
    X = tensap.TreeBasedTensor(cores, build_tree(spec))
    x = dense_model(spec["par"], spec["d2i"], data)
    return X, x


def dense_model(par, d2i, data, subscripts=False):
    """Contract the node arrays of a tree (data[i] is None for inactive
    leaves)."""
    d, n = len(d2i), len(par)
    args, root = [], list(par).index(0) + 1
    extra = False
    for node in range(1, n + 1):
        a = data[node - 1]
        if a is None or np.size(a) == 0:
            continue
        ch = m_children(par, node)
        idx = []
        if not ch:
            idx.append(list(d2i).index(node))
        for c in ch:
            b = data[c - 1]
            if b is None or np.size(b) == 0:
                idx.append(list(d2i).index(c))
            else:
                idx.append(d + c)
        if node != root or np.ndim(a) == len(idx) + 1:
            idx.append(d + node)
            extra = extra or node == root
        if np.ndim(a) != len(idx):
            fail("node tensor of node %d has order %d instead of %d"
                 % (node, np.ndim(a), len(idx)))
        args += [np.asarray(a), idx]
    labels = sorted({i for j in args[1::2] for i in j})
    pos = {v: k for k, v in enumerate(labels)}
    args = [([pos[i] for i in a] if k % 2 else a) for k, a in enumerate(args)]
    out = [pos[i] for i in range(d)] + ([pos[d + root]] if extra else [])
    return np.einsum(*args, out, optimize="greedy")


def dense(X):
    """The array represented by a TreeBasedTensor (or FullTensor, ndarray),
    computed from its parameters only."""
    if not isinstance(X, tensap.TreeBasedTensor):
        return arr(X)
    par = (np.arange(1, X.tree.adjacency_matrix.shape[0] + 1)
           @ np.asarray(X.tree.adjacency_matrix)).astype(int).tolist()
    for i, t in enumerate(X.tensors):
        if not isinstance(t, tensap.FullTensor):
            fail("node tensor %d is a %s" % (i + 1, type(t).__name__))
        if tuple(np.atleast_1d(t.shape)) != np.shape(t.data) and \
                np.size(t.data) > 0:
            fail("node tensor %d: inconsistent shape" % (i + 1),
                 attribute=t.shape, actual=np.shape(t.data))
    return dense_model(par, [int(i) for i in X.tree.dim2ind],
                       [t.data for t in X.tensors])


def magnitude(X):
    """The array of the sums of the absolute values of the terms whose sums
    are the entries of a tree-based tensor."""
    par, d2i, data = parts_of(X)
    return dense_model(par, d2i, [np.abs(t) for t in data])


def check_tbt(X, what):
    """Consistency of the attributes of a TreeBasedTensor with its
    parameters."""
    need(isinstance(X, tensap.TreeBasedTensor),
         what + ": not a TreeBasedTensor", got=type(X).__name__)
    T = X.tree
    d = len(T.dim2ind)
    need(int(X.order) == d, what + ": wrong order", got=X.order, want=d)
    x = dense(X)
    same(np.asarray(X.shape), x.shape[:d], what + ": attribute shape")
    act = [np.size(t.data) > 0 for t in X.tensors]
    same(np.asarray(X.is_active_node, dtype=bool), act,
         what + ": attribute is_active_node")
    for node in range(1, T.nb_nodes + 1):
        t = X.tensors[node - 1]
        if not act[node - 1]:
            want = 0
        elif node == T.root and t.data.ndim == max(
                1, len(T.children(node))):
            want = 1
        else:
            want = t.data.shape[-1]
        need(int(X.ranks[node - 1]) == want,
             what + ": wrong representation rank at node %d" % node,
             got=X.ranks, want=want)
    return x


def same_tbt(X, want, what, tol=1e-9, scale=None, **kw):
    got = check_tbt(X, what)
    close(got, want, what, tol=tol, scale=scale, **kw)


def frozen_tbt(*tensors):
    """A callable that checks that the tensors still have the same content."""
    def snap(X):
        return ([np.array(t.data, copy=True) for t in X.tensors],
                np.array(X.tree.adjacency_matrix, copy=True),
                np.array(X.tree.dim2ind, copy=True),
                [np.array(i, copy=True) for i in X.tree.dims],
                np.array(X.ranks, copy=True), np.array(X.shape, copy=True),
                np.array(X.is_active_node, copy=True))
    before = [snap(X) for X in tensors]

    def check(what):
        for X, b in zip(tensors, before):
            a = snap(X)
            for i, (p, q) in enumerate(zip(a[0], b[0])):
                same(p, q, what + ": tensor %d of the operand changed" % i)
            same(a[1], b[1], what + ": adjacency matrix of the operand changed")
            same(a[2], b[2], what + ": dim2ind of the operand changed")
            for i, (p, q) in enumerate(zip(a[3], b[3])):
                same(p, q, what + ": dims of node %d of the operand changed"
                     % (i + 1))
            same(a[4], b[4], what + ": ranks of the operand changed")
            same(a[5], b[5], what + ": shape of the operand changed")
            same(a[6], b[6], what + ": active nodes of the operand changed")
    return check


def m_sub(par, node):
    """Nodes of the subtree rooted at node."""
    out = [node]
    for c in m_children(par, node):
        out += m_sub(par, c)
    return out


def parts_of(X):
    """(par, d2i, arrays) of a TreeBasedTensor."""
    par = (np.arange(1, X.tree.adjacency_matrix.shape[0] + 1)
           @ np.asarray(X.tree.adjacency_matrix)).astype(int).tolist()
    return (par, [int(i) for i in X.tree.dim2ind],
            [t.data for t in X.tensors])


def _contract(par, d2i, data, nodes, out_edge):
    d = len(d2i)
    root = par.index(0) + 1
    args, extra = [], False
    for node in nodes:
        a = data[node - 1]
        if np.size(a) == 0:
            continue
        ch = m_children(par, node)
        idx = [d2i.index(node)] if not ch else []
        for c in ch:
            idx.append(d2i.index(c) if np.size(data[c - 1]) == 0 else d + c)
        if node != root or np.ndim(a) == len(idx) + 1:
            idx.append(d + node)
            extra = extra or node == root
        args += [np.asarray(a), idx]
    labels = sorted({i for j in args[1::2] for i in j})
    pos = {v: k for k, v in enumerate(labels)}
    args = [([pos[i] for i in a] if k % 2 else a) for k, a in enumerate(args)]
    dims = [i for i in labels if i < d]
    out = [pos[i] for i in dims]
    if extra and root != out_edge:
        out.append(pos[d + root])
    res = np.einsum(*args, out + [pos[d + out_edge]], optimize="greedy")
    return dims, res.reshape(-1, res.shape[-1])


def below(X, node):
    """Matrix whose columns are the functions of the indices of the node."""
    par, d2i, data = parts_of(X)
    return _contract(par, d2i, data, m_sub(par, node), node)


def above(X, node):
    """Matrix whose columns are the functions of the complementary indices
    (including the index of the root rank if any)."""
    par, d2i, data = parts_of(X)
    nodes = [n for n in range(1, len(par) + 1) if n not in m_sub(par, node)]
    return _contract(par, d2i, data, nodes, node)


def matricize(x, dims):
    rest = [i for i in range(x.ndim) if i not in dims]
    return np.transpose(x, list(dims) + rest).reshape(
        prod([x.shape[i] for i in dims]), -1)


def sv(x, dims):
    return np.linalg.svd(matricize(x, dims), compute_uv=False)

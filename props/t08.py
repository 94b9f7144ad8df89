"""T08: dimension partition trees."""
import math
import numpy as np
import tensap
from props.tbt import *

P = Prop("T08", "dimension partition trees: structure and transformations", effort=2)


def m_level(par, node):
    k = 0
    while par[node - 1]:
        node, k = par[node - 1], k + 1
    return k


def check_tree(T, par, d2i, what):
    """Every attribute and query of the tree against the parent list."""
    n, d = len(par), len(d2i)
    spec = {"par": list(par), "d2i": list(d2i)}
    ch = [m_children(par, k + 1) for k in range(n)]
    need(T.nb_nodes == n, what + ": number of nodes", got=T.nb_nodes, want=n)
    same(np.asarray(T.dim2ind), d2i, what + ": dim2ind")
    need(T.root == m_root(spec), what + ": root", got=T.root)
    need(T.arity == max(len(c) for c in ch), what + ": arity", got=T.arity)
    same(T.nodes_indices, np.arange(1, n + 1), what + ": nodes")
    leaves = [k + 1 for k in range(n) if k + 1 in d2i]
    same(T.is_leaf, [k + 1 in leaves for k in range(n)], what + ": leaves")
    lev = [m_level(par, k + 1) for k in range(n)]
    same(T.level, lev, what + ": levels")
    same(np.sort(T.internal_nodes), [k + 1 for k in range(n)
                                     if k + 1 not in leaves],
         what + ": internal nodes")
    same(np.sort(T.nodes_parent_of_leaves),
         sorted({par[k - 1] for k in leaves}), what + ": parents of leaves")
    need(len(T.dims) == n, what + ": number of sets of dimensions")
    for k in range(1, n + 1):
        kw = {"node": k, "par": par, "d2i": d2i}
        same(np.asarray(T.children(k)).astype(int), ch[k - 1],
             what + ": children", **kw)
        need(int(T.parent(k)) == par[k - 1], what + ": parent",
             got=T.parent(k), **kw)
        dims = np.asarray(T.dims[k - 1])
        same(np.sort(dims), m_dims(spec, k), what + ": dimensions", **kw)
        asc, p = [], par[k - 1]
        while p:
            asc.append(p)
            p = par[p - 1]
        same(np.asarray(T.ascendants(k)).astype(int), asc,
             what + ": ascendants", **kw)
        des = [j for j in range(1, n + 1)
               if j != k and k in path(par, j)]
        same(np.sort(np.asarray(T.descendants(k)).astype(int)), des,
             what + ": descendants", **kw)
        if par[k - 1]:
            need(int(T.child_number(k)) == ch[par[k - 1] - 1].index(k) + 1,
                 what + ": child number", got=T.child_number(k), **kw)
            sib = np.asarray(T.sibling)[:, k - 1]
            same(np.sort(sib[sib != 0]), ch[par[k - 1] - 1],
                 what + ": siblings", **kw)
        # the dimensions of a node are those of its children, in order
        if ch[k - 1] and k not in d2i:
            same(dims, np.concatenate([T.dims[c - 1] for c in ch[k - 1]]),
                 what + ": order of the dimensions", **kw)
        same(np.sort(T.node_with_dims(list(np.random.RandomState(k)
                                           .permutation(dims)))),
             [j for j in range(1, n + 1)
              if m_dims(spec, j) == m_dims(spec, k)],
             what + ": node_with_dims", **kw)
    for v in range(max(lev) + 2):
        same(T.nodes_with_level(v), [k + 1 for k in range(n) if lev[k] == v],
             what + ": nodes at level %d" % v)
    absent = [d, 0]
    need(len(T.node_with_dims(absent)) == 0,
         what + ": node_with_dims of an absent set")


def path(par, node):
    out = []
    while node:
        out.append(node)
        node = par[node - 1]
    return out


def par_of(T):
    return (np.arange(1, T.adjacency_matrix.shape[0] + 1)
            @ np.asarray(T.adjacency_matrix)).astype(int).tolist()


def signature(spec):
    return sorted((m_level(spec["par"], k + 1), m_dims(spec, k + 1))
                  for k in range(len(spec["par"])))


# ------------------------------------------------------------------ one tree
@P.relation("structure", trees(1, 8), 1200,
            rule="any partition tree with 1 to 8 dimensions and any labelling "
                 "of its nodes; trivial below 3 dimensions")
def _(case):
    T = build_tree(case)
    check_tree(T, case["par"], case["d2i"], "tree")
    x = T.tree_layout()
    need(sorted(x) == list(range(len(case["par"]))), "layout: nodes")
    pos = np.array([x[k] for k in range(len(case["par"]))])
    need(np.all(pos >= 0) and np.all(pos <= 1), "layout: positions", got=pos)
    for k, p in enumerate(case["par"]):
        if p:
            need(pos[p - 1, 1] > pos[k, 1], "layout: a parent is not above "
                 "its child", got=pos)
    lab("order%d" % len(case["d2i"]))
    return len(case["d2i"]) > 2


def prune(spec, node):
    """The tree without an internal node, its children given to its
    parent."""
    par, d2i = spec["par"], spec["d2i"]
    keep = [k for k in range(1, len(par) + 1) if k != node]
    new = {0: 0, **{k: i + 1 for i, k in enumerate(keep)}}
    up = par[node - 1]
    return {"par": [new[up if par[k - 1] == node else par[k - 1]]
                    for k in keep], "d2i": [new[k] for k in d2i]}


@composite
def g_eq(draw):
    how = draw(st.sampled_from(["relabel", "swap", "prune", "graft",
                                "collapse", "collapse", "other", "chain"]))
    a = draw(trees(*{"graft": (5, 9), "collapse": (7, 10)}.get(how, (2, 7)),
                   3))
    out = {"a": a, "how": how}
    n, d = len(a["par"]), len(a["d2i"])
    if how == "relabel":
        out["perm"] = [i + 1 for i in draw(st.permutations(range(n)))]
    elif how == "swap":
        out["dims"] = [draw(st.integers(0, d - 1)) for _ in range(2)]
    elif how in ("graft", "collapse"):
        out["n1"], out["n2"] = [draw(st.integers(1, n)) for _ in range(2)]
    elif how in ("prune", "chain"):
        out["node"] = draw(st.integers(1, n))
    else:
        out["b"] = draw(trees(2, 7))
    return out


@P.relation("equality", g_eq, 2000,
            rule="pairs of trees: relabelled copies, swapped dimensions, one "
                 "node removed or inserted, exchanged subtrees, unrelated; "
                 "trivial below 3 dimensions")
def _(case):
    a, how = case["a"], case["how"]
    par, d2i = list(a["par"]), list(a["d2i"])
    if how == "relabel":
        p = [0] + case["perm"]
        b = {"par": [0] * len(par), "d2i": [p[i] for i in d2i]}
        for i, q in enumerate(par):
            b["par"][p[i + 1] - 1] = p[q]
    elif how == "swap":
        i, j = case["dims"]
        d2i[i], d2i[j] = d2i[j], d2i[i]
        b = {"par": par, "d2i": d2i}
    elif how == "prune":
        node = case["node"]
        if node in d2i or par[node - 1] == 0:
            return False
        b = prune(a, node)
    elif how == "collapse":       # two trees, each with one node removed
        inner = [k for k in range(1, len(par) + 1)
                 if k not in d2i and par[k - 1]]
        if not inner:
            return False
        i = inner[case["n1"] % len(inner)]
        j = inner[case["n2"] % len(inner)]
        a, b = prune(a, i), prune(a, j)
    elif how == "graft":                  # exchange two disjoint subtrees
        i, j = case["n1"], case["n2"]
        if i in path(par, j) or j in path(par, i):
            return False
        par[i - 1], par[j - 1] = par[j - 1], par[i - 1]
        b = {"par": par, "d2i": d2i}
    elif how == "chain":
        node = case["node"]
        if node not in d2i:
            return False
        b = {"par": par + [node],
             "d2i": [len(par) + 1 if k == node else k for k in d2i]}
    else:
        b = case["b"]
    S, T = build_tree(a), build_tree(b)
    want = signature(a) == signature(b)
    for u, v, w in ((S, T, "a == b"), (T, S, "b == a")):
        got = (u == v)
        need(bool(got) == want, w, got=got, want=want, a=a, b=b)
        need(bool(u != v) == (not want), w.replace("==", "!="), a=a, b=b)
    need(bool(S == S), "a == a")
    check_tree(S, a["par"], a["d2i"], "after a comparison")
    lab(how, "equal" if want else "different")
    return len(a["d2i"]) > 2


# ----------------------------------------------------------------- histories
@composite
def g_hist(draw):
    a = draw(trees(2, 6))
    ops = [[draw(st.sampled_from(["permute", "ipermute", "change_root",
                                  "change_root", "add_child", "add_child",
                                  "sub", "arrays"])),
            draw(st.integers(0, 99)), draw(st.integers(0, 2 ** 16))]
           for _ in range(draw(st.integers(1, 5)))]
    return {"a": a, "ops": ops}


@P.relation("history", g_hist, 1500,
            rule="1 to 5 transformations of a tree, each compared with a "
                 "model of the tree; trivial if no operation applied")
def _(case):
    par, d2i = list(case["a"]["par"]), list(case["a"]["d2i"])
    T = build_tree(case["a"])
    done = 0
    for op, k, seed in case["ops"]:
        n, d = len(par), len(d2i)
        node = k % n + 1
        old = (T, list(par), list(d2i))
        ok = Frozen(T.adjacency_matrix, T.dim2ind, *T.dims)
        if op in ("permute", "ipermute"):
            s = np.random.RandomState(seed).permutation(d)
            arg = s.tolist() if k % 2 else s.copy()
            T = getattr(T, op)(arg)
            same(arg, s, op + ": argument")
            if op == "permute":
                new = [0] * d
                for i in range(d):
                    new[s[i]] = d2i[i]
            else:
                new = [d2i[s[i]] for i in range(d)]
            back = getattr(T, "ipermute" if op == "permute" else "permute")(s)
            same(back.dim2ind, d2i, op + " and back")
            d2i = new
        elif op == "change_root":
            T, mod = T.change_root(node)
            if par[node - 1]:
                a = path(par, node)
                new = list(par)
                for c, p in zip(a, a[1:]):
                    new[p - 1] = c
                new[node - 1] = 0
                if node in d2i:
                    new.append(node)
                    d2i = [n + 1 if i == node else i for i in d2i]
                oldp, par = par, new
                # nodes which are not declared modified are the same
                for j in range(1, n + 1):
                    if j not in mod:
                        need(par[j - 1] == oldp[j - 1] and m_children(par, j)
                             == m_children(oldp, j), "change_root: a modified "
                             "node is not reported", node=j, got=mod)
                need(set(int(i) for i in mod) <= set(range(1, n + 1)),
                     "change_root: modified nodes", got=mod)
            else:
                need(len(mod) == 0, "change_root at the root: modified nodes",
                     got=mod)
        elif op == "add_child":
            if n > 14:
                continue
            T = T.add_child(node)
            par = par + [node]
            d2i = [n + 1 if i == node else i for i in d2i] \
                if node in d2i else d2i + [n + 1]
        elif op == "sub":
            S, nod = T.sub_dimension_tree(node)
            nod = [int(i) for i in nod]
            want = [j for j in range(1, n + 1) if node in path(par, j)]
            same(sorted(nod), want, "sub_dimension_tree: nodes")
            need(nod[0] == node, "sub_dimension_tree: first node")
            if len(nod) > 1:
                spar = [0] + [nod.index(par[j - 1]) + 1 for j in nod[1:]]
                dims = [int(i) for i in T.dims[node - 1]]
                sd = [nod.index(d2i[i]) + 1 for i in dims]
                check_tree(S, spar, sd, "sub_dimension_tree")
        else:
            T = tensap.DimensionTree(T.dim2ind.tolist(), T.adjacency_matrix)
        ok.check(op)
        check_tree(T, par, d2i, op)
        check_tree(*old, op + ": original tree")
        done += 1
        lab(op)
    return done > 0


# -------------------------------------------------------------- constructors
@composite
def g_make(draw):
    d = draw(st.integers(2, 12))
    return {"d": d, "perm": list(draw(st.permutations(range(1, d + 1)))),
            "list": draw(st.booleans()), "np": draw(st.booleans()),
            "ar": draw(st.sampled_from([2, 3, 4, [2, 3], [2, 4], [3, 5],
                                        [2, 6]])),
            "s": draw(st.integers(0, 2 ** 16))}


@P.relation("constructors", g_make, 800,
            rule="trivial, linear, balanced and random trees for 2 to 12 "
                 "dimensions, with and without a permutation; all non-trivial")
def _(case):
    d = case["d"]
    dd = np.int64(d) if case["np"] else d
    T = tensap.DimensionTree.trivial(dd)
    check_tree(T, [0] + [1] * d, list(range(2, d + 2)), "trivial")
    perm = case["perm"]
    arg = list(perm) if case["list"] else np.array(perm)

    # linear: the internal nodes are the sets of the first dimensions
    for what, T, order in (
            ("linear", tensap.DimensionTree.linear(dd), range(d)),
            ("linear(permutation)", tensap.DimensionTree.linear(arg),
             [i - 1 for i in perm])):
        order = list(order)
        check_tree(T, par_of(T), [int(i) for i in T.dim2ind], what)
        want = sorted([sorted(order[:k]) for k in range(2, d + 1)]
                      + [[i] for i in range(d)])
        got = sorted(sorted(int(i) for i in x) for x in T.dims)
        need(got == want, what + ": sets of dimensions", got=got, want=want)
        same(T.level[np.asarray(T.dim2ind)[order] - 1],
             [d - 1] + list(range(d - 1, 0, -1)), what + ": levels of leaves")
    same(arg, perm, "linear: argument")

    B = tensap.DimensionTree.balanced(dd)
    C = tensap.DimensionTree.balanced(arg)
    same(arg, perm, "balanced: argument")
    depth = math.ceil(math.log2(d) - 1e-12)
    for what, T in (("balanced", B), ("balanced(permutation)", C)):
        check_tree(T, par_of(T), [int(i) for i in T.dim2ind], what)
        need(T.nb_nodes == 2 * d - 1 and all(
            len(T.children(int(i))) == 2 for i in T.internal_nodes),
            what + ": not binary")
        lv = T.level[np.asarray(T.dim2ind) - 1]
        need(max(lv) == depth and max(lv) - min(lv) <= 1,
             what + ": levels of the leaves", got=lv, depth=depth)
    need(C == B.permute([i - 1 for i in perm]),
         "balanced(permutation) is not the permuted balanced tree")

    ar = case["ar"]
    np.random.seed(case["s"])
    arg = np.array(ar) if case["np"] else ar
    T = tensap.DimensionTree.random(d, arg)
    same(arg, ar, "random: argument")
    check_tree(T, par_of(T), [int(i) for i in T.dim2ind], "random")
    lo, hi = (ar, ar) if np.isscalar(ar) else ar
    for k in T.internal_nodes:
        c, m = len(T.children(int(k))), len(T.dims[k - 1])
        need(min(lo, m) <= c <= hi, "random: arity of a node", node=k,
             got=c, want=(lo, hi))
    need(len(set(int(i) for i in T.dim2ind)) == d, "random: leaves")
    np.random.seed(case["s"])
    need(T == tensap.DimensionTree.random(d, ar), "random: not reproducible")
    return True

"""T06: gradients of tree-based tensors with respect to their parameters."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T06", "tree-based tensors: gradients with respect to the parameters", effort=3)


def replaced(a, news):
    """Dense tensor when the node tensors news = {node: array} replace those
    of the description."""
    data = node_arrays(a)
    for n, t in news.items():
        data[n - 1] = t
    return dense_model(a["par"], a["d2i"], data)


def evaluate(x, H):
    d = len(H)
    return np_diag(np_matprod(x, H, list(range(d))), list(range(d)))


@composite
def g_grad(draw, dmrg=False, inactive=True):
    a = draw(tbts(min_order=2, max_order=5, max_size=200, max_rank=3,
                  kinds=("gauss",), inactive=inactive))
    d, n = len(a["shape"]), len(a["par"])
    act = [i for i in range(1, n + 1)
           if not (i in a["d2i"] and a["d2i"].index(i) in a["off"])]
    if dmrg:
        act = [i for i in act if i != m_root(a)]
        if not act:                   # everything but the root is inactive
            a["off"] = a["off"][1:]
            act = [i for i in range(1, n + 1) if i != m_root(a) and not (
                i in a["d2i"] and a["d2i"].index(i) in a["off"])]
    return {"a": a, "node": draw(st.sampled_from(act)),
            "n": draw(st.integers(1, 5)), "s": draw(st.integers(0, 2 ** 16))}


def labels(a, node):
    lab("leaf" if node in a["d2i"] else
        "root" if node == m_root(a) else "internal",
        "off%d" % len(a["off"]), "root_rank%d" % a["ranks"][m_root(a) - 1],
        "order%d" % len(a["shape"]))


def check_linear(grad, a, node, H, rng, what):
    """grad is the gradient with respect to the tensor of the node."""
    root = m_root(a)
    rr = a["ranks"][root - 1] > 1
    base = node_arrays(a)[node - 1]
    grad = arr(grad)
    n = H[0].shape[0]
    for k in range(2):
        th = base if k == 0 else rng.randn(*base.shape)
        want = evaluate(replaced(a, {node: th}), H)
        if node == root and rr:
            if grad.shape != (n,) + base.shape[:-1]:
                fail(what + ": wrong shape", got=grad.shape,
                     want=(n,) + base.shape[:-1])
            got = np.tensordot(grad, th, base.ndim - 1)
        else:
            shape = (n,) + base.shape + ((a["ranks"][root - 1],) if rr
                                         else ())
            if grad.shape != shape:
                fail(what + ": wrong shape", got=grad.shape, want=shape)
            got = np.tensordot(grad, th, (range(1, 1 + base.ndim),
                                          range(base.ndim)))
        close(got, want, what + ": value of the linear map", tol=1e-8,
              node=node)


@P.relation("gradient", g_grad(), 2500,
            rule="evaluations of the tensor with the node tensor replaced by "
                 "arbitrary values, computed with the gradient (any node, "
                 "activity, root rank); trivial if there is one sample and "
                 "all ranks are 1")
def _(case):
    a, node = case["a"], case["node"]
    X, x = build_tbt(a)
    rng = np.random.RandomState(case["s"])
    H = [rng.randn(case["n"], k) for k in a["shape"]]
    f = tensap.FunctionalTensor(X, list(H))
    need(f.evaluated_bases, "evaluated_bases of a functional tensor built "
         "with matrices")
    ok = frozen_tbt(X)
    fz = Frozen(*H)
    grad = f.parameter_gradient_eval(node)
    ok("parameter_gradient_eval")
    fz.check("parameter_gradient_eval")
    check_linear(grad, a, node, H, rng, "parameter_gradient_eval")
    labels(a, node)
    return case["n"] > 1 or max(a["ranks"]) > 1


@P.relation("gradient_dmrg", g_grad(dmrg=True, inactive=False), 1500,
            rule="as gradient, with respect to the contraction of the tensors "
                 "of a node and its parent (all nodes active)")
def _(case):
    a, node = case["a"], case["node"]
    X, x = build_tbt(a)
    rng = np.random.RandomState(case["s"])
    n = case["n"]
    H = [rng.randn(n, k) for k in a["shape"]]
    f = tensap.FunctionalTensor(X, list(H))
    ok = frozen_tbt(X)
    root = m_root(a)
    gamma = a["par"][node - 1]
    pos = m_children(a["par"], gamma).index(node)
    g = f.parameter_gradient_eval_dmrg(node)
    ga, gg = f.parameter_gradient_eval_dmrg(node, dmrg_type="dmrg_low_rank")
    ok("parameter_gradient_eval_dmrg")
    g, ga, gg = arr(g), arr(ga), arr(gg)
    base = node_arrays(a)
    rr = a["ranks"][root - 1] > 1
    for k in range(2):
        ta, tg = base[node - 1], base[gamma - 1]
        if k:
            ta, tg = rng.randn(*ta.shape), rng.randn(*tg.shape)
        want = evaluate(replaced(a, {node: ta, gamma: tg}), H)
        w = np.tensordot(ta, tg, (ta.ndim - 1, pos))
        if gamma == root and rr:
            nd = w.ndim - 1
        else:
            nd = w.ndim
        if g.shape[:1 + nd] != (n,) + w.shape[:nd]:
            fail("parameter_gradient_eval_dmrg: wrong shape", got=g.shape,
                 want=(n,) + w.shape[:nd])
        got = np.tensordot(g, w, (range(1, 1 + nd), range(nd)))
        close(got, want, "parameter_gradient_eval_dmrg: value of the linear "
              "map", tol=1e-8)
        # separated form
        na = ta.ndim - 1
        va = np.tensordot(ga, ta, (range(1, 1 + na), range(na)))
        tg2 = np.moveaxis(tg, pos, 0)
        ng = tg2.ndim - (2 if gamma == root and rr else 1)
        vg = np.tensordot(gg, tg2, (range(1, 1 + ng), range(1, 1 + ng)))
        # va (n, r); vg (n, [root rank,] r [, root rank])
        if vg.ndim == 2:
            got = np.einsum("ir,ir->i", va, vg)
        elif gamma == root:
            got = np.einsum("ir,irq->iq", va, vg)
        else:
            got = np.einsum("ir,iqr->iq", va, vg)
        close(got, want, "parameter_gradient_eval_dmrg (low rank): value of "
              "the linear map", tol=1e-8)
    labels(a, node)
    lab("parent_root" if gamma == root else "parent_internal")
    return n > 1 or max(a["ranks"]) > 1


@composite
def g_diag(draw):
    d = draw(st.integers(2, 5))
    n = draw(st.integers(1, 3))
    a = draw(tbts(tree=draw(trees(d, d)), shape=[n] * d, max_rank=3,
                  kinds=("gauss",), inactive=False))
    if draw(st.sampled_from([True, False, True])):
        a["off"] = sorted(draw(subset(d, 1)))
    act = [i for i in range(1, len(a["par"]) + 1)
           if not (i in a["d2i"] and a["d2i"].index(i) in a["off"])]
    return {"a": a, "node": draw(st.sampled_from(act)),
            "s": draw(st.integers(0, 2 ** 16))}


@P.relation("gradient_of_the_diagonal", g_diag, 1600,
            rule="gradient of the diagonal of a hypercubic tensor (any node, "
                 "activity, root rank, with and without matrices), diagonals "
                 "of the functions of the nodes; trivial if all ranks are 1")
def _(case):
    a, node = case["a"], case["node"]
    X, x = build_tbt(a)
    rng = np.random.RandomState(case["s"])
    n, d = a["shape"][0], len(a["shape"])
    root = m_root(a)
    rr = a["ranks"][root - 1] > 1
    off = [a["d2i"][i] for i in a["off"]]
    ok = frozen_tbt(X)
    I = [np.eye(n)] * d
    ch = m_children(a["par"], node)
    # dimensions of the gradient: the active children come first
    perm = [c for c in ch if c not in off] + [c for c in ch if c in off]
    grad = arr(X.parameter_gradient_eval_diag(node, list(I)))
    if ch:
        grad = np.moveaxis(grad, [1 + k for k in range(len(ch))],
                           [1 + ch.index(c) for c in perm])
    check_linear(grad, a, node, I, rng, "parameter_gradient_eval_diag")
    # without matrices, the dimensions of the node remain free
    own = [node] if node in a["d2i"] else [c for c in perm if c in off]
    if own:
        free = arr(X.parameter_gradient_eval_diag(node))
        th = node_arrays(a)[node - 1]
        dims = [a["d2i"].index(c) for c in own]
        na = len(perm) - len(own) if ch else 0
        order = [1 + k for k in range(na)]          # active children
        order += [2 + na + 2 * k for k in range(len(own))]
        tdims = [ch.index(c) for c in perm] if ch else [0]
        if node != root:
            order.append(1 + na + 2 * len(own))     # rank of the node
            tdims.append(th.ndim - 1)
        got = np.tensordot(free, th, (order, tdims))
        other = [i for i in range(d) if i not in dims]
        y = np.transpose(x, other + dims + list(range(d, x.ndim)))
        if len(other) > 1:
            y = np_diag(y, list(range(len(other))))
        elif not other:
            y = np.stack([y] * n)
        close(got, y, "parameter_gradient_eval_diag without matrices",
              tol=1e-8)
        lab("free%d" % min(len(own), 2))
    below_d = X.eval_diag_below()
    above_d = X.eval_diag_above()
    ok("eval_diag_below / eval_diag_above")
    xd = evaluate(x, I)
    for k in range(1, len(a["par"]) + 1):
        if k in off:
            continue
        if k == root:
            close(arr(below_d[k - 1]), xd, "eval_diag_below at the root",
                  shape=False)
            continue
        v, w = arr(below_d[k - 1]), arr(above_d[k - 1])
        dims = m_dims(a, k)
        _, u = below(X, k)
        u = u.reshape([n] * len(dims) + [-1])
        close(v, np_diag(u, list(range(len(dims)))),
              "eval_diag_below at node %d" % k)
        got = np.einsum("ir,ir...->i...", v, w)
        close(got, xd, "sum of the products of the functions below and above "
              "node %d" % k, tol=1e-8)
    labels(a, node)
    return max(a["ranks"]) > 1

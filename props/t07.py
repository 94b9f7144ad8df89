"""T07: truncations meet the prescribed precision and ranks."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T07", "truncation of tensors: precision and ranks", effort=1.5)

TOLS = [1e-12, 1e-6, 1e-3, 0.05, 0.3, 0.7]
EPS = 1e-12


def tail(s, r, p=2):
    """Relative error in Schatten p-norm of the truncation at rank r."""
    if p == np.inf:
        return (s[r] if r < len(s) else 0.0) / s[0]
    return (np.sum(s[r:] ** p) / np.sum(s ** p)) ** (1 / p)


def best_rank(s, tol, p=2, slack=0.0):
    r = 1
    while r < len(s) and tail(s, r, p) >= tol * (1 + slack):
        r += 1
    return r


@composite
def spectral(draw, shape):
    """A matrix or tensor with a controlled decay of its singular values."""
    return {"shape": list(shape), "kind": draw(st.sampled_from(
        ["decay", "decay", "fast", "lowrank", "gauss", "int", "scaled"])),
        "s": draw(st.integers(0, 2 ** 16))}


def make(spec):
    shape, kind = tuple(spec["shape"]), spec["kind"]
    rng = np.random.RandomState(spec["s"])
    if kind == "int":
        return rng.randint(-2, 3, shape).astype(float)
    if kind == "gauss":
        return rng.randn(*shape)
    if kind == "scaled":
        return rng.randn(*shape) * 10.0 ** rng.randint(-6, 7)
    terms = {"decay": 6, "fast": 5, "lowrank": 2}[kind]
    rate = {"decay": 0.4, "fast": 0.02, "lowrank": 0.5}[kind]
    x = np.zeros(shape)
    for k in range(terms):
        t = np.array(rate ** k)
        for n in shape:
            t = np.multiply.outer(t, rng.randn(n))
        x = x + t
    return x


@composite
def g_svd(draw):
    m, n = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    return {"x": draw(spectral([m, n])), "tol": draw(st.sampled_from(TOLS)),
            "max": draw(st.sampled_from([None, None, 1, 2, 3])),
            "p": draw(st.sampled_from([2, 2, 1, 3, "inf"])),
            "th": draw(st.sampled_from([None, None, "hard", "soft"])),
            "frac": draw(st.floats(0.05, 0.95))}


def trunc(case):
    return tensap.Truncator(case["tol"]) if case.get("max") is None else \
        tensap.Truncator(case["tol"], case["max"])


@P.relation("svd", g_svd, 3000,
            rule="matrices given as arrays, full, canonical and tree-based "
                 "tensors; Schatten norms, maximal rank, thresholding; "
                 "trivial if a dimension is 1 or the matrix is zero")
def _(case):
    x = make(case["x"])
    if not np.any(x):
        return False
    s = np.linalg.svd(x, compute_uv=False)
    tol, mx = case["tol"], case["max"] or 10 ** 6
    nx = np.linalg.norm(x)
    fz = Frozen(x)

    def check(y, what, p=2, exact=True, t=trunc(case)):
        y = dense(y) if isinstance(y, tensap.TreeBasedTensor) else \
            arr(y.full())
        r = np.linalg.matrix_rank(y, tol=1e-11 * s[0])
        lo = min(best_rank(s, tol, p, 1e-6), mx)
        hi = min(best_rank(s, tol, p, -1e-6), mx)
        r0 = np.linalg.matrix_rank(x, tol=1e-11 * s[0])
        need(min(lo, r0) <= r <= hi, what + ": rank", got=r, want=(lo, hi),
             sv=s)
        err = np.linalg.norm(y - x)
        close(err, tail(s, r) * nx, what + ": error is not that of the best "
              "approximation", tol=1e-9 if exact else 1e-7, scale=nx)
        return r

    T = trunc(case)
    r = check(T.truncate(x), "truncate(array)")
    check(T.truncate(tensap.FullTensor(x)), "truncate(FullTensor)")
    check(T.svd(x), "svd(array)")
    check(T.svd(tensap.FullTensor(x)), "svd(FullTensor)")
    y = T.svd(x)
    u, v = y.space
    r1 = len(y.core.data)
    close(u.T @ u, np.eye(r1), "svd: left singular vectors", shape=False)
    close(v.T @ v, np.eye(r1), "svd: right singular vectors", shape=False)
    close(y.core.data, s[:r1], "svd: singular values", scale=s[0])
    lab("rank%d" % min(r, 4))
    # other norms
    p = np.inf if case["p"] == "inf" else case["p"]
    y = T.trunc_svd(x, power=case["p"] if p == np.inf else p)
    check(y, "trunc_svd(power)", p)
    lab("p=%s" % case["p"])
    # canonical and tree-based inputs
    rng = np.random.RandomState(case["x"]["s"])
    q = np.linalg.qr(rng.randn(x.shape[1], x.shape[1]))[0]
    c = tensap.CanonicalTensor([x @ q, q], np.ones(x.shape[1]))
    check(T.svd(c), "svd(CanonicalTensor)")
    tree = tensap.DimensionTree.trivial(2)
    t = tensap.TreeBasedTensor([np.eye(x.shape[1]), x @ q, q], tree)
    if tol >= 1e-6:
        y = T.truncate(t)
        yd = dense(y)
        err = np.linalg.norm(yd - x)
        rr = min(int(i) for i in y.ranks[1:])
        need(max(y.ranks) <= mx, "truncate(TreeBasedTensor): maximal rank")
        if rr < mx:
            need(err <= tol * nx * (1 + 1e-6), "truncate(TreeBasedTensor): "
                 "error above the tolerance", err=err / nx, tol=tol)
    # thresholding
    if case["th"]:
        th = s[0] * case["frac"]
        T = tensap.Truncator(1e-14, thresholding_type=case["th"],
                             thresholding_parameter=th)
        y = T.trunc_svd(x)
        sv = y.core.data
        if np.min(np.abs(s - th)) > 1e-9 * s[0]:
            k = int(np.sum(s > th))
            want = s[:k] - (th if case["th"] == "soft" else 0)
            close(sv, want, "thresholded singular values (%s)" % case["th"],
                  scale=s[0])
            lab(case["th"])
    fz.check("svd")
    return min(x.shape) > 1


def ranks_of(t):
    return [int(r) for r in t.ranks]


@composite
def g_hosvd(draw):
    sh = draw(shapes(3, 4, 5, 300))
    mx = draw(st.sampled_from([None, None, "int", "list"]))
    return {"x": draw(spectral(sh)), "tol": draw(st.sampled_from(TOLS)),
            "max": None if mx is None else draw(st.integers(1, 3))
            if mx == "int" else [draw(st.integers(1, 4)) for _ in sh]}


@P.relation("hosvd", g_hosvd, 1500,
            rule="full tensors of order 3 and 4; trivial if zero or all "
                 "dimensions are 1")
def _(case):
    x = make(case["x"])
    if not np.any(x):
        return False
    d, tol = x.ndim, case["tol"]
    nx = np.linalg.norm(x)
    mx = case["max"]
    mxl = [10 ** 6] * d if mx is None else [mx] * d if np.isscalar(mx) else mx
    T = tensap.Truncator(tol) if mx is None else tensap.Truncator(tol, mx)
    fz = Frozen(x)
    for k, y in enumerate((T.hosvd(tensap.FullTensor(x)), T.hosvd(x),
                           T.truncate(tensap.FullTensor(x)))):
        got = check_tbt(y, "hosvd")
        err2 = 0.0
        bind = False
        for i in range(d):
            s = sv(x, [i])
            r = int(y.ranks[y.tree.dim2ind[i] - 1])
            need(r <= mxl[i], "hosvd: rank above the maximal rank", dim=i,
                 rank=r, max_rank=mx)
            lo = min(best_rank(s, tol / np.sqrt(d), 2, 1e-6), mxl[i])
            hi = min(best_rank(s, tol / np.sqrt(d), 2, -1e-6), mxl[i])
            need(lo <= r <= max(hi, 1) or (tol < 1e-10 and r <= len(s)),
                 "hosvd: rank in dimension %d" % i, got=r, want=(lo, hi),
                 sv=s)
            if k == 0 or mx is None:
                err2 += tail(s, r) ** 2
            bind = bind or lo >= mxl[i]
        err = np.linalg.norm(got - x)
        need(err <= np.sqrt(err2) * nx * (1 + 1e-6) + 1e-9 * nx or k > 0,
             "hosvd: error above the quasi-optimality bound", err=err / nx,
             bound=np.sqrt(err2))
        if not bind:
            need(err <= tol * nx * (1 + 1e-6) + EPS * nx,
                 "hosvd: error above the tolerance", err=err / nx, tol=tol)
        close(y.norm(), np.linalg.norm(got), "hosvd: norm of the result",
              scale=nx)
    same(np.atleast_1d(T.max_rank) if mx is not None else [0],
         np.atleast_1d(mx) if mx is not None else [0],
         "hosvd: the truncator was modified")
    fz.check("hosvd")
    lab("max_%s" % type(mx).__name__)
    return x.size > max(x.shape)


@composite
def g_hsvd(draw):
    d = draw(st.integers(2, 5))
    tree = draw(trees(d, d, relabel=True))
    sh = draw(shapes(d, d, 4, 400))
    rr = draw(st.sampled_from([1, 1, 1, 2, 3]))
    n = len(tree["par"])
    mx = draw(st.sampled_from([None, None, "int", "list"]))
    off = draw(st.sampled_from([False, False, True]))
    return {"tree": tree, "x": draw(spectral(sh + ([rr] if rr > 1 else []))),
            "off": sorted(draw(subset(d))) if off else [],
            "tol": draw(st.sampled_from(TOLS)),
            "max": None if mx is None else draw(st.integers(1, 3))
            if mx == "int" else [draw(st.integers(1, 4)) for _ in range(n)]}


def check_hsvd(x, y, tree, off, tol, mx, what, gram=False):
    """The bounds on the error and ranks of a truncation of x."""
    d = len(tree["d2i"])
    n = len(tree["par"])
    root = m_root(tree)
    nx = np.linalg.norm(x)
    mxl = [10 ** 6] * n if mx is None else [mx] * n if np.isscalar(mx) else mx
    got = check_tbt(y, what)
    same(np.asarray(y.tree.adjacency_matrix),
         np.asarray(build_tree(tree).adjacency_matrix), what + ": tree")
    act = [i + 1 for i in range(n) if not (
        i + 1 in tree["d2i"] and tree["d2i"].index(i + 1) in off)]
    same(np.asarray(y.is_active_node), [i + 1 in act for i in range(n)],
         what + ": active nodes")
    err2, bind = 0.0, False
    for node in act:
        if node == root:
            continue
        s = sv(x, m_dims(tree, node))
        r = int(y.ranks[node - 1])
        need(r <= mxl[node - 1], what + ": rank above the maximal rank",
             node=node, ranks=y.ranks, max_rank=mx)
        bind = bind or r == mxl[node - 1]
        if r > len(s) and gram:
            pass
        elif tol >= 1e-6:
            rk = int(np.sum(s > 1e-9 * s[0]))
            need(r <= max(rk, 1), what + ": rank above the rank of the "
                 "tensor", node=node, got=r, want=rk)
        err2 += tail(s, min(r, len(s))) ** 2
    err = np.linalg.norm(got - x)
    floor = (1e-7 if gram else 1e-11) * nx
    need(err <= np.sqrt(err2) * nx * (1 + 1e-6) + floor,
         what + ": error above the quasi-optimality bound", err=err / nx,
         bound=np.sqrt(err2), ranks=y.ranks)
    if not bind:
        need(err <= tol * nx * (1 + 1e-6) + floor, what + ": error above the "
             "tolerance", err=err / nx, tol=tol, ranks=y.ranks)
        # the ranks are not larger than needed by the local tolerance
        loc = tol / np.sqrt(len(act) - 1) * np.sqrt(1 - tol ** 2)
        for node in act if tol >= 1e-6 else []:
            if node != root:
                s = sv(x, m_dims(tree, node))
                hi = best_rank(s, loc, 2, -1e-6)
                need(y.ranks[node - 1] <= hi, what + ": rank larger than "
                     "needed", node=node, ranks=y.ranks, want=hi, sv=s)
    close(y.norm(), np.linalg.norm(got), what + ": norm of the result",
          tol=1e-8, scale=nx)
    lab("bound" if bind else "free", "off%d" % len(off),
        "tol%g" % tol, "order%d" % d)
    return err


@P.relation("hsvd_full", g_hsvd, 1500,
            rule="full tensors, any tree, activity and root rank; trivial if "
                 "zero")
def _(case):
    x = make(case["x"])
    tree, off, mx, tol = (case[k] for k in ("tree", "off", "max", "tol"))
    if not np.any(x):
        return False
    n = len(tree["par"])
    act = np.ones(n, dtype=bool)
    for i in off:
        act[tree["d2i"][i] - 1] = False
    if not act.sum() > 1:
        raise Discard
    T = tensap.Truncator(tol) if mx is None else tensap.Truncator(
        tol, mx if np.isscalar(mx) else np.array(mx))
    fz = Frozen(x, act)
    X = tensap.FullTensor(x)
    for k in range(2 if not np.isscalar(mx) else 1):  # the truncator is reused
        y = T.hsvd(X, build_tree(tree), act)
        check_hsvd(x, y, tree, off, tol, mx, "hsvd(FullTensor) call %d" % k)
        if mx is not None:
            same(np.atleast_1d(T.max_rank), np.atleast_1d(mx),
                 "hsvd: the truncator was modified")
    fz.check("hsvd")
    return x.size > 1


@composite
def g_hsvd_tbt(draw):
    a = draw(tbts(min_order=2, max_order=5, max_size=300, max_rank=3,
                  kinds=("gauss", "int")))
    n = len(a["par"])
    mx = draw(st.sampled_from([None, None, "int", "list"]))
    return {"a": a, "s": draw(st.integers(0, 2 ** 16)),
            "eps": draw(st.sampled_from([0.0, 1e-9, 1e-2, 0.5])),
            "type": draw(st.sampled_from([1, 2, 2])),
            "tol": draw(st.sampled_from([1e-12, 1e-6, 1e-3, 0.05, 0.3])),
            "max": None if mx is None else draw(st.integers(1, 3))
            if mx == "int" else [draw(st.integers(1, 4)) for _ in range(n)]}


@P.relation("hsvd_tree_based", g_hsvd_tbt, 1500,
            rule="tree-based tensors (sum of a tensor, itself and a "
                 "perturbation), both variants; trivial if zero")
def _(case):
    a, mx, tol = case["a"], case["max"], case["tol"]
    X, _ = build_tbt(a)
    b = dict(a)
    b["s"] = case["s"]
    Y, _ = build_tbt(b)
    X = X + X + Y * case["eps"]
    x = dense(X)
    act = int(np.sum(X.is_active_node))
    if not np.any(x):
        return False
    if act < 2:
        raise Discard
    T = tensap.Truncator(tol) if mx is None else tensap.Truncator(
        tol, mx if np.isscalar(mx) else np.array(mx))
    T._hsvd_type = case["type"]
    ok = frozen_tbt(X)
    tree = {"par": a["par"], "d2i": a["d2i"]}
    for k in range(2):                                # the truncator is reused
        y = T.hsvd(X) if k == 0 else T.truncate(X)
        check_hsvd(x, y, tree, a["off"], tol, mx,
                   "hsvd(TreeBasedTensor) call %d" % k, gram=True)
    if mx is not None:
        same(np.atleast_1d(T.max_rank), np.atleast_1d(mx),
             "hsvd: the truncator was modified")
    ok("hsvd")
    lab("type%d" % case["type"], "eps%g" % case["eps"])
    return True


@composite
def g_tt(draw):
    sh = draw(shapes(2, 5, 4, 400))
    return {"x": draw(spectral(sh)), "tol": draw(st.sampled_from(TOLS)),
            "max": draw(st.sampled_from([None, None, 1, 2, 3]))}


@P.relation("ttsvd", g_tt, 800,
            rule="full tensors of order 2 to 5; trivial if zero")
def _(case):
    x = make(case["x"])
    if not np.any(x):
        return False
    d = x.ndim
    T = trunc(case)
    y = T.ttsvd(tensap.FullTensor(x))
    L = tensap.DimensionTree.linear(d)
    par = (np.arange(1, L.nb_nodes + 1) @ np.asarray(L.adjacency_matrix))
    tree = {"par": par.astype(int).tolist(),
            "d2i": [int(i) for i in L.dim2ind]}
    check_hsvd(x, y, tree, list(range(1, d)), case["tol"], case["max"],
               "ttsvd")
    # the dimensions of the nodes are the first ones
    for n in range(1, len(par) + 1):
        dims = sorted(int(i) for i in y.tree.dims[n - 1])
        need(len(dims) == 1 or dims == list(range(len(dims))),
             "ttsvd: tree", dims=dims)
    return True

"""T25: principal component analysis of tensors and functions."""
import numpy as np
import tensap
from props.tbt import *
from props.t24 import cut

P = Prop("T25", "principal component analysis", effort=4)


class Entries:
    """Entries of an array, recording the indices at which it is evaluated."""

    def __init__(self, x, column=False):
        self.x, self.column, self.calls = x, column, []

    def __call__(self, i):
        i = np.asarray(i)
        need(i.ndim == 2 and i.shape[1] == self.x.ndim, "multi-indices",
             shape=i.shape)
        need(np.all(i == np.round(i)) and np.all(i >= 0)
             and np.all(i < self.x.shape), "indices in the range of the shape",
             got=i)
        i = i.astype(int)
        self.calls.append(i)
        y = self.x[tuple(i.T)]
        return y[:, None] if self.column else y

    @property
    def total(self):
        return sum(len(i) for i in self.calls)


@composite
def problems(draw, max_order=4, kinds=("gauss", "gauss", "int"), inactive=True):
    c = draw(tbts(min_order=2, max_order=max_order, max_dim=5, max_rank=3,
                  root_rank=1, max_size=400, kinds=kinds, inactive=inactive))
    c["ranks"] = cut(c)
    c.update({
        "factor": draw(st.sampled_from([1, 2, 3, 1.5])),
        "full": draw(st.sampled_from([0, 1, 2, 2])),
        "prescribed": draw(st.booleans()),
        "form": draw(st.sampled_from(["scalar", "one", "array"])),
        "tol": draw(st.sampled_from([1e-10, 1e-3, .1, .3, .7])),
        "column": draw(st.booleans()),
        "adaptive": draw(st.integers(0, 3)) == 0,
        "seed": draw(st.integers(0, 10 ** 6))})
    # zero columns stop the adaptive sampling
    c["adaptive"] = c["adaptive"] and c["k"] == "gauss"
    return c


def solver(c, cls=tensap.TensorPrincipalComponentAnalysis):
    s = cls()
    s.display = False
    if c["full"] or c["factor"] != 1:
        s.pca_sampling_factor = 40 if c["full"] else c["factor"]
    else:
        need(s.pca_sampling_factor == 1, "default sampling factor")
    s.pca_adaptive_sampling = c["adaptive"]
    return s


def seed(c):
    np.random.seed(c["seed"] % 100000)


def array_of(c):
    """Random array: exact ranks or general."""
    if c["full"] == 2:
        return build_tbt(c)[1]
    return np.asarray(build({"shape": list(c["shape"]), "k": c["k"],
                             "s": c["s"]}), float)


def put(form, v, n):
    if form == "scalar":
        return v
    if form == "one":
        return [v] if n % 2 else np.array([v])
    return np.full(n, v) if n % 2 else [v] * n


def state(s):
    return {k: np.array(v, dtype=object) if not np.isscalar(v) else v
            for k, v in vars(s).items()}


def unchanged(s, before):
    for k, v in state(s).items():
        need(np.array_equal(v, before[k]), "option %s unchanged" % k)


def orthonormal(V, what):
    close(V.T @ V, np.eye(V.shape[1]), what + ": orthonormal components",
          tol=1e-8)


def check_components(A, pc, sv, tol, what):
    """pc are the principal components of A for a tolerance or a number."""
    U, s, _ = np.linalg.svd(A, full_matrices=False)
    r = pc.shape[1]
    orthonormal(pc, what)
    sc = s[0] + 1e-300
    close(np.diag(np.atleast_2d(sv)), s[:r], what + ": singular values",
          tol=1e-7, scale=sc)
    err = np.linalg.norm(A - pc @ (pc.T @ A))
    best = np.linalg.norm(s[r:])
    need(err <= best + 1e-6 * sc, what + ": best subspace", err=err,
         best=best)
    if tol < 1:
        nrm = np.linalg.norm(s)
        need(err <= tol * nrm + 1e-8 * nrm, what + ": prescribed precision",
             err=err / nrm, tol=tol)
        if r > 1:
            e = np.linalg.norm(s[r - 1:])
            need(e >= tol * nrm * (1 - 1e-8) - 1e-13 * nrm,
                 what + ": smallest number of components",
                 err=e / nrm, tol=tol)
    else:
        k = np.sum(s > 1e-12 * s[0])
        need(min(tol, k) <= r <= min([tol] + list(A.shape)),
             what + ": number of components", got=r, tol=tol,
             rank=k)


# ------------------------------------------------------- principal components
@composite
def groups(draw):
    c = draw(problems(inactive=False))
    d = len(c["shape"])
    c["alpha"] = draw(st.lists(st.integers(0, d - 1), min_size=1,
                               max_size=d - 1, unique=True))
    c["number"] = draw(st.integers(1, 6))
    c["basis"] = draw(st.booleans())
    c["subset"] = draw(st.booleans())
    return c


@P.relation("alpha", groups(), 1500, rule="at least two components")
def alpha(c):
    x = array_of(c)
    d = x.ndim
    f = Entries(x, c["column"])
    s = solver(dict(c, full=0))
    rng = rng_of(c)
    al = c["alpha"]
    n = [x.shape[i] for i in al]
    I = np.array(list(np.ndindex(*n)), dtype=int)
    I = I[rng.permutation(len(I))]
    if c["subset"]:
        I = I[:max(1, len(I) // 2)]
    N = len(I)
    B = np.eye(N)
    if c["basis"]:
        B = np.linalg.qr(rng.standard_normal((N, N)))[0] @ np.diag(
            1 + rng.rand(N))
    tol = int(c["number"]) if c["prescribed"] else c["tol"]
    frozen = Frozen(I, B)
    before = state(s)
    seed(c)
    arg = al[0] if len(al) == 1 and c["seed"] % 2 else \
        (np.array(al) if c["seed"] % 3 else list(al))
    pc, o = s.alpha_principal_components(f, list(x.shape), arg, tol, B, I)
    frozen.check("alpha_principal_components")
    unchanged(s, before)
    need(o["number_of_evaluations"] == f.total, "number of evaluations",
         got=o["number_of_evaluations"], want=f.total)
    S = np.asarray(o["samples"]).astype(int)
    same(S, np.concatenate(f.calls), "samples")
    adaptive = tol < 1 and c["adaptive"]
    other = [i for i in range(d) if i not in al]
    # columns: the sampled complementary indices
    cols, A = [], []
    for calls in f.calls:
        if adaptive:
            need(len(calls) == N, "one column at a time")
        need(len(calls) % N == 0, "whole columns")
        J = calls[:, other].reshape(-1, N, len(other))
        K = calls[:, al].reshape(-1, N, len(al))
        if not adaptive:
            J = calls[:, other]
            u = [tuple(v) for v in J]
            K = calls[:, al]
            # columns in any order of enumeration
            J = np.array(u).reshape(N, -1, len(other), order="F")
            K = K.reshape(N, -1, len(al), order="F")
            J, K = np.moveaxis(J, 1, 0), np.moveaxis(K, 1, 0)
        for j, k in zip(J, K):
            need(np.all(j == j[0]), "one complementary index per column")
            same(k, I, "indices of the rows")
            cols.append(j[0])
            A.append(x[tuple(calls_of(d, al, other, k, j).T)])
    A = np.linalg.solve(B, np.array(A).T)
    k = A.shape[1]
    lab("adaptive" if adaptive else "", "prescribed" if tol >= 1 else
        "tolerance")
    want = int(np.ceil(s.pca_sampling_factor * (N if tol < 1 else tol)))
    need(k == want or adaptive and k <= want, "number of samples", got=k,
         want=want)
    if np.linalg.norm(A) < 1e-12:
        raise Discard
    check_components(A, np.asarray(pc), o["singular_values"], tol,
                     "components")
    if adaptive and k > 1:
        # the sampling went on after k - 1 columns
        sv = np.linalg.svd(A[:, :-1], compute_uv=False)
        tail = np.sqrt(np.cumsum(sv[::-1] ** 2))[::-1]
        r = 1 + np.sum(tail[1:] > tol * (1 + 1e-6) * tail[0])
        same_ = r == 1 + np.sum(tail[1:] > tol * (1 - 1e-6) * tail[0])
        need(not same_ or tail[0] == 0
             or r >= np.ceil((k - 1) / s.pca_sampling_factor),
             "adaptive sampling goes on although the components are fewer "
             "than the samples allow", components=r, samples=k - 1)
    if adaptive and k < want:
        sv = np.linalg.svd(A, compute_uv=False)
        need(pc.shape[1] < np.ceil(k / s.pca_sampling_factor)
             or sv[-1] < 1e-12, "adaptive sampling stops when components are "
             "fewer than the samples allow", got=pc.shape, samples=k)
    if pc.shape[1] < 2:
        return False


def calls_of(d, al, other, k, j):
    out = np.zeros((len(k), d), dtype=int)
    out[:, al] = k
    out[:, other] = j
    return out


# -------------------------------------------------------------------- approximation
def true_rank(x, dims):
    m = np.moveaxis(x, dims, range(len(dims))).reshape(
        prod([x.shape[i] for i in dims]), -1)
    s = np.linalg.svd(m, compute_uv=False)
    if s[0] == 0:
        raise Discard
    k = int(np.sum(s > 1e-9 * s[0]))
    if s[k - 1] < 1e-4 * s[0]:
        raise Discard
    return k


def settings(c, s, n, ranks, d):
    """Sets tolerances or ranks for n nodes (or dimensions)."""
    if c["prescribed"]:
        s.tol = np.inf
        if c["form"] == "array":
            s.max_rank = np.array(ranks) if c["seed"] % 2 else list(ranks)
        else:
            s.max_rank = put(c["form"], int(max(ranks)), n)
    else:
        s.max_rank = np.inf
        s.tol = put(c["form"], c["tol"], n)
        if c["form"] == "array" and n > 1 and c["tol"] > 1e-10:
            # different tolerances
            t = [[.7, .2, 1e-2, .4][(c["seed"] + 3 * i) % 4]
                 for i in range(n)]
            s.tol = np.array(t) if isinstance(s.tol, np.ndarray) else t


@P.relation("hopca", problems(inactive=False), 500,
            rule="at least two components in a direction")
def hopca(c):
    x = array_of(c)
    f = Entries(x, c["column"])
    s = solver(c)
    d = x.ndim
    tr = [true_rank(x, [i]) for i in range(d)]
    ranks = [max(1, min(r, 1 + (c["seed"] >> i) % 3))
             for i, r in enumerate(tr)]
    settings(c, s, d, ranks, d)
    before = state(s)
    seed(c)
    pc, o = s.hopca(f, list(x.shape))
    unchanged(s, before)
    need(len(pc) == d and len(o) == d, "one set of components per dimension")
    need(sum(i["number_of_evaluations"] for i in o) == f.total,
         "number of evaluations")
    got = []
    for i, v in enumerate(pc):
        v = np.asarray(v)
        got.append(v.shape[1])
        orthonormal(v, "dimension %d" % i)
        need(v.shape[0] == x.shape[i], "length of the components")
        m = np.moveaxis(x, i, 0).reshape(x.shape[i], -1)
        if c["full"] and c["form"] != "array" and (
                c["prescribed"] and max(ranks) >= tr[i]
                or not c["prescribed"] and c["tol"] == 1e-10):
            lab("exact")
            need(got[-1] == tr[i] or c["prescribed"] and got[-1] >= tr[i],
                 "rank", got=got[-1], want=tr[i])
            close(v @ (v.T @ m), m, "range of the matricisation", tol=1e-7,
                  scale=np.max(np.abs(m)))
        if c["prescribed"]:
            k = ranks[i] if c["form"] == "array" else max(ranks)
            need(got[-1] <= k, "prescribed rank", got=got, want=k)
        A = columns(x, o[i]["samples"], [i])[0]
        t = k if c["prescribed"] else np.broadcast_to(s.tol, d)[i]
        if np.linalg.norm(A) > 1e-12:
            check_components(A, v, o[i]["singular_values"], t, "dimension %d"
                             % i)
    if max(got) < 2:
        return False


def check_tree(c, x, X, o, f, exact, limit):
    X_ = check_tbt(X, "approximation")
    need(X_.shape == x.shape, "shape")
    need(o["number_of_evaluations"] == f.total, "number of evaluations",
         got=o["number_of_evaluations"], want=f.total)
    for i, r in enumerate(X.ranks):
        if limit[i] is not None:
            need(r <= limit[i], "prescribed rank", node=i + 1, got=r,
                 want=limit[i])
    sc = np.max(np.abs(x))
    # interpolation on the last set of points
    last = f.calls[-1]
    if np.max(np.abs(X_)) < 1e6 * sc:
        close(X_[tuple(last.T)], x[tuple(last.T)], "interpolated entries",
              tol=1e-6, scale=sc)
    S = o["samples"]
    root = X.tree.root
    need(np.array_equal(np.asarray(S[root - 1]).astype(int), last),
         "samples of the root")
    if exact:
        lab("exact")
        close(X_, x, "exact recovery", tol=1e-6, scale=sc)
    return X_


def values_below(par, d2i, data, n, rows):
    """Values of the basis functions of a node at multi-indices."""
    a = data[n - 1]
    if not m_children(par, n):
        i = rows[:, d2i.index(n)]
        if np.size(a) == 0:
            return np.eye(int(i.max()) + 1)[i]
        return np.asarray(a)[i]
    a = np.asarray(a)
    y = np.broadcast_to(a, (len(rows),) + a.shape)
    for ch in m_children(par, n):
        v = values_below(par, d2i, data, ch, rows)
        y = np.einsum("na,na...->n...", pad(v, y.shape[1]), y)
    return y


def pad(v, n):
    return np.pad(v, ((0, 0), (0, n - v.shape[1])))


def columns(x, S, al):
    """The sampled fibers and the indices of their rows, sorted."""
    other = [i for i in range(x.ndim) if i not in al]
    s = np.asarray(S).astype(int)
    s = s[np.lexsort(s[:, al[::-1] + other[::-1]].T)]
    cut_ = np.flatnonzero(np.any(np.diff(s[:, other], axis=0), axis=1)) + 1
    A, I = [], None
    for b in np.split(s, cut_):
        u, m = np.unique(b[:, al], axis=0, return_counts=True)
        need(np.all(m == m[0]) and (I is None or np.array_equal(u, I)),
             "samples: whole columns", dimensions=al)
        I = u
        A.append(x[tuple(b.T)].reshape(len(u), m[0]))
    return np.hstack(A), I


def check_nodes(x, X, S, tols):
    """The components of each node, from the entries returned as samples."""
    par, d2i, data = parts_of(X)
    root = par.index(0) + 1
    done = 0
    for n in range(1, len(par) + 1):
        if n == root or np.size(data[n - 1]) == 0:
            continue
        al = dims_below(par, d2i, n)
        A, I = columns(x, S[n - 1], al)
        rows = np.zeros((len(I), x.ndim), int)
        rows[:, al] = I
        a = np.asarray(data[n - 1])
        if m_children(par, n):
            B = np.ones((len(I), 1))
            for ch in m_children(par, n):
                v = values_below(par, d2i, data, ch, rows)
                v = pad(v, a.shape[m_children(par, n).index(ch)])
                B = (v[:, :, None] * B[:, None, :]).reshape(len(I), -1)
            need(B.shape[0] == B.shape[1], "as many rows as basis functions",
                 node=n, shape=B.shape)
            if np.linalg.cond(B) > 1e5:
                continue
            A = np.linalg.solve(B, A)
        pc = a.reshape(-1, a.shape[-1], order="F")
        if np.linalg.norm(A) < 1e-12:
            continue
        u, sv, _ = np.linalg.svd(A, full_matrices=False)
        t = tols[n - 1]
        if t < 1:
            tail = np.sqrt(np.cumsum(sv[::-1] ** 2))[::-1]
            if np.any(np.abs(tail / tail[0] / t - 1) < 1e-6) or t < 1e-8:
                continue
        check_components(A, pc, sv[:pc.shape[1]] * np.eye(pc.shape[1]),
                         t, "node %d" % n)
        done += 1
    if done:
        lab("components of nodes")


def dims_below(par, d2i, n):
    ch = m_children(par, n)
    if not ch:
        return [d2i.index(n)]
    return sorted(sum((dims_below(par, d2i, i) for i in ch), []))


def tolerances(s, n, edges, c):
    """The tolerance (or number of components) of each node."""
    if c["prescribed"]:
        return [int(i) for i in np.broadcast_to(s.max_rank, n)]
    if np.size(s.tol) == 1:
        return [np.ravel(s.tol)[0] / np.sqrt(max(edges, 1))] * n
    return list(s.tol)


def node_ranks(c, x):
    """True ranks of the active nodes."""
    out = []
    root = m_root(c)
    for n in range(1, len(c["par"]) + 1):
        if n == root or (n in c["d2i"] and c["d2i"].index(n) in c["off"]):
            out.append(1 if n == root else 0)
        else:
            out.append(true_rank(x, m_dims(c, n)))
    return out


@P.relation("tree", problems(), 700, rule="a rank is at least two")
def tree(c):
    c = dict(c, full=2 if c["seed"] % 4 else c["full"])
    x = array_of(c)
    f = Entries(x, c["column"])
    s = solver(c)
    if c["adaptive"]:
        s.pca_sampling_factor = min(s.pca_sampling_factor, 4)
    d, n = x.ndim, len(c["par"])
    t = build_tree(c)
    off = [c["d2i"][i] for i in c["off"]]
    act = np.array([i not in off for i in range(1, n + 1)])
    tr = node_ranks(c, x)
    ranks = [max(1, r - (c["seed"] >> i) % 2) for i, r in enumerate(tr)]
    if c["seed"] % 3:
        ranks = [max(1, r) for r in tr]
    settings(c, s, n, ranks, d)
    before = state(s)
    limit = [None] * n
    if c["prescribed"]:
        limit = list(ranks) if c["form"] == "array" else [max(ranks)] * n
    exact = c["full"] == 2 and s.pca_sampling_factor == 40 and (
        not c["prescribed"] and c["tol"] == 1e-10
        or c["prescribed"] and all(
            a >= b for a, b in zip(limit, tr)))
    seed(c)
    how = "all active" if not c["off"] and c["seed"] % 5 == 0 else ""
    lab(how, "adaptive" if c["adaptive"] else "",
        "%d inactive leaves" % len(c["off"]),
        "prescribed ranks" if c["prescribed"] else "tolerance")
    if len(off) == d and d == n - 1:
        # only the root is active: the whole array is sampled
        exact = True
    X, o = s.tree_based_approximation(
        f, list(x.shape), t, *([] if how else [act]))
    unchanged(s, before)
    same(np.asarray(X.is_active_node), act, "active nodes")
    X_ = check_tree(c, x, X, o, f, exact, limit)
    check_nodes(x, X, o["samples"], tolerances(s, n, np.sum(act) - 1, c))
    if exact and len(off) < n - 1 and not c["prescribed"]:
        need([int(i) for i in X.ranks] == [
            1 if i + 1 == m_root(c) else r for i, r in enumerate(tr)],
            "exact ranks", got=X.ranks, want=tr)
    if max(X.ranks) < 2:
        return False


@P.relation("formats", problems(inactive=False), 600,
            rule="a rank is at least two")
def formats(c):
    """Tucker and tensor train formats."""
    x = array_of(dict(c, full=c["full"] if c["full"] < 2 else 2))
    f = Entries(x, c["column"])
    s = solver(c)
    d = x.ndim
    tt = c["seed"] % 2 == 0 and d > 1
    if tt:
        sets = [list(range(i + 1)) for i in range(d - 1)]
    else:
        sets = [[i] for i in range(d)]
    tr = [true_rank(x, i) for i in sets]
    ranks = [max(1, r - (c["seed"] >> (i + 3)) % 2)
             for i, r in enumerate(tr)]
    if c["seed"] % 3:
        ranks = list(tr)
    settings(c, s, len(sets), ranks, d)
    before = state(s)
    seed(c)
    lab("tt" if tt else "tucker", c["form"],
        "prescribed ranks" if c["prescribed"] else "tolerance")
    X, o = (s.tt_approximation if tt else s.tucker_approximation)(
        f, list(x.shape))
    unchanged(s, before)
    want = tensap.DimensionTree.linear(d) if tt else \
        tensap.DimensionTree.trivial(d)
    same(np.asarray(X.tree.adjacency_matrix),
         np.asarray(want.adjacency_matrix), "tree")
    same(np.asarray(X.tree.dim2ind), np.asarray(want.dim2ind), "tree")
    act = np.asarray(X.is_active_node)
    if tt:
        off = [int(i) for i in X.tree.dim2ind[1:]]
        need(all(act[i] == (i + 1 not in off) for i in range(len(act))),
             "tensor train: one active leaf", got=act)
    else:
        need(np.all(act), "all the nodes are active")
    # rank of the node of each set of dimensions
    node = {tuple(sorted(int(j) for j in v)): i
            for i, v in enumerate(X.tree.dims)}
    lim = [None] * len(act)
    up = ranks if c["form"] == "array" else [max(ranks)] * len(ranks)
    if c["prescribed"]:
        for q, r in zip(sets, up):
            lim[node[tuple(q)]] = r
    exact = c["full"] and (
        not c["prescribed"] and c["tol"] == 1e-10
        or c["prescribed"] and all(a >= b for a, b in zip(up, tr)))
    check_tree(c, x, X, o, f, exact, lim)
    t = tolerances(s, len(sets), np.sum(act) - 1, c)
    tols = [None] * len(act)
    for q, v in zip(sets, t):
        tols[node[tuple(q)]] = v
    check_nodes(x, X, o["samples"], tols)
    got = [int(X.ranks[node[tuple(q)]]) for q in sets]
    if exact:
        need(got == tr if not c["prescribed"] else
             all(a >= b for a, b in zip(got, tr)),
             "exact ranks", got=got, want=tr)
    if max(got) < 2:
        return False


# --------------------------------------------------------------------- functions
def legendre(n, x):
    return np.stack([np.polynomial.legendre.Legendre.basis(i)(x)
                     * np.sqrt(2 * i + 1) for i in range(n)], 1)


@P.relation("functions", problems(max_order=3), 400,
            rule="a rank is at least two")
def functions(c):
    c = dict(c, full=2, adaptive=False)
    x = array_of(c)
    d, n = x.ndim, len(c["par"])
    rng = rng_of(c)
    mu = tensap.UniformRandomVariable(-1, 1)
    bases = [tensap.PolynomialFunctionalBasis(mu.orthonormal_polynomials(),
                                              range(k)) for k in x.shape]
    count = [0]

    def f(z):
        z = np.asarray(z)
        need(z.ndim == 2 and z.shape[1] == d and np.all(np.abs(z) <= 1),
             "points in the domain")
        count[0] += len(z)
        y = np.ones((len(z), 1))
        for i, k in enumerate(x.shape):
            y = (y[:, :, None] * legendre(k, z[:, i])[:, None, :]).reshape(
                len(z), -1)
        return (y @ x.ravel())[:, None] if c["column"] else y @ x.ravel()

    s = solver(c, tensap.FunctionalTensorPrincipalComponentAnalysis)
    s.bases = bases if c["seed"] % 2 else tensap.FunctionalBases(bases)
    if c["seed"] % 3 == 0:
        s.grid = [np.linspace(-1, 1, 4 * k + 1)[:, None] for k in x.shape]
    tr = node_ranks(c, x)
    how = ["tree", "tucker", "tt", "hopca"][c["seed"] % 4]
    if how == "tt" and d < 2:
        how = "tucker"
    if c["prescribed"]:
        s.tol, s.max_rank = np.inf, int(np.sqrt(x.size)) + 1
    else:
        s.tol, s.max_rank = 1e-11, np.inf
    lab(how, "grid" if s.grid is not None else "")
    z = rng.uniform(-1, 1, (20, d))
    seed(c)
    if how == "hopca":
        pc, o = s.hopca(f)
        k = 0
        for i, b in enumerate(pc):
            m = np.moveaxis(x, i, 0).reshape(x.shape[i], -1)
            e = np.asarray(b.eval(z[:, i]))
            L = legendre(x.shape[i], z[:, i])
            r = true_rank(x, [i])
            need(e.shape == (20, r) or c["prescribed"] and e.shape[1] >= r,
                 "number of components", got=e.shape, want=r)
            k = max(k, r)
            # the partial functions are in the span of the components
            q = np.linalg.lstsq(e, L @ m, rcond=None)[0]
            close(e @ q, L @ m, "span of the components", tol=1e-6,
                  scale=np.max(np.abs(L @ m)))
        need(sum(i["number_of_evaluations"] for i in o) == count[0],
             "number of evaluations")
        if k < 2:
            return False
        return
    if how == "tree":
        off = [c["d2i"][i] for i in c["off"]]
        act = np.array([i not in off for i in range(1, n + 1)])
        g, o = s.tree_based_approximation(f, build_tree(c), act)
    elif how == "tucker":
        g, o = s.tucker_approximation(f)
    else:
        g, o = s.tt_approximation(f)
    need(o["number_of_evaluations"] == count[0], "number of evaluations")
    want = f(z)
    close(np.ravel(g.eval(z)), np.ravel(want), "values", tol=1e-6,
          scale=np.max(np.abs(x)) * 10)
    close(check_tbt(g.tensor, "coefficients"), x, "coefficients", tol=1e-6,
          scale=np.max(np.abs(x)))
    if how == "tree" and not c["prescribed"]:
        need([int(i) for i in g.tensor.ranks] == tr, "ranks",
             got=g.tensor.ranks, want=tr)
    if max(g.tensor.ranks) < 2:
        return False


@P.relation("options_of_functions", problems(max_order=3), 500,
            rule="a rank is at least two")
def options_of_functions(c):
    """The options are those of the analysis of the values on the grid."""
    few = min(min(prod([c["shape"][i] for i in g]),
                  prod([k for i, k in enumerate(c["shape"]) if i not in g]))
              for g in [m_dims(c, i + 1) for i in range(len(c["par"]))
                        if c["par"][i]])
    # no equal or null singular values
    c = dict(c, k="gauss", full=min(c["full"], 1))
    if c["prescribed"]:
        c.update(full=1, adaptive=False)
    x = array_of(c)
    d, n = x.ndim, len(c["par"])
    mu = tensap.UniformRandomVariable(-1, 1)
    bases = [tensap.PolynomialFunctionalBasis(mu.orthonormal_polynomials(),
                                              range(k)) for k in x.shape]

    def f(z):
        y = np.ones((len(z), 1))
        for i, k in enumerate(x.shape):
            y = (y[:, :, None] * legendre(k, z[:, i])[:, None, :]).reshape(
                len(z), -1)
        return (y @ x.ravel())[:, None] if c["column"] else y @ x.ravel()

    how = ["tree", "tucker", "tt", "hopca"][c["seed"] % 4]
    s = solver(c, tensap.FunctionalTensorPrincipalComponentAnalysis)
    t = solver(c)
    s.bases = bases
    if c["seed"] % 3 == 0:
        s.grid = [np.linspace(-1, 1, 4 * k + 1)[:, None] for k in x.shape]
    T = build_tree(c)
    m = {"tree": n, "tt": d - 1}.get(how, d)
    r = np.random.RandomState(c["seed"])
    for q in (s, t):
        if c["prescribed"]:
            q.tol = np.inf
            q.max_rank = put(c["form"], min(few, 1 + c["seed"] % 3), m)
        else:
            q.tol, q.max_rank = put(c["form"], c["tol"], m), np.inf
    # the choice of the points may be random
    seed(c)
    pts = tensap.FunctionalBases(bases).interpolation_points(
        *([] if s.grid is None else [s.grid]))
    pts = [np.reshape(p, -1) for p in pts]
    grid = np.stack([g.ravel() for g in np.meshgrid(*pts, indexing="ij")], 1)
    G = np.ravel(f(grid)).reshape(x.shape)
    e = Entries(G, c["column"])
    act = np.array([i + 1 not in [c["d2i"][j] for j in c["off"]]
                    for i in range(n)])

    def run(q, *a):
        if how == "tree":
            return q.tree_based_approximation(*a, T, act)
        return getattr(q, how if how == "hopca" else
                       how + "_approximation")(*a)

    try:
        X, o = run(t, e, list(x.shape))
    except np.linalg.LinAlgError:
        raise Discard
    seed(c)
    g, p = run(s, f)
    lab(how)
    if how == "hopca":
        for i in range(d):
            a, b = np.asarray(g[i].eval(pts[i])), np.asarray(X[i])
            need(a.shape == b.shape, "number of components", got=a.shape,
                 want=b.shape)
            close(np.abs(np.sum(a * b, 0)), np.ones(b.shape[1]),
                  "components", tol=1e-5)
        need([i["number_of_evaluations"] for i in p]
             == [i["number_of_evaluations"] for i in o],
             "number of evaluations")
        if max(i.shape[1] for i in X) < 2:
            return False
        return
    X_ = check_tbt(X, "values on the grid")
    need(p["number_of_evaluations"] == o["number_of_evaluations"],
         "number of evaluations", got=p["number_of_evaluations"],
         want=o["number_of_evaluations"])
    same(g.tensor.ranks, X.ranks, "ranks")
    sc = np.max(np.abs(X_))
    if sc < 1e4 * np.max(np.abs(G)):
        close(np.ravel(g.eval(grid)), X_.ravel(), "values on the grid",
              tol=1e-6, scale=sc)
    if max(g.tensor.ranks) < 2:
        return False

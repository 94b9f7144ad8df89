"""T28: histories of computations with tensors of all the formats."""
import numpy as np
import tensap
from props.tbt import *
from props.tbt import close as _close

P = Prop("T28", "histories of computations with tensors of all the formats",
         effort=3)
MAX = 400          # number of entries of a tensor
FORMATS = ("full", "diagonal", "canonical", "sparse", "tree")


# ------------------------------------------------------------------- the pool
class Item:
    """A tensor of the library, its format and the array it represents;
    size bounds the magnitude of the terms which were added to compute it."""

    def __init__(self, X, x, kind, size):
        self.X, self.x, self.kind, self.size = X, x, kind, size

    def freeze(self):
        X, k = self.X, self.kind
        if k == "tree":
            self._tree = frozen_tbt(X)
            return
        if k == "full" or k == "diagonal":
            a = [X.data]
        elif k == "canonical":
            a = [np.asarray(X.core.data)] + list(X.space)
        else:
            a = [np.asarray(X.data), X.indices.array]
        self._arrays = Frozen(*a)
        self._shape = [int(i) for i in np.ravel(X.shape)]
        self._order = int(X.order)

    def unchanged(self, what):
        what = "%s: a tensor of the history (%s)" % (what, self.kind)
        if self.kind == "tree":
            self._tree(what)
        else:
            self._arrays.check(what)
            need([int(i) for i in np.ravel(self.X.shape)] == self._shape
                 and int(self.X.order) == self._order,
                 what + ": attributes modified")

    def check(self, what):
        """The tensor is the expected one, computed independently of the
        library from its parameters."""
        X, x, k, kw = self.X, self.x, self.kind, dict(
            tol=1e-7, scale=self.size, shape=True)
        cls = {"full": tensap.FullTensor, "diagonal": tensap.DiagonalTensor,
               "canonical": tensap.CanonicalTensor,
               "sparse": tensap.SparseTensor,
               "tree": tensap.TreeBasedTensor}[k]
        need(isinstance(X, cls), what + ": type", got=type(X).__name__)
        if k == "tree":
            got = check_tbt(X, what)
        elif k == "full":
            got = np.asarray(X.data)
        elif k == "diagonal":
            got = np.zeros((X.data.size,) * int(X.order))
            got[(np.arange(X.data.size),) * int(X.order)] = X.data
        elif k == "canonical":
            e = [np.asarray(X.core.data).ravel()]
            for i, f in enumerate(X.space):
                e[0] = e[0][..., None, :] * np.asarray(f).reshape(
                    (1,) * i + np.shape(f))
            got = e[0].sum(-1)
        else:
            got = np.zeros([int(i) for i in X.shape])
            ind = np.asarray(X.indices.array).reshape(-1, got.ndim)
            np.add.at(got, tuple(ind.T), np.ravel(X.data))
        close(got, x, what, **kw)
        need(int(X.order) == x.ndim, what + ": order", got=X.order)
        same(np.ravel(X.shape), x.shape, what + ": shape")

    def summary(self, what):
        X, x = self.X, self.x
        n = np.linalg.norm(x.ravel())
        f = np.asarray(X.full().data)
        close(f, x, what + ": full", tol=1e-7, scale=self.size, shape=True)
        if self.kind != "canonical":
            close(X.norm(), n, what + ": norm", tol=1e-7,
                  scale=self.size * np.sqrt(x.size))
        else:
            # square root of a sum with cancellations
            close(X.norm() ** 2, n ** 2, what + ": norm", tol=1e-7,
                  scale=self.size ** 2 * x.size)
        i = np.array([np.arange(x.size)[::max(1, x.size // 5)]])
        i = np.array(np.unravel_index(i[0], x.shape)).T
        if self.kind in ("full", "tree", "diagonal"):
            got = X.eval_at_indices(i)
            close(np.ravel(arr(got)), x[tuple(i.T)], what +
                  ": evaluation at indices", tol=1e-7, scale=self.size)


# ---------------------------------------------------------------- operations
OPS = {k: {} for k in FORMATS}


class Inapplicable(Exception):
    pass


def op(*kinds):
    def deco(fun):
        for k in kinds:
            OPS[k][fun.__name__] = fun
        return fun
    return deco


def require(cond):
    if not cond:
        raise Inapplicable


# the smallest magnitude, and whether the differences are only relative (T30)
UNITS = {"floor": 1e-3, "relative": False, "limits": (0, 1e8)}


def close(got, want, what, tol=1e-9, scale=1., **kw):
    if UNITS["relative"]:
        m = max(scale, float(np.max(np.abs(want), initial=0)), 1e-290)
        return _close(np.asarray(got, float) / m, np.asarray(want) / m, what,
                      tol, 1., **kw)
    _close(got, want, what, tol, scale, **kw)


def amax(x):
    return max(UNITS["floor"], float(np.max(np.abs(x), initial=0)))


def some(rng, d, low=1, high=None):
    """Random subset in random order."""
    high = d if high is None else high
    require(high >= low)
    return rng.permutation(d)[:rng.randint(low, high + 1)].tolist()


def as_arg(rng, dims):
    return np.array(dims) if rng.rand() < .5 else list(dims)


def grow(mats, size, sh):
    """Bound of the entries of a product with matrices."""
    for m in mats:
        size = size * max(1, np.max(np.sum(np.abs(m), -1)))
    return size


def partner(it, pool, rng, cond=lambda o: True):
    c = [o for o in pool if o.kind == it.kind and o.x.shape == it.x.shape
         and cond(o)]
    return c[rng.randint(len(c))]


def same_trees(o, it):
    """The same tree, up to the numbers of the nodes."""
    def nodes(X):
        par, d2i, _ = parts_of(X)
        spec = {"par": par, "d2i": d2i}
        return sorted((m_level(par, i + 1), m_dims(spec, i + 1))
                      for i in range(len(par)))

    return nodes(o.X) == nodes(it.X)


def m_level(par, i):
    k = 0
    while par[i - 1]:
        i, k = par[i - 1], k + 1
    return k


@op("full", "diagonal", "canonical", "tree")
def add(it, pool, rng):
    o = partner(it, pool, rng, lambda o: it.kind != "tree" or
                same_trees(o, it))
    return Item(it.X + o.X, it.x + o.x, it.kind, it.size + o.size)


@op("sparse")
def add_sparse(it, pool, rng):
    o = partner(it, pool, rng)
    return Item(it.X + o.X, it.x + o.x, it.kind, it.size + o.size)


@op("full", "diagonal", "canonical", "tree")
def subtract(it, pool, rng):
    o = partner(it, pool, rng, lambda o: it.kind != "tree" or
                same_trees(o, it))
    return Item(it.X - o.X, it.x - o.x, it.kind, it.size + o.size)


@op("full", "diagonal", "canonical", "tree")
def negate(it, pool, rng):
    return Item(-it.X, -it.x, it.kind, it.size)


@op("full", "tree")
def multiple(it, pool, rng):
    a = [2., -.5, 3, 0.][rng.randint(4)]
    X = it.X * a if rng.rand() < .5 else a * it.X
    return Item(X, a * it.x, it.kind, 3 * it.size)


@op("full", "diagonal", "sparse", "tree")
def hadamard(it, pool, rng):
    o = partner(it, pool, rng, lambda o: it.kind != "tree" or
                same_trees(o, it))
    require(it.kind != "tree" or max(it.X.ranks) * max(o.X.ranks) <= 16)
    return Item(it.X * o.X, it.x * o.x, it.kind, it.size * o.size)


@op("full", "diagonal", "canonical", "tree", "sparse")
def inner_product(it, pool, rng):
    o = partner(it, pool, rng, lambda o: it.kind != "tree" or
                same_trees(o, it))
    close(arr(it.X.dot(o.X)), np.sum(it.x * o.x), "dot", shape=False,
          tol=1e-7, scale=it.size * o.size * it.x.size)


@op(*FORMATS)
def matrix_product(it, pool, rng):
    d, sh = it.x.ndim, it.x.shape
    dims = some(rng, d)
    M = [rng.randn(rng.randint(1, 4), sh[i]) for i in dims]
    y = np_matprod(it.x, M, dims)
    require(y.size <= MAX)
    fz = Frozen(*M)
    if len(dims) == d and rng.rand() < .5:
        Y = it.X.tensor_matrix_product([M[dims.index(i)] for i in range(d)])
    else:
        Y = it.X.tensor_matrix_product(list(M), as_arg(rng, dims))
    fz.check("tensor_matrix_product")
    size = grow(M, it.size, sh)
    if it.kind == "diagonal":
        Y = tensap.FullTensor(arr(Y))
        return Item(Y, y, "full", size)
    return Item(Y, y, it.kind, size)


@op("full", "canonical", "sparse", "tree")
def vector_product(it, pool, rng):
    d, sh = it.x.ndim, it.x.shape
    require(d > 1)
    dims = some(rng, d, 1, d - 1)
    V = [rng.randn(sh[i]) for i in dims]
    y = np.squeeze(np_matprod(it.x, [v[None] for v in V], dims), tuple(dims))
    Y = it.X.tensor_vector_product(list(V), as_arg(rng, dims))
    return Item(Y, y, it.kind, grow([v[None] for v in V], it.size, sh))


@op("full", "canonical", "diagonal", "tree", "sparse")
def all_vectors(it, pool, rng):
    d, sh = it.x.ndim, it.x.shape
    V = [rng.randn(n) for n in sh]
    y = np_matprod(it.x, [v[None] for v in V], range(d)).ravel()
    close(np.ravel(arr(it.X.tensor_vector_product(list(V)))), y,
          "tensor_vector_product", tol=1e-7,
          scale=grow([v[None] for v in V], it.size, sh))


@op("full", "tree", "sparse")
def diagonal_matrices(it, pool, rng):
    d, sh = it.x.ndim, it.x.shape
    dims = some(rng, d)
    V = [rng.randn(sh[i]) for i in dims]
    y = np_matprod(it.x, [np.diag(v) for v in V], dims)
    Y = it.X.tensor_diagonal_matrix_product(list(V), as_arg(rng, dims))
    return Item(Y, y, it.kind, grow([np.diag(v) for v in V], it.size, sh))


@op("full", "canonical", "tree")
def diagonal_of_products(it, pool, rng):
    d, sh, n = it.x.ndim, it.x.shape, rng.randint(1, 4)
    require(d > 1)
    M = [rng.randn(n, k) for k in sh]
    y = np_diag(np_matprod(it.x, M, range(d)), range(d))
    close(np.ravel(arr(it.X.tensor_matrix_product_eval_diag(list(M)))), y,
          "tensor_matrix_product_eval_diag", tol=1e-7,
          scale=grow(M, it.size, sh))


@op("full", "sparse")
def transpose(it, pool, rng):
    p = rng.permutation(it.x.ndim)
    if rng.rand() < .5:
        return Item(it.X.transpose(p), np.transpose(it.x, p), it.kind,
                    it.size)
    return Item(it.X.itranspose(p), np.transpose(it.x, np.argsort(p)),
                it.kind, it.size)


@op("full", "sparse")
def reshape(it, pool, rng):
    n, sh = it.x.size, []
    while n > 1 and len(sh) < 3:
        k = [k for k in range(2, n + 1) if n % k == 0]
        sh.append(k[rng.randint(len(k))])
        n //= sh[-1]
    sh = sh + [n] if n > 1 or not sh else sh
    return Item(it.X.reshape(sh), it.x.reshape(sh, order="F"), it.kind,
                it.size)


@op("full", "tree")
def sub_tensor(it, pool, rng):
    sub = [":" if rng.rand() < .5 else rng.randint(0, n, rng.randint(1, 4))
           for n in it.x.shape]
    y = it.x
    for i, s in enumerate(sub):
        if not isinstance(s, str):
            y = np.take(y, s, axis=i)
    require(y.size <= MAX)
    return Item(it.X.sub_tensor(*sub), y, it.kind, it.size)


@op("full", "canonical", "tree")
def squeeze(it, pool, rng):
    one = [i for i, n in enumerate(it.x.shape) if n == 1]
    require(one and len(one) < it.x.ndim)
    return Item(it.X.squeeze(), np.squeeze(it.x), it.kind, it.size)


@op("full", "canonical", "tree")
def sums(it, pool, rng):
    d = it.x.ndim
    require(d > 1)
    dims = some(rng, d, 1, d - 1)
    y = it.x.sum(tuple(dims))
    Y = it.X.reduce_sum(as_arg(rng, dims))
    if it.kind == "full":
        Y = tensap.FullTensor(np.reshape(arr(Y), y.shape))
    return Item(Y, y, it.kind, it.size * it.x.size / y.size)


@op("full", "diagonal")
def concatenation(it, pool, rng):
    o = [o for o in pool if o.kind == it.kind and o.x.ndim == it.x.ndim]
    o = o[rng.randint(len(o))]
    sh = [p + q for p, q in zip(it.x.shape, o.x.shape)]
    require(prod(sh) <= MAX)
    y = np.zeros(sh)
    y[tuple(slice(0, k) for k in it.x.shape)] = it.x
    y[tuple(slice(k, None) for k in it.x.shape)] = o.x
    return Item(it.X.cat(o.X), y, it.kind, max(it.size, o.size))


@op("tree")
def concatenation_of_trees(it, pool, rng):
    o = [o for o in pool if o.kind == "tree" and same_trees(o, it)]
    require(o)
    o = o[rng.randint(len(o))]
    sh = [p + q for p, q in zip(it.x.shape, o.x.shape)]
    require(prod(sh) <= MAX)
    y = np.zeros(sh)
    y[tuple(slice(0, k) for k in it.x.shape)] = it.x
    y[tuple(slice(k, None) for k in it.x.shape)] = o.x
    return Item(it.X.cat(o.X), y, "tree", max(it.size, o.size))


@op("full", "diagonal", "tree")
def kronecker(it, pool, rng):
    c = [o for o in pool if o.kind == it.kind and o.x.ndim == it.x.ndim
         and o.x.size * it.x.size <= MAX]
    if it.kind == "tree":
        c = [o for o in c if same_trees(o, it) and max(it.X.ranks) * max(o.X.ranks) <= 16]
    require(c)
    o = c[rng.randint(len(c))]
    return Item(it.X.kron(o.X), np.kron(it.x, o.x), it.kind,
                it.size * o.size)


# conversions
@op(*FORMATS)
def to_full(it, pool, rng):
    X = it.X.full()
    return Item(X, it.x, "full", it.size)


@op("full", "diagonal")
def to_sparse(it, pool, rng):
    return Item(it.X.sparse(), it.x, "sparse", it.size)


def random_tree(rng, d, num=None):
    """A random dimension tree built bottom up, with the numbers of the nodes
    shuffled (using num if given)."""
    n, top = d, list(range(d))
    par = [0] * d
    while len(top) > 1:
        k = rng.randint(2, min(3, len(top)) + 1)
        rng.shuffle(top)
        kids, top = top[:k], top[k:]
        for i in kids:
            par[i] = n
        par.append(-1)
        top.append(n)
        n += 1
    new = (num or rng).permutation(n)
    out = [0] * n
    for i, q in enumerate(par):
        out[new[i]] = 0 if q < 0 else int(new[q]) + 1
    if d == 1:
        out = [0]
    return build_tree({"par": out, "d2i": [int(new[i]) + 1
                                           for i in range(d)]})


def activity(rng, T):
    act = np.ones(T.nb_nodes, dtype=bool)
    if rng.rand() < .5:
        for i in T.dim2ind:
            act[int(i) - 1] = rng.rand() < .6
    return act


@op("canonical", "diagonal")
def to_tree(it, pool, rng):
    require(it.x.ndim > 1)
    T = random_tree(rng, it.x.ndim)
    if it.kind == "diagonal":
        Y = it.X.tree_based_tensor(T)
    else:
        Y = it.X.tree_based_tensor(T, activity(rng, T))
    return Item(Y, it.x, "tree", it.size)


@op("full")
def to_trivial_tree(it, pool, rng):
    return Item(it.X.tree_based_tensor(), it.x, "tree", it.size)


def truncated(it, Y, tol, what):
    """A truncation: the error is controlled, and the values become those of
    the truncated tensor."""
    y = check_tbt(Y, what)
    n = np.linalg.norm(it.x)
    need(y.shape == it.x.shape, what + ": shape", got=y.shape)
    need(np.linalg.norm(y - it.x) <= tol * n * (1 + 1e-6)
         + 1e-7 * it.size * np.sqrt(it.x.size),
         what + ": error", got=np.linalg.norm(y - it.x), norm=n, tol=tol)
    lab("lossy" if np.linalg.norm(y - it.x) > 1e-6 * n else "")
    return Item(Y, y, "tree", it.size + amax(y))


def truncator(rng):
    tol = [1e-12, 1e-12, .1, .4][rng.randint(4)]
    t = tensap.Truncator()
    t.tolerance = tol
    t.max_rank = np.inf
    return t, tol


@op("full")
def to_tree_by_truncation(it, pool, rng):
    require(it.x.ndim > 1 and np.any(it.x))
    t, tol = truncator(rng)
    which = rng.randint(3)
    if it.x.ndim == 2 and which == 2:
        Y = t.hosvd(it.X)
        if isinstance(Y, tensap.CanonicalTensor):
            y = np.einsum("ik,jk,k->ij", Y.space[0], Y.space[1],
                          np.ravel(Y.core.data))
            need(np.linalg.norm(y - it.x) <= tol * np.linalg.norm(it.x)
                 * (1 + 1e-6) + 1e-7 * it.size * np.sqrt(it.x.size),
                 "svd: error")
            return Item(Y, y, "canonical", it.size + amax(y))
        return truncated(it, Y, tol, "hosvd")
    if which == 0:
        T = random_tree(rng, it.x.ndim)
        act = activity(rng, T)
        return truncated(it, t.hsvd(it.X, T, act), tol, "hsvd")
    if which == 1:
        return truncated(it, t.ttsvd(it.X), tol, "ttsvd")
    return truncated(it, t.hosvd(it.X), tol, "hosvd")


@op("tree")
def truncation(it, pool, rng):
    require(np.linalg.norm(it.x) > 1e-4 * it.size and it.X.tree.nb_nodes > 1)
    t, tol = truncator(rng)
    return truncated(it, t.hsvd(it.X), tol, "hsvd")


# representations of the same tree-based or canonical tensor
@op("canonical")
def orthogonal_factors(it, pool, rng):
    Y = it.X.orth()
    y = np_matprod(arr(Y.core.full()), [np.asarray(s) for s in Y.space],
                   range(it.x.ndim))
    close(y, it.x, "orth", tol=1e-7, scale=it.size)


@op("tree")
def orthogonal(it, pool, rng):
    return Item(it.X.orth(), it.x, "tree", it.size)


@op("tree")
def orthogonal_at_node(it, pool, rng):
    a = np.flatnonzero(it.X.is_active_node) + 1
    require(np.linalg.norm(it.x) > 1e-3 * it.size)
    return Item(it.X.orth_at_node(int(a[rng.randint(len(a))])), it.x, "tree",
                it.size)


@op("tree")
def change_of_root(it, pool, rng):
    inner = [n for n in range(1, it.X.tree.nb_nodes + 1)
             if n not in it.X.tree.dim2ind]
    require(inner)
    return Item(it.X.change_root(int(inner[rng.randint(len(inner))])), it.x,
                "tree", it.size)


@op("tree")
def activate(it, pool, rng):
    n = [int(it.X.tree.dim2ind[i]) for i in some(rng, it.x.ndim)]
    require(it.X.tree.nb_nodes > 1)
    f = it.X.activate_nodes if rng.rand() < .5 else it.X.inactivate_nodes
    return Item(f(n), it.x, "tree", it.size)


@op("tree")
def exchange_nodes(it, pool, rng):
    T = it.X.tree
    a, b = rng.randint(1, T.nb_nodes + 1, 2)
    require(a == b or a not in T.ascendants(b) and b not in T.ascendants(a))
    require(np.linalg.norm(it.x) > 1e-3 * it.size)
    return Item(it.X.permute_nodes([a, b]), it.x, "tree", it.size)


@op("tree")
def exchange_leaves(it, pool, rng):
    require(np.linalg.norm(it.x) > 1e-3 * it.size)
    return Item(it.X.permute_leaves(rng.permutation(it.x.ndim), 1e-14), it.x,
                "tree", it.size)


@op("tree")
def unique_children(it, pool, rng):
    return Item(it.X.remove_unique_children(), it.x, "tree", it.size)


@op("tree")
def spectra(it, pool, rng):
    require(np.linalg.norm(it.x) > 1e-3 * it.size)
    sv = it.X.singular_values()
    for n in range(1, it.X.tree.nb_nodes + 1):
        if n != it.X.tree.root and it.X.is_active_node[n - 1]:
            i = [int(k) for k in it.X.tree.dims[n - 1]]
            m = np.moveaxis(it.x, i, range(len(i))).reshape(
                prod([it.x.shape[k] for k in i]), -1)
            w = np.linalg.svd(m, compute_uv=False)
            g = np.ravel(sv[n - 1])
            k = max(len(w), len(g))
            close(np.pad(g, (0, k - len(g))), np.pad(w, (0, k - len(w))),
                  "singular values", tol=1e-6,
                  scale=it.size * np.sqrt(it.x.size), node=n)


@op("tree")
def gradient(it, pool, rng):
    """The tensor is linear with respect to each of its parameters."""
    a = np.flatnonzero(it.X.is_active_node) + 1
    n = int(a[rng.randint(len(a))])
    T = it.X.tree
    require(all(len(T.children(i)) != 1 for i in range(1, T.nb_nodes + 1)))
    m = rng.randint(1, 4)
    M = [rng.randn(m, k) for k in it.x.shape]
    f = tensap.FunctionalTensor(it.X, list(M))
    g = arr(f.parameter_gradient_eval(n))
    t = np.asarray(it.X.tensors[n - 1].data)
    y = np_diag(np_matprod(it.x, M, range(it.x.ndim)), range(it.x.ndim))
    got = np.reshape(g, (m, -1))
    need(got.shape[1] == t.size, "number of parameters", got=np.shape(g))
    t = t.ravel()
    # magnitude of the terms which are added
    sc = np.max(np.abs(got) @ np.abs(t))
    close(got @ t, y, "derivatives and values", tol=1e-7,
          scale=max(sc, grow(M, it.size, it.x.shape)), node=n)


# --------------------------------------------------------------- the histories
@composite
def histories(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(1, 3))
    sh = [n] * d if draw(st.booleans()) else draw(shapes(d, d, 4, 120))
    return {"shape": sh, "k": draw(st.sampled_from(["gauss", "int"])),
            "init": draw(st.lists(st.tuples(
                st.sampled_from(FORMATS + ("tree",) * 3),
                st.integers(0, 9999)).map(list),
                min_size=1, max_size=3)),
            "steps": draw(st.lists(st.tuples(
                st.integers(0, 99), st.integers(0, 999),
                st.integers(0, 9999)).map(list), min_size=4, max_size=15))}


def initial(c, kind, s):
    rng, sh = np.random.RandomState(s), c["shape"]

    def rand(*n):
        return rng.randn(*n) if c["k"] == "gauss" else \
            rng.randint(-2, 3, n).astype(float)

    if kind == "full":
        x = rand(*sh)
        return Item(tensap.FullTensor(x.copy()), x, kind, amax(x))
    if kind == "diagonal":
        v = rand(sh[0])
        d = max(2, len(sh))
        x = np.zeros((sh[0],) * d)
        x[(np.arange(sh[0]),) * d] = v
        return Item(tensap.DiagonalTensor(v.copy(), d), x, kind, amax(x))
    if kind == "sparse":
        x = rand(*sh) * (rng.rand(*sh) < .4)
        return Item(tensap.FullTensor(x.copy()).sparse(), x, kind, amax(x))
    r = rng.randint(1, 4)
    f = [rand(n, r) for n in sh]
    w = rand(r)
    x = np.zeros(sh)
    size = UNITS["floor"]
    for i in range(r):
        y = np.array(w[i])
        for g in f:
            y = np.multiply.outer(y, g[:, i])
        x, size = x + y, size + amax(y)
    X = tensap.CanonicalTensor([g.copy() for g in f],
                               tensap.DiagonalTensor(w.copy(), len(sh)))
    it = Item(X, x, "canonical", size)
    if kind == "tree":
        if len(sh) == 1:
            return initial(c, "full", s)
        # the same tree for all the initial tensors, up to the numbers of
        # the nodes
        T = random_tree(np.random.RandomState(c["init"][0][1] + 1), len(sh),
                        rng if s % 3 == 0 else None)
        it = Item(X.tree_based_tensor(T, activity(rng, T)), x, "tree", size)
    return it


@P.relation("histories", histories(), 2500,
            rule="at least three operations were applied")
def histories_(c):
    return history(c)


def history(c, change=lambda it: it):
    pool, count, kinds = [], 0, set()
    for kind, s in c["init"]:
        it = change(initial(c, kind, s))
        it.check("initial tensor")
        it.freeze()
        pool.append(it)
    done = []
    for which, k, s in c["steps"]:
        # half of the steps use the last result
        it = pool[which // 2 % len(pool) if which % 2 else -1]
        names = sorted(OPS[it.kind])
        rng = np.random.RandomState(1000 * k + s)
        name = names[rng.randint(len(names))]
        np.random.seed(s)
        try:
            new = OPS[it.kind][name](it, pool, rng)
        except Inapplicable:
            continue
        count += 1
        done.append("%s(%s)" % (name, it.kind))
        what = " > ".join(done[-4:])
        for o in pool:
            o.unchanged(what)
        if new is None:
            continue
        new.check(what)
        low, high = UNITS["limits"]
        if not low <= new.size <= high or not np.all(np.isfinite(new.x)):
            continue
        kinds.add(new.kind)
        new.freeze()
        if s % 3 == 0 or s % 3 == 1 and new.kind == "tree":
            new.summary(what)
            new.unchanged(what + " > summary")
        pool.append(new)
        lab(name)
    for o in pool:
        o.check("end of the history")
        o.summary("end of the history")
        o.unchanged("summary")
    lab("%d formats" % len({o.kind for o in pool}))
    return count > 2

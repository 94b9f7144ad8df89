"""T19: interpolation, projection and magic points."""
import numpy as np
import scipy.sparse
import tensap
from props.common import *
from props import bases as B
from props import laws as L
from props import multi as M

P = Prop("T19", "interpolation, projection and magic points", effort=2)


@composite
def matrices(draw):
    n, m = draw(st.integers(1, 12)), draw(st.integers(1, 8))
    return {"n": n, "m": m, "r": draw(st.integers(1, min(n, m))),
            "kind": draw(st.sampled_from(["dense", "ints", "poly", "decay"])),
            "form": draw(st.sampled_from(["array", "array", "sparse",
                                          "list"])),
            "option": draw(st.sampled_from(["left_right", "left", "right"])),
            "all": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def matrix(c, rng):
    n, m, r = c["n"], c["m"], min(c["n"], c["m"]) if c["all"] else c["r"]
    if c["kind"] == "dense":
        return rng.standard_normal((n, r)) @ rng.standard_normal((r, m)), r
    if c["kind"] == "ints":
        return (rng.randint(-3, 4, (n, r)) @ rng.randint(-3, 4, (r, m))) \
            .astype(float), r
    if c["kind"] == "poly":
        r = min(n, m)
        return np.vander(np.sort(rng.uniform(-1, 1, n)), m, True), r
    q = np.linalg.qr(rng.standard_normal((n, r)))[0]
    p = np.linalg.qr(rng.standard_normal((m, r)))[0]
    return (q * 10.0 ** -rng.randint(0, 3, r)) @ p.T, r


@P.relation("magic_indices", matrices(), 2500, rule="at least two indices")
def magic_indices(c):
    rng = rng_of(c)
    F, r = matrix(c, rng)
    if c["option"] != "left_right":
        r = min(r, *F.shape)
        lead = F[:, :r] if c["option"] == "left" else F[:r].T
        s = np.linalg.svd(lead, compute_uv=False)
        if s[-1] <= 1e-6 * s[0]:
            raise Discard
    s = np.linalg.svd(F, compute_uv=False)
    if len(s) < r or s[r - 1] < 1e-7 * s[0] or s[0] == 0:
        raise Discard
    lab(c["option"], c["form"])
    A = {"array": F, "sparse": scipy.sparse.csr_matrix(F),
         "list": F.tolist()}[c["form"]]
    if r == min(F.shape) and c["option"] == "left_right" and rng.rand() < .5:
        lab("default arguments")
        I, J = tensap.magic_indices(A)
    else:
        I, J = tensap.magic_indices(A, r, c["option"])
    I, J = np.array(I), np.array(J)
    need(len(I) == r and len(J) == r, "number of indices", got=(I, J), want=r)
    need(len(set(I.tolist())) == r and len(set(J.tolist())) == r,
         "repeated indices", I=I, J=J)
    if c["option"] == "left":
        same(J, np.arange(r), "columns")
    if c["option"] == "right":
        same(I, np.arange(r), "rows")
    G, top = np.zeros(F.shape), np.max(np.abs(F))
    for k in range(r):
        R = np.abs(F - G)
        # the pivot of step k has the largest remaining residual
        best = {"left_right": R.max(), "left": R[:, k].max(),
                "right": R[k].max()}[c["option"]]
        need(R[I[k], J[k]] >= best - 1e-7 * top, "pivot is not the largest "
             "residual", step=k, got=R[I[k], J[k]], want=best)
        need(R[I[k], J[k]] > 0, "zero pivot", step=k)
        i, j = I[:k + 1], J[:k + 1]
        G = F[:, j] @ np.linalg.solve(F[np.ix_(i, j)], F[i])
    if r == np.linalg.matrix_rank(F):
        close(G, F, "cross interpolation", tol=1e-5, scale=top)
    return r > 1


def has_span(c):
    """Points of the support where the functions are independent."""
    return B.cardinal(c)


@composite
def univariate(draw, kinds=("poly", "canonical", "piecewise", "splines",
                            "user", "sub"), vector=True):
    c = {"bases": [draw(B.bases(kinds=kinds, laws=("uniform", "normal",
                                                   "lebesgue")))],
         "form": "univariate", "seed": draw(st.integers(0, 10 ** 6)),
         "m": draw(st.integers(0, 3)) if vector else 0,
         "extra": draw(st.integers(0, 20)),
         "by": draw(st.sampled_from(["function", "values", "list"])),
         "inspan": draw(st.booleans())}
    return c


def basis(c):
    return B.make(c["bases"][0]) if c["form"] == "univariate" else M.make(c)


@composite
def anybasis(draw, multi_kinds=("poly", "canonical", "piecewise", "sub")):
    if draw(st.integers(0, 2)):
        return draw(univariate())
    c = draw(M.multis(kinds=multi_kinds, max_dim=3, max_card=3,
                      max_size=60))
    c.update(m=draw(st.integers(0, 2)), extra=draw(st.integers(0, 20)),
             by=draw(st.sampled_from(["function", "values", "list"])),
             inspan=draw(st.booleans()))
    return c


def cloud(c, rng, n):
    """Points of the domain where the functions are well conditioned."""
    b = c["bases"]
    if c["form"] == "univariate" and B.breaks(b[0]):
        x = B.generic(b[0], rng, 8 * n)
    else:
        x = M.generic(c, rng, 8 * n)
    x = np.reshape(x, (len(x), -1))
    V = M.values(c, x)
    keep, Q = [], V.copy()
    for _ in range(n):               # greedy choice of independent rows
        s = np.sum(Q ** 2, 1)
        if len(keep) < V.shape[1]:
            i = int(np.argmax(s))
            if s[i] < 1e-10 * np.max(np.sum(V ** 2, 1)):
                raise Discard
            u = Q[i] / np.sqrt(s[i])
            Q = Q - np.outer(Q @ u, u)
        else:
            i = int(rng.randint(len(x)))
            while i in keep:
                i = int(rng.randint(len(x)))
        keep.append(i)
    keep = np.array(keep)
    rng.shuffle(keep)
    return x[keep]


def target(c, rng):
    """A (vector-valued) function and its coefficients if in the span."""
    n, m = len(M.indices(c)), c["m"]
    A = rng.standard_normal((n, m or 1))
    if c["inspan"]:
        f = lambda x: M.values(c, np.reshape(x, (np.shape(x)[0], -1))) @ A
    else:
        W = rng.standard_normal((len(c["bases"]), m or 1))
        f = lambda x: np.cos(np.reshape(x, (np.shape(x)[0], -1)) @ W + .3)
    return (f if m else (lambda x: f(x)[:, 0])), A


def given(c, f, x):
    if c["by"] == "function":
        return f
    return f(x) if c["by"] == "values" else f(x).tolist()


def info(c):
    lab(c["form"], *["with " + b["basis"] for b in c["bases"]])
    lab(c["by"], "function of the span" if c["inspan"] else "other function",
        "%d outputs" % max(1, c["m"]))


@P.relation("interpolation", anybasis(), 1500,
            rule="at least two functions")
def interpolation(c):
    info(c)
    rng = rng_of(c)
    H, n = basis(c), len(M.indices(c))
    f, A = target(c, rng)
    x = cloud(c, rng, n)
    V = M.values(c, x)
    if np.linalg.cond(V) > 1e7:
        raise Discard
    p = x[:, 0] if c["form"] == "univariate" and rng.rand() < .5 else x
    g = H.interpolate(given(c, f, p), p)
    want = np.reshape(f(x), (n, -1))
    co = np.linalg.solve(V, want)
    sc = np.max(np.abs(co)) * np.max(np.abs(V)) + 1
    close(g.eval(x), want, "values at the interpolation points", tol=1e-7,
          scale=sc)
    close(g.get_coefficients(), co, "coefficients", tol=1e-6,
          scale=np.max(np.abs(co)))
    if c["inspan"]:
        close(g.get_coefficients(), A, "coefficients of a function of the "
              "span", tol=1e-6)
    need(np.array_equal(g.shape, [max(1, c["m"])]), "shape", got=g.shape)
    return n > 1


@P.relation("projection", anybasis(), 1500, rule="at least two functions")
def projection(c):
    info(c)
    rng = rng_of(c)
    H, n = basis(c), len(M.indices(c))
    f, A = target(c, rng)
    x = cloud(c, rng, n + c["extra"])
    w = rng.uniform(.2, 2, len(x))
    V = M.values(c, x)
    if np.linalg.cond(V) > 1e6:
        raise Discard
    R = tensap.IntegrationRule(x, w)
    y = np.reshape(f(x), (len(x), -1))
    s = np.sqrt(w)[:, None]
    co = np.linalg.lstsq(s * V, s * y, None)[0]
    sc = np.max(np.abs(co)) + 1
    g = H.least_squares_projection(given(c, f, x), R)
    close(g.get_coefficients(), co, "least-squares projection", tol=1e-6,
          scale=sc)
    if c["inspan"]:
        close(g.get_coefficients(), A, "projection of a function of the span",
              tol=1e-6)
    q = H.quasi_projection(given(c, f, x), R)
    co2 = V.T @ (w[:, None] * y)
    close(q.get_coefficients(), co2, "quasi-projection", tol=1e-7,
          scale=np.max(np.abs(co2)))
    p = H.projection(given(c, f, x), R)
    close(p.get_coefficients(), co2 if H.is_orthonormal else co,
          "projection", tol=1e-6, scale=max(np.max(np.abs(co2)), sc))
    z = cloud(c, rng, n)
    close(g.eval(z), M.values(c, z) @ co, "values of the projection",
          tol=1e-6, scale=sc * np.max(np.abs(M.values(c, z))))
    if c["form"] == "univariate" and M.orthonormal(c):
        # exact projection with an exact rule
        xx, ww = B.rule(c["bases"][0])
        G = tensap.IntegrationRule(xx, ww)
        p = H.projection(f, G)
        Z = M.values(c, xx[:, None])
        want = Z.T @ (ww[:, None] * np.reshape(f(xx), (len(xx), -1)))
        close(p.get_coefficients(), A if c["inspan"] else want,
              "orthogonal projection", tol=1e-6, scale=np.max(np.abs(want)))
    return n > 1


@P.relation("magic_points", anybasis(), 1200, rule="at least two functions")
def magic_points(c):
    H, rng = basis(c), rng_of(c)
    if c["form"] == "univariate" and c["bases"][0]["basis"] == "piecewise":
        raise Discard
    info(c)
    n = len(M.indices(c))
    x = cloud(c, rng, n + c["extra"])
    V = M.values(c, x)
    if np.linalg.cond(V) > 1e6:
        raise Discard
    order = rng.permutation(n) if c["by"] == "list" else None
    p = x[:, 0] if c["form"] == "univariate" and rng.rand() < .5 else x
    if order is None:
        pts, ind, out = H.magic_points(p)
    else:
        lab("given order of the functions")
        pts, ind, out = H.magic_points(p, order)
    ind = np.array(ind)
    need(len(set(ind.tolist())) == n, "magic points are distinct", got=ind)
    close(pts, x[ind], "magic points are the selected points")
    K = V[ind]
    need(np.linalg.cond(K) < 1e12, "magic points are not unisolvent")
    A = np.linalg.solve(K.T, V.T).T
    close(out["lebesgue_constant"], np.max(np.sum(np.abs(A), 1)),
          "Lebesgue constant", tol=1e-5,
          scale=np.max(np.sum(np.abs(A), 1)))
    if order is not None:
        for k in range(1, n):
            s = np.linalg.svd(V[np.ix_(ind[:k], order[:k])],
                              compute_uv=False)
            need(s[-1] > 1e-12 * s[0], "nested magic points", k=k)
    elif c["form"] != "full":
        top = np.sort(np.abs(V), 0)[-2:]
        if np.all(top[-1] - top[0] > 1e-8 * top[-1]):       # no ties
            close(H.interpolation_points(p), pts, "interpolation points")
    return n > 1


@P.relation("automatic_points", univariate(kinds=(
    "poly", "canonical", "piecewise", "sub"), vector=False), 500,
    rule="at least two functions")
def automatic_points(c):
    b = c["bases"][0]
    info(c)
    H, rng = basis(c), rng_of(c)
    n = B.cardinal(b)
    if b["basis"] == "sub" and b["under"]["basis"] == "piecewise" or \
            B.law_of(b)["law"] == "lebesgue" and b["basis"] != "piecewise":
        raise Discard
    np.random.seed(c["seed"] % 1000)
    f, A = target(dict(c, inspan=True), rng)
    x = np.ravel(H.interpolation_points())
    s = L.support(B.law_of(b))
    need(len(x) == n and np.all((x >= s[0]) & (x <= s[1])),
         "interpolation points", got=x)
    V = M.values(c, x[:, None])
    need(np.linalg.cond(V) < 1e13, "points are not unisolvent", x=x)
    if np.linalg.cond(V) < 1e8:
        g = H.interpolate(f)
        close(g.get_coefficients(), A, "interpolation at the default points",
              tol=1e-5)
    if b["basis"] == "piecewise":
        y = np.ravel(H.magic_points())
        for z in (x, y):
            p = [b["p"]] * (len(b["t"]) - 1) if isinstance(b["p"], int) \
                else b["p"]
            for i, q in enumerate(p):
                need(np.sum((z > b["t"][i]) & (z < b["t"][i + 1])) == q + 1,
                     "number of points in each interval", z=z)
        W = M.values(c, y[:, None])
        need(np.linalg.cond(W) < 1e6, "magic points are not unisolvent")
        same(H.element_number(x), np.searchsorted(b["t"], x) - 1,
             "interval of the points")
    return n > 1


# ------------------------------------------------------------ tensor products
@composite
def products(draw, form="full", kinds=("poly", "canonical", "sub")):
    c = draw(M.multis(kinds=kinds, forms=(form,), max_dim=3))
    c["by"] = draw(st.sampled_from(["function", "user", "tensor", "tree"]))
    c["inspan"] = draw(st.booleans())
    c["extra"] = draw(st.integers(0, 6))
    c["m"] = 0
    return c


def grids(c, rng, extra=0):
    out = []
    for b in c["bases"]:
        u = {"bases": [b], "form": "univariate", "seed": c["seed"]}
        x = cloud(u, rng, B.cardinal(b) + extra)
        if np.linalg.cond(B.values(b, x)) > 1e5:
            raise Discard
        out.append(x)
    return out


def on_grid(c, f, g):
    n = [len(x) for x in g]
    pts = np.stack([x[i, 0] for x, i in zip(g, M.full_indices(n).T)], 1)
    return np.reshape(f(pts), n, order="F")


def as_given(c, f, g):
    d = len(g)
    if c["by"] == "function":
        return f
    if c["by"] == "user":
        return tensap.UserDefinedFunction(f, d)
    y = on_grid(c, f, g)
    t = tensap.FullTensor(y, d, y.shape)
    if c["by"] == "tensor" or d == 1:
        return t
    tr = tensap.Truncator()
    tr.tolerance = 1e-14
    return tr.hsvd(t, tensap.DimensionTree.balanced(d)) if d > 1 else t


@P.relation("tensor_interpolation", products(), 600,
            rule="at least two functions of two variables")
def tensor_interpolation(c):
    info(c)
    H, rng = M.make(c), rng_of(c)
    f, A = target(c, rng)
    d = len(c["bases"])
    g = grids(c, rng)
    extra = grids(c, rng, c["extra"])
    given_ = g
    if c["by"] in ("function", "user") and rng.rand() < .6:
        lab("selected points")
        given_ = extra
    fun = as_given(c, f, g)
    if c["by"] in ("tensor", "tree"):
        # with as many points as functions, the selection permutes the grid:
        # give the points in the selected order
        given_ = [np.reshape(h.interpolation_points(x), (-1, 1)) for h, x in
                  zip(H.bases.bases, g)]
        given_ = [np.reshape(h.interpolation_points(x), (-1, 1)) for h, x in
                  zip(H.bases.bases, given_)]
        again = [np.reshape(h.interpolation_points(x), (-1, 1)) for h, x in
                 zip(H.bases.bases, given_)]
        if not all(np.array_equal(a, b) for a, b in zip(given_, again)):
            raise Discard
        fun = as_given(c, f, given_)
    F, out = H.tensor_product_interpolation(fun, given_)
    pts = out["grid"].grids
    for a, b, h in zip(pts, given_, c["bases"]):
        need(len(a) == B.cardinal(h) and
             set(np.ravel(a)) <= set(np.ravel(b)), "points selected in the "
             "grid", got=a, grid=b)
    if c["by"] in ("function", "user"):
        need(out["number_of_evaluations"] == prod([len(a) for a in pts]),
             "number of evaluations", got=out["number_of_evaluations"])
    V = [B.values(b, x) for b, x in zip(c["bases"], pts)]
    if max(np.linalg.cond(v) for v in V) > 1e6:
        raise Discard
    y = on_grid(c, f, pts)
    co = y
    for k, v in enumerate(V):
        co = np.moveaxis(np.tensordot(np.linalg.inv(v), co, (1, k)), 0, k)
    x = M.generic(c, rng, 5)
    want = M.values(c, x) @ np.reshape(co, -1, order="F")
    sc = np.max(np.abs(co)) * np.max(np.abs(M.values(c, x))) + 1
    close(F.eval(x), want, "interpolation", tol=1e-6, scale=sc, shape=False)
    if c["inspan"]:
        close(F.eval(x), f(x), "function of the span", tol=1e-6, scale=sc,
              shape=False)
    p, gg = H.interpolation_points(given_)
    close(p, out["grid"].array(), "interpolation points")
    T = H.bases.tensor_product_interpolation(fun, given_)[0]
    close(T.eval(x), want, "interpolation", tol=1e-6, scale=sc, shape=False)
    mp, mi = H.bases.magic_points(given_)
    for a, b, i, z in zip(mp, pts, mi, given_):
        close(a, b, "magic points of the bases")
        close(np.ravel(z)[i], np.ravel(a), "selected magic points")
    return prod([len(a) for a in pts]) > 1 and d > 1


@P.relation("tensor_projection", products(kinds=("poly", "canonical", "sub",
                                                 "piecewise")), 600,
            rule="at least two functions of two variables")
def tensor_projection(c):
    if c["by"] != "user":
        c = dict(c, by="user")
    info(c)
    H, rng = M.make(c), rng_of(c)
    f, A = target(c, rng)
    d = len(c["bases"])
    g, w = [], []
    for b in c["bases"]:
        u = {"bases": [b], "form": "univariate", "seed": c["seed"]}
        x = cloud(u, rng, B.cardinal(b) + rng.randint(0, 4))
        g.append(x)
        w.append(rng.uniform(.2, 2, len(x)))
        if np.linalg.cond(B.values(b, x)) > 1e5:
            raise Discard
    R = tensap.FullTensorProductIntegrationRule(g, w)
    F, out = H.tensor_product_projection(tensap.UserDefinedFunction(f, d), R)
    need(out["number_of_evaluations"] == prod([len(x) for x in g]),
         "number of evaluations", got=out["number_of_evaluations"])
    y = on_grid(c, f, g)
    for k, (b, x, u) in enumerate(zip(c["bases"], g, w)):
        V, s = B.values(b, x), np.sqrt(u)[:, None]
        y = np.moveaxis(np.tensordot(np.linalg.pinv(s * V) * s.T, y, (1, k)),
                        0, k)
    x = M.generic(c, rng, 5)
    V = M.values(c, x)
    want = V @ np.reshape(y, -1, order="F")
    sc = np.max(np.abs(y)) * np.max(np.abs(V)) + 1
    close(F.eval(x), want, "projection", tol=1e-6, scale=sc, shape=False)
    if c["inspan"]:
        close(F.eval(x), f(x), "function of the span", tol=1e-6, scale=sc,
              shape=False)
    return d > 1 and prod([len(x) for x in g]) > 1


@composite
def downward(draw):
    d = draw(st.integers(1, 3))
    b = []
    for _ in range(d):
        law = draw(L.laws(kinds=M.PROB))
        b.append({"basis": draw(st.sampled_from(["poly", "canonical"])),
                  "law": law, "ind": list(range(draw(st.integers(1, 4))))})
    return {"bases": b, "form": "bases", "p": draw(st.integers(1, 3)),
            "m": 0, "by": draw(st.sampled_from(["function", "user"])),
            "inspan": draw(st.booleans()), "extra": draw(st.integers(0, 20)),
            "seed": draw(st.integers(0, 10 ** 6))}


@P.relation("sparse_interpolation", downward(), 600,
            rule="at least two functions of two variables")
def sparse_interpolation(c):
    info(c)
    rng = rng_of(c)
    d = len(c["bases"])
    n = [B.cardinal(b) for b in c["bases"]]
    I = M.full_indices(n)
    I = I[I.sum(1) <= c["p"]]
    H = tensap.SparseTensorProductFunctionalBasis(
        tensap.FunctionalBases([B.make(b) for b in c["bases"]]),
        tensap.MultiIndices(I))
    g = grids(c, rng, c["extra"])
    A = rng.standard_normal(len(I))

    def f(x):
        if c["inspan"]:
            return M.assemble(M.evals(c, x), I) @ A
        return np.cos(np.sum(x, 1))

    fun = f if c["by"] == "function" else tensap.UserDefinedFunction(f, d)
    arg = g if rng.rand() < .5 or len({len(x) for x in g}) > 1 \
        else np.hstack(g)
    F, out = H.tensor_product_interpolation(fun, arg)
    z = out["grid"].array()
    need(out["number_of_evaluations"] == len(I) == len(z),
         "number of evaluations")
    for k in range(d):
        need(set(z[:, k]) <= set(np.ravel(g[k])), "points of the grids")
    V = M.assemble(M.evals(c, z), I)
    if np.linalg.cond(V) > 1e7:
        lab("ill conditioned")
        raise Discard
    co = np.linalg.solve(V, f(z))
    sc = np.max(np.abs(co)) * np.max(np.abs(V)) + 1
    close(F.eval(z), f(z)[:, None], "values at the points of the grid",
          tol=1e-6, scale=sc)
    close(np.ravel(F.get_coefficients()), co, "coefficients", tol=1e-5,
          scale=np.max(np.abs(co)))
    if c["inspan"]:
        close(np.ravel(F.get_coefficients()), A, "function of the span",
              tol=1e-5)
    return len(I) > 1 and d > 1

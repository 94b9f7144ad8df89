"""T16: integration rules and grids."""
import itertools
import numpy as np
import tensap
from props.common import *
from props import laws as L

P = Prop("T16", "integration rules and grids", effort=5)


@composite
def grid_lists(draw, max_d=4):
    d = draw(st.integers(1, max_d))
    return {"n": [draw(st.integers(1, 4)) for _ in range(d)],
            "cols": [draw(st.sampled_from([0, 0, 1, 2])) for _ in range(d)],
            "seed": draw(st.integers(0, 10 ** 6)),
            "repeat": draw(st.integers(0, 3)) == 0}


def grids(c):
    """Grids (1-d arrays or columns or points in the plane)."""
    rng = np.random.RandomState(c["seed"])
    out = [rng.randint(-9, 9, (n, max(k, 1))) / 4 for n, k in
           zip(c["n"], c["cols"])]
    return [g.ravel() if k == 0 else g for g, k in zip(out, c["cols"])]


def rows(gs, ind):
    """Points of the product grid with given multi-indices."""
    gs = [g.reshape(len(g), -1) for g in gs]
    return np.array([np.concatenate([g[k] for g, k in zip(gs, i)])
                     for i in ind])


def lexico(n):
    """Multi-indices below n, the first index varying first."""
    return [i[::-1] for i in itertools.product(*[range(k) for k in n[::-1]])]


@P.relation("full_grid", grid_lists(), 1500, rule="at least two points")
def full_grid(c):
    gs = grids(c)
    n, d = c["n"], len(gs)
    lab("dimension %d" % d)
    ref = [np.array(g) for g in gs]
    if c["repeat"]:
        lab("repeated grid")
        g0 = gs[0].ravel()[:n[0]]
        G = tensap.FullTensorGrid(g0, d)
        ref, n = [g0] * d, [n[0]] * d
    else:
        G = tensap.FullTensorGrid(gs)
        need(len(gs) == d and all(a.shape == b.shape and np.array_equal(a, b)
                                  for a, b in zip(gs, ref)),
             "the list of grids is unchanged", got=[a.shape for a in gs],
             want=[b.shape for b in ref])
    need(G.ndim() == d, "ndim of the grid")
    same(G.shape, n, "shape of the grid")
    need(G.size == prod(n), "number of points")
    ind = lexico(n)
    want = rows(ref, ind)
    same(G.array(), want, "points of the grid")
    same(G.multi_indices().array, ind, "multi-indices of the grid")
    rng = rng_of(c)
    sub = [ind[k] for k in rng.randint(0, len(ind), 3)]
    same(G.eval_at_indices(np.array(sub)), rows(ref, sub),
         "points with given multi-indices")
    same(G.array(np.array(sub)), rows(ref, sub), "array of given indices")
    return prod(n) > 1


@P.relation("sparse_grid", grid_lists(), 800, rule="a proper subset")
def sparse_grid(c):
    gs = grids(c)
    n, d = c["n"], len(gs)
    ind, rng = lexico(n), rng_of(c)
    k = rng.randint(1, len(ind) + 1)
    sub = [ind[i] for i in sorted(rng.permutation(len(ind))[:k])]
    ref = [np.array(g) for g in gs]
    G = tensap.SparseTensorGrid(gs, tensap.MultiIndices(np.array(sub)))
    need(G.ndim() == d and G.size == k, "dimension and size of a sparse grid",
         got=(G.ndim(), G.size))
    same(G.array(), rows(ref, sub), "points of a sparse grid", ind=sub)
    return k < len(ind)


# -- rules --

@composite
def rule_cases(draw):
    d = draw(st.integers(1, 3))
    m = draw(st.integers(1, 4))
    return {"n": [draw(st.integers(1, 4)) for _ in range(d)], "m": m,
            "column": draw(st.booleans()), "grid": draw(st.booleans()),
            "seed": draw(st.integers(0, 10 ** 6))}


@P.relation("rules", rule_cases(), 1500, rule="at least two points")
def rules(c):
    rng = np.random.RandomState(c["seed"])
    n, d = c["n"], len(c["n"])
    xs = [rng.randint(-8, 9, k) / 4 for k in n]
    ws = [rng.randint(-3, 9, k) / 2 for k in n]
    shape = (lambda x: x[:, None]) if c["column"] else (lambda x: x)
    lab("column" if c["column"] else "1-d")
    R = tensap.IntegrationRule(shape(xs[0]), ws[0])
    need(R.ndim() == 1, "dimension of a rule on the line")
    want = float(np.sum(ws[0] * np.exp(xs[0])))
    sc = np.sum(np.abs(ws[0]) * np.exp(xs[0])) + 1
    close(float(np.ravel(R.integrate(np.exp))[0]), want, "integrate", scale=sc)
    a = rng.uniform(-.5, .5, d)

    def f(x):
        need(np.ndim(x) == 2 and np.shape(x)[1] == d, "points given to the "
             "function", got=np.shape(x))
        y = np.exp(x @ a) * (1 + np.cos(x[:, 0] * x[:, -1]))
        return y[:, None] if c["column"] else y

    def brute(xs, ws):
        s = t = 0.
        for i in itertools.product(*[range(len(x)) for x in xs]):
            p = np.array([x[k] for x, k in zip(xs, i)])
            w = np.prod([w[k] for w, k in zip(ws, i)])
            v = float(np.ravel(f(p[None]))[0])
            s, t = s + w * v, t + abs(w * v)
        return s, t + 1

    pts = [shape(x) for x in xs]
    if c["grid"]:
        pts = tensap.FullTensorGrid(list(pts))
    T = tensap.FullTensorProductIntegrationRule(
        pts, [w[:, None] if c["column"] else w for w in ws])
    need(T.ndim() == d, "dimension of a tensor product rule")
    want, sc = brute(xs, ws)
    close(T.integrate(f), want, "tensor product rule", scale=sc)
    J = T.integration_rule()
    need(J.ndim() == d and np.shape(J.points) == (prod(n), d),
         "points of the tensor product rule", got=np.shape(J.points))
    close(J.integrate(f), want, "integration_rule", scale=sc)
    ind = lexico(n)
    same(J.points, [[x[k] for x, k in zip(xs, i)] for i in ind],
         "points of the rule")
    close(J.weights, [np.prod([w[k] for w, k in zip(ws, i)]) for i in ind],
          "weights of the rule")
    close(T.weights_on_grid(), np.ravel(J.weights), "weights on the grid")
    T = R.tensorize(d)
    want, sc = brute([xs[0]] * d, [ws[0]] * d)
    need(T.ndim() == d, "dimension of a tensorized rule")
    close(T.integrate(f), want, "tensorized rule", scale=sc)
    return prod(n) > 1


@composite
def composite_cases(draw):
    d = draw(st.integers(1, 3))
    ks = [draw(st.lists(st.integers(-8, 8), min_size=2, max_size=4,
                        unique=True)) for _ in range(d)]
    return {"knots": [[k / 4 for k in x] for x in ks],
            "n": draw(st.integers(1, 5)),
            "each": [draw(st.integers(1, 4)) for _ in range(len(ks[0]) - 1)],
            "tuple": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


@P.relation("composite_rules", composite_cases(), 800,
            rule="at least two intervals")
def composite_rules(c):
    K, n, rng = c["knots"], c["n"], np.random.RandomState(c["seed"])
    k0 = np.sort(K[0])
    ref = np.array(K[0])
    for m in (n, c["each"], np.array(c["each"])):
        arg = np.array(K[0]) if rng.randint(2) else list(K[0])
        R = tensap.IntegrationRule.gauss_legendre_composite(arg, m)
        same(np.array(arg), ref, "the knots are unchanged")
        ms = [m] * (len(k0) - 1) if np.isscalar(m) else list(m)
        x, w = np.ravel(R.points), np.ravel(R.weights)
        need(x.size == sum(ms) and w.size == sum(ms), "number of points",
             got=x.size)
        need(np.all(w > 0), "positive weights", got=w)
        for a, b, q in zip(k0[:-1], k0[1:], ms):
            i = (x > a) & (x < b)
            need(np.sum(i) == q, "number of points of an interval", got=x)
            for e in range(2 * q):
                t = (a + b) / 2
                close(np.sum(w[i] * (x[i] - t) ** e),
                      ((b - t) ** (e + 1) - (a - t) ** (e + 1)) / (e + 1),
                      "exactness on an interval", tol=1e-8, scale=b - a)
    arg = tuple(np.array(k) for k in K) if c["tuple"] else \
        [np.array(k) for k in K]
    T = tensap.FullTensorProductIntegrationRule.gauss_legendre_composite(arg, n)
    d = len(K)
    ex = rng.randint(0, 2 * n, d)
    want = np.prod([(max(k) ** (e + 1) - min(k) ** (e + 1)) / (e + 1)
                    for k, e in zip(K, ex)])
    sc = np.prod([(max(map(abs, k)) + 1) ** (e + 1) for k, e in zip(K, ex)])
    need(T.ndim() == d, "dimension")
    close(T.integrate(lambda x: np.prod(x ** ex, 1)), want,
          "exactness of the tensor product rule", tol=1e-9, scale=sc)
    return len(k0) > 2


@composite
def misc_cases(draw):
    d = draw(st.integers(1, 3))
    return {"d": d, "n": draw(st.integers(1, 9)),
            "a": draw(st.integers(-6, 6)) / 2, "l": draw(st.integers(1, 8)) / 2,
            "ns": [draw(st.integers(1, 4)) for _ in range(d)],
            "laws": [draw(L.laws(kinds=("uniform", "normal", "discrete")))
                     for _ in range(d)],
            "seed": draw(st.integers(0, 10 ** 6))}


@P.relation("points", misc_cases(), 600, rule="at least two points")
def points(c):
    n, d, rng = c["n"], c["d"], np.random.RandomState(c["seed"])
    for s in (None, (c["a"], c["a"] + c["l"])):
        x = tensap.chebyshev_points(n, s)
        need(np.shape(x) == (n, 1), "shape of the Chebyshev points")
        a, b = s or (-1, 1)
        t = (2 * np.ravel(x) - a - b) / (b - a)
        need(np.all(np.abs(t) < 1), "points inside the interval", got=x)
        need(np.all(np.diff(np.sort(t)) > 0), "distinct points")
        close(np.polynomial.chebyshev.chebval(t, [0] * n + [1]), np.zeros(n),
              "roots of the Chebyshev polynomial", tol=1e-9, scale=n)
    B = np.sort(rng.randint(-4, 5, (2, d)) / 2, 0)
    x = rng.randint(-5, 6, (12, d)) / 2
    want = [all(B[0, k] <= p[k] <= B[1, k] for k in range(d)) for p in x]
    same(tensap.is_in(B, x), want, "is_in", box=B, x=x)
    if d == 1:
        same(tensap.is_in(B.ravel(), x), want, "is_in for an interval")
    X = tensap.RandomVector([L.measure(a) for a in c["laws"]])
    ns = c["ns"] if rng.randint(2) else c["ns"][0]
    np.random.seed(c["seed"])
    G = tensap.FullTensorGrid.random(X, ns)
    want = [ns] * d if np.isscalar(ns) else ns
    same(G.shape, want, "shape of a random grid")
    for g, a in zip(G.grids, c["laws"]):
        s = L.support(a)
        need(np.min(g) >= s[0] and np.max(g) <= s[1],
             "random grid in the support")
    return n > 1

"""T13: orthonormal polynomials and their Gauss quadratures."""
import numpy as np
import tensap
from props.common import *
from props import laws as L

P = Prop("T13", "orthonormal polynomials and Gauss quadrature", effort=3)


@composite
def poly_cases(draw, **kw):
    c = draw(L.laws(**kw))
    top = min(L.max_degree(c), 7)
    if c["law"] in ("uniform", "normal", "lebesgue"):
        top = 8
    c["n"] = draw(st.integers(0, top))
    c["ind"] = [int(i) for i in draw(st.lists(
        st.integers(0, c["n"]), min_size=1, max_size=4))]
    return c


def polys(c):
    return L.measure(c).orthonormal_polynomials()


def spread(c, rng, k=6):
    """Points where the polynomials are evaluated."""
    x, w = L.nodes(c, 8)
    lo, hi = min(x), max(x)
    return rng.uniform(lo - .1, hi + .1, k)


@P.relation("values", poly_cases(), 2000,
            rule="a polynomial of degree at least one")
def values(c):
    p = polys(c)
    n, ind, rng = c["n"], c["ind"], rng_of(c)
    lab(c["law"], "shifted" if isinstance(
        p, tensap.ShiftedOrthonormalPolynomials) else "not shifted")
    need(p.is_orthonormal(), "is_orthonormal")
    need(p.ndim() == 1, "ndim of univariate polynomials")
    if c["law"] != "empirical":
        m = L.measure(c)
        need(type(p.measure) is type(m), "measure of the polynomials",
             got=p.measure)
        L.same_support(p.measure.support(), c, "support of the measure")
        if hasattr(m, "variance"):
            close([p.measure.mean(), p.measure.variance()],
                  [m.mean(), m.variance()], "moments of the measure")
    x, w = L.nodes(c)
    A = p.polyval(np.arange(n + 1), x)
    close(A.T @ (w[:, None] * A), np.eye(n + 1), "orthonormality", tol=1e-7)
    y = spread(c, rng)
    want = L.peval(c, n, y)
    sc = np.max(np.abs(want))
    close(p.polyval(np.arange(n + 1), y), want, "values of the polynomials",
          tol=1e-8, scale=sc)
    close(p.polyval(ind, y), want[:, ind], "values for a list of degrees",
          tol=1e-8, scale=sc, ind=ind)
    close(p.polyval(np.array(ind), y), want[:, ind],
          "values for an array of degrees", tol=1e-8, scale=sc)
    close(p.polyval(n, y), want[:, n], "values for one degree", tol=1e-8,
          scale=sc)
    close(p.polyval(ind, y[0]), want[:1, ind], "values at one point",
          tol=1e-8, scale=sc)
    one, k = p.one()
    v = np.zeros(len(y))
    for a, i in zip(np.atleast_1d(one), np.atleast_1d(k)):
        v = v + a * np.ravel(p.polyval(int(i), y))
    close(v, np.ones(len(y)), "decomposition of the constant one")
    return n > 0


@P.relation("derivatives", poly_cases(), 1600,
            rule="a non-zero derivative of order at least one")
def derivatives(c):
    p = polys(c)
    n, ind, rng = c["n"], c["ind"], rng_of(c)
    lab(c["law"])
    y = spread(c, rng)
    for k in (1, 2, 3):
        want = L.peval(c, n, y, k)
        sc = np.max(np.abs(want))
        close(p.dn_polyval(k, ind, y), want[:, ind], "derivative", tol=1e-7,
              scale=sc, order=k, ind=ind)
        if k == 1:
            close(p.d_polyval(ind, y), want[:, ind], "first derivative",
                  tol=1e-7, scale=sc, ind=ind)
    close(p.dn_polyval(0, ind, y), L.peval(c, n, y)[:, ind],
          "derivative of order zero", tol=1e-7)
    return max(ind) > 0


@P.relation("coefficients", poly_cases(), 1200,
            rule="a polynomial of degree at least one")
def coefficients(c):
    p = polys(c)
    if isinstance(p, tensap.ShiftedOrthonormalPolynomials):
        p = p.polynomials
        c = dict(c)
        if c["law"] in ("uniform", "lebesgue"):
            c["a"], c["b"] = -1, 1
        elif c["law"] == "normal":
            c["mu"], c["s"] = 0, 1
        else:
            s = np.array(c["x"])
            c["x"] = list((s - s.mean()) / s.std())
    n, ind, rng = c["n"], c["ind"], rng_of(c)
    y = spread(c, rng)
    want = L.peval(c, n, y)
    sc = np.max(np.abs(want)) * 10
    C = p.poly_coeff(ind)
    need(np.ndim(C) == 2 and C.shape == (len(ind), max(ind) + 1),
         "shape of the coefficients", got=np.shape(C), ind=ind)
    V = np.vander(y, C.shape[1], increasing=True)
    close(V @ C.T, want[:, ind], "coefficients of the polynomials", tol=1e-6,
          scale=sc)
    D = p.d_poly_coef(ind)
    V = np.vander(y, max(C.shape[1] - 1, 0), increasing=True) \
        if C.shape[1] > 1 else np.zeros((len(y), 0))
    close(V @ D.T, L.peval(c, n, y, 1)[:, ind],
          "coefficients of the first derivatives", tol=1e-6, scale=sc * 10)
    for k in (1, 2):
        if max(ind) < k:
            continue
        D = p.dn_poly_coeff(k, ind)
        V = np.vander(y, max(ind) + 1 - k, increasing=True)
        close(V @ D.T, L.peval(c, n, y, k)[:, ind],
              "coefficients of the derivatives", tol=1e-6, scale=sc * 10)
    recur, norms = p.recurrence_monic(n)
    need(np.shape(recur) == (2, n + 1) and np.shape(norms) == (n + 1,),
         "shape of the recurrence coefficients and norms")
    X, w = L.nodes(c)
    pm, pk = np.zeros(X.shape), np.ones(X.shape)
    for k in range(n + 1):
        nk = np.sqrt(np.sum(w * pk ** 2))
        close(norms[k], nk, "norm of the monic polynomial", tol=1e-6, k=k)
        close(pk / nk, L.peval(c, n, X)[:, k],
              "monic polynomials given by the recurrence", tol=1e-6,
              scale=np.max(np.abs(L.peval(c, n, X))))
        b = recur[1, k] if k else 0.
        pm, pk = pk, (X - recur[0, k]) * pk - b * pm
    return n > 0


@P.relation("quadrature", poly_cases(kinds=("uniform", "normal", "lebesgue",
                                            "discrete", "empirical")), 1600,
            rule="a rule with at least two points")
def quadrature(c):
    n, rng = c["n"], rng_of(c)
    mu = L.measure(c)
    N = n + 1 if c["law"] != "empirical" else min(n + 1, len(c["x"]) - 1)
    G = mu.gauss_integration_rule(N)
    need(isinstance(G, tensap.IntegrationRule), "type of the rule")
    x, w = np.ravel(G.points), np.ravel(G.weights)
    need(x.size == N and w.size == N, "number of points of the Gauss rule",
         got=x.size, want=N)
    need(np.all(w > 0), "positive weights", got=w)
    need(np.all(np.diff(np.sort(x)) > 0), "distinct points", got=x)
    sup = L.support(c)
    eps = 1e-9 * (1 + max(abs(x)))
    need(x.min() >= sup[0] - eps and x.max() <= sup[1] + eps,
         "points of the Gauss rule in the support", got=x, support=sup)
    X, W = L.nodes(c)
    m, s = np.sum(W * X) / W.sum(), np.std(X) + .5
    for k in range(2 * N):
        got = np.sum(w * ((x - m) / s) ** k)
        want = np.sum(W * ((X - m) / s) ** k)
        sc = np.sum(W * np.abs((X - m) / s) ** k)
        close(got, want, "Gauss rule: polynomials of degree 2N-1 integrated "
              "exactly", tol=1e-8, scale=sc, degree=k, N=N)
        close(G.integrate(lambda z: ((z - m) / s) ** k), want,
              "IntegrationRule.integrate", tol=1e-8, scale=sc)
    if c["law"] in ("uniform", "normal", "discrete", "empirical"):
        R = tensap.IntegrationRule.gauss(mu, N)
        close(R.points, G.points, "IntegrationRule.gauss, points")
        close(R.weights, G.weights, "IntegrationRule.gauss, weights")
        p = mu.orthonormal_polynomials()
        r = np.sort(p.roots(N)) if N <= L.max_degree(c) else None
        if r is not None:
            close(r, np.sort(x), "roots of the polynomial of degree N and "
                  "points of the Gauss rule", tol=1e-7)
    return N > 1


@P.relation("roots", poly_cases(), 800, rule="degree at least two")
def roots(c):
    n = max(1, c["n"])
    if n > L.max_degree(c) and "v" in c:
        raise Discard
    p = polys(c)
    r = p.roots(n)
    need(np.shape(r) == (n,) and np.isrealobj(r), "number of roots", got=r)
    need(np.all(np.diff(r) > 0), "sorted distinct roots", got=r)
    sup = L.support(c)
    need(r[0] > sup[0] and r[-1] < sup[1], "roots inside the support", got=r)
    want = np.roots(L.polynomials(c, n)[0][::-1, n])
    _, m, s = L.polynomials(c, n)
    close(r, np.sort(want.real) * s + m, "roots", tol=1e-6)
    return n > 1


@composite
def moment_cases(draw):
    c = draw(poly_cases())
    m = draw(st.integers(1, 4))
    k = draw(st.integers(1, 3))
    c["idx"] = draw(st.lists(st.lists(st.integers(0, min(c["n"], 4)),
                                      min_size=m, max_size=m),
                             min_size=k, max_size=k))
    c["other"] = draw(st.one_of(st.none(), L.laws(
        kinds=("uniform", "normal", "lebesgue"))))
    return c


@P.relation("moments", moment_cases(), 1600,
            rule="a product of polynomials which are not all constant")
def moments(c):
    p = polys(c)
    n, idx = c["n"], c["idx"]
    o = c["other"] if c["other"] is not None else c
    if o["law"] == "empirical" and max(map(sum, idx)) >= 2 * len(c["x"]):
        raise Discard  # precomputed recurrence: degree below the sample size
    x, w = L.nodes(o)
    V = L.peval(c, n, x)
    want = [np.sum(w * np.prod(V[:, r], 1)) for r in idx]
    sc = max(np.sum(w * np.abs(np.prod(V[:, r], 1))) for r in idx)
    args = () if c["other"] is None else (L.measure(o),)
    lab(c["law"], "own measure" if not args else "measure: " + o["law"],
        "%d factors" % len(idx[0]))
    if args and c["law"] == o["law"]:
        lab("same family")
    close(p.moment(np.array(idx), *args), want, "moments", tol=1e-6, scale=sc,
          idx=idx)
    if len(idx) == 1:
        close(np.ravel(p.moment(np.array(idx[0]), *args)), want,
              "moment of one list of degrees", tol=1e-6, scale=sc)
    if not args:
        if c["law"] == "empirical":
            p = tensap.EmpiricalPolynomials(np.array(c["x"])) \
                if len(c["x"]) % 2 else p.polynomials
            m = p.measure
            x, w = L.nodes(dict(c, x=list(np.ravel(m.sample))))
            V = L.peval(dict(c, x=list(np.ravel(m.sample))), n, x)
            lab("standardized sample")
        else:
            m = L.measure(c)
        close(p.moment(np.array(idx), m), want,
              "moments with respect to the measure given explicitly",
              tol=1e-6, scale=sc)
    ind = c["ind"]
    close(p.mean(np.array(ind), *args), (w @ V)[ind] / w.sum(), "mean",
          tol=1e-6, scale=np.max(np.abs(V)), ind=ind)
    return any(any(r) for r in idx)


@P.relation("random", poly_cases(kinds=("uniform", "normal", "discrete")),
            100, rule="at least two samples")
def random(c):
    p = polys(c)
    ind, rng = c["ind"], rng_of(c)
    N = int(rng.randint(1, 6))
    np.random.seed(rng.randint(2 ** 31))
    f, x = p.random(ind, N)
    need(np.shape(f) == (N, len(ind)) and np.size(x) == N,
         "shape of random evaluations", got=np.shape(f))
    sup = L.support(c)
    need(np.min(x) >= sup[0] - 1e-12 and np.max(x) <= sup[1] + 1e-12,
         "random points in the support", got=x)
    want = L.peval(c, c["n"], x)[:, ind]
    close(f, want, "random evaluations", tol=1e-7, scale=np.max(np.abs(want)))
    o = {"law": "uniform", "a": 2.5, "b": 3.5} if rng.randint(2) else \
        {"law": "discrete", "v": [7, 9.5], "w": None}
    f, x = p.random(ind, N, L.measure(o))
    lab("given measure: " + o["law"])
    sup = L.support(o)
    need(np.min(x) >= sup[0] and np.max(x) <= sup[1],
         "random points in the support of the given measure", got=x)
    want = L.peval(c, c["n"], x)[:, ind]
    close(f, want, "random evaluations at points of the given measure",
          tol=1e-7, scale=np.max(np.abs(want)))
    return N > 1


@composite
def pair_cases(draw):
    a = draw(L.laws())
    b = dict(a) if draw(st.booleans()) else draw(L.laws())
    return {"a": a, "b": b}


def canon(c):
    """Description of the measure up to the way it is given."""
    if "v" in c:
        w = [1] * len(c["v"]) if c["w"] is None else c["w"]
        if c["law"] == "discrete":
            w = [round(x / sum(w), 12) for x in w]
        return (c["law"], tuple(c["v"]), tuple(w))
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v)
                        for k, v in c.items()))


@P.relation("equality", pair_cases(), 800, rule="two different measures")
def equality(c):
    p, q = polys(c["a"]), polys(c["b"])
    if canon(c["a"]) == canon(c["b"]):
        need(bool(p == q), "polynomials of the same measure are equal")
        need(bool(p == p), "polynomials equal to themselves")
        return False
    if c["a"].get("v") and sorted(c["a"]["v"]) == sorted(c["b"].get("v", [])):
        raise Discard
    lab(c["a"]["law"] + "/" + c["b"]["law"])
    need(not bool(p == q), "polynomials of different measures are different")
    need(bool(p != q), "polynomials of different measures (!=)")
    return True


@composite
def canonical_cases(draw):
    return {"ind": draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)),
            "law": draw(L.laws(kinds=("uniform", "normal", "lebesgue")))}


@P.relation("canonical", canonical_cases(), 800,
            rule="a monomial of degree at least one")
def canonical(c):
    ind, rng = c["ind"], rng_of(c)
    mu = L.measure(c["law"])
    p = tensap.CanonicalPolynomials(mu)
    y = rng.uniform(-2, 2, 5)
    i = np.array(ind)
    close(p.polyval(ind, y), y[:, None] ** i, "monomials")
    for k in (1, 2, 3):
        f = np.array([np.prod([a - j for j in range(k)]) for a in ind])
        want = f * y[:, None] ** np.maximum(i - k, 0)
        close(p.dn_polyval(k, ind, y), want, "derivatives of monomials",
              order=k)
        if k == 1:
            close(p.d_polyval(ind, y), want, "first derivatives of monomials")
    x, w = L.nodes(c["law"])
    close(p.moment(i[:, None]), [np.sum(w * x ** a) for a in ind],
          "moments of monomials", tol=1e-8, scale=np.max(np.abs(x)) ** max(ind))
    close(p.mean(i), [np.sum(w * x ** a) / w.sum() for a in ind],
          "means of monomials", tol=1e-8, scale=np.max(np.abs(x)) ** max(ind))
    need(not p.is_orthonormal(), "monomials are not orthonormal")
    a, k = p.one()
    close(np.ravel(a * p.polyval(k, y)), np.ones(5), "one with monomials")
    return max(ind) > 0

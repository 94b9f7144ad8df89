"""T15: random vectors, product measures, discrete measures in R^d."""
import numpy as np
import tensap
from props.common import *
from props import laws as L
from props.t14 import cdf, pdf, mean_var, cdf_any, CONT, RV

P = Prop("T15", "random vectors and product measures", effort=4)


def vector(c):
    m = [L.measure(x) for x in c["laws"]]
    if c.get("form") == "order":
        return tensap.RandomVector(m[0], len(m))
    if c.get("form") == "vector":
        return tensap.RandomVector(tensap.RandomVector(m))
    return tensap.RandomVector(m)


@composite
def vectors(draw, kinds=RV, max_d=4):
    d = draw(st.integers(1, max_d))
    form = draw(st.sampled_from(["list", "list", "order", "vector"]))
    if form == "order":
        laws = [draw(L.laws(kinds=kinds))] * d
    else:
        laws = [draw(L.laws(kinds=kinds)) for _ in range(d)]
    return {"laws": laws, "form": form, "n": draw(st.integers(1, 5))}


def points(c, rng, n):
    out = []
    for a in c["laws"]:
        x, _ = L.nodes(a, 8)
        out.append(rng.uniform(min(x) - .5, max(x) + .5, n))
    return np.transpose(out)


class FGM:
    """Farlie-Gumbel-Morgenstern copula in dimension two."""

    def __init__(self, theta, column):
        self.theta, self.column = theta, column

    def pdf(self, u):
        p = 1 + self.theta * np.prod(1 - 2 * u, 1)
        return p[:, None] if self.column else p

    def cdf(self, u):
        return np.prod(u, 1) * (1 + self.theta * np.prod(1 - u, 1))


@P.relation("functions", vectors(kinds=CONT), 1000, rule="dimension at least two")
def functions(c):
    X, rng = vector(c), rng_of(c)
    d, n = len(c["laws"]), c["n"]
    lab(c["form"], "dimension %d" % d)
    need(X.size == d and X.ndim() == d and X.mass() == 1,
         "size, dimension and mass")
    x = points(c, rng, n)
    F = np.transpose([cdf(a, x[:, i]) for i, a in enumerate(c["laws"])])
    f = np.transpose([pdf(a, x[:, i]) for i, a in enumerate(c["laws"])])
    if d == 2 and rng.randint(2):
        lab("dependent")
        cop = FGM(rng.uniform(-1, 1), rng.randint(2))
        X = tensap.RandomVector([L.measure(a) for a in c["laws"]], copula=cop)
        wp = f.prod(1) * np.ravel(cop.pdf(F))
        wc = cop.cdf(F)
    else:
        wp, wc = f.prod(1), F.prod(1)
    for z, what in ((x, "array"), ([x[:, i] for i in range(d)], "list")):
        got = X.pdf(z)
        need(np.shape(got) == (n,), "shape of the pdf", got=np.shape(got),
             form=what)
        close(got, wp, "pdf of a random vector", form=what)
        close(np.ravel(X.cdf(z)), wc, "cdf of a random vector", form=what)
    return d > 1


@P.relation("structure", vectors(), 1000,
            rule="at least two different components")
def structure(c):
    X, rng = vector(c), rng_of(c)
    d, laws = len(c["laws"]), c["laws"]
    mv = [mean_var(a) for a in laws]
    lab("mixed" if len(set(a["law"] == "discrete" for a in laws)) > 1 else
        "not mixed")
    close(np.ravel(X.mean()), [m for m, _ in mv], "mean")
    if all(a["law"] != "empirical" for a in laws):
        close(np.ravel(X.variance()), [s for _, s in mv], "variance",
              scale=max(m * m + s for m, s in mv))
        close(np.ravel(X.std()) ** 2, [s for _, s in mv],
              "standard deviation", scale=max(m * m + s for m, s in mv))
    for i, s in enumerate(X.support()):
        L.same_support(s, laws[i], "support")
    need(len(X.truncated_support()) == d, "truncated support")
    perm = [int(i) for i in rng.permutation(d)]
    sub = perm[:rng.randint(1, d + 1)]
    for Y, k, what in ((X.transpose(perm), perm, "transpose"),
                       (X.transpose(np.array(perm)), perm, "transpose"),
                       (X.marginal(sub), sub, "marginal"),
                       (X.marginal(sub[0]), sub[:1], "marginal of one index")):
        need(isinstance(Y, tensap.RandomVector) and Y.size == len(k),
             "size after " + what, got=Y.size)
        need(all(bool(y == L.measure(laws[i])) for y, i in
                 zip(Y.random_variables, k)), "components after " + what, k=k)
    need(X == vector(c), "a random vector equals itself")
    if d > 1:
        need(not bool(X == X.marginal(list(range(d - 1)))),
             "vectors of different sizes are different")
    Y = vector(c)
    Y.random_variables[d - 1] = tensap.UniformRandomVariable(41, 42)
    need(not bool(X == Y) and bool(X != Y), "different vectors")
    given = [L.measure(a) for a in laws]
    Z = tensap.RandomVector(given)
    given[0] = tensap.UniformRandomVariable(41, 42)
    need(bool(X == Z), "vector built from a list which is modified later")
    Z = tensap.RandomVector(X)
    Z.random_variables[0] = tensap.UniformRandomVariable(41, 42)
    need(bool(X == vector(c)), "vector from which another one, modified "
         "later, was built")
    p = X.orthonormal_polynomials()
    q = X.orthonormal_polynomials(2) \
        if all(L.max_degree(a) >= 2 for a in laws) else p
    for i, a in enumerate(laws):
        k = min(2, L.max_degree(a))
        y = rng.uniform(-1, 1, 3)
        want = L.peval(a, k, y)
        close(p[i].polyval(np.arange(k + 1), y), want,
              "orthonormal polynomials", tol=1e-8, component=i)
        close(q[i].polyval(np.arange(k + 1), y), want,
              "orthonormal polynomials with a given degree", tol=1e-8)
    return len(set(map(str, laws))) > 1


@composite
def transfers(draw):
    c = draw(vectors(kinds=CONT))
    d = len(c["laws"])
    if draw(st.integers(0, 3)) == 0:
        c["to"] = draw(L.laws(kinds=RV))
    else:
        c["to"] = [draw(L.laws(kinds=RV)) for _ in range(d)]
    return c


@P.relation("transfer", transfers(), 500, rule="dimension at least two")
def transfer(c):
    X, rng = vector(c), rng_of(c)
    d, n, to = len(c["laws"]), c["n"], c["to"]
    u = rng.uniform(.02, .98, (n, d))
    x = np.transpose([np.ravel(r.icdf(u[:, i])) for i, r in
                      enumerate(X.random_variables)])
    x = x.reshape(n, d)
    if isinstance(to, dict):
        Y, to = L.measure(to), [to] * d
    else:
        Y = tensap.RandomVector([L.measure(a) for a in to])
    y = X.transfer(Y, x if rng.randint(2) else [x[:, i] for i in range(d)])
    need(np.shape(y) == (n, d), "shape of the transferred points",
         got=np.shape(y))
    for i, a in enumerate(to):
        if a["law"] == "discrete":
            v = np.sort(a["v"])
            S = cdf(a, v)
            if np.min(np.abs(S[:, None] - u[:, i])) < 1e-9:
                raise Discard
            same(y[:, i], v[np.searchsorted(S, u[:, i])],
                 "transfer to a discrete component")
        else:
            close(cdf(a, y[:, i]), u[:, i], "probabilities after transfer",
                  tol=1e-7, component=i)
    return d > 1


@composite
def random_cases(draw):
    c = draw(vectors(kinds=("uniform", "normal", "discrete")))
    c["n"] = draw(st.sampled_from([1, 2, 5, 1500]))
    c["seed"] = draw(st.integers(0, 2 ** 31 - 1))
    c["cells"] = draw(st.lists(st.integers(1, 4), min_size=4, max_size=4))
    return c


@P.relation("random", random_cases(), 400, rule="dimension at least two")
def random(c):
    X = vector(c)
    d, n, laws = len(c["laws"]), c["n"], c["laws"]
    np.random.seed(c["seed"])
    x = X.random(n)
    need(np.shape(x) == (n, d), "shape of the sample", got=np.shape(x))
    eps = np.sqrt(18 / n)
    for i, a in enumerate(laws):
        s = L.support(a)
        need(np.min(x[:, i]) >= s[0] and np.max(x[:, i]) <= s[1],
             "sample inside the support", component=i)
        t = np.sort(a["v"]) if "v" in a else np.sort(x[:, i])[::max(1, n // 30)]
        F = np.mean(x[:, i][:, None] <= t, 0)
        need(np.max(np.abs(F - cdf(a, t))) <= eps,
             "distribution of a component", component=i)
    if n > 1000 and d > 1:
        U = np.transpose([cdf(a, x[:, i]) for i, a in enumerate(laws)])
        U = U - U.mean(0)
        if np.all(U.std(0) > 0):
            R = np.corrcoef(U.T)
            need(np.max(np.abs(R - np.eye(d))) < 9 / np.sqrt(n),
                 "independent components", got=R)
    if all(a["law"] != "discrete" for a in laws):
        k = min(n, 20)
        y = X.lhs_random(k)
        need(np.shape(y) == (k, d), "shape of the Latin hypercube sample",
             got=np.shape(y))
        for i, a in enumerate(laws):
            same(np.sort(np.floor(k * cdf(a, y[:, i]))), np.arange(k),
                 "one point of the Latin hypercube sample in each interval")
        m = c["cells"][:d]
        for arg, want in ((np.array(m), m), (m[0], [m[0]] * d)):
            g = X.iso_probabilistic_grid(arg)
            for i in range(d):
                z = np.ravel(g.grids[i])
                need(z.size == want[i] + 1, "size of the grid", got=z)
                close(np.diff(cdf(laws[i], z)), np.full(want[i], 1 / want[i]),
                      "iso-probabilistic grid", tol=1e-8)
        g = X.iso_probabilistic_grid(1 / 2 ** d - 1e-12)
        need(min(np.size(z) for z in g.grids) >= 3,
             "grid given by the probability of the cells")
        q = rng_of(c).uniform(.02, .95)
        n = [np.size(z) - 1 for z in X.iso_probabilistic_grid(q).grids]
        need(n == [n[0]] * d and n[0] ** -d <= q * (1 + 1e-9) and
             (n[0] - 1) ** d < 1 / q * (1 + 1e-9),
             "cells of at most the given probability", got=n, probability=q)
    return d > 1


# -- product measures --

@composite
def product_cases(draw):
    d = draw(st.integers(1, 3))
    kinds = ("uniform", "normal", "lebesgue", "discrete")
    laws = [draw(L.laws(kinds=kinds)) for _ in range(d)]
    if draw(st.integers(0, 4)) == 0:
        laws = [laws[0]] * d
    return {"laws": laws, "n": [draw(st.integers(1, 4)) for _ in range(d)],
            "scalar": draw(st.booleans()),
            "seed": draw(st.integers(0, 2 ** 31 - 1))}


@P.relation("product_measure", product_cases(), 1000,
            rule="at least two components")
def product_measure(c):
    laws, rng = c["laws"], rng_of(c)
    d = len(laws)
    ms = [L.measure(a) for a in laws]
    prob = all(a["law"] != "lebesgue" for a in laws)
    if prob and rng.randint(2):
        lab("from a random vector")
        M = tensap.ProductMeasure(tensap.RandomVector(ms))
    elif all(a == laws[0] for a in laws):
        lab("duplicate")
        M = tensap.ProductMeasure.duplicate(ms[0], d)
    else:
        M = tensap.ProductMeasure(ms)
    close(M.mass(), np.prod([L.mass(a) for a in laws]), "mass")
    need(M.ndim() == d, "ndim")
    need(bool(M.is_discrete()) == all(a["law"] == "discrete" for a in laws),
         "is_discrete")
    for i, s in enumerate(M.support()):
        L.same_support(s, laws[i], "support")
    need(len(M.truncated_support()) == d, "truncated support")
    need(bool(M == tensap.ProductMeasure(ms)), "equality of product measures")
    need(not bool(M == tensap.ProductMeasure(
        ms + [tensap.UniformRandomVariable()])) and not bool(
        tensap.ProductMeasure(ms + [tensap.UniformRandomVariable()]) == M),
         "product measures of different dimensions are different")
    j = rng.randint(d)
    need(not bool(M == tensap.ProductMeasure(
        ms[:j] + [tensap.UniformRandomVariable(51, 52)] + ms[j + 1:])),
         "product measures with a different component are different")
    need(not bool(M == ms[0]), "a product measure is not one of its components")
    sub = [int(i) for i in rng.permutation(d)][:rng.randint(1, d + 1)]
    N = M.marginal(sub)
    need(len(N.measures) == len(sub) and all(
        bool(N.measures[k] == ms[i]) for k, i in enumerate(sub)), "marginal",
        sub=sub)
    np.random.seed(c["seed"])
    x = M.random(6)
    need(np.shape(x) == (6, d), "shape of the sample", got=np.shape(x))
    for i, a in enumerate(laws):
        s = L.support(a)
        need(np.min(x[:, i]) >= s[0] and np.max(x[:, i]) <= s[1],
             "sample inside the support", component=i)
    if prob:
        X = M.random_vector()
        need(isinstance(X, tensap.RandomVector) and X == tensap.RandomVector(ms),
             "random vector of a product measure")
    n = c["n"] if not c["scalar"] else [c["n"][0]] * d
    if any(a["law"] == "discrete" and k > len(a["v"])
           for a, k in zip(laws, n)):
        return False
    G = M.gauss_integration_rule(c["n"][0] if c["scalar"] else n)
    J = G.integration_rule() if hasattr(G, "integration_rule") else G
    need(np.shape(J.points) == (prod(n), d), "points of the Gauss rule",
         got=np.shape(J.points))
    ex = [int(rng.randint(0, 2 * k)) for k in n]
    want = sc = 1.
    for a, e in zip(laws, ex):
        y, w = L.nodes(a)
        want *= np.sum(w * y ** e)
        sc *= np.sum(w * np.abs(y) ** e)
    f = lambda z: np.prod(z ** np.array(ex), 1)
    close(np.sum(np.ravel(J.weights) * f(J.points)), want,
          "exactness of the tensor Gauss rule", tol=1e-8, scale=sc,
          exponents=ex)
    close(G.integrate(f), want, "integrate", tol=1e-8, scale=sc)
    return d > 1


# -- discrete measures in R^d --

@composite
def multi_discrete(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 6))
    return {"d": d, "n": n, "seed": draw(st.integers(0, 10 ** 6)),
            "w": draw(st.one_of(st.none(), st.lists(
                st.integers(1, 5), min_size=n, max_size=n))),
            "N": draw(st.sampled_from([1, 3, 1500]))}


@P.relation("discrete_measures", multi_discrete(), 600,
            rule="at least two values in dimension at least two")
def discrete_measures(c):
    d, n, N = c["d"], c["n"], c["N"]
    rng = np.random.RandomState(c["seed"])
    v = rng.randint(-5, 6, (n, d)) + np.arange(n)[:, None] * .01
    w = np.ones(n) if c["w"] is None else np.array(c["w"], dtype=float)
    lab("dimension %d" % d)
    M = tensap.DiscreteMeasure(v, c["w"])
    X = tensap.DiscreteRandomVariable(v, None if c["w"] is None
                                      else w / w.sum())
    need(M.ndim() == d, "ndim")
    close(M.mass(), w.sum(), "mass")
    p = w / w.sum()
    for Z, what in ((M, "measure"), (X, "random variable")):
        same(np.reshape(Z.support(), (2, d)), [v.min(0), v.max(0)],
             "support of a discrete " + what)
        need(Z.is_discrete(), "is_discrete")
        R = Z.integration_rule()
        y = w if what == "measure" else p
        close(np.ravel(R.integrate(lambda x: x[:, 0] ** 2 - x[:, -1])),
              [np.sum(y * (v[:, 0] ** 2 - v[:, -1]))],
              "integration with respect to a discrete " + what)
        np.random.seed(c["seed"])
        x = Z.random(N)
        need(np.shape(x) == ((N,) if d == 1 else (N, d)),
             "shape of the sample of a discrete " + what, got=np.shape(x))
        x = np.reshape(x, (N, d))
        E = np.all(x[:, None, :] == v, 2)
        need(np.all(E.sum(1) == 1), "sample among the values")
        need(np.max(np.abs(E.mean(0) - p)) <= np.sqrt(18 / N),
             "frequencies of the values of a discrete " + what,
             got=E.mean(0), want=p)
        need(bool(Z == Z), "equal to itself")
    close(np.ravel(X.mean()), p @ v, "mean in R^d")
    close(np.ravel(X.variance()), p @ v ** 2 - (p @ v) ** 2, "variance in R^d",
          scale=np.max(v ** 2) + 1)
    need(not bool(M == tensap.DiscreteMeasure(v + 1, c["w"])) and not bool(
        M == tensap.DiscreteMeasure(v, w + 1)), "different discrete measures")
    return d > 1 and n > 1


@composite
def index_cases(draw):
    d = draw(st.integers(1, 4))
    if draw(st.booleans()):
        return {"shape": [draw(st.integers(1, 5)) for _ in range(d)]}
    return {"shape": [draw(st.lists(st.integers(-4, 9), min_size=1,
                                    max_size=4, unique=True))
                      for _ in range(d)], "array": draw(st.booleans())}


@P.relation("multi_indices", index_cases(), 400, rule="dimension at least two")
def multi_indices(c):
    shape = c["shape"]
    d = len(shape)
    if isinstance(shape[0], list):
        arg = [np.array(s) for s in shape] if c["array"] else \
            [list(s) for s in shape]
        vals = shape
    else:
        arg, vals = list(shape), [list(range(s)) for s in shape]
    ref = [np.array(a) for a in arg]
    X = tensap.random_multi_indices(arg)
    need(len(arg) == d and all(np.array_equal(a, b) for a, b in
                               zip(arg, ref)),
         "the argument of random_multi_indices is unchanged", got=str(arg))
    need(isinstance(X, tensap.RandomVector) and X.size == d, "random vector")
    for i, r in enumerate(X.random_variables):
        same(np.sort(np.ravel(r.values)), np.sort(vals[i]), "values")
        close(r.probabilities, np.full(len(vals[i]), 1 / len(vals[i])),
              "uniform probabilities")
    x = X.random(7)
    need(np.shape(x) == (7, d), "shape of the sample", got=np.shape(x))
    need(all(set(x[:, i]) <= set(vals[i]) for i in range(d)),
         "sample among the multi-indices")
    return d > 1

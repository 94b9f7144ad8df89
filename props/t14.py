"""T14: random variables."""
import numpy as np
import scipy.stats as ss
import tensap
from props.common import *
from props import laws as L

P = Prop("T14", "random variables", effort=2.5)
RV = ("uniform", "normal", "discrete", "empirical")
CONT = ("uniform", "normal", "empirical")


def atoms(c):
    """Sorted values and probabilities of a discrete law."""
    v = np.array(c["v"], dtype=float)
    w = np.ones(v.size) if c["w"] is None else np.array(c["w"], dtype=float)
    o = np.argsort(v)
    return v[o], (w / w.sum())[o]


def cdf(c, x):
    x = np.asarray(x, dtype=float)
    k = c["law"]
    if k == "uniform":
        return np.clip((x - c["a"]) / (c["b"] - c["a"]), 0, 1)
    if k == "normal":
        return ss.norm.cdf((x - c["mu"]) / c["s"])
    if k == "empirical":
        s = np.array(c["x"], dtype=float)
        return ss.norm.cdf((x[..., None] - s) / L.bandwidth(s)).mean(-1)
    v, p = atoms(c)
    return ((x[..., None] >= v) * p).sum(-1)


def pdf(c, x):
    x = np.asarray(x, dtype=float)
    k = c["law"]
    if k == "uniform":
        return ((x >= c["a"]) & (x <= c["b"])) / (c["b"] - c["a"])
    if k == "normal":
        return ss.norm.pdf((x - c["mu"]) / c["s"]) / c["s"]
    s = np.array(c["x"], dtype=float)
    h = L.bandwidth(s)
    return ss.norm.pdf((x[..., None] - s) / h).mean(-1) / h


def mean_var(c):
    x, w = L.nodes(c)
    m = np.sum(x * w)
    return m, np.sum(w * (x - m) ** 2)


def spread(c, rng, k):
    x, w = L.nodes(c, 8)
    lo, hi = min(x), max(x)
    e = .2 * (hi - lo + 1)
    return rng.uniform(lo - e, hi + e, k)


@composite
def rv_cases(draw, **kw):
    c = draw(L.laws(**{"kinds": RV, **kw}))
    c["shape"] = draw(st.sampled_from([[], [1], [4], [2, 3], [3, 1]]))
    return c


def shaped(z, c):
    z = z[:prod(c["shape"])].reshape(c["shape"])
    return z if c["shape"] else float(z)


def size_of(c):
    return prod(c["shape"])


@P.relation("functions", rv_cases(), 2000,
            rule="at least two points")
def functions(c):
    X, rng = L.measure(c), rng_of(c)
    n = size_of(c)
    lab(c["law"], "%d-d points" % len(c["shape"]))
    x = shaped(spread(c, rng, n), c)
    F = cdf(c, x)
    got = X.cdf(x)
    close(np.ravel(got), np.ravel(F), "cdf", x=x)
    if c["shape"]:
        need(np.shape(got) == np.shape(x), "shape of the cdf",
             got=np.shape(got))
    if c["law"] != "discrete":
        close(np.ravel(X.pdf(x)), np.ravel(pdf(c, x)), "pdf", x=x)
        close(X.likelihood(x), np.sum(np.log(pdf(c, x) + np.finfo(float).eps)),
              "log-likelihood", tol=1e-8)
    u = rng.uniform(.01, .99, n)
    if c["law"] == "discrete":
        v, p = atoms(c)
        S = np.cumsum(p)
        u = np.array([z for z in u if np.min(np.abs(S - z)) > 1e-9])
        if u.size < n:
            raise Discard
    u = shaped(u, c)
    q = X.icdf(u)
    if c["shape"]:
        need(np.shape(q) == np.shape(u), "shape of the icdf", got=np.shape(q))
    q = np.ravel(q)
    if c["law"] == "discrete":
        i = np.searchsorted(S, np.ravel(u))
        same(q, v[i], "quantiles of a discrete law", u=u)
        same(np.ravel(X.icdf(1.)), [v[-1]], "quantile of probability one")
        close(X.cdf(v), S, "cdf at the values of a discrete law")
        if np.all(S * 64 == np.round(S * 64)):      # sums without rounding
            lab("exact probabilities")
            same(np.ravel(X.icdf(S)), v, "quantiles at the jumps of the cdf")
    else:
        close(cdf(c, q), np.ravel(u), "cdf of the quantiles", tol=1e-8)
        if c["law"] == "uniform":
            close(X.icdf(np.array([0., 1.])), [c["a"], c["b"]],
                  "extreme quantiles")
    return n > 1


@P.relation("statistics", rv_cases(), 1000, rule="a positive variance")
def statistics(c):
    X, rng = L.measure(c), rng_of(c)
    lab(c["law"])
    m, s2 = mean_var(c)
    close(np.ravel(X.mean()), [m], "mean")
    if c["law"] != "empirical":
        close(np.ravel(X.variance()), [s2], "variance", scale=m ** 2 + s2)
        if s2 > 0:
            close(np.ravel(X.std()), [np.sqrt(s2)], "standard deviation",
                  tol=1e-7)
    need(X.mass() == 1, "mass of a probability measure")
    need(X.ndim() == 1, "ndim")
    need(X.is_discrete() if c["law"] == "discrete" else True, "is_discrete")
    sup = L.support(c)
    same(np.ravel(X.support()), sup, "support")
    need(X.min() == sup[0] and X.max() == sup[1], "min and max")
    if c["law"] != "discrete":
        p = 1 - 10. ** -rng.randint(1, 12)
        for q in (p, None):
            t = X.truncated_support() if q is None else X.truncated_support(q)
            a, b = float(t[0]), float(t[1])
            need(sup[0] <= a < b <= sup[1] and np.isfinite(b - a),
                 "truncated support inside the support", got=t)
            need(cdf(c, b) - cdf(c, a) >= (q or 1 - 1e-12) - 1e-10,
                 "probability of the truncated support", got=t, p=q)
        same(np.ravel(X.support()), sup, "support unchanged by truncation")
    if s2 > 0:
        Y = X.get_standard_random_variable()
        need(type(Y) is type(X), "type of the standard random variable")
        close(np.ravel(Y.mean()), [0.], "mean of the standard random variable",
              scale=1)
        if c["law"] == "normal" or c["law"] == "discrete":
            close(np.ravel(Y.std()), [1.], "standard deviation of the "
                  "standard random variable", tol=1e-7)
        if c["law"] == "uniform":
            same(np.ravel(Y.support()), [-1, 1], "standard uniform")
    return s2 > 0


@composite
def moment_cases(draw):
    c = draw(L.laws(kinds=RV))
    top = min(7, 2 * len(c["x"]) - 1) if "x" in c else 7
    c["k"] = draw(st.lists(st.integers(0, top), min_size=1, max_size=4))
    c["k2"] = draw(st.lists(st.integers(0, top), min_size=1, max_size=3))
    return c


@P.relation("moments", moment_cases(), 1000,
            rule="a moment of order at least one")
def moments(c):
    X = L.measure(c)
    x, w = L.nodes(c)
    lab(c["law"])

    def check(Z, k, what):
        want = [np.sum(w * x ** i) for i in k]
        sc = np.sum(w * np.abs(x) ** max(k)) + 1
        close(np.ravel(Z.moment(np.array(k))), want, what, tol=1e-7, scale=sc,
              k=k)

    check(X, c["k"], "moments")
    stored = np.array(X.moments)
    out, Y = X.moment(np.array(c["k"]), nargout=2)
    close(np.ravel(out), np.ravel(X.moment(np.array(c["k"]))),
          "moments returned with the random variable")
    check(Y, c["k2"], "moments after storing moments in the random variable")
    check(Y, c["k"], "stored moments")
    same(X.moments, stored, "stored moments of the original random variable")
    check(X, c["k2"], "moments of the original random variable")
    return max(c["k"]) > 0


@composite
def disc_cases(draw):
    c = draw(L.laws(kinds=CONT))
    c["n"] = draw(st.integers(1, 9))
    return c


@P.relation("discretization", disc_cases(), 800,
            rule="at least two values")
def discretization(c):
    X, n, rng = L.measure(c), c["n"], rng_of(c)
    lab(c["law"])
    g = np.ravel(X.iso_probabilistic_grid(n))
    need(g.size == n + 1, "size of the iso-probabilistic grid", got=g, n=n)
    sup = L.support(c)
    need(g[0] == sup[0] and g[-1] == sup[1], "ends of the grid", got=g)
    close(np.diff(cdf(c, g)), np.full(n, 1 / n), "iso-probabilistic grid",
          tol=1e-8)
    if n > 1:
        close(np.ravel(X.iso_probabilistic_grid(1 / n))[1:-1], g[1:-1],
              "grid given by the probability of the cells", n=n)
    D = X.discretize(n)
    need(isinstance(D, tensap.DiscreteRandomVariable), "type of discretize")
    v = np.ravel(D.values)
    close(cdf(c, v), (np.arange(n) + .5) / n, "quantiles of discretize",
          tol=1e-8)
    close(D.probabilities, np.full(n, 1 / n), "probabilities of discretize")
    if rng.randint(2):
        lab("given values")
        x = np.sort(spread(c, rng, n))
        D = X.discretize_support(x)
    else:
        a, b = sorted(spread(c, rng, 2))
        x = a + (b - a) * (np.arange(n) + .5) / n
        D = X.discretize_support(n, [a, b])
        E = X.discretize_support(n)
        need(np.size(E.values) == n, "number of values of discretize_support")
        t = X.truncated_support()
        close(np.ravel(E.values), t[0] + (t[1] - t[0]) * (np.arange(n) + .5)
              / n, "values of discretize_support")
    close(np.ravel(D.values), x, "values of discretize_support")
    v = np.concatenate(([-np.inf], (x[1:] + x[:-1]) / 2, [np.inf]))
    close(D.probabilities, np.diff(cdf(c, v)),
          "probabilities of discretize_support", tol=1e-8)
    return n > 1


@composite
def pair_cases(draw):
    a = draw(L.laws(kinds=CONT))
    b = draw(st.one_of(L.laws(kinds=RV), st.just("same"),
                       st.just("standard")))
    return {"a": a, "b": b}


@P.relation("transfer", pair_cases(), 800,
            rule="two different random variables")
def transfer(c):
    X, rng = L.measure(c["a"]), rng_of(c)
    a, b = c["a"], c["b"]
    u = rng.uniform(.02, .98, 4)
    x = np.array([float(q) for q in np.ravel(X.icdf(u))])
    if b == "standard":
        Y = X.get_standard_random_variable()
        b = dict(a)
        if a["law"] == "empirical":
            b["x"] = [float(v) for v in np.ravel(Y.sample)]
        else:
            b.update({"a": -1, "b": 1} if a["law"] == "uniform" else
                     {"mu": 0, "s": 1})
        lab("standard")
    else:
        b = a if b == "same" else b
        Y = L.measure(b)
    lab(a["law"] + " to " + b["law"])
    y = np.ravel(X.transfer(Y, x))
    if b["law"] == "discrete":
        v, p = atoms(b)
        S = np.cumsum(p)
        if np.min(np.abs(S[:, None] - u)) < 1e-9:
            raise Discard
        same(y, v[np.searchsorted(S, u)], "transfer to a discrete variable")
    else:
        close(cdf(b, y), u, "probabilities after transfer", tol=1e-7)
    return a != b


@composite
def shift_cases(draw):
    c = draw(L.laws(kinds=("uniform", "normal", "empirical", "lebesgue")))
    c["bias"] = draw(st.integers(-4, 4)) / 2
    c["scaling"] = draw(st.integers(1, 6)) / 2
    return c


@P.relation("shift", shift_cases(), 400, rule="not the identity")
def shift(c):
    X, b, s = L.measure(c), c["bias"], c["scaling"]
    Y = X.shift(b, s)
    lab(c["law"])
    if c["law"] in ("uniform", "lebesgue"):
        close(np.ravel(Y.support()), [s * c["a"] + b, s * c["b"] + b],
              "support of the shifted measure")
        close(Y.mass(), s * (c["b"] - c["a"]) if c["law"] == "lebesgue" else 1,
              "mass of the shifted measure")
    elif c["law"] == "normal":
        close(Y.get_parameters(), [c["mu"] + b, c["s"] * s],
              "parameters of the shifted normal variable")
    else:
        close(Y.sample, s * np.array(c["x"]) + b, "shifted sample")
    need(type(Y) is type(X), "type of the shifted measure")
    if c["law"] != "empirical":
        need(X == L.measure(c), "the measure is unchanged")
    return b != 0 or s != 1


@composite
def random_cases(draw):
    c = draw(L.laws(kinds=RV + ("lebesgue", "dmeasure")))
    c["seed"] = draw(st.integers(0, 2 ** 31 - 1))
    c["n"] = draw(st.sampled_from([1, 2, 7, 2000, 2000]))
    if c["law"] == "empirical":
        c["n"] = min(c["n"], 150)
    return c


def cdf_any(c, x):
    if c["law"] == "lebesgue":
        c = dict(c, law="uniform")
    if c["law"] == "dmeasure":
        c = dict(c, law="discrete")
    return cdf(c, x)


@P.relation("random", random_cases(), 300, rule="at least 100 samples")
def random(c):
    X, n = L.measure(c), c["n"]
    lab(c["law"])
    np.random.seed(c["seed"])
    x = X.random(n)
    need(np.shape(x) == (n,), "shape of the sample", got=np.shape(x), n=n)
    sup = L.support(c)
    need(np.min(x) >= sup[0] and np.max(x) <= sup[1],
         "sample inside the support", got=x)
    if "v" in c:
        need(set(x) <= set(map(float, c["v"])), "values of the sample")
        pts = np.sort(c["v"])
    else:
        pts = np.sort(x)[::max(1, n // 50)]
    F = np.mean(x[:, None] <= pts, 0)
    # Dvoretzky-Kiefer-Wolfowitz: exceeded with a probability below 1e-15
    eps = np.sqrt(18 / n)
    need(np.max(np.abs(F - cdf_any(c, pts))) <= eps,
         "distribution of the sample",
         got=float(np.max(np.abs(F - cdf_any(c, pts)))), bound=eps)
    if c["law"] in CONT:
        y = np.ravel(X.lhs_random(min(n, 50)))
        n = min(n, 50)
        need(y.size == n, "number of points of the Latin hypercube sample")
        k = np.floor(n * cdf(c, y))
        same(np.sort(k), np.arange(n), "one point of the Latin hypercube "
             "sample in each of the n intervals of equal probability")
    return c["n"] >= 100


@composite
def eq_cases(draw):
    a = draw(L.laws(kinds=RV + ("lebesgue", "dmeasure")))
    b = dict(a) if draw(st.booleans()) else \
        draw(L.laws(kinds=RV + ("lebesgue", "dmeasure")))
    if b == a and "v" in a and draw(st.booleans()):
        b = dict(a, v=a["v"] + [9.5], w=None)
        a = dict(a, w=None)
    return {"a": a, "b": b}


def canon(c):
    if "v" in c:
        w = [1] * len(c["v"]) if c["w"] is None else c["w"]
        if c["law"] == "discrete":
            w = [round(x / sum(w), 12) for x in w]
        return (c["law"], tuple(c["v"]), tuple(w))
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v)
                        for k, v in c.items()))


@P.relation("equality", eq_cases(), 500, rule="two different measures")
def equality(c):
    a, b = c["a"], c["b"]
    X, Y = L.measure(a), L.measure(b)
    lab(a["law"] + "/" + b["law"])
    if canon(a) == canon(b):
        need(bool(X == Y), "equal measures")
        need(not bool(X != Y), "equal measures (!=)")
        return False
    if "v" in a and "v" in b and sorted(a["v"]) == sorted(b["v"]):
        raise Discard
    need(not bool(X == Y) and not bool(Y == X), "different measures (==)")
    need(bool(X != Y), "different measures (!=)")
    return True

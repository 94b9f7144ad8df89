"""T12: integers in base b and tensorization of functions."""
import numpy as np
import scipy.stats as ss
import tensap
from props.common import *

P = Prop("T12", "base-b representations and tensorized functions", effort=4)


def digits(i, b, d):
    out = []
    for _ in range(d):
        out.append(i % b)
        i //= b
    return out[::-1]


@composite
def integer_sets(draw):
    b = draw(st.integers(2, 7))
    d = draw(st.integers(1, 8 if b < 4 else 6))
    top = b ** d - 1
    pool = st.one_of(
        st.integers(0, top),
        st.builds(lambda k, e: min(max(b ** k + e, 0), top),
                  st.integers(0, d), st.integers(-1, 1)))
    return {"b": b, "d": d, "i": draw(st.lists(pool, min_size=1, max_size=6)),
            "form": draw(st.sampled_from(["list", "array", "scalar"]))}


@P.relation("integers", integer_sets(), 1500,
            rule="an integer greater than zero")
def integers(c):
    b, d, ii = c["b"], c["d"], c["i"]
    if c["form"] == "scalar":
        arg, ii = ii[0], ii[:1]
    else:
        arg = ii if c["form"] == "list" else np.array(ii)
    lab("max=b^k-1" if any(max(ii) == b ** k - 1 for k in range(d + 1)) else
        "other max")
    got = tensap.integer2baseb(arg, b, d)
    same(got, [digits(i, b, d) for i in ii], "integer2baseb", i=ii, b=b, d=d)
    same(tensap.baseb2integer(got, b), ii, "baseb2integer(integer2baseb)")
    dmin = 1
    while b ** dmin <= max(ii):
        dmin += 1
    same(tensap.integer2baseb(arg, b), [digits(i, b, dmin) for i in ii],
         "integer2baseb with the minimal number of digits", i=ii, b=b)
    rng = rng_of(c)
    A = rng.randint(0, b, size=(4, d))
    want = [sum(int(x) * b ** (d - 1 - k) for k, x in enumerate(r)) for r in A]
    same(tensap.baseb2integer(A, b), want, "baseb2integer", A=A, b=b)
    same(tensap.baseb2integer(A.tolist(), b), want, "baseb2integer of a list")
    same(tensap.baseb2integer(A[0], b), want[:1], "baseb2integer of one row")
    same(tensap.integer2baseb(want, b, d), A, "integer2baseb(baseb2integer)")
    raises(lambda: tensap.integer2baseb([b ** d], b, d),
           "integer2baseb of an integer out of range")
    return max(ii) > 0


LAWS = ["u01", "unif", "norm"]


@composite
def law(draw, kinds=tuple(LAWS)):
    k = draw(st.sampled_from(list(kinds)))
    if k == "unif":
        a = draw(st.integers(-4, 3))
        return [k, a, a + draw(st.integers(1, 5))]
    if k == "norm":
        return [k, draw(st.integers(-2, 2)), draw(st.integers(1, 3))]
    return [k]


def rv(spec):
    k = spec[0]
    if k == "u01":
        return tensap.UniformRandomVariable(0, 1)
    if k == "unif":
        return tensap.UniformRandomVariable(spec[1], spec[2])
    return tensap.NormalRandomVariable(spec[1], spec[2])


def ref(spec):
    k = spec[0]
    if k == "u01":
        return ss.uniform(0, 1)
    if k == "unif":
        return ss.uniform(spec[1], spec[2] - spec[1])
    return ss.norm(spec[1], spec[2])


@composite
def tensorizers(draw, max_b=5):
    dim = draw(st.integers(1, 3))
    b = draw(st.integers(2, max_b))
    d = draw(st.integers(1, 5 if b < 4 else 3))
    mode = draw(st.sampled_from(["default", "same", "each"]))
    n = 0 if mode == "default" else 1 if mode == "same" else dim
    return {"dim": dim, "b": b, "d": d, "mode": mode,
            "X": [draw(law()) for _ in range(n)],
            "Y": [draw(law()) for _ in range(n)],
            "order": draw(st.sampled_from([1, 2]))}


def make(c):
    dim, m = c["dim"], c["mode"]
    if m == "default":
        t = tensap.Tensorizer(c["b"], c["d"], dim)
        X = Y = [["u01"]] * dim
    elif m == "same":
        t = tensap.Tensorizer(c["b"], c["d"], dim, rv(c["X"][0]),
                              rv(c["Y"][0]))
        X, Y = c["X"] * dim, c["Y"] * dim
    else:
        t = tensap.Tensorizer(c["b"], c["d"], dim,
                              tensap.RandomVector([rv(x) for x in c["X"]]),
                              tensap.RandomVector([rv(x) for x in c["Y"]]))
        X, Y = c["X"], c["Y"]
    need(t.ordering_type == 1, "default ordering type")
    t.ordering_type = c["order"]
    return t, [ref(x) for x in X], [ref(y) for y in Y]


def columns(c):
    """columns(c)[k] = positions of the digits of variable k in z."""
    d, dim = c["d"], c["dim"]
    if c["order"] == 1:
        return [[k * d + j for j in range(d)] for k in range(dim)]
    return [[j * dim + k for j in range(d)] for k in range(dim)]


@composite
def map_cases(draw):
    c = draw(tensorizers())
    n, N = draw(st.integers(1, 5)), c["b"] ** c["d"]
    u = []
    for _ in range(n):
        row = []
        for _ in range(c["dim"]):
            if draw(st.booleans()):
                row.append([draw(st.integers(0, N - 1)),
                            draw(st.sampled_from([.05, .25, .5, .75, .95]))])
            else:
                row.append([draw(st.integers(0, N)), 0])
        u.append(row)
    c["u"] = u
    return c


def u_and_x(c, X):
    """Points given by their quantiles: (i + y) b^-d."""
    N = c["b"] ** c["d"]
    U = np.array([[(p[0] + p[1]) / N for p in row] for row in c["u"]])
    x = np.stack([X[k].ppf(U[:, k]) for k in range(c["dim"])], 1)
    return U, x


@P.relation("map", map_cases(), 1200,
            rule="some point is neither zero nor a multiple of b^-d")
def tmap(c):
    b, d, dim = c["b"], c["d"], c["dim"]
    N = b ** d
    t, X, Y = make(c)
    U, x = u_and_x(c, X)
    if not np.all(np.isfinite(x)):
        raise Discard
    lab("ordering %d" % c["order"], "dim %d" % dim, "laws: " + c["mode"])
    if np.any(U == 1):
        lab("right end")
    arg = x[:, 0] if dim == 1 and len(x) % 2 else x
    keep = Frozen(x)
    z = t.map(arg)
    keep.check("map")
    need(z.shape == (len(x), (d + 1) * dim), "shape of map(x)", got=z.shape)
    y, i = t.map(arg, 2)
    same(np.hstack((i, np.reshape(y, (len(x), dim)))), z, "map with nargout=2")
    for k, cols in enumerate(columns(c)):
        zk = z[:, cols]
        need(np.all(zk == np.round(zk)) and zk.min() >= 0 and zk.max() < b,
             "map: digits in {0, ..., b-1}", got=zk)
        for r in range(len(x)):
            ii, yy = c["u"][r][k]
            I = sum(int(v) * b ** (d - 1 - j) for j, v in enumerate(zk[r]))
            v = Y[k].cdf(z[r, d * dim + k])
            need(0 <= v <= 1, "map: y in the support of Y", got=z[r])
            close((I + v) / N, U[r, k], "map: x = (i + y) b^-d in terms of "
                  "quantiles", tol=1e-11, z=z[r], cols=cols, x=x[r, k])
            if yy:
                same(zk[r], digits(ii, b, d), "map: digits of the point",
                     u=U[r, k], b=b)
                close(v, yy, "map: remainder y", tol=1e-8)
    if np.all(np.isfinite(z)):
        close(t.inverse_map(z), x, "inverse_map(map(x))", tol=1e-8)
        if dim == 1 and len(x) == 1:
            close(t.inverse_map(z[0]), x, "inverse_map of one point", tol=1e-8)
    else:
        lab("infinite y")
    return any(p[1] for row in c["u"] for p in row)


@P.relation("inverse", map_cases(), 800,
            rule="at least two variables or two digits")
def inverse(c):
    b, d, dim = c["b"], c["d"], c["dim"]
    t, X, Y = make(c)
    n = len(c["u"])
    rng = rng_of(c)
    I = rng.randint(0, b, size=(n, d * dim))
    v = rng.uniform(.02, .98, size=(n, dim))
    z = np.hstack((I, np.stack([Y[k].ppf(v[:, k]) for k in range(dim)], 1)))
    keep = Frozen(z)
    x = t.inverse_map(z)
    keep.check("inverse_map")
    want = np.zeros((n, dim))
    for k, cols in enumerate(columns(c)):
        w = b ** np.arange(d - 1, -1, -1)
        want[:, k] = X[k].ppf((I[:, cols] @ w + v[:, k]) / b ** d)
    close(x, want, "inverse_map", tol=1e-9)
    close(t.map(x), z, "map(inverse_map(z))", tol=1e-6)
    uz = tensap.Tensorizer.z2u(np.hstack((I[:, :d], v[:, :1])), b)
    w = b ** np.arange(d - 1, -1, -1)
    close(uz, (I[:, :d] @ w + v[:, 0]) / b ** d, "z2u", tol=1e-13)
    close(tensap.Tensorizer.u2z(uz, b, d), np.hstack((I[:, :d], v[:, :1])),
          "u2z(z2u)", tol=1e-9)
    y, i = tensap.Tensorizer.u2z(uz, b, d, 2)
    same(i, I[:, :d], "u2z, digits")
    close(y, v[:, 0], "u2z, remainder", tol=1e-9)
    return dim > 1 or d > 1


FUNS = [lambda x: np.sum(np.sin(x * np.arange(1, x.shape[1] + 1)), 1),
        lambda x: x[:, 0] - 2 * x[:, -1] ** 2,
        lambda x: np.exp(-np.sum(x ** 2, 1) / 9) + x[:, 0]]


@P.relation("tensorized_function", map_cases(), 800,
            rule="a function of several variables or digits, not constant "
                 "on the points")
def tensorized(c):
    b, d, dim = c["b"], c["d"], c["dim"]
    t, X, Y = make(c)
    rng = rng_of(c)
    n = 1 + len(c["u"])
    u = rng.uniform(.01, .99, size=(n, dim))
    x = np.stack([X[k].ppf(u[:, k]) for k in range(dim)], 1)
    f = FUNS[rng.randint(3)]
    how = rng.randint(3)
    if how == 0:
        arg = f
    else:
        arg = tensap.UserDefinedFunction(f, dim)
        arg.evaluation_at_multiple_points = how == 1
    lab(["callable", "vectorized Function", "pointwise Function"][how])
    g = t.tensorize(arg)
    need(isinstance(g, tensap.TensorizedFunction), "type of tensorize")
    need(g.dim == dim, "dimension of a tensorized function")
    want = f(x)
    close(g(x), want, "tensorized function at points x", tol=1e-6)
    z = t.map(x)
    close(g(z), want, "tensorized function at points z = map(x)", tol=1e-6)
    close(g.fun(z), want, "function of the digits", tol=1e-6)
    need(g.fun.dim == (d + 1) * dim, "number of variables of the function of "
         "the digits", got=g.fun.dim)
    if dim == 1:
        close(g(x[:, 0]), want, "tensorized function of a vector of points",
              tol=1e-6)
    sup = np.array(g.domain(), dtype=float)
    close(sup, [[X[k].support()[0], X[k].support()[1]] for k in range(dim)],
          "domain of a tensorized function")
    return (dim > 1 or d > 1) and np.ptp(want) > 0


@composite
def basis_cases(draw):
    c = draw(tensorizers(max_b=5))
    c["h"] = draw(st.sampled_from(["default", "int", "callable", "basis",
                                   "bases"]))
    c["m"] = draw(st.integers(0, 3))
    return c


def nodes(spec, n=24):
    """Gauss points and weights of a law."""
    if spec[0] == "norm":
        x, w = np.polynomial.hermite_e.hermegauss(n)
        return spec[1] + spec[2] * x, w / w.sum()
    a, b = (0, 1) if spec[0] == "u01" else spec[1:]
    x, w = np.polynomial.legendre.leggauss(n)
    return a + (b - a) * (x + 1) / 2, w / 2


@P.relation("bases", basis_cases(), 400,
            rule="more than one basis function in the last variables")
def bases(c):
    b, d, dim = c["b"], c["d"], c["dim"]
    t, X, Y = make(c)
    ys = [["u01"]] * dim if c["mode"] == "default" else \
        c["Y"] * (dim if c["mode"] == "same" else 1)
    m, how = c["m"], c["h"]
    lab("h: " + how)
    if how == "default":
        H, m = t.tensorized_function_functional_bases(), 1
    elif how == "int":
        H = t.tensorized_function_functional_bases(m)
    elif how == "callable":
        H = t.tensorized_function_functional_bases(lambda y: 1 + y ** 2)
    else:
        hs = [tensap.PolynomialFunctionalBasis(
            rv(y).orthonormal_polynomials(), range(m + 1)) for y in ys]
        if how == "basis":
            if any(y != ys[0] for y in ys):
                raise Discard
            H = t.tensorized_function_functional_bases(hs[0])
        else:
            H = t.tensorized_function_functional_bases(
                tensap.FunctionalBases(hs))
    need(isinstance(H, tensap.FunctionalBases), "type of the bases")
    need(len(H) == (d + 1) * dim, "number of bases", got=len(H))
    for k in range(d * dim):
        B = H.bases[k].eval(np.arange(b))
        close(B.T @ B / b, np.eye(b), "basis of a digit: orthonormal basis "
              "of the functions on {0, ..., b-1}", tol=1e-8)
        need(H.bases[k].is_orthonormal, "basis of a digit not flagged as "
             "orthonormal")
        close(H.bases[k].mean(), np.mean(B, 0), "mean of the basis of a "
              "digit", shape=False, tol=1e-8)
    for k in range(dim):
        pts, w = nodes(ys[k])
        B = H.bases[d * dim + k].eval(pts)
        if how == "callable":
            close(B, (1 + pts ** 2)[:, None], "basis from a function")
            if all(y == ys[0] for y in ys):
                need(H.bases[d * dim + k].measure == rv(ys[k]),
                     "measure of a basis from a function")
        else:
            need(B.shape[1] == m + 1, "number of functions of y",
                 got=B.shape, m=m)
            close(B.T @ (w[:, None] * B), np.eye(m + 1), "basis of y: "
                  "orthonormal polynomials of its law", tol=1e-8)
            close(H.bases[d * dim + k].mean(), w @ B, "mean of the basis of "
                  "y", shape=False, tol=1e-8, scale=np.max(np.abs(B)))
    # a tensorized function is evaluated through the bases
    n = 3
    rng = rng_of(c)
    I = rng.randint(0, b, size=(n, d * dim))
    z = np.hstack((I, np.stack([ref(y).ppf(rng.uniform(.1, .9, n))
                                for y in ys], 1)))
    ev = H.eval(z)
    need(len(ev) == (d + 1) * dim, "evaluation of the bases at points z")
    for k in range((d + 1) * dim):
        close(ev[k], H.bases[k].eval(z[:, k]), "evaluation of the bases")
    return (how == "callable") or m > 0

"""T17: univariate functional bases."""
import numpy as np
import tensap
from props.common import *
from props import bases as B
from props import laws as L

P = Prop("T17", "univariate functional bases", effort=4)
SMOOTH = ("poly", "canonical", "piecewise", "splines", "dilated", "sub")


def lab_of(c):
    lab(c["basis"] + (" " + c["form"] if "form" in c else "")
        + (" of " + c["under"]["basis"] if "under" in c else ""))


@P.relation("values", B.bases(), 2000, rule="at least two functions")
def values(c):
    lab_of(c)
    H, rng = B.make(c), rng_of(c)
    n = B.cardinal(c)
    need(H.cardinal() == n, "number of functions", got=H.cardinal(), want=n)
    need(H.ndim() == 1, "dimension", got=H.ndim())
    x = B.generic(c, rng, 5)
    want = B.values(c, x)
    sc = np.max(np.abs(want)) + 1e-3
    close(H.eval(x), want, "values", tol=1e-8, scale=sc, x=x)
    close(H.eval(x[:, None]), want, "values at a column of points", tol=1e-8,
          scale=sc)
    close(H.eval(x[:1]), want[:1], "value at one point", tol=1e-8, scale=sc)
    if B.root(c)["basis"] not in ("user", "dilated", "canonical"):
        L.same_support(H.domain(), B.law_of(c))
    return n > 1


@P.relation("derivatives", B.bases(kinds=SMOOTH), 1500,
            rule="a non-zero derivative")
def derivatives(c):
    lab_of(c)
    H, rng = B.make(c), rng_of(c)
    x = B.generic(c, rng, 5)
    some = False
    for k in (1, 2, 3):
        want = B.values(c, x, k)
        sc = np.max(np.abs(want)) + 1e-3
        close(H.eval_derivative(k, x), want, "derivatives", tol=1e-7,
              scale=sc, order=k, x=x)
        some |= sc > 1e-2
    need(np.shape(H.eval(x)) == np.shape(want), "shape of the derivatives")
    J = H.eval_jacobian(x)
    want = B.values(c, x, 1)
    close(np.reshape(J, want.shape), want, "Jacobian", tol=1e-7,
          scale=np.max(np.abs(want)) + 1e-3)
    return some


@P.relation("gram_mean", B.bases(kinds=("poly", "canonical", "piecewise",
                                        "splines", "user", "sub")), 1500,
            rule="at least two functions")
def gram_mean(c):
    lab_of(c)
    H = B.make(c)
    x, w = B.rule(c)
    V = B.values(c, x)
    G = V.T @ (w[:, None] * V)
    sc = np.max(np.abs(G))
    R = tensap.IntegrationRule(x, w)
    root = c["under"] if c["basis"] == "sub" else c
    if c["basis"] != "sub":
        if c["basis"] in ("poly", "canonical"):
            close(H.gram_matrix(), G, "Gram matrix", tol=1e-7, scale=sc)
            o = {"law": "uniform", "a": .5, "b": 2}
            y, u = L.nodes(o)
            Z = B.values(c, y)
            Z = Z.T @ (u[:, None] * Z)
            close(H.gram_matrix(L.measure(o)), Z, "Gram matrix with respect "
                  "to a given measure", tol=1e-7, scale=np.max(np.abs(Z)))
            need(H == B.make(c), "a basis equals itself")
        else:
            close(H.gram_matrix(R), G, "Gram matrix with a given rule",
                  tol=1e-7, scale=sc)
    elif root["basis"] in ("poly", "canonical"):
        close(H.gram_matrix(), G, "Gram matrix of a sub-basis", tol=1e-7,
              scale=sc)
    if root["basis"] != "splines" and root["basis"] != "user":
        mass = 1 if root["basis"] == "piecewise" else w.sum()
        close(np.ravel(H.mean()), w @ V / mass, "mean", tol=1e-7,
              scale=np.max(np.abs(V)) * w.sum())
        close(np.ravel(H.expectation()), np.ravel(H.mean()), "expectation")
    if H.is_orthonormal:
        close(G, np.eye(len(G)), "functions flagged as orthonormal", tol=1e-7)
    else:
        need(root["basis"] not in ("poly", "piecewise") or
             c["basis"] == "sub", "orthonormal basis not flagged")
    if root["basis"] in ("poly", "canonical") and root["law"]["law"] \
            in ("uniform", "normal", "lebesgue"):
        if np.linalg.cond(G) < 1e6 and (c["basis"] != "sub" or
                                        root["basis"] == "poly"):
            lab("orthonormalization")
            O = B.make(c).orthonormalize()
            U = O.eval(x)
            close(U.T @ (w[:, None] * U), np.eye(len(G)),
                  "orthonormalized basis", tol=1e-6)
            need(O.is_orthonormal or c["basis"] == "sub",
                 "orthonormalized basis flagged as orthonormal")
            Q = np.linalg.lstsq(V * np.sqrt(w)[:, None],
                                U * np.sqrt(w)[:, None], None)[0]
            close(V @ Q, U, "span of the orthonormalized basis", tol=1e-6,
                  scale=np.max(np.abs(U)))
            F = B.make(c)
            F.orthonormalize()
            close(F.eval(x), V, "basis unchanged by its orthonormalization",
                  tol=1e-8, scale=np.max(np.abs(V)))
    if c["basis"] in ("poly", "canonical") and 0 in c["ind"]:
        close(V @ H.one(), np.ones(len(x)), "decomposition of one")
    if c["basis"] in ("poly", "canonical"):
        a = np.array(c["ind"])
        K = tensap.PolynomialFunctionalBasis(H.basis, a)
        a[:] = 0
        close(K.eval(x), V, "basis unchanged when the given indices change",
              tol=1e-8, scale=np.max(np.abs(V)))
    return len(G) > 1


@P.relation("nearly_orthonormal", st.builds(
    lambda e, s, m, k: {"e": e, "sign": s, "mid": m, "k": k},
    st.sampled_from([1e-9, 1e-6, 1e-4, 1e-2, .05, .3]),
    st.sampled_from([-1, 1]), st.booleans(), st.integers(0, 3)), 200,
    rule="not orthonormal")
def nearly_orthonormal(c):
    """Functions close to be orthonormal are orthonormalized."""
    a = np.sqrt(3) * (1 + c["sign"] * c["e"])
    b = a * (1 + c["e"]) if c["mid"] else a
    X = tensap.UniformRandomVariable(-a, b)
    ind = [[0, 1], [1], [1, 0], [0]][c["k"]]
    H = tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(X), ind)
    O = H.orthonormalize()
    x, w = L.nodes({"law": "uniform", "a": -a, "b": b})
    V = O.eval(x)
    lab("perturbation of %g" % c["e"])
    close(V.T @ (w[:, None] * V), np.eye(len(ind)), "orthonormalized basis",
          tol=1e-12)
    need(O.is_orthonormal, "flagged as orthonormal")
    return c["k"] != 3


@P.relation("splines", B.bases(kinds=("splines", "dilated")), 600,
            rule="degree at least one")
def splines(c):
    lab_of(c)
    H, rng = B.make(c), rng_of(c)
    x = B.generic(c, rng, 6)
    V = H.eval(x)
    need(np.all(V >= -1e-12), "splines are non-negative", got=V.min())
    if c["basis"] == "splines":
        t, m = B.knots(c), c["m"]
        if c["form"] in ("extra", "clamped"):
            close(V.sum(1), np.ones(6), "partition of unity")
        if c["form"] == "extra":
            same(np.ravel(H.domain()), [c["t"][0], c["t"][-1]], "domain")
        y = rng.uniform(t[0], t[-1], 8)
        W = H.eval(y)
        for i in range(W.shape[1]):
            need(np.all(W[(y < t[i]) | (y > t[i + m + 1]), i] == 0),
                 "support of the splines")
        if m >= 1 and c["form"] != "clamped":
            e = 1e-9
            d = H.eval(t[1:-1] + e) - H.eval(t[1:-1] - e)
            need(np.all(np.abs(d) < 1e-6), "continuity at the knots", got=d)
        # values at the knots of the interior: limits from one of the sides
        z = np.unique(t)
        e = 1e-9 * np.min(np.diff(z))
        z = z[1:-1]
        if len(z):
            lab("values at the knots")
            q, ql, qr = H.eval(z), H.eval(z - e), H.eval(z + e)
            need(np.all((np.abs(q - ql) < 1e-6) | (np.abs(q - qr) < 1e-6)),
                 "values at the knots", got=q, left=ql, right=qr)
            if c["form"] in ("extra", "clamped"):
                z = z[(z > t[m]) & (z < t[len(t) - 1 - m])]
                close(H.eval(z).sum(1), np.ones(len(z)),
                      "partition of unity at the knots")
    else:
        i, j = tensap.DilatedBSplines(c["m"], c["b"]) \
            .indices_with_level_bounded_by(c["level"])
        want = [(l, k) for l in range(c["level"] + 1)
                for k in range(-c["m"], c["b"] ** l)]
        same(np.transpose([i, j]), want, "indices of bounded level")
        l, k = tensap.DilatedBSplines(c["m"], c["b"]).indices_with_level(
            c["level"])
        same(np.transpose([l, k]), [p for p in want if p[0] == c["level"]],
             "indices of one level")
        a = [np.array(l), list(k)]
        Q = tensap.DilatedBSplinesFunctionalBasis(
            tensap.DilatedBSplines(c["m"], c["b"]), a)
        need(isinstance(a[1], list), "the list of indices is unchanged")
        s = V.shape[1]
        sel = [q for q in range(len(want)) if want[q][0] == c["level"]]
        if not c["pick"]:
            close(Q.eval(x), V[:, sel], "functions of one level")
            close(Q.eval(x).sum(1), np.full(6, float(c["b"])
                                            ** (c["level"] / 2)),
                  "functions of one level sum to a constant")
    return c["m"] > 0


@composite
def piecewise_cases(draw):
    a = draw(st.integers(-4, 4)) / 2
    b = a + draw(st.integers(1, 8)) / 2
    s = sorted(set(draw(st.lists(st.integers(0, 8), min_size=1, max_size=3))))
    return {"a": a, "b": b, "n": draw(st.integers(1, 5)),
            "p": draw(st.integers(0, 3)), "e": draw(st.integers(1, 5)),
            "s": [a + (b - a) * i / 8 for i in draw(st.permutations(s))]}


@P.relation("meshes", piecewise_cases(), 600, rule="at least two cells")
def meshes(c):
    a, b, n, p = c["a"], c["b"], c["n"], c["p"]
    C = tensap.PiecewisePolynomialFunctionalBasis
    H = C.np(a, b, n, p)
    close(H.points, a + (b - a) * np.arange(n + 1) / n, "mesh of n cells")
    same(H.p, [p] * n, "degrees")
    h = (b - a) / n * [1, 1.1, .7, .9, 1.5][c["e"] - 1]
    H = C.hp(a, b, h, p)
    d = np.diff(H.points)
    need(H.points[0] == a and H.points[-1] == b and
         np.max(d) <= h * (1 + 1e-9) and np.ptp(d) < 1e-9,
         "mesh of cells of size at most h", got=H.points, h=h)
    need((len(d) - 1) * h < (b - a) * (1 + 1e-9) or len(d) == 1,
         "smallest number of cells of size at most h")
    h = 2. ** -c["e"]
    s = np.array(c["s"])
    arg = s if len(s) > 1 else float(s[0])
    H = C.singularityhp_adapted(a, b, arg, h)
    t = H.points
    lab("end" if a in s or b in s else "interior")
    need(np.all(np.diff(t) > 0), "sorted points", got=t)
    need(t[0] == a and t[-1] == b, "ends of the mesh", got=t)
    need(len(H.p) == len(t) - 1, "one degree per cell", got=(H.p, t))
    need(H.cardinal() == sum(q + 1 for q in H.p), "number of functions")
    for z in s:
        i = int(np.argmin(np.abs(t - z)))
        need(abs(t[i] - z) < 1e-12, "singularities are points of the mesh")
        for k in (i - 1, i):
            if 0 <= k < len(H.p):
                need(t[k + 1] - t[k] <= h * (b - a) * (1 + 1e-9),
                     "size of the cells next to a singularity", got=t, h=h)
                need(H.p[k] == 0, "degree next to a singularity", got=H.p)
    need(np.max(H.p) <= c["e"], "degrees bounded by the number of levels",
         got=H.p)
    x, w = B.rule({"basis": "piecewise", "t": [float(v) for v in t],
                   "p": [int(q) for q in H.p]})
    V = H.eval(x)
    close(V.T @ (w[:, None] * V), np.eye(V.shape[1]), "orthonormality",
          tol=1e-7)
    y = B.generic({"basis": "piecewise", "t": list(t)}, rng_of(c), 9)
    want = np.searchsorted(t, y) - 1
    same(H.element_number(y), want, "element number")
    same(H.element_number(t), np.minimum(np.arange(len(t)), len(t) - 2),
         "element number of the points of the mesh")
    return len(t) > 2


@composite
def sub_cases(draw):
    c = draw(B.bases(kinds=("poly", "canonical")))
    d = draw(B.bases(kinds=("poly",)))
    c["ind2"] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=3,
                              unique=True))
    c["k"] = draw(st.integers(1, 3))
    c["other"] = d
    return c


@P.relation("projected", sub_cases(), 800, rule="a non-zero derivative")
def projected(c):
    """Derivatives and products projected on polynomial bases (exact when
    they are in the span)."""
    law, rng = c["law"], rng_of(c)
    x = B.generic(c, rng, 5)
    full = dict(c, ind=list(range(max(c["ind"]) + 1)))
    k = c["k"]
    lab(c["basis"], "order %d" % k)
    want = B.values(full, x, k)
    sc = np.max(np.abs(want)) + 1e-2
    H = B.make(full)
    D = H.derivative(k)
    close(D.eval(x), want, "derivative projected on the basis", tol=1e-6,
          scale=sc, order=k)
    if k == 1:
        close(H.gradient().eval(x), want, "gradient", tol=1e-6, scale=sc)
    if k == 2:
        close(H.hessian().eval(x), want, "hessian", tol=1e-6, scale=sc)
    C = rng.standard_normal((want.shape[1], 2))
    S = tensap.SubFunctionalBasis(H, C)
    close(S.derivative(k).eval(x), want @ C, "derivative of a sub-basis",
          tol=1e-6, scale=sc * 3)
    Z = tensap.SubFunctionalBasis(H)
    need(Z.cardinal() == 0 and Z.eval(x).shape == (len(x), 0),
         "sub-basis without function", got=Z.cardinal())
    q = dict(c, ind=c["ind2"])
    F, G = B.values(c, x), B.values(q, x)
    K = B.make(c).kron(B.make(q))
    want = np.reshape(F[:, :, None] * G[:, None, :], (len(x), -1))
    close(K.eval(x), want, "Kronecker product", tol=1e-6,
          scale=np.max(np.abs(want)))
    need(K.cardinal() == want.shape[1], "cardinal of the Kronecker product")
    if B.law_of(c) != B.law_of(c["other"]):
        need(not bool(B.make(c) == B.make(c["other"])),
             "bases with different measures are different")
    return sc > .1


@composite
def delta_cases(draw):
    d = draw(st.integers(1, 3))
    return {"d": d, "n": draw(st.integers(1, 6)), "rv": draw(st.integers(0, 2)),
            "seed": draw(st.integers(0, 10 ** 6))}


@P.relation("delta", delta_cases(), 400, rule="at least two values")
def delta(c):
    d, n, rng = c["d"], c["n"], np.random.RandomState(c["seed"])
    # distinct points, which share coordinates
    v = rng.randint(-3, 4, (n, d)) + 0.
    while len(np.unique(v, axis=0)) < n:
        v[rng.randint(n), rng.randint(d)] += 1.5
    m = None
    if c["rv"] == 1:
        m = tensap.DiscreteMeasure(v)
    if c["rv"] == 2 and d == 1:
        m = tensap.DiscreteRandomVariable(v)
    lab("dimension %d" % d, "measure" if m is not None else "no measure")
    H = tensap.DeltaFunctionalBasis(v.ravel() if d == 1 else v, m)
    need(H.cardinal() == n, "number of functions", got=H.cardinal(), want=n)
    need(H.ndim() == d, "dimension", got=H.ndim(), want=d)
    i = rng.randint(0, n, 6)
    x = v[i] + 50 * (rng.randint(0, 4, 6) == 0)[:, None]
    want = np.all(x[:, None, :] == v, 2).astype(float)
    close(H.eval(x.ravel() if d == 1 else x), want, "values")
    close(H.eval(x), want, "values at an array of points")
    same(np.reshape(H.domain(), (2, d)), [v.min(0), v.max(0)], "domain")
    R = (m or tensap.DiscreteMeasure(v)).integration_rule()
    close(H.gram_matrix(R), np.diag(np.ravel(R.weights)), "Gram matrix")
    return n > 1


@P.relation("random", B.bases(kinds=("poly", "user", "sub"),
                              laws=("uniform", "normal")), 300,
            rule="at least two functions")
def random(c):
    lab_of(c)
    if B.law_of(c)["law"] == "lebesgue":
        raise Discard
    H, n = B.make(c), 4
    np.random.seed(c.get("seed", 3))
    f, x = H.random(n)
    need(np.shape(f) == (n, B.cardinal(c)) and np.size(x) == n,
         "shape of random evaluations", got=np.shape(f))
    s = L.support(B.law_of(c))
    need(np.min(x) >= s[0] and np.max(x) <= s[1], "points in the support")
    want = B.values(c, x)
    close(f, want, "random evaluations", tol=1e-7, scale=np.max(np.abs(want)))
    f, x = H.random(n, tensap.UniformRandomVariable(2, 3))
    need(np.min(x) >= 2 and np.max(x) <= 3, "points of the given measure")
    want = B.values(c, x)
    close(f, want, "random evaluations for a given measure", tol=1e-7,
          scale=np.max(np.abs(want)))
    return B.cardinal(c) > 1

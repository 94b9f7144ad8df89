"""Measures on the real line with an independent description: points and
weights which integrate polynomials exactly (T13, T14, T16)."""
import numpy as np
import scipy.stats as ss
import tensap
from props.common import *


@composite
def laws(draw, kinds=("uniform", "normal", "lebesgue", "discrete", "dmeasure",
                      "empirical"), max_values=6):
    k = draw(st.sampled_from(list(kinds)))
    odd = draw(st.integers(0, 11)) == 11
    if k in ("uniform", "lebesgue"):
        if draw(st.integers(0, 3)) == 0:
            return {"law": k, "a": -1, "b": 1}
        if odd:
            a = draw(st.integers(-30, 30)) / 7
            return {"law": k, "a": a, "b": a + draw(st.integers(1, 30)) / 3}
        a = draw(st.integers(-8, 6)) / 2
        return {"law": k, "a": a, "b": a + draw(st.integers(1, 8)) / 2}
    if k == "normal":
        if draw(st.integers(0, 3)) == 0:
            return {"law": k, "mu": 0, "s": 1}
        if odd:
            return {"law": k, "mu": draw(st.integers(-30, 30)) / 7,
                    "s": draw(st.integers(1, 30)) / 7}
        return {"law": k, "mu": draw(st.integers(-6, 6)) / 2,
                "s": draw(st.integers(1, 6)) / 2}
    if k == "empirical":
        n = draw(st.integers(3, 7))
        return {"law": k, "x": [v / 4 for v in draw(st.lists(
            st.integers(-12, 12), min_size=n, max_size=n, unique=True))]}
    n = draw(st.integers(1, max_values))
    if odd:
        n = n + 3
    v = draw(st.lists(st.integers(-6, 6), min_size=n, max_size=n, unique=True))
    w = draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)) \
        if draw(st.booleans()) else None
    return {"law": k, "v": [x / 2 for x in v], "w": w}


def measure(c):
    k = c["law"]
    if k == "uniform":
        return tensap.UniformRandomVariable(c["a"], c["b"])
    if k == "lebesgue":
        return tensap.LebesgueMeasure(c["a"], c["b"])
    if k == "normal":
        return tensap.NormalRandomVariable(c["mu"], c["s"])
    if k == "empirical":
        return tensap.EmpiricalRandomVariable(np.array(c["x"], dtype=float))
    v = np.array(c["v"], dtype=float)
    if k == "discrete":
        if c["w"] is None:
            return tensap.DiscreteRandomVariable(v)
        w = np.array(c["w"], dtype=float)
        return tensap.DiscreteRandomVariable(v, w / w.sum())
    return tensap.DiscreteMeasure(v, c["w"])


def nodes(c, n=20):
    """Points and weights integrating exactly all polynomials of degree less
    than 2n against the measure."""
    k = c["law"]
    if k in ("uniform", "lebesgue"):
        x, w = np.polynomial.legendre.leggauss(n)
        m = c["b"] - c["a"] if k == "lebesgue" else 1
        return c["a"] + (c["b"] - c["a"]) * (x + 1) / 2, w / 2 * m
    if k == "normal":
        x, w = np.polynomial.hermite_e.hermegauss(n)
        return c["mu"] + c["s"] * x, w / w.sum()
    if k == "empirical":
        s = np.array(c["x"], dtype=float)
        h = bandwidth(s)
        x, w = np.polynomial.hermite_e.hermegauss(n)
        x = (s[:, None] + h * x[None, :]).ravel()
        return x, np.tile(w / w.sum(), s.size) / s.size
    v = np.array(c["v"], dtype=float)
    w = np.ones(v.size) if c["w"] is None else np.array(c["w"], dtype=float)
    return v, (w / w.sum() if k == "discrete" else w)


def bandwidth(s):
    return 3.5 * np.std(s) * s.size ** (-1 / 3)


def mass(c):
    return float(np.sum(nodes(c)[1]))


def max_degree(c):
    return len(c["v"]) - 1 if "v" in c else 5 if c["law"] != "empirical" \
        else len(c["x"]) - 1


def support(c):
    k = c["law"]
    if k in ("uniform", "lebesgue"):
        return [c["a"], c["b"]]
    if "v" in c:
        return [min(c["v"]), max(c["v"])]
    return [-np.inf, np.inf]


def same_support(got, c, what="domain"):
    got, want = np.ravel(got), np.array(support(c), dtype=float)
    need(got.shape == want.shape, what, got=got, want=want)
    need(np.array_equal(np.isfinite(got), np.isfinite(want)), what, got=got,
         want=want)
    m = np.isfinite(want)
    close(np.where(m, got, 0), np.where(m, want, 0), what, tol=1e-12)
    need(np.array_equal(got[~m], want[~m]), what, got=got, want=want)


def polynomials(c, n):
    """Coefficients (column k: degree k, increasing powers of t = (x - m) / s)
    of the orthonormal polynomials with positive leading coefficients, with m
    and s."""
    x, w = nodes(c)
    m = np.sum(w * x) / np.sum(w)
    s = np.sqrt(np.sum(w * (x - m) ** 2) / np.sum(w)) or 1.0
    t = (x - m) / s
    V = np.vander(t, n + 1, increasing=True) * np.sqrt(w)[:, None]
    q, r = np.linalg.qr(V)
    r = r * np.sign(np.diag(r))[:, None]
    return np.linalg.inv(r), m, s


def peval(c, n, x, der=0):
    """Values at x of the derivatives of the polynomials of degrees 0..n."""
    C, m, s = polynomials(c, n)
    D = C
    for _ in range(der):
        D = (D[1:] * np.arange(1, D.shape[0])[:, None] / s
             if D.shape[0] > 1 else np.zeros((1, D.shape[1])))
    return np.vander((np.ravel(x) - m) / s, D.shape[0], increasing=True) @ D

"""Univariate functional bases with an independent description (T17-T21)."""
import math
import numpy as np
import scipy.interpolate as si
import tensap
from props.common import *
from props import laws as L

KINDS = ("poly", "canonical", "piecewise", "splines", "dilated", "user", "sub")


@composite
def bases(draw, kinds=KINDS, laws=("uniform", "normal", "lebesgue"),
          max_card=6):
    k = draw(st.sampled_from(list(kinds)))
    seed = draw(st.integers(0, 10 ** 6))
    if k in ("poly", "canonical"):
        law = draw(L.laws(kinds=laws))
        top = min(max_card - 1, L.max_degree(law))
        if draw(st.booleans()):
            ind = list(range(draw(st.integers(0, top)) + 1))
        else:
            ind = draw(st.lists(st.integers(0, top), min_size=1, max_size=4,
                                unique=True))
            if draw(st.booleans()):
                ind = sorted(ind)
        return {"basis": k, "law": law, "ind": ind}
    if k in ("piecewise", "splines"):
        n = draw(st.integers(1, 4))
        t = [draw(st.integers(-4, 4)) / 2]
        for _ in range(n):
            t.append(t[-1] + draw(st.integers(1, 4)) / 2)
        c = {"basis": k, "t": t}
        if k == "piecewise":
            c["p"] = draw(st.one_of(st.integers(0, 3), st.lists(
                st.integers(0, 3), min_size=n, max_size=n)))
        else:
            m = draw(st.integers(0, 3))
            c.update(m=m, form=draw(st.sampled_from(
                ["extra", "knots", "clamped", "cardinal"])))
            if c["form"] == "knots":
                c["t"] = [i / 2 for i in sorted(draw(st.lists(
                    st.integers(-8, 8), min_size=m + 2, max_size=m + 5,
                    unique=True)))]
        return c
    if k == "dilated":
        return {"basis": k, "m": draw(st.integers(0, 3)),
                "b": draw(st.integers(2, 3)), "level": draw(st.integers(0, 2)),
                "pick": draw(st.booleans()), "seed": seed}
    if k == "user":
        return {"basis": k, "seed": seed, "n": draw(st.integers(1, 4)),
                "law": draw(L.laws(kinds=("uniform", "normal")))}
    under = draw(bases(kinds=("poly", "canonical", "piecewise"), laws=laws))
    n = cardinal(under)
    return {"basis": "sub", "under": under, "seed": seed,
            "orth": draw(st.booleans()), "n": draw(st.integers(1, n))}


def knots(c):
    t, m = c["t"], c["m"]
    f = c["form"]
    if f == "extra":
        return np.concatenate((t[0] + np.arange(-m, 0) * (t[1] - t[0]), t,
                               t[-1] + np.arange(1, m + 1) * (t[-1] - t[-2])))
    if f == "clamped":
        return np.array([t[0]] * m + t + [t[-1]] * m)
    if f == "cardinal":
        return np.arange(m + 2.)
    return np.array(t)


def dilated_indices(c):
    L_, J = [], []
    for l in range(c["level"] + 1):
        for j in range(-c["m"], c["b"] ** l):
            L_.append(l)
            J.append(j)
    if c["pick"]:
        rng = np.random.RandomState(c["seed"])
        p = rng.permutation(len(L_))[:rng.randint(1, len(L_) + 1)]
        L_, J = [L_[i] for i in p], [J[i] for i in p]
    return L_, J


def user_funs(c):
    rng = np.random.RandomState(c["seed"])
    ab = rng.uniform(-1, 1, (c["n"], 2))
    return [lambda x, a=a, b=b: np.cos(a * np.ravel(x) + 2 * b)
            for a, b in ab], ab


def coefs(c):
    n, rng = cardinal(c["under"]), np.random.RandomState(c["seed"])
    C = rng.standard_normal((n, c["n"]))
    return np.linalg.qr(C)[0] if c["orth"] else C


def cardinal(c):
    k = c["basis"]
    if k in ("poly", "canonical"):
        return len(c["ind"])
    if k == "piecewise":
        n = len(c["t"]) - 1
        p = [c["p"]] * n if isinstance(c["p"], int) else c["p"]
        return sum(p) + n
    if k == "splines":
        return len(knots(c)) - 1 - c["m"]
    if k == "dilated":
        return len(dilated_indices(c)[0])
    return c["n"]


def make(c):
    k = c["basis"]
    if k == "poly":
        return tensap.PolynomialFunctionalBasis(
            L.measure(c["law"]).orthonormal_polynomials(), c["ind"])
    if k == "canonical":
        return tensap.PolynomialFunctionalBasis(
            tensap.CanonicalPolynomials(L.measure(c["law"])), c["ind"])
    if k == "piecewise":
        return tensap.PiecewisePolynomialFunctionalBasis(c["t"], c["p"])
    if k == "splines":
        B = tensap.BSplinesFunctionalBasis
        if c["form"] == "extra":
            return B.with_extra_knots(c["t"], c["m"])
        if c["form"] == "cardinal":
            return B.cardinal_bspline(c["m"])
        return B(knots(c), c["m"])
    if k == "dilated":
        B = tensap.DilatedBSplinesFunctionalBasis
        if not c["pick"]:
            return B.with_level_bounded_by(c["m"], c["b"], c["level"])
        i, j = dilated_indices(c)
        return B(tensap.DilatedBSplines(c["m"], c["b"]),
                 [np.array(i), np.array(j)])
    if k == "user":
        return tensap.UserDefinedFunctionalBasis(user_funs(c)[0],
                                                 L.measure(c["law"]))
    return tensap.SubFunctionalBasis(make(c["under"]), coefs(c))


def spline_basis(t, m, x, der=0):
    out = np.zeros((len(x), len(t) - 1 - m))
    for i in range(out.shape[1]):
        u = t[i:i + m + 2]
        if u[0] == u[-1]:
            continue
        f = si.BSpline.basis_element(u, extrapolate=False)
        for a, b in zip(u[:-1], u[1:]):
            ok = (x > a) & (x < b)
            if not np.any(ok):
                continue
            # the polynomial on each interval between knots
            z = (a + b) / 2 + (b - a) / 2 * np.cos(
                np.pi * (2 * np.arange(m + 1) + 1) / (2 * m + 2))
            p = np.polynomial.Polynomial.fit(z, f(z), m, domain=[a, b])
            out[ok, i] = p.deriv(der)(x[ok]) if der else f(x[ok])
    return out


def values(c, x, der=0):
    """Reference values of the derivatives of the functions at generic
    points."""
    k = c["basis"]
    x = np.ravel(x).astype(float)
    if k == "poly":
        return L.peval(c["law"], max(c["ind"]), x, der)[:, c["ind"]]
    if k == "canonical":
        i = np.array(c["ind"])
        f = np.array([math.perm(a, der) for a in i])
        return f * x[:, None] ** np.maximum(i - der, 0)
    if k == "piecewise":
        t, n = c["t"], len(c["t"]) - 1
        p = [c["p"]] * n if isinstance(c["p"], int) else c["p"]
        out = []
        for a, b, q in zip(t[:-1], t[1:], p):
            P = L.peval({"law": "lebesgue", "a": a, "b": b}, q, x, der)
            out.append(P * ((x > a) & (x < b))[:, None])
        return np.concatenate(out, 1)
    if k == "splines":
        return spline_basis(knots(c), c["m"], x, der)
    if k == "dilated":
        l, j = map(np.array, dilated_indices(c))
        b, m = float(c["b"]), c["m"]
        out = [spline_basis(np.arange(m + 2.), m, b ** u * x - v, der)[:, 0]
               * b ** (u * (der + .5)) for u, v in zip(l, j)]
        return np.transpose(out)
    if k == "user":
        assert der == 0
        return np.transpose([f(x) for f in user_funs(c)[0]])
    return values(c["under"], x, der) @ coefs(c)


def law_of(c):
    """Measure of the basis."""
    k = c["basis"]
    if k in ("poly", "canonical", "user"):
        return c["law"]
    if k == "sub":
        return law_of(c["under"])
    if k == "piecewise":
        return {"law": "lebesgue", "a": c["t"][0], "b": c["t"][-1]}
    if k == "splines":
        t = knots(c) if c["form"] != "extra" else c["t"]
        return {"law": "lebesgue", "a": float(t[0]), "b": float(t[-1])}
    return {"law": "lebesgue", "a": 0, "b": 1}


def breaks(c):
    k = c["basis"]
    if k == "piecewise":
        return list(c["t"])
    if k == "splines":
        return sorted(set(map(float, knots(c))))
    if k == "dilated":
        b = float(c["b"]) ** c["level"]
        m = c["m"] + 1
        return [i / b for i in range(-m * int(b), int(b) * (m + 2))]
    if k == "sub":
        return breaks(c["under"])
    return []


def generic(c, rng, n):
    """Points of the domain away from the knots."""
    law = law_of(c)
    if law["law"] in ("uniform", "lebesgue"):
        x = rng.uniform(law["a"], law["b"], n)
    elif "v" in law:
        return rng.choice(law["v"], n)
    else:
        y, _ = L.nodes(law, 6)
        x = rng.uniform(min(y), max(y), n)
    for b in breaks(c):
        x = np.where(np.abs(x - b) < 1e-6, x + 1e-5, x)
    return x


def rule(c, n=12):
    """Exact rule for products of two functions of the basis."""
    law = law_of(c)
    if law["law"] not in ("uniform", "lebesgue"):
        return L.nodes(law, n)
    t = [b for b in breaks(c) if law["a"] < b < law["b"]]
    t = [law["a"]] + t + [law["b"]]
    out = [L.nodes({"law": "lebesgue", "a": a, "b": b}, n)
           for a, b in zip(t[:-1], t[1:])]
    x, w = np.concatenate([o[0] for o in out]), np.concatenate(
        [o[1] for o in out])
    return x, (w / w.sum() if law["law"] == "uniform" else w)


def root(c):
    return root(c["under"]) if c["basis"] == "sub" else c

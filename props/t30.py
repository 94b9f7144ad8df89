"""T30: the results do not depend on the units of the data."""
import contextlib
import io
import numpy as np
import scipy.sparse
import tensap
from props.tbt import *
from props import t28 as H
from props import t21 as LS
from props import t24 as TL
from props import t25 as PCA
from props import t19 as MP
from props import bases as B
from props import laws as L

P = Prop("T30", "change of units", effort=3)
# powers of two: the changes of units are exact
POWERS = [-80, -50, -30, -12, 12, 30, 50, 80]


# ------------------------------------------------------------------- tensors
@composite
def scaled_histories(draw):
    c = draw(H.histories())
    c["power"] = draw(st.sampled_from(POWERS))
    return c


@P.relation("tensors", scaled_histories(), 1500,
            rule="at least three operations were applied")
def tensors(c):
    """The histories of T28 with very small or very large tensors; all the
    differences are relative to the magnitude of the tensors."""
    u = 2. ** c["power"]

    def change(it):
        X = it.X
        if it.kind == "tree":
            r = X.tree.root - 1
            t = list(X.tensors)
            t[r] = tensap.FullTensor(t[r].data * u)
            X = tensap.TreeBasedTensor(t, X.tree)
        elif it.kind == "canonical":
            X = tensap.CanonicalTensor(
                [np.array(i) for i in X.space], tensap.DiagonalTensor(
                    np.asarray(X.core.data) * u, int(X.order)))
        else:
            X.data = X.data * u
        return H.Item(X, it.x * u, it.kind, it.size * u)

    old = dict(H.UNITS)
    H.UNITS.update(floor=1e-200, relative=True, limits=(1e-120, 1e120))
    try:
        lab("small" if c["power"] < 0 else "large")
        return H.history(c, change)
    finally:
        H.UNITS.clear()
        H.UNITS.update(old)


# ------------------------------------------------------------ two executions
def twice(run, power, tol=1e-9):
    """run(u) returns (what, degree, value, tolerance) for data in units u."""
    a, b = run(1.), run(2. ** power)
    need(len(a) == len(b), "as many results", got=len(b), want=len(a),
         names=[[i[0] for i in a], [i[0] for i in b]])
    for (what, _, v, *t), (w2, deg, w, *_) in zip(a, b):
        what = "in other units: " + what
        need(w2 in what, what, got=w2)
        if deg is None:
            same(np.asarray(w), np.asarray(v), what)
            continue
        v = np.asarray(v, float)
        w = np.asarray(w, float) / 2. ** (power * deg)
        need(v.shape == w.shape, what + ": shape", got=w.shape, want=v.shape)
        same(np.isfinite(w), np.isfinite(v), what + ": finite values")
        m = np.isfinite(v)
        if not m.any():
            continue
        s = np.max(np.abs(v[m]))
        if s == 0:
            s = 1.
        close(w[m] / s, v[m] / s, what, tol=t[0] if t else tol)


@composite
def regressions(draw):
    c = draw(LS.problems(under=False, min_extra=2))
    c["power"] = draw(st.sampled_from(POWERS))
    c["how"] = draw(st.sampled_from(["ols", "ols", "adaptation", "l0", "l1",
                                     "l1", "l2"]))
    c["alpha"] = draw(st.sampled_from([0, 0, .01]))
    c["what"] = draw(st.sampled_from(["values", "values", "weights",
                                      "functions"]))
    c["noise"] = max(c["noise"], .01)
    return c


@P.relation("regression", regressions(), 1200, rule="at least two functions")
def regression(c):
    """Units of the values, of the functions, factor of the weights."""
    A, _, y, w, _ = LS.data(c)
    how, what = c["how"], c["what"]
    if what == "functions" and how == "l2":
        what = "values"
    power = c["power"]
    if what == "weights":
        c = dict(c, weights=True)
    lab(how, what)
    deg = {"values": (1, 1), "weights": (0, 0), "functions": (-1, 0)}[what]

    def run(u):
        B, z, v = A, y, w
        if what == "values":
            z = y * u
        elif what == "functions":
            B = A * u
        else:
            v = w * u
        s = LS.solver(c, B, z, v)
        s.error_estimation = True
        s.error_estimation_type = c["type"] if how == "ols" else \
            "leave_out" if c["type"] == "residuals" else c["type"]
        # the correction depends on the units of the functions
        s.error_estimation_options = {
            "correction": c["corr"] and what == "values",
            "number_of_folds": 3}
        s.model_selection = True
        if how == "adaptation":
            s.basis_adaptation = True
        elif how != "ols":
            s.regularization = True
            s.regularization_type = how
            s.regularization_options = {"alpha": c["alpha"] if how == "l2"
                                        else 0}
        np.random.seed(c["seed"] % 1000)
        x, out = LS.run(s)
        r = [("coefficients", deg[0], x, 1e-7)]
        if how == "ols":
            r += [("error", 0, out["error"], 1e-6)]
        for o in out["outputs"] if how != "ols" and c["q"] > 1 else [out]:
            if how != "ols" and "error_path" in o:
                r += [("error path", 0, o["error_path"], 1e-6),
                      ("patterns", None, np.asarray(o["pattern_path"]) != 0),
                      ("selected", None, o["ind"])]
        return r

    if how == "l2" and what == "weights" and c["alpha"]:
        raise Discard
    twice(run, power)
    return c["p"] > 1


# --------------------------------------------------------- tensor learning
@composite
def learnings(draw):
    c = draw(TL.problems())
    c["power"] = draw(st.sampled_from(POWERS))
    c["how"] = draw(st.sampled_from(["tree", "tree", "ranks", "canonical"]))
    c["target"] = draw(st.sampled_from(["model", "noise"]))
    c["noise"] = .3
    c["rank"], c["loops"] = draw(st.integers(1, 3)), 0
    c["maxit"] = min(c["maxit"], 3)
    c["col"] = c["col"] or c["out"] > 1
    return c


@P.relation("tensor_learning", learnings(), 300, rule="at least two iterates")
def tensor_learning(c):
    how = c["how"]
    if how == "canonical":
        c = dict(c, out=1, off=[])
        c["ranks"] = [1] * len(c["par"])
    root = m_root(c) - 1
    c["ranks"] = TL.cut(dict(c, ranks=[c["out"] if i == root else r for i, r
                                       in enumerate(c["ranks"])]))
    D = TL.Data(c)
    D.target(c)
    y, yt = D.y, D.yt
    lab(how, c["init"])
    count = []

    def run(u):
        D.y, D.yt = y * u, yt * u
        if how == "canonical":
            s = TL.canonical_solver(c)
            init = c["init"] if c["init"] not in ("canonical", "guess") \
                else "random"
        else:
            s = TL.tree_solver(c)
            init = c["init"]
            s.rank = np.array(c["ranks"])
        if init in ("mean", "mean_randomized") or how == "ranks":
            s.rank = 1
        if how == "ranks":
            s.rank_adaptation = True
            s.rank_adaptation_options["max_iterations"] = 3
            init = "canonical" if init == "guess" else init
        if init == "guess":
            g = TL.build_tbt(dict(c, s=c["s"] + 2))[0]
            init, s.initial_guess = "initial_guess", g * u
        s.initialization_type = init
        D.give(s, c)
        TL.seed(c)
        f, o = TL.solve(s)
        it = o["iterates"]
        count.append(len(it))
        r = [("iterates", None, len(it))]
        for g in it:
            a = TL.coefficients(g)
            r.append(("iterate", 1, a, 1e-5))
            if how != "canonical":
                r.append(("ranks", None, g.tensor.ranks))
        r.append(("solution", 1, TL.coefficients(f), 1e-5))
        if c["test"]:
            r.append(("test errors", 0, o["test_error_iterations"], 1e-5))
        if c["est"]:
            r.append(("errors", 0, o["error_iterations"], 1e-4))
        return r

    twice(run, c["power"])
    return count[0] > 1


# ------------------------------------------------- principal component analysis
@composite
def analyses(draw):
    c = draw(PCA.problems())
    c["power"] = draw(st.sampled_from(POWERS))
    c["how"] = draw(st.sampled_from(["tree", "tucker", "tt", "hopca"]))
    return c


@P.relation("components", analyses(), 600, rule="a rank is at least two")
def components(c):
    x = PCA.array_of(c)
    d, n = x.ndim, len(c["par"])
    off = [c["d2i"][i] for i in c["off"]]
    how = c["how"]
    if not np.any(x):
        raise Discard
    lab(how, "adaptive" if c["adaptive"] else "")
    top = []

    def run(u):
        f = PCA.Entries(x * u, c["column"])
        s = PCA.solver(c)
        m = {"tree": n, "tt": d - 1}.get(how, d)
        PCA.settings(dict(c, form="scalar"), s, m, [2] * m, d)
        PCA.seed(c)
        if how == "tree":
            X, o = s.tree_based_approximation(
                f, list(x.shape), build_tree(c),
                np.array([i not in off for i in range(1, n + 1)]))
        else:
            X, o = getattr(s, how if how == "hopca" else
                           how + "_approximation")(f, list(x.shape))
        r = [("requested entries", None, np.concatenate(f.calls))]
        if how == "hopca":
            for v, q in zip(X, o):
                r += [("components", 0, np.abs(v), 1e-5),
                      ("singular values", 1, q["singular_values"], 1e-7)]
                top.append(np.shape(v)[1])
        else:
            r += [("ranks", None, X.ranks),
                  ("approximation", 1, PCA.check_tbt(X, "X"), 1e-5)]
            top.extend(X.ranks)
        return r

    try:
        twice(run, c["power"])
    except np.linalg.LinAlgError:
        raise Discard
    return max(top) > 1


# ----------------------------------------------------------- magic indices
@composite
def matrices(draw):
    c = draw(MP.matrices())
    c["power"] = draw(st.sampled_from(POWERS))
    return c


@P.relation("magic_indices", matrices(), 1200, rule="at least two indices")
def magic_indices(c):
    F, r = MP.matrix(c, rng_of(c))
    s = np.linalg.svd(F, compute_uv=False)
    if len(s) < r or s[r - 1] < 1e-7 * s[0] or s[0] == 0:
        raise Discard
    if c["option"] != "left_right":
        r = min(r, *F.shape)
        lead = F[:, :r] if c["option"] == "left" else F[:r].T
        s = np.linalg.svd(lead, compute_uv=False)
        if s[-1] <= 1e-6 * s[0]:
            raise Discard
    lab(c["option"], c["form"])
    form = {"array": lambda A: A, "sparse": scipy.sparse.csr_matrix,
            "list": lambda A: A.tolist()}[c["form"]]

    def run(u):
        A = form(F * u)
        if r == min(F.shape) and c["option"] == "left_right":
            I, J = tensap.magic_indices(A)
        else:
            I, J = tensap.magic_indices(A, r, c["option"])
        return [("rows", None, I), ("columns", None, J)]

    twice(run, c["power"])
    return r > 1


# ------------------------------------------------------------------ variables
LAWS = ("uniform", "normal", "lebesgue", "discrete", "dmeasure", "empirical")
# even powers: the square roots of the units are exact
EVEN = [-60, -40, -20, -6, 6, 20, 40, 60]


def in_units(law, u):
    c = dict(law)
    for k in ("a", "b", "mu", "s"):
        if k in c:
            c[k] = c[k] * u
    for k in ("x", "v"):
        if k in c:
            c[k] = [i * u for i in c[k]]
    return c


@composite
def variables_(draw):
    return {"law": draw(L.laws(kinds=LAWS)), "seed": draw(
        st.integers(0, 10 ** 6)), "power": draw(st.sampled_from(EVEN)),
        "n": draw(st.integers(1, 5))}


@P.relation("variables", variables_(), 1500, rule="a rule of several points")
def variables(c):
    """A random variable multiplied by a factor."""
    law, n, rng = c["law"], c["n"], rng_of(c)
    k = law["law"]
    lab(k)
    prob = k not in ("lebesgue", "dmeasure")
    x0, w0 = L.nodes(law, 6)
    x0 = np.ravel(x0)
    t = np.concatenate((rng.choice(x0, 4), rng.uniform(
        np.min(x0) - 1, np.max(x0) + 1, 5)))
    q = rng.uniform(.01, .99, 6)
    n = min(n, L.max_degree(law) + 1)
    smooth = k in ("uniform", "normal", "lebesgue")
    # density of the orthonormal polynomials with respect to the unit
    half = -.5 if k == "lebesgue" else 0

    def run(u):
        X = L.measure(in_units(law, u))
        r = [("mass", 1 if k == "lebesgue" else 0, X.mass())]
        s = np.ravel(X.support())
        r += [("support", 1, s)]
        if hasattr(X, "orthonormal_polynomials"):
            p = X.orthonormal_polynomials()
            i = list(range(n))
            r += [("polynomials", half, p.polyval(i, t * u), 1e-6)]
            if smooth:
                r += [("derivatives", half - 1, p.d_polyval(i, t * u), 1e-6),
                      ("second derivatives", half - 2,
                       p.dn_polyval(2, i, t * u), 1e-6)]
        if hasattr(X, "gauss_integration_rule") and k != "dmeasure":
            g = X.gauss_integration_rule(n)
            r += [("points of the quadrature", 1, np.ravel(g.points), 1e-7),
                  ("weights", 1 if k == "lebesgue" else 0,
                   np.ravel(g.weights), 1e-6)]
        if not prob:
            return r
        r += [("mean", 1, X.mean()), ("standard deviation", 1, X.std()),
              ("variance", 2, X.variance()),
              ("second moment", 2, X.moment(2), 1e-8),
              ("distribution function", 0, X.cdf(t * u)),
              ("quantiles", 1, X.icdf(q), 1e-7)]
        if k != "empirical":
            r += [("bounds", 1, [X.min(), X.max()])]
        if k != "discrete":
            r += [("density", -1, X.pdf(t * u)),
                  ("isoprobabilistic grid", 1, X.iso_probabilistic_grid(n),
                   1e-7)]
        np.random.seed(c["seed"] % 1000)
        r += [("random values", 1, X.random(7))]
        U = tensap.UniformRandomVariable(0, 1)
        if k in ("uniform", "normal"):
            r += [("transfer to [0, 1]", 0, X.transfer(U, t * u)),
                  ("transfer from [0, 1]", 1, U.transfer(X, q), 1e-7)]
        return r

    twice(run, c["power"])
    return n > 1


# ------------------------------------------------------------------ functions
def basis_in_units(b, u):
    c = dict(b)
    if "law" in c:
        c["law"] = in_units(c["law"], u)
    if "t" in c:
        c["t"] = [i * u for i in c["t"]]
    if "under" in c:
        c["under"] = basis_in_units(c["under"], u)
    return c


@composite
def functions_(draw):
    b = draw(B.bases(kinds=("poly", "piecewise", "splines", "sub"),
                     laws=("uniform", "normal")))
    u = b.get("under", b)
    if u["basis"] == "canonical":
        u["basis"] = "poly"
    return {"bases": [b], "form": "univariate", "m": draw(st.integers(0, 2)),
            "seed": draw(st.integers(0, 10 ** 6)), "extra": draw(
                st.integers(0, 9)), "power": draw(st.sampled_from(EVEN)),
            "scale": draw(st.sampled_from([0, 0, -60, -30, 30, 60]))}


@P.relation("functions", functions_(), 1500,
            rule="at least two functions")
def functions(c):
    """Functions of a variable in other units (power), values in other units
    (scale)."""
    b, rng = c["bases"][0], rng_of(c)
    under = b.get("under", b)
    k = under["basis"]
    if k == "splines" and under["form"] == "cardinal":
        raise Discard
    lab(k, "scaled values" if c["scale"] else "")
    half = -.5 if k == "piecewise" else 0
    n = B.cardinal(b)
    x = np.ravel(MP.cloud(c, rng, n + c["extra"]))
    y = rng.standard_normal((len(x), c["m"]) if c["m"] else len(x))
    a = rng.standard_normal((n, c["m"]) if c["m"] else n)
    z = np.ravel(B.generic(b, rng, 6))
    V = B.values(b, x)
    if np.linalg.cond(V[:n]) > 1e6 or np.linalg.cond(V) > 1e6:
        raise Discard
    vs = 2. ** c["scale"]

    def run(u):
        v = vs if u != 1 else 1.
        H = B.make(basis_in_units(b, u))
        f = tensap.FunctionalBasisArray(a * v, H, np.shape(a)[1:] or 1)
        d = np.log2(v) / c["power"]
        r = [("values", half, H.eval(z * u), 1e-7),
             ("function", half + d, f.eval(z * u), 1e-7),
             ("derivative", half - 1, H.eval_derivative(1, z * u), 1e-7),
             ("derivative of the function", half + d - 1,
              f.eval_derivative(1, z * u), 1e-7)]
        g = H.interpolate(y[:n] * v, x[:n] * u)
        r += [("interpolation", d - half, g.get_coefficients(), 1e-6)]
        s = tensap.LinearModelLearningSquareLoss()
        s.basis = H
        s.training_data = [np.reshape(x, (-1, 1)) * u, y * v]
        if len(x) > n:
            s.error_estimation = True
            s.error_estimation_options = {"correction": False}
        h, o = s.solve()
        r += [("least squares", d - half, h.get_coefficients(), 1e-6)]
        if len(x) > n:
            r += [("error", 0, o["error"], 1e-5)]
        np.random.seed(c["seed"] % 1000)
        i = H.magic_points() if k == "piecewise" and b["basis"] != "sub" \
            else H.magic_points(np.reshape(x, (-1, 1)) * u)
        r += [("magic points", 1, np.ravel(i[0] if isinstance(i, tuple)
                                           else i))]
        if k == "poly":
            r += [("mean", 0, H.mean()), ("Gram matrix", 0, H.gram_matrix()),
                  ("mean of the function", d, f.mean()),
                  ("norm of the function", d, f.norm())]
            if b["basis"] != "sub":
                r += [("variance of the function", 2 * d, f.variance())]
        return r

    twice(run, c["power"])
    return n > 1

"""T21: linear least-squares learning."""
import contextlib
import io
import numpy as np
import tensap
from props.common import *
from props import bases as B
from props import multi as M

P = Prop("T21", "least-squares learning in linear spaces", effort=4)


DEFAULT_FOLDS = 10


@composite
def problems(draw, under=True, outputs=True, noise=True, min_extra=0):
    p = draw(st.integers(1, 6))
    extra = draw(st.integers(-3 if under else min_extra, 12))
    return {"p": p, "n": max(p + extra, 2), "seed": draw(st.integers(0, 10 ** 6)),
            "q": draw(st.integers(0, 3)) if outputs else 0,
            "solver": draw(st.sampled_from(["qr", "qr", "solve"])),
            "weights": draw(st.booleans()),
            "noise": draw(st.sampled_from([0., .01, 1.])) if noise else 0.,
            "test": draw(st.booleans()), "corr": draw(st.booleans()),
            "gram": draw(st.booleans()),
            "folds": draw(st.sampled_from([2, 3, 4, 5, 6, DEFAULT_FOLDS])),
            "type": draw(st.sampled_from(["leave_out", "k_fold",
                                          "residuals"])),
            "aslist": draw(st.booleans())}


def data(c, rows=None):
    """Matrix, values and weights. q = 0: a vector of values."""
    rng = rng_of(c)
    n = c["n"]
    A = rng.standard_normal((n, c["p"])) * rng.uniform(.5, 2, c["p"])
    if c["seed"] % 3 == 0:
        A[:, 0] = 1
    x = rng.standard_normal((c["p"], max(1, c["q"])))
    y = A @ x + c["noise"] * rng.standard_normal((n, max(1, c["q"]))) \
        + (c["noise"] > 0) * np.sin(3 * A[:, :1])
    w = rng.uniform(.2, 3, n)
    if c["q"] == 0:
        x, y = x[:, 0], y[:, 0]
    if np.linalg.cond(A) > 1e3:
        raise Discard
    return A, x, y, w, rng


def solver(c, A, y, w):
    s = tensap.LinearModelLearningSquareLoss()
    if c["weights"]:
        lab("weights")
        s.weights = w.tolist() if c["aslist"] else w.copy()
    s.linear_solver = c["solver"]
    s.basis_eval = A.copy()
    s.training_data = [None, y.copy()]
    return s


def scaled(c, A, y, w):
    if not c["weights"]:
        return A, y
    w = np.sqrt(w)
    return w[:, None] * A, (w * y.T).T


def lsq(A, y):
    n = np.linalg.norm(A, axis=0)
    if A.shape[0] < A.shape[1] or np.any(n == 0):
        return np.linalg.lstsq(A, y, None)[0]
    x = np.linalg.lstsq(A / n, y, None)[0]
    return x / (n if x.ndim == 1 else n[:, None])


def run(s):
    with contextlib.redirect_stdout(io.StringIO()):
        return s.solve()


def info(c):
    lab("%d outputs" % max(1, c["q"]), c["solver"],
        "underdetermined" if c["n"] < c["p"] else "overdetermined")


def check_test(c, s, A, y, x, rng, out, rel):
    """The relative or absolute error on a test sample."""
    if not c["test"]:
        need("test_error" not in out, "no test error")
        return
    lab("test error")
    f = s.basis_eval_test @ x
    r = np.mean((f - s.test_data[1]) ** 2, 0)
    if rel:
        r = r / np.mean(s.test_data[1] ** 2, 0)
    close(np.ravel(out["test_error"]), np.ravel(np.sqrt(r)), "test error",
          tol=1e-6, scale=1)


@P.relation("ols", problems(), 2500, rule="at least two functions")
def ols(c):
    info(c)
    A, _, y, w, rng = data(c)
    if c["n"] < c["p"] and c["solver"] == "solve":
        raise Discard
    s = solver(c, A, y, w)
    if c["test"]:
        s.test_error = True
        s.basis_eval_test = rng.standard_normal((7, c["p"]))
        s.test_data = [None, rng.standard_normal((7,) + y.shape[1:])]
    rel = c["seed"] % 2
    if not rel:
        s.loss_function.error_type = "absolute"
    x, out = run(s)
    Aw, yw = scaled(c, A, y, w)
    ref = lsq(Aw, yw)
    close(x, ref, "solution", tol=1e-7, scale=1 + np.max(np.abs(ref)))
    check_test(c, s, A, y, ref, rng, out, rel)
    same(s.basis_eval, A, "evaluations unchanged")
    same(s.training_data[1], y, "training data unchanged")
    x, out = run(s)
    close(x, ref, "solution of a second resolution", tol=1e-7,
          scale=1 + np.max(np.abs(ref)))
    return c["p"] > 1


@composite
def shared(draw):
    c = draw(problems(under=False))
    c["q"] = draw(st.integers(1, 3))
    c["flat"] = draw(st.booleans())
    return c


@P.relation("shared", shared(), 800, rule="at least two outputs")
def shared_coefficients(c):
    info(c)
    n, p, q = c["n"], c["p"], c["q"]
    rng = rng_of(c)
    A = rng.standard_normal((n, p, q))
    x = rng.standard_normal(p)
    y = np.einsum("ijk,j->ik", A, x) + c["noise"] * rng.standard_normal((n, q))
    w = rng.uniform(.2, 3, n)
    flat = q == 1 and c["flat"]
    s = solver(c, A, y[:, 0] if flat else y, w)
    if c["test"]:
        s.test_error = True
        s.basis_eval_test = rng.standard_normal((6, p, q))
        s.test_data = [None, rng.standard_normal((6, q))]
    got, out = run(s)
    ww = np.sqrt(w if c["weights"] else np.ones(n))
    R = np.concatenate([ww[:, None] * A[:, :, k] for k in range(q)])
    v = np.concatenate([ww * y[:, k] for k in range(q)])
    if np.linalg.cond(R) > 1e4:
        raise Discard
    ref = lsq(R, v)
    close(np.ravel(got), ref, "shared coefficients", tol=1e-7,
          scale=1 + np.max(np.abs(ref)))
    if c["test"]:
        f = np.einsum("ijk,j->ik", s.basis_eval_test, ref)
        r = np.sum((f - s.test_data[1]) ** 2) / np.sum(s.test_data[1] ** 2)
        close(out["test_error"], np.sqrt(r), "test error", tol=1e-6, scale=1)
    close(np.ravel(run(s)[0]), ref, "second resolution", tol=1e-7,
          scale=1 + np.max(np.abs(ref)))
    return q > 1


def folds(c, n):
    """The partition that the library draws from the global generator."""
    from sklearn.model_selection import KFold
    np.random.seed(c["seed"] % 1000)
    out = [t for _, t in KFold(n_splits=min(n, c["folds"]), shuffle=True)
           .split(np.zeros((n, 1)))]
    np.random.seed(c["seed"] % 1000)
    return out


def cross(A, y, parts):
    """Predictions of each part by the model learned without it."""
    d = np.zeros(y.shape)
    H = np.eye(len(A)) - A @ np.linalg.pinv(A)
    for t in parts:
        # a part that determines the model by itself
        if np.min(np.linalg.eigvalsh(H[np.ix_(t, t)])) < 1e-5:
            raise Discard
        k = np.setdiff1d(np.arange(len(A)), t)
        if np.linalg.cond(A[k] / np.linalg.norm(A, axis=0)) > 1e4:
            raise Discard
        d[t] = y[t] - A[t] @ lsq(A[k], y[k])
    return d


def correction(A, G):
    n, p = A.shape
    if n == p:
        return 1
    return n / (n - p) * (1 + np.trace(np.linalg.inv(A.T @ A) @ G))


def reference_error(c, A, y, G, parts):
    """The (corrected) relative cross-validation error, None if it is not
    defined."""
    n, p = A.shape
    if c["type"] == "leave_out" or len(parts) == n:
        parts = [[i] for i in range(n)]
    if n - max(len(t) for t in parts) < p:
        return None, None
    d = cross(A, y, parts)
    e = np.mean([np.mean(d[t] ** 2, 0) for t in parts], 0)
    e = e / np.mean(y ** 2, 0)
    if c["corr"]:
        e = e * correction(A, G)
    return np.sqrt(e), d


def estimation(c, s, rng):
    s.error_estimation = True
    s.error_estimation_type = c["type"]
    s.error_estimation_options = {"correction": c["corr"]}
    G = np.eye(c["p"])
    if c["gram"]:
        lab("Gram matrix")
        G = rng.standard_normal((c["p"], c["p"] + 2))
        G = G @ G.T / c["p"]
        s.error_estimation_options["gram_matrix"] = G.copy()
    if c["type"] == "k_fold" and c["folds"] != DEFAULT_FOLDS:
        s.error_estimation_options["number_of_folds"] = c["folds"]
    lab(c["type"], "correction" if c["corr"] else "no correction")
    return G


@P.relation("error_estimation", problems(under=False), 2500,
            rule="the error estimate is finite and not zero")
def error_estimation(c):
    info(c)
    A, _, y, w, rng = data(c)
    # functions of different magnitudes
    k = [0, 0, 2, 4, 7][c["seed"] // 7 % (5 if c["solver"] == "qr" else 3)]
    A = A * 10. ** -(k * (rng.rand(c["p"]) < .5))
    lab("magnitudes" if k else "")
    s = solver(c, A, y, w)
    G = estimation(c, s, rng)
    Aw, yw = scaled(c, A, y, w)
    parts = folds(c, c["n"])
    x, out = run(s)
    ref = lsq(Aw, yw)
    close(x, ref, "solution", tol=1e-7, scale=1 + np.max(np.abs(ref)))
    if c["type"] == "residuals":
        d = yw - Aw @ ref
        close(out["delta"], d, "residuals", tol=1e-7)
        close(out["error"], np.mean(d ** 2, 0) / np.mean(yw ** 2, 0),
              "relative mean-square residual", tol=1e-7, scale=1)
        return c["noise"] > 0
    e, d = reference_error(c, Aw, yw, G, parts)
    if e is None:
        return False
    if c["q"] == 1:
        e, d = e[0], d[:, 0]
    big = 1 + np.max(np.abs(d)) + np.max(np.abs(yw))
    close(out["delta"], d, "cross-validation residuals", tol=1e-6, scale=big)
    if k == 7 and c["noise"] == 0:
        # the correction multiplies rounding errors
        return False
    close(out["error"], e, "cross-validation error", tol=1e-5,
          scale=max(np.max(e), 1e-3))
    return c["noise"] > 0 and np.min(e) > 0


def path_of(c, rng):
    k = c["path"]
    if k == 0:
        return None
    S = rng.rand(c["p"], k) < .6
    return S


@composite
def adapted(draw):
    c = draw(problems(under=True))
    c["type"] = draw(st.sampled_from(["leave_out", "leave_out", "k_fold"]))
    c["path"] = draw(st.integers(0, 5))
    c["stop"] = draw(st.integers(0, 3)) == 0
    return c


@P.relation("reused", st.lists(st.one_of(problems(), adapted()), min_size=2,
                               max_size=4), 1500,
            rule="samples of different sizes")
def reused(cs):
    """A solver used with other data gives the results of a new solver."""
    c = cs[0]
    p, q = c["p"], c["q"]
    s = tensap.LinearModelLearningSquareLoss()
    s.linear_solver = c["solver"]
    estimation(dict(c, gram=False), s, rng_of(c))
    s.basis_adaptation = "path" in c
    fixed = [s.error_estimation_type, dict(s.error_estimation_options),
             s.linear_solver]
    done = set()
    for b in cs:
        A, _, y, w, _ = data(dict(b, p=p, q=q))
        if len(A) <= p:
            continue
        t = tensap.LinearModelLearningSquareLoss()
        t.error_estimation = True
        t.error_estimation_type, o, t.linear_solver = fixed
        t.error_estimation_options = dict(o)
        t.basis_adaptation = s.basis_adaptation
        got = []
        for u in (s, t):
            u.weights = w.copy() if b["weights"] else None
            u.basis_eval, u.training_data = A.copy(), [None, y.copy()]
            np.random.seed(b["seed"] % 1000)
            got.append(run(u))
        (x, out), (z, ref) = got
        close(x, z, "solution of a solver used before", tol=1e-9,
              scale=1 + np.max(np.abs(z)))
        g, e = np.asarray(out["error"]), np.asarray(ref["error"])
        same(np.isfinite(g), np.isfinite(e), "finite errors")
        m = np.isfinite(e)
        close(g[m], e[m], "error estimated by a solver used before", tol=1e-8,
              scale=1e-3 + np.max(np.abs(e[m]), initial=0))
        need([s.error_estimation_type, dict(s.error_estimation_options),
              s.linear_solver] == fixed, "parameters of the solver",
             got=s.error_estimation_options)
        done.add(len(A))
    lab(c["type"], "adaptation" if "path" in c else "")
    return len(done) > 1


def check_path(c, A, y, G, out, x, S, what):
    """One output: every pattern of the path and the selected one."""
    n = len(A)
    e = np.asarray(out["error_path"])
    X = np.asarray(out["solution_path_OLS"])
    F = np.asarray(out["pattern_path"]) != 0
    need(F.shape[1] <= X.shape[1] and len(e) == F.shape[1], what + ": sizes")
    if S is not None:
        W = []
        for v in S.T:
            if v.any() and v.sum() <= n and v.tolist() not in W:
                W.append(v.tolist())
        same(np.array(F.T, int), np.array(W, int), what + ": patterns")
    stopped = False
    for i, m in enumerate(F.T):
        if stopped:
            need(e[i] == np.inf, what + ": not explored")
            continue
        r = lsq(A[:, m], y)
        if np.linalg.cond(A[:, m]) > 1e3:
            raise Discard
        v = np.zeros(len(m))
        v[m] = r
        close(X[:, i], v, what + ": least-squares solution on a pattern",
              tol=1e-6, scale=1 + np.max(np.abs(v)))
        if c["type"] == "leave_out":
            w, d = reference_error(c, A[:, m], y, G[np.ix_(m, m)], [])
            if w is None:
                need(e[i] == np.inf, what + ": undefined error", got=e[i])
            else:
                close(e[i], w, what + ": error of a pattern", tol=1e-5,
                      scale=max(w, 1e-3))
        if c["stop"] and i > 1 and e[i] > 2 * e[i - 1]:
            stopped = True
            lab("stopped")
    k = int(out["ind"])
    need(e[k] == np.min(e), what + ": selected model", errors=e, ind=k)
    close(x, X[:, k], what + ": selected solution", tol=1e-12)
    close(out["error"], e[k], what + ": error", tol=1e-12)
    same(np.asarray(out["pattern"]) != 0, F[:, k], what + ": pattern")
    return len(e)


@P.relation("adaptation", adapted(), 1500, rule="at least three models")
def adaptation(c):
    info(c)
    A, _, y, w, rng = data(c)
    s = solver(c, A, y, w)
    G = estimation(c, s, rng)
    s.error_estimation = bool(c["seed"] % 2)
    s.basis_adaptation = True
    s.model_selection_options["stop_if_error_increase"] = c["stop"]
    S = path_of(c, rng)
    if S is not None:
        if not S.any():
            raise Discard
        s.basis_adaptation_path = S.copy() if c["aslist"] else \
            S * rng.uniform(1, 2, S.shape)
    else:
        lab("nested models")
        S = np.triu(np.ones((c["p"], c["p"]))) > 0
    if not any(0 < v.sum() <= c["n"] for v in S.T):
        raise Discard
    np.random.seed(c["seed"] % 1000)
    x, out = run(s)
    Aw, yw = scaled(c, A, y, w)
    k = 0
    if c["q"] <= 1:
        k = check_path(c, Aw, np.ravel(yw), G, out, np.ravel(x), S, "path")
    else:
        for j in range(c["q"]):
            o = out["outputs"][j]
            k = check_path(c, Aw, yw[:, j], G, o, x[:, j], S,
                           "output %d" % j)
            close(out["error"][j], o["error"], "error of an output",
                  tol=1e-12)
    same(s.training_data[1], y, "training data unchanged")
    same(s.basis_eval, A, "evaluations unchanged")
    if c["gram"]:
        same(s.error_estimation_options["gram_matrix"], G,
             "Gram matrix unchanged")
    return k > 2


@composite
def regularized(draw):
    c = draw(problems(under=False, min_extra=2))
    c["reg"] = draw(st.sampled_from(["l0", "l1", "l1", "l2"]))
    c["alpha"] = draw(st.sampled_from([0, .01, .5]))
    c["select"] = draw(st.booleans())
    c["sparse"] = draw(st.booleans())
    c["blocks"] = draw(st.integers(0, 3))
    c["type"] = "leave_out"
    c["stop"] = False
    c["n"] = max(c["n"], c["p"] + 3)
    return c


@P.relation("regularization", regularized(), 1200,
            rule="at least two functions")
def regularization(c):
    info(c)
    lab(c["reg"])
    A, x0, y, w, rng = data(c)
    if c["sparse"]:
        x0 = x0 * (rng.rand(*x0.shape) < .5)
        if not np.all(np.any(x0, 0)):
            raise Discard
        y = A @ x0 + c["noise"] * rng.standard_normal(y.shape)
    s = solver(c, A, y, w)
    G = estimation(c, s, rng)
    s.regularization = True
    s.regularization_type = c["reg"]
    s.regularization_options = {"alpha": c["alpha"]}
    s.model_selection = c["select"]
    q = max(1, c["q"])
    free = None
    if c["blocks"] > 1 and c["select"]:
        _, free = run(s)
        free = free["outputs"] if q > 1 else [free]
        # sets of functions, all of them represented in the selected model
        s.options["non_zero_blocks"] = blocks = [
            b for b in np.array_split(rng.permutation(c["p"]), c["blocks"])
            if len(b)]
    x, out = run(s)
    Aw, yw = scaled(c, A, y, w)
    X = np.reshape(x, (c["p"], q))
    Y = np.reshape(yw, (c["n"], q))
    for j in range(q):
        o = out["outputs"][j] if q > 1 else out
        u, v = X[:, j], Y[:, j]
        need(np.size(o.get("error", [])) == 1, "an error is estimated",
             got=o.get("error"))
        if c["reg"] == "l2":
            z = np.linalg.solve(Aw.T @ Aw + c["alpha"] * np.eye(c["p"]),
                                Aw.T @ v)
            close(u, z, "ridge regression", tol=1e-6,
                  scale=1 + np.max(np.abs(z)))
            continue
        if free is not None and "error_path" in free[j]:
            F = np.asarray(free[j]["pattern_path"]) != 0
            m = np.all([F[b].any(0) for b in blocks], 0)
            if not m.any():
                lab("no admissible model")
                continue
            need("pattern_path" in o, "models with non-zero blocks")
            same(np.asarray(o["pattern_path"]) != 0, F[:, m],
                 "models with non-zero blocks")
            lab("some models excluded" if not m.all() else "")
        if c["select"] and "error_path" in o:
            lab("model selection")
            check_path(c, Aw, v, G, o, u, None, c["reg"])
            if free is None and c["noise"] == 0 and (c["reg"] == "l0" or (
                    c["alpha"] == 0 and np.linalg.cond(Aw) < 30)):
                lab("exact recovery")
                close(u, np.reshape(x0, (c["p"], q))[:, j],
                      "coefficients of a function of the space", tol=1e-5,
                      scale=1 + np.max(np.abs(x0)))
        elif c["reg"] == "l0":
            m = u != 0
            z = np.zeros(c["p"])
            z[m] = lsq(Aw[:, m], v)
            close(u, z, "matching pursuit: least-squares solution on the "
                  "pattern", tol=1e-6, scale=1 + np.max(np.abs(z)))
            e, _ = reference_error(c, Aw[:, m], v, G[np.ix_(m, m)], [])
            if e is not None and np.linalg.cond(Aw[:, m]) < 1e3:
                lab("error of a pattern")
                close(o["error"], e, "error of the pattern of the matching "
                      "pursuit", tol=1e-5, scale=1e-7 + e)
        elif c["reg"] == "l1":
            # optimality conditions of the LASSO
            g = Aw.T @ (v - Aw @ u) / c["n"]
            t = 1e-6 * (1 + np.max(np.abs(Aw.T @ v)))
            need(np.all(np.abs(g) <= c["alpha"] + t),
                 "optimality of the LASSO solution", g=g)
            m = np.abs(u) > 1e-6 * (1 + np.max(np.abs(u)))
            close(g[m], c["alpha"] * np.sign(u[m]),
                  "optimality of the LASSO solution", tol=1, scale=t)
    same(s.training_data[1], y, "training data unchanged")
    close(run(s)[0], x, "second resolution", tol=1e-9)
    return c["p"] > 1


@composite
def functional(draw):
    c = draw(M.multis(max_dim=3, max_card=3, max_size=8,
                      forms=("full", "sparse")))
    c["q"] = draw(st.integers(0, 2))
    c["extra"] = draw(st.integers(2, 10))
    c["test"] = draw(st.booleans())
    c["how"] = draw(st.sampled_from(["ols", "adaptation", "l1"]))
    return c


@P.relation("functions", functional(), 800, rule="at least two functions")
def functions(c):
    b = M.make(c)
    rng = rng_of(c)
    I = M.indices(c)
    n = len(I) * 2 + c["extra"]
    x = M.generic(c, rng, n)
    A = M.values(c, x)
    if np.linalg.cond(A) > 1e4:
        raise Discard
    u = rng.standard_normal((len(I), c["q"]) if c["q"] else len(I))
    lab(c["how"], "%d outputs" % max(1, c["q"]))
    z = M.generic(c, rng, 9)
    s = tensap.LinearModelLearningSquareLoss()
    s.basis = b
    exact = bool(c["seed"] % 2)
    y = A @ u
    if not exact:
        y = y + .1 * rng.standard_normal(y.shape)
    s.training_data = [x, y.copy()]
    if c["how"] == "adaptation":
        s.basis_adaptation = True
    elif c["how"] == "l1":
        s.regularization = True
    Z = M.values(c, z)
    if c["test"]:
        lab("test error")
        s.test_error = True
        s.test_data = [z, Z @ u + rng.standard_normal((9,) + u.shape[1:])]
    f, out = run(s)
    need(isinstance(f, tensap.FunctionalBasisArray), "type of the solution",
         got=type(f))
    got = np.reshape(f.eval(z), (9, -1))
    X = np.reshape(f.data, (len(I), -1))
    sc = 1 + np.max(np.abs(Z)) * np.max(np.abs(X)) * len(I)
    close(got, Z @ X, "values of the learned function", tol=1e-7, scale=sc)
    # the leave-one-out error of a point which alone determines a coefficient
    # is not defined
    h = np.max(np.sum(np.linalg.qr(A)[0] ** 2, 1))
    if exact and (c["how"] == "ols" or
                  c["how"] == "adaptation" and h < 1 - 1e-5):
        close(got, np.reshape(Z @ u, (9, -1)),
              "function of the approximation space", tol=1e-5, scale=sc)
    elif c["how"] == "ols":
        ref = lsq(A, y)
        close(got, np.reshape(Z @ ref, (9, -1)), "least-squares approximation",
              tol=1e-6, scale=sc)
    if c["test"]:
        t = np.reshape(s.test_data[1], (9, -1))
        e = np.sqrt(np.sum((Z @ X - t) ** 2, 0) / np.sum(t ** 2, 0))
        close(np.ravel(out["test_error"]), e, "test error", tol=1e-6, scale=1)
        close(s.loss_function.relative_test_error(f, [z, s.test_data[1]]),
              np.sqrt(np.sum((Z @ X - t) ** 2) / np.sum(t ** 2)),
              "relative error of the function", tol=1e-6, scale=1)
    return len(I) > 1

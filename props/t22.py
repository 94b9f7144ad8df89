"""T22: density estimation in linear spaces (L2 loss)."""
import contextlib
import io
import numpy as np
import tensap
from props.common import *
from props import multi as M

P = Prop("T22", "density estimation with the L2 loss in linear spaces", effort=4)


@composite
def problems(draw):
    p = draw(st.integers(1, 7))
    return {"p": p, "n": draw(st.integers(2, 20)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "shift": draw(st.booleans()), "form3": draw(st.booleans()),
            "aslist": draw(st.booleans()), "test": draw(st.booleans()),
            "how": draw(st.sampled_from(["standard", "adaptation",
                                         "regularization"])),
            "path": draw(st.integers(0, 5)), "incl": draw(st.integers(0, 3)),
            "est": draw(st.booleans()),
            "stop": draw(st.integers(0, 3)) == 0}


def leave_one_out(A, b):
    """Mean over the sample of the loss of the estimate without each
    point: the squared norm minus twice the value (plus the inner product
    with the subtracted function)."""
    n = len(A)
    r = 0
    for i in range(n):
        s = np.mean(np.delete(A, i, 0), 0) - b
        r = r + s @ s - 2 * A[i] @ s + 2 * s @ b
    return r / n


def run(s):
    with contextlib.redirect_stdout(io.StringIO()):
        return s.solve()


@P.relation("coefficients", problems(), 8000, rule="at least two functions")
def coefficients(c):
    rng = rng_of(c)
    n, p = c["n"], c["p"]
    A = rng.standard_normal((n, p)) * rng.uniform(.3, 2, p) \
        + rng.standard_normal(p)
    b = rng.standard_normal(p) if c["shift"] else np.zeros(p)
    lab(c["how"], "shift" if c["shift"] else "no shift")
    s = tensap.LinearModelLearningDensityL2()
    s.basis_eval = A[:, :, None].copy() if c["form3"] else A.copy()
    x = rng.standard_normal((n, 2))
    s.training_data = [x, b.copy()] if c["shift"] else \
        [x] if c["aslist"] else x
    s.error_estimation = c["est"]
    s.model_selection_options["stop_if_error_increase"] = c["stop"]
    B = rng.standard_normal((8, p))
    if c["test"]:
        s.test_error = True
        s.basis_eval_test = B.copy()
        s.test_data = [rng.standard_normal((8, 2))] if c["aslist"] else \
            rng.standard_normal((8, 2))
    u = np.mean(A, 0) - b
    sc = 1 + np.max(np.abs(A)) ** 2 * p * 10 + np.max(np.abs(b)) ** 2
    W = None
    if c["how"] == "adaptation":
        s.basis_adaptation = True
        W = np.triu(np.ones((p, p))) > 0
        if c["path"]:
            W = rng.rand(p, c["path"]) < .6
            s.basis_adaptation_path = W.copy()
        W = [tuple(v) for v in W.T if v.any() and v.sum() <= n]
        W = [v for i, v in enumerate(W) if v not in W[:i]]
    elif c["how"] == "regularization":
        s.regularization = True
        order = list(np.argsort(-np.abs(u)))
        k = min(c["incl"], p)
        if k:
            lab("included coefficients")
            incl = [int(i) for i in rng.permutation(p)[:k]]
            s.regularization_options = {"included_coefficients": incl}
            order = incl + [i for i in order if i not in incl]
        W = [tuple(i in order[:m] for i in range(p))
             for m in range(max(1, k), p + 1)]
        if k == p:
            W = None
    got, out = run(s)
    if not W:
        ref = u
        if c["est"] and c["how"] != "regularization":
            close(out["error"], leave_one_out(A, b),
                  "leave-one-out estimate of the risk", tol=1e-8, scale=sc)
    else:
        e = np.asarray(out["error_path"])
        X = np.asarray(out["solution_path"])
        same(np.array(out["pattern_path"]).T != 0, np.array(W)
             if c["how"] == "adaptation" else np.array(X.T != 0),
             "patterns")
        need(X.shape[1] == len(W) == len(e), "number of models",
             got=X.shape[1], want=len(W))
        stopped = False
        for i, v in enumerate(W):
            m = np.array(v)
            if stopped:
                need(e[i] == np.inf, "not explored")
                continue
            close(X[:, i], u * m, "coefficients of a model", tol=1e-9,
                  scale=sc)
            close(e[i], leave_one_out(A[:, m], b[m]),
                  "leave-one-out estimate of the risk of a model", tol=1e-8,
                  scale=sc)
            if c["how"] == "adaptation" and c["stop"] and i > 1 and \
                    e[i] > 2 * e[i - 1]:
                stopped = True
                lab("stopped")
        k = int(out["ind"])
        need(e[k] == np.min(e), "selected model", errors=e, ind=k)
        close(out["error"], e[k], "error of the selected model", tol=1e-12)
        ref = X[:, k]
    close(got, ref, "coefficients", tol=1e-9, scale=sc)
    if c["test"]:
        lab("test error")
        close(out["test_error"], ref @ ref - 2 * np.mean(B @ ref),
              "risk on the test sample", tol=1e-8, scale=sc)
    same(np.reshape(s.basis_eval, (n, p)), A, "evaluations unchanged")
    close(run(s)[0], got, "second resolution", tol=1e-12)
    return p > 1


@composite
def functional(draw):
    c = draw(M.multis(kinds=("poly",), max_dim=3, max_card=3, max_size=9,
                      forms=("full", "sparse")))
    c["n"] = draw(st.integers(2, 15))
    c["test"] = draw(st.booleans())
    c["aslist"] = draw(st.booleans())
    c["select"] = draw(st.sampled_from(["no", "adaptation",
                                        "regularization"]))
    return c


@P.relation("functions", functional(), 2500, rule="at least two functions")
def functions(c):
    b = M.make(c)
    rng = rng_of(c)
    x, z = M.generic(c, rng, c["n"]), M.generic(c, rng, 9)
    A, Z = M.values(c, x), M.values(c, z)
    s = tensap.LinearModelLearningDensityL2()
    s.basis = b
    s.training_data = [x] if c["aslist"] else x
    s.basis_adaptation = c["select"] == "adaptation"
    s.regularization = c["select"] == "regularization"
    if c["test"]:
        s.test_error = True
        s.test_data = [z] if c["aslist"] else z
    f, out = run(s)
    need(isinstance(f, tensap.FunctionalBasisArray), "type of the solution",
         got=type(f))
    u = np.ravel(f.data)
    sc = 1 + np.max(np.abs(A)) ** 2 * 10 * A.shape[1]
    if c["select"] == "no":
        close(u, np.mean(A, 0), "empirical means", tol=1e-8, scale=sc)
    m = u != 0
    close(u[m], np.mean(A, 0)[m], "kept empirical means", tol=1e-8, scale=sc)
    sc2 = sc * (1 + np.max(np.abs(Z)))
    close(np.ravel(f.eval(z)), Z @ u, "values of the density", tol=1e-8,
          scale=sc2)
    risk = u @ u - 2 * np.mean(Z @ u)
    if c["test"]:
        close(out["test_error"], risk, "risk on the test sample", tol=1e-8,
              scale=sc2)
    close(tensap.DensityL2LossFunction().test_error(f, [z]), risk,
          "risk of the density", tol=1e-7, scale=sc2)
    return A.shape[1] > 1

"""T23: loss functions and model selection."""
import contextlib
import io
import numpy as np
import tensap
from props.tbt import *
from props import bases as B
from props import multi as M

P = Prop("T23", "loss functions and model selection", effort=5)


@composite
def losses(draw):
    return {"n": draw(st.integers(1, 12)), "q": draw(st.integers(0, 3)),
            "how": draw(st.sampled_from(["array", "callable", "function",
                                         "basis", "column"])),
            "kind": draw(st.sampled_from(["square", "square", "density",
                                          "custom"])),
            "col": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


@P.relation("losses", losses(), 3000, rule="at least two points")
def losses_(c):
    rng = rng_of(c)
    n, q = c["n"], max(1, c["q"])
    if c["kind"] != "square" or c["how"] in ("function", "basis"):
        q = 1
    x = rng.uniform(-1, 1, (n, 2))
    a = rng.standard_normal((2, q))
    f = np.sin(x) @ a
    y = rng.standard_normal((n, q))
    lab(c["kind"], c["how"], "%d outputs" % q)
    if c["q"] == 0 and q == 1 and not c["col"]:
        y = y[:, 0]
    Y = np.reshape(y, (n, q))
    basis = None
    if c["how"] == "basis":
        X = tensap.RandomVector(tensap.UniformRandomVariable(-1, 1), 2)
        H = tensap.FullTensorProductFunctionalBasis([
            tensap.PolynomialFunctionalBasis(
                v.orthonormal_polynomials(), range(3))
            for v in X.random_variables])
        basis = fun = tensap.FunctionalBasisArray(rng.standard_normal(9), H)
        L = np.sqrt([1., 3., 5.])
        p = np.stack([np.ones_like(x), x, (3 * x ** 2 - 1) / 2], 2) * L
        E = np.stack([p[:, 0, i] * p[:, 1, j] for j in range(3)
                      for i in range(3)], 1)
        E2 = np.stack([p[:, 0, i] * p[:, 1, j] for i in range(3)
                       for j in range(3)], 1)
        f = fun.eval(x)
        f = np.reshape(f, (n, 1))
        u = np.ravel(fun.data)
        if np.max(np.abs(E @ u - f[:, 0])) > np.max(np.abs(E2 @ u - f[:, 0])):
            E = E2
        close(f[:, 0], E @ u, "values of the basis", tol=1e-9, scale=30)
    elif c["how"] == "function":
        fun = tensap.UserDefinedFunction(
            lambda t: (np.sin(t) @ a)[:, 0], 2)
        fun.evaluation_at_multiple_points = True
    elif c["how"] == "callable":
        fun = (lambda t: np.sin(t) @ a) if c["col"] or q > 1 else \
            (lambda t: (np.sin(t) @ a)[:, 0])
    elif c["how"] == "column" or q > 1:
        fun = f.copy()
    else:
        fun = f[:, 0].copy()
    if c["kind"] == "square":
        s = tensap.SquareLossFunction()
        d, ref = np.sum((f - Y) ** 2, 1), np.sum(Y ** 2, 1)
        loss, lref = s.eval(fun, [x, y], nargout=2)
        close(loss, d, "loss of each point", tol=1e-9, scale=1)
        close(s.eval(fun, [x, y]), d, "loss", tol=1e-9, scale=1)
        close(lref, ref, "reference loss", tol=1e-9, scale=1)
        r, r0 = s.risk_estimation(fun, [x, y], nargout=2)
        close(r, np.mean(d), "risk", tol=1e-9, scale=1)
        close(s.risk_estimation(fun, [x, y]), np.mean(d), "risk alone",
              tol=1e-9, scale=1)
        close(r0, np.mean(ref), "reference risk", tol=1e-9, scale=1)
        e = np.sqrt(np.mean(d) / np.mean(ref))
        close(s.test_error(fun, [x, y]), e, "default error", tol=1e-7)
        close(s.relative_test_error(fun, [x, y]), e, "relative error",
              tol=1e-7)
        s.error_type = "absolute"
        close(s.test_error(fun, [x, y]), np.sqrt(np.mean(d)),
              "absolute error", tol=1e-7)
        close(tensap.LinearModelLearningSquareLoss().risk_estimation(
            fun, [x, y]), np.mean(d), "risk by the learning object",
            tol=1e-9, scale=1)
    elif c["kind"] == "density":
        s = tensap.DensityL2LossFunction()
        norm = abs(rng.standard_normal())
        args = [norm]
        if c["how"] == "basis":
            args, norm = [], np.linalg.norm(basis.data)
        elif c["how"] == "function":
            fun = fun.eval
        z = [x, y] if c["col"] else [x]
        with contextlib.redirect_stdout(io.StringIO()):
            d = norm ** 2 - 2 * f[:, 0]
            close(np.ravel(s.eval(fun, z, *args)), d, "loss of each point",
                  tol=1e-9, scale=30)
            close(s.risk_estimation(fun, z, *args), np.mean(d), "risk",
                  tol=1e-9, scale=30)
            close(s.test_error(fun, z, *args), np.mean(d), "error",
                  tol=1e-9, scale=30)
    else:
        g = lambda t, p: np.abs(np.ravel(p) - np.ravel(t)) ** 3
        s = tensap.CustomLossFunction(g)
        d = np.abs(f[:, 0] - Y[:, 0]) ** 3
        ref = np.abs(Y[:, 0]) ** 3
        loss, lref = s.eval(fun, [x, y], nargout=2)
        close(loss, d, "loss of each point", tol=1e-8, scale=30)
        close(lref, ref, "reference loss", tol=1e-8, scale=30)
        close(s.eval(fun, [x, y]), d, "loss", tol=1e-8, scale=30)
        r, r0 = s.risk_estimation(fun, [x, y], nargout=2)
        close(r, np.mean(d), "risk", tol=1e-8, scale=30)
        close(r0, np.mean(ref), "reference risk", tol=1e-8, scale=30)
        close(s.test_error(fun, [x, y]), np.mean(d), "error", tol=1e-8,
              scale=30)
        s.error_function = lambda h, t: ("error", h is fun, t[0] is x)
        need(s.test_error(fun, [x, y]) == ("error", True, True),
             "user-defined error")
        s.relative_error_function = lambda h, t: ("rel", h is fun, t[0] is x)
        need(s.relative_test_error(fun, [x, y]) == ("rel", True, True),
             "user-defined relative error")
    return n > 1


@composite
def families(draw):
    return {"n": draw(st.integers(1, 9)), "seed": draw(st.integers(0, 10 ** 6)),
            "ints": draw(st.booleans()), "big": draw(st.integers(1, 8)),
            "pen": draw(st.sampled_from(["x", "x", "sqrt", "square"])),
            "aslist": draw(st.booleans()), "mono": draw(st.booleans()),
            "gap": draw(st.sampled_from([2, 2, 1.5]))}


PENS = {"x": lambda x: x, "sqrt": np.sqrt, "square": lambda x: x ** 2}


@P.relation("selection", families(), 6000,
            rule="the selected model depends on the penalty")
def selection(c):
    rng = rng_of(c)
    n = c["n"]
    if c["ints"]:
        comp = rng.randint(1, c["big"] + 1, n).astype(float)
        risk = rng.randint(0, c["big"] + 1, n).astype(float)
    else:
        comp = rng.uniform(1, 20, n)
        risk = rng.standard_normal(n)
    if c["mono"]:
        comp, risk = np.sort(comp), -np.sort(-risk)
        k = rng.permutation(n)
        if c["seed"] % 2:
            comp, risk = comp[k], risk[k]
    pen = PENS[c["pen"]]
    s = tensap.ModelSelection()
    s.data["complexity"] = comp.tolist() if c["aslist"] else comp.copy()
    s.data["empirical_risk"] = risk.tolist() if c["aslist"] else risk.copy()
    if c["pen"] != "x":
        s.pen_shape = pen
    if c["gap"] != 2:
        s.gap_factor = c["gap"]
    t = 1e-9 * (1 + np.max(np.abs(risk)) + np.max(np.abs(comp)) ** 2)

    def obj(l):
        return risk + l * pen(comp)

    def optimal(m, l, what):
        v = obj(l)
        m = int(np.ravel(m)[0])
        need(v[m] <= np.min(v) + t * (1 + l), what, model=m, values=v,
             penalty=l)

    ls = rng.uniform(0, 5, 3)
    for l, m in zip(ls, s.m_lambda(ls)):
        optimal(m, l, "minimizer of the penalized risk")
    optimal(s.m_lambda(ls[0]), ls[0], "minimizer for a scalar penalty")
    path, m = s.lambda_path()
    if np.ndim(path) == 0:
        lab("one model for all penalties")
        for l in [0, .1, 1., 10., 1e3]:
            optimal(m, l, "model selected for every penalty")
    else:
        lab("%d jumps" % (len(path) - 2))
        need(len(path) == len(m), "sizes of the path")
        need(np.all(np.diff(path) > -1e-9 * path[-1]) and path[0] > 0,
             "increasing penalties", got=path)
        ends = list(path[1:-1])
        optimal(m[0], 0, "model without penalty")
        optimal(m[0], path[0], "model of the first penalty")
        optimal(m[0], path[1], "model up to the first jump")
        for i in range(1, len(path) - 1):
            optimal(m[i], path[i], "model selected at a jump")
            optimal(m[i], path[i + 1] if i + 2 < len(path) else 1e3 * path[i],
                    "model selected up to the next jump")
            need(comp[m[i]] < comp[m[i - 1]], "decreasing complexities")
        need(m[-1] == m[-2], "last model")
        close(path[0], path[1] / 2, "first penalty", tol=1e-12)
        close(path[-1], path[-2] * 2, "last penalty", tol=1e-12)
    # slope heuristic
    lh, mh, lp, mp = s.slope_heuristic()
    if np.all(comp == comp[0]):
        need(int(np.ravel(mh)[0]) == 0, "first model")
        return False
    optimal(mh, lh, "model of the slope heuristic")
    if np.ndim(path) == 0:
        optimal(mh, 0, "model selected for every penalty")
        return False
    same(lp, path, "path of the heuristic")
    same(mp, m, "models of the heuristic")
    # largest jump of complexity, computed from the values of the penalty;
    # the minimizers between two jumps must be unique up to their complexity
    mid = np.concatenate(([path[1] / 2], (path[1:-2] + path[2:-1]) / 2,
                          [path[-1]]))
    if np.any(np.diff(path[1:-1]) < 1e-6 * path[-1]):
        return True
    best = []
    for l in mid:
        v = obj(l)
        k = np.nonzero(v <= np.min(v) + 10 * t * (1 + l))[0]
        if np.ptp(comp[k]) > 0:
            return True
        best.append(comp[k[0]])
    gaps = -np.diff(best)
    ok = [c["gap"] * path[i + 1] for i in range(len(gaps))
          if gaps[i] >= np.max(gaps) - 1e-9]
    need(np.min(np.abs(np.array(ok) - lh)) <= 1e-9 * abs(lh),
         "penalty of the slope heuristic", got=lh, want=ok)
    lh2, mh2, _, _ = s.slope_heuristic(path, m)
    need(lh2 == lh and np.all(mh2 == mh), "heuristic with a given path")
    return True


@P.relation("complexity", tbts(root_rank=None, max_rank=4), 1200,
            rule="an internal node that is not the root")
def complexity(c):
    X, x = build_tbt(c)
    MS = tensap.ModelSelection
    full = sum(np.size(t.data) for t in X.tensors)
    zeros = sum(np.count_nonzero(t.data) for t in X.tensors)
    r = np.array(c["ranks"], dtype=float) * np.asarray(X.is_active_node)

    need(MS.complexity(X) == full, "complexity", got=MS.complexity(X),
         want=full)
    need(MS.complexity_tree_based_tensor(X) == full, "storage complexity")
    close(float(MS.complexity(X, "sparse_storage")), float(zeros),
          "sparse complexity", tol=1e-12)
    close(float(MS.complexity(X, c_type="grassman")),
          full - np.sum(r ** 2), "Grassmann complexity", tol=1e-12)
    close(float(MS.complexity(X, c_type="stiefel")),
          full - np.sum(r * (r + 1) / 2), "Stiefel complexity", tol=1e-12)
    close(np.array(MS.complexity([X, X], "sparse_storage", "grassman"),
                   dtype=float), [zeros - np.sum(r ** 2)] * 2,
          "complexities of a list", tol=1e-12)
    need(MS.complexity_tree_based_tensor([X]) == [full],
         "complexities of a list")
    raises(lambda: MS.complexity(X, c_type="other"), "unknown complexity")
    d2i = [int(i) for i in X.tree.dim2ind]
    leaves = sum(np.count_nonzero(t.data) if i + 1 in d2i else np.size(t.data)
                 for i, t in enumerate(X.tensors))
    rng = rng_of(c)
    F = tensap.FunctionalTensor(X, [rng.standard_normal((3, n))
                                    for n in X.shape])
    for Y in (X, F):
        for fun, n in (("storage", full), ("sparse_storage", zeros),
                       ("sparse_leaves_storage", leaves)):
            for f in (MS.complexity, MS.complexity_tree_based_tensor):
                close(float(f(Y, fun)), float(n), fun, tol=1e-12)
                close(float(f(Y, fun=fun, c_type="stiefel")),
                      n - np.sum(r * (r + 1) / 2), fun + ", Stiefel",
                      tol=1e-12)
    a = rng.randint(-1, 2, (c["s"] % 4 + 1, c["s"] // 4 % 3 + 1)) * 1.
    H = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(),
                                         range(len(a)))
    f = tensap.FunctionalBasisArray(a, H, a.shape[1])
    need(MS.complexity(f) == a.size, "complexity of a function")
    need(MS.complexity([f, F]) == [a.size, full], "complexities of a list")
    need(MS.complexity_functional_basis_array(f) == a.size,
         "complexity of a function")
    need(MS.complexity_functional_basis_array(f, "sparse_storage") ==
         np.count_nonzero(a), "sparse complexity of a function")
    return X.tree.nb_nodes > X.order + 1

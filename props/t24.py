"""T24: learning in tensor formats (canonical and tree-based)."""
import contextlib
import io
import random
import numpy as np
import tensap
from props.tbt import *

P = Prop("T24", "learning in tensor formats")


# ------------------------------------------------------------------- problems
def cut(c):
    """Largest admissible ranks below those of a description."""
    r = [int(i) for i in c["ranks"]]
    root = m_root(c)
    off = [c["d2i"][i] for i in c["off"]]

    def eff(n):
        return c["shape"][c["d2i"].index(n)] if n in off else r[n - 1]

    while True:
        old = list(r)
        for n in range(1, len(r) + 1):
            if n == root or n in off:
                continue
            ch = m_children(c["par"], n)
            below = prod([eff(i) for i in ch]) if ch else \
                c["shape"][c["d2i"].index(n)]
            pa = c["par"][n - 1]
            above = r[pa - 1] * prod([eff(i) for i in m_children(c["par"], pa)
                                      if i != n])
            r[n - 1] = min(r[n - 1], below, above)
        if r == old:
            return [0 if n in off else r[n - 1]
                    for n in range(1, len(r) + 1)]


@composite
def problems(draw, outputs=(1, 1, 1, 2, 3), max_rank=3, min_order=2,
             max_order=4, max_dim=4):
    out = draw(st.sampled_from(list(outputs)))
    c = draw(tbts(min_order=min_order, max_order=max_order, max_dim=max_dim,
                  max_rank=max_rank, root_rank=out, max_size=200,
                  kinds=("gauss",)))
    c["ranks"] = cut(c)
    c.update({
        "out": out, "n": draw(st.integers(30, 70)),
        "poly": draw(st.booleans()), "col": draw(st.booleans()),
        "target": draw(st.sampled_from(["model", "model", "noise", "ints"])),
        "noise": draw(st.sampled_from([0, 1e-3, .3])),
        "init": draw(st.sampled_from(["random", "random", "ones", "guess",
                                      "canonical", "mean",
                                      "mean_randomized"])),
        "shuffle": draw(st.booleans()), "test": draw(st.booleans()),
        "est": draw(st.booleans()), "maxit": draw(st.integers(1, 6)),
        "select": draw(st.sampled_from([None, None, "test_error",
                                        "cv_error"])),
        "again": draw(st.integers(0, 3)) == 0,
        "seed": draw(st.integers(0, 10 ** 6))})
    return c


def khatri(E):
    """Products of evaluations: one row per sample."""
    K = np.ones((len(E[0]), 1))
    for e in E:
        K = (K[:, :, None] * e[:, None, :]).reshape(len(e), -1)
    return K


class Data:
    """Samples, evaluations of the bases, target values."""

    def __init__(self, c, orthonormal=False):
        rng = self.rng = rng_of(c)
        d = len(c["shape"])
        nt = 15
        self.poly = c["poly"]
        if c["poly"]:
            mu = tensap.UniformRandomVariable(-1, 1)
            self.bases = tensap.FunctionalBases([
                tensap.PolynomialFunctionalBasis(mu.orthonormal_polynomials(),
                                                 range(n))
                for n in c["shape"]])
            self.x = rng.uniform(-1, 1, (c["n"], d))
            self.xt = rng.uniform(-1, 1, (nt, d))
            leg = [np.polynomial.legendre.Legendre.basis(i)
                   * np.sqrt(2 * i + 1) for i in range(max(c["shape"]))]
            self.E, self.Et = [
                [np.stack([leg[i](x[:, k]) for i in range(n)], 1)
                 for k, n in enumerate(c["shape"])]
                for x in (self.x, self.xt)]
        else:
            self.bases, self.x, self.xt = None, None, None
            self.E = [rng.standard_normal((c["n"], n)) for n in c["shape"]]
            self.Et = [rng.standard_normal((nt, n)) for n in c["shape"]]
        self.K, self.Kt = khatri(self.E), khatri(self.Et)

    def target(self, c, masks=None):
        rng = self.rng
        a = dict(c)
        a["s"] += 1
        A = build_tbt(a)[1].reshape(self.K.shape[1], -1)
        if masks is not None:
            A = A * np.prod(khatri([m[None] for m in masks]), 0)[:, None]
        y, yt = self.K @ A, self.Kt @ A
        s = np.std(y) + 1e-3
        if c["target"] == "noise":
            y = rng.standard_normal(y.shape)
        elif c["target"] == "ints":
            y = np.round(2 * y / s).astype(int) + (rng.rand(*y.shape) < .2)
        elif c["target"] == "model":
            y = y + c["noise"] * s * rng.standard_normal(y.shape)
        self.Y, self.Yt = y.astype(float), yt
        if c["out"] == 1 and not c["col"]:
            y, yt = y[:, 0], yt[:, 0]
        self.y, self.yt = y.copy(), yt

    def give(self, s, c):
        """Sets the data of a solver."""
        if self.poly:
            s.bases = self.bases
            if c["seed"] % 2:
                s.bases_eval = [e.copy() for e in self.E]
                s.training_data = [None, self.y]
                s.bases_eval_test = [e.copy() for e in self.Et]
                s.test_data = [None, self.yt]
            else:
                s.training_data = [self.x, self.y]
                s.test_data = [self.xt, self.yt]
        else:
            s.bases_eval = [e.copy() for e in self.E]
            s.training_data = [None, self.y]
            s.bases_eval_test = [e.copy() for e in self.Et]
            s.test_data = [None, self.yt]
        a = [self.y, self.yt] + ([self.x, self.xt] if self.poly else [])
        for e in (s.bases_eval, s.bases_eval_test):
            a += list(e) if e is not None else []
        return Frozen(*a)


def coefficients(f):
    """Dense array of coefficients of a learned function."""
    t = f.tensor
    if isinstance(t, tensap.CanonicalTensor):
        A = 0
        w = np.ravel(t.core.data)
        for r in range(len(w)):
            b = w[r]
            for u in t.space:
                b = np.multiply.outer(b, np.asarray(u)[:, r])
            A = A + b
        return np.reshape(A, (-1, 1)) if len(w) else np.zeros(
            (prod(t.shape), 1))
    x = check_tbt(t, "learned tensor")
    return x.reshape(prod(x.shape[:len(t.tree.dim2ind)]), -1)


def derivatives(t, K):
    """For each active node (or factor), the values of the derivatives of the
    function with respect to the entries of the tensor: (entries, samples,
    outputs)."""
    out = []
    if isinstance(t, tensap.CanonicalTensor):
        U, w = [np.asarray(u) for u in t.space], np.ravel(t.core.data)
        cols = []
        for r in range(len(w)):
            b = 1.
            for u in U:
                b = np.multiply.outer(b, u[:, r])
            cols.append(K @ b.ravel())
        return [np.array(cols)[:, :, None]]
    par = (np.arange(1, t.tree.adjacency_matrix.shape[0] + 1)
           @ np.asarray(t.tree.adjacency_matrix)).astype(int).tolist()
    d2i = [int(i) for i in t.tree.dim2ind]
    data = [x.data for x in t.tensors]
    for n in range(len(par)):
        if np.size(data[n]) == 0:
            continue
        D = []
        for i in range(data[n].size):
            e = np.zeros(data[n].size)
            e[i] = 1
            b = dense_model(par, d2i, data[:n] + [e.reshape(data[n].shape)]
                            + data[n + 1:])
            D.append(K @ b.reshape(K.shape[1], -1))
        out.append(np.array(D))
    return out


def orthogonality(f, K, R):
    """Smallest (over the parameters) normalized product of the residual with
    the derivatives of the function."""
    nr = np.linalg.norm(R)
    v = []
    for D in derivatives(f.tensor, K):
        g = np.tensordot(D, R, ([1, 2], [0, 1]))
        v.append(np.max(np.abs(g)) / (np.max(np.sqrt(np.sum(D ** 2, (1, 2))))
                                      * nr + 1e-300))
    return min(v)


def seed(c):
    np.random.seed(c["seed"] % 1000)
    random.seed(c["seed"] % 1000)


def solve(s):
    with contextlib.redirect_stdout(io.StringIO()):
        return s.solve()


def active(c):
    off = [c["d2i"][i] for i in c["off"]]
    return [n not in off for n in range(1, len(c["par"]) + 1)]


def risk(f, D):
    return np.sum((D.K @ coefficients(f) - D.Y) ** 2)


def size(f, D):
    """Bound for the terms of the sums."""
    t = f.tensor
    if isinstance(t, tensap.CanonicalTensor):
        v = np.max(np.abs(t.core.data))
        for u in t.space:
            v = v * max(1, np.max(np.abs(u)))
    else:
        v = np.max(np.abs(coefficients(f)))
    return 1 + v * np.max(np.abs(D.Kt))


def common(c, D, s, f, o, ref=None):
    """Relations between the outputs of a solver."""
    it = o["iterates"]
    if len(it) == 0:
        return
    if D.poly:
        need(all(isinstance(g.bases, tensap.FunctionalBases) for g in it)
             and isinstance(f.bases, tensap.FunctionalBases),
             "learned functions have bases")
        close(np.reshape(f.eval(D.xt), D.Yt.shape), D.Kt @ coefficients(f),
              "values of the learned function", tol=1e-8,
              scale=size(f, D))
    if s.test_error:
        e = np.ravel(o["test_error_iterations"])
        need(len(e) == len(it), "one test error per iterate")
        for g, v in zip(it, e):
            p = D.Kt @ coefficients(g) - D.Yt
            want = np.linalg.norm(p) / np.linalg.norm(D.Yt)
            close(v, want, "test error of an iterate", tol=1e-8,
                  scale=1 + want + size(g, D) / np.linalg.norm(D.Yt))
    k = len(it) - 1
    if s.model_selection:
        kind = s.model_selection_options["type"]
        if kind == "test_error" and s.test_error or kind == "cv_error":
            lab("selection with " + kind)
            e = np.ravel(o[{"test_error": "test_error_iterations",
                            "cv_error": "error_iterations"}[kind]])
            need(len(e) == len(it), "one error per iterate")
            k = o["selected_model_number"]
            need(e[k] <= np.min(e) * (1 + 1e-12), "selected model", errors=e,
                 k=k)
            close(o["test_error" if kind == "test_error" else "error"], e[k],
                  "error of the selected model", tol=1e-12)
    close(coefficients(f), coefficients(it[k]), "returned function",
          tol=1e-9, scale=1 + np.max(np.abs(coefficients(it[k]))))
    if s.test_error:
        close(o["test_error"], np.ravel(o["test_error_iterations"])[k],
              "returned test error", tol=1e-12)


def again(c, s, f, o):
    """The solver can be used again."""
    if c["again"]:
        lab("solved twice")
        seed(c)
        g, p = solve(s)
        a = coefficients(f)
        close(coefficients(g), a, "second resolution", tol=1e-9,
              scale=1 + np.max(np.abs(a)))


def decreasing(r, scale, what, tol=1e-8):
    for a, b in zip(r, r[1:]):
        need(b <= a + tol * scale, what, risks=r)


# --------------------------------------------------------------------- tree ALS
def tree_solver(c, loss=None):
    s = tensap.TreeBasedTensorLearning(
        build_tree(c), active(c), loss or tensap.SquareLossFunction())
    s.test_error = c["test"]
    s.error_estimation = c["est"]
    s.alternating_minimization_parameters["max_iterations"] = c["maxit"]
    s.alternating_minimization_parameters["random"] = c["shuffle"]
    s.alternating_minimization_parameters["display"] = c["seed"] % 7 == 0
    s.model_selection = c["select"] is not None
    if c["select"]:
        s.model_selection_options["type"] = c["select"]
    return s


@P.relation("tree", problems(), 500, rule="at least two iterations")
def tree(c):
    D = Data(c)
    D.target(c)
    s = tree_solver(c)
    frozen = D.give(s, c)
    root = m_root(c) - 1
    init, guess = c["init"], None
    ranks = list(c["ranks"])
    if init in ("mean", "mean_randomized"):
        ranks = [min(1, r) for r in ranks]
        s.rank = 1
    elif c["seed"] % 5 == 0 and init != "guess":
        k = 1 + c["seed"] % 3
        ranks = cut(dict(c, ranks=[c["out"] if i == root else k
                                   for i in range(len(ranks))]))
        if any(r != k for i, r in enumerate(ranks)
               if r and i != root):
            raise Discard
        s.rank = k
    else:
        s.rank = np.array(ranks) if c["seed"] % 2 else list(ranks)
    ranks[root] = c["out"]
    given = np.array(s.rank)
    if init == "guess":
        a = dict(c)
        a["s"] += 2
        guess = build_tbt(a)[0]
        s.initialization_type, s.initial_guess = "initial_guess", guess
        check = frozen_tbt(guess)
    else:
        s.initialization_type = init
    lab(init, "%d outputs" % c["out"], "%d inactive leaves" % len(c["off"]),
        "random order" if c["shuffle"] else "", c["target"])
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    same(np.array(s.rank), given, "prescribed ranks unchanged")
    if guess is not None:
        check("solve")
    # directions that the data leave at zero are removed
    generic = c["target"] == "noise" or \
        c["target"] == "model" and c["noise"] > 0
    need(list(f.tensor.ranks) == ranks or not generic and all(
        a <= b for a, b in zip(f.tensor.ranks, ranks)),
         "ranks of the learned function", got=f.tensor.ranks, want=ranks)
    scale = np.sum(D.Y ** 2) + 1e-300
    r = [risk(g, D) for g in o["iterates"]]
    if guess is not None:
        G = tensap.FunctionalTensor(guess, D.E)
        r = [risk(G, D)] + r
    decreasing(r, scale + r[0], "empirical risk along the iterations")
    R = D.K @ coefficients(f) - D.Y
    if np.sum(R ** 2) > 1e-12 * scale:
        v = orthogonality(f, D.K, R)
        need(v < 1e-6, "the residual is orthogonal to the derivatives with "
             "respect to one parameter at least", value=v)
    else:
        lab("zero residual")
    common(c, D, s, f, o)
    again(c, s, f, o)
    if len(o["iterates"]) < 2:
        return False


# ---------------------------------------------------------------------- canonical
@composite
def canonicals(draw):
    c = draw(problems(outputs=(1,), max_rank=1))
    c["off"] = []
    c["ranks"] = [1] * len(c["par"])
    c["rank"] = draw(st.integers(1, 3))
    c["init"] = draw(st.sampled_from(["random", "random", "ones", "guess",
                                      "mean", "mean_randomized", "greedy"]))
    c["loops"] = draw(st.sampled_from([0, 0, 1, 2]))
    return c


def uniform(c, r):
    root = m_root(c) - 1
    return [1 if i == root else r for i in range(len(c["par"]))]


def canonical_solver(c):
    s = tensap.CanonicalTensorLearning(len(c["shape"]),
                                       tensap.SquareLossFunction())
    s.rank = c["rank"]
    s.test_error = c["test"]
    s.error_estimation = c["est"]
    p = s.alternating_minimization_parameters
    p["display"] = c["seed"] % 7 == 0
    p["max_iterations"] = c["maxit"]
    p["random"] = c["shuffle"]
    if c["loops"]:
        p["one_by_one_factor"] = True
        p["inner_loops"] = c["loops"]
    s.model_selection = c["select"] is not None
    if c["select"]:
        s.model_selection_options["type"] = c["select"]
    return s


def well_conditioned(f, K):
    D = derivatives(f.tensor, K)[0][:, :, 0]
    D = D / (np.linalg.norm(D, axis=1)[:, None] + 1e-300)
    return len(D) <= D.shape[1] and np.linalg.cond(D) < 1e4


@P.relation("canonical", canonicals(), 500, rule="at least two iterations")
def canonical(c):
    D = Data(c)
    D.target(dict(c, ranks=uniform(c, 1 if c["rank"] == 1
                                   else min(3, 1 + c["rank"]))))
    s = canonical_solver(c)
    frozen = D.give(s, c)
    d = len(c["shape"])
    guess = None
    if c["init"] == "guess":
        rng = np.random.RandomState(c["s"])
        U = [rng.standard_normal((n, c["rank"])) for n in c["shape"]]
        w = rng.standard_normal(c["rank"])
        guess = tensap.CanonicalTensor(U, w)
        s.initialization_type, s.initial_guess = "initial_guess", guess
        frozen2 = Frozen(w, *U)
    else:
        s.initialization_type = c["init"]
    lab(c["init"], "rank %d" % c["rank"], "order %d" % d,
        "one by one" if c["loops"] else "", c["target"])
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    need(s.rank == c["rank"], "prescribed rank unchanged")
    if guess is not None:
        frozen2.check("solve: initial guess")
        need(len(guess.core.data) == c["rank"], "initial guess unchanged")
    k = len(f.tensor.core.data)
    need(k == c["rank"] or d == 2 and k <= c["rank"],
         "rank of the learned function", got=k, want=c["rank"])
    scale = np.sum(D.Y ** 2) + 1e-300
    if all(well_conditioned(g, D.K) for g in o["iterates"]):
        lab("well conditioned")
        r = [risk(g, D) for g in o["iterates"]]
        if guess is not None:
            r = [risk(tensap.FunctionalTensor(guess, D.E), D)] + r
        if d > 2 or not c["shuffle"]:
            decreasing(r, scale + r[0], "empirical risk along the iterations",
                       tol=1e-6)
        R = D.K @ coefficients(f) - D.Y
        if np.sum(R ** 2) > 1e-12 * scale:
            v = orthogonality(f, D.K, R)
            need(v < 1e-5, "the weights minimize the risk", value=v)
    common(c, D, s, f, o)
    again(c, s, f, o)
    if len(o["iterates"]) < 2:
        return False


@P.relation("greedy", canonicals(), 300, rule="at least two terms")
def greedy(c):
    D = Data(c)
    D.target(dict(c, ranks=uniform(c, 2)))
    s = canonical_solver(c)
    frozen = D.give(s, c)
    s.algorithm = "greedy"
    s.initialization_type = "mean" if c["init"] in ("guess", "greedy") \
        else c["init"]
    s.tolerance["on_error"] = s.tolerance["on_stagnation"] = 0
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    F = [tensap.FunctionalTensor(t, D.E) for t in o["sequence"]]
    for i, g in enumerate(F):
        need(len(g.tensor.core.data) == i + 1, "one term per step")
    r = [risk(g, D) for g in F]
    scale = np.sum(D.Y ** 2) + 1e-300
    ok = [well_conditioned(g, D.K) for g in F]
    lab("%d terms" % len(F), "well conditioned" if all(ok) else "")
    if all(ok):
        decreasing([scale] + r, scale, "risk along the greedy algorithm",
                   tol=1e-7)
        for g in F:
            R = D.K @ coefficients(g) - D.Y
            if np.sum(R ** 2) > 1e-10 * scale:
                need(orthogonality(g, D.K, R) < 1e-6,
                     "the weights minimize the risk")
    k = len(F) - 1
    if c["est"]:
        e = np.ravel(o["errors"])
        need(len(e) == len(F), "one error per term")
        k = o["selected_iterate"]
        need(e[k] == np.min(e) and (s.model_selection or o["error"] == e[k]),
             "selected iterate")
    if not s.model_selection:
        close(coefficients(f), coefficients(F[k]), "returned function")
    if c["test"]:
        e = np.ravel(o["test_error_iterations"])
        for g, v in zip(F, e):
            want = np.linalg.norm(D.Kt @ coefficients(g) - D.Yt) \
                / np.linalg.norm(D.Yt)
            close(v, want, "test error", tol=1e-8,
                  scale=1 + want + size(g, D) / np.linalg.norm(D.Yt))
    again(c, s, f, o)
    if len(F) < 2:
        return False


# ------------------------------------------------------------------ rank adaptation
@composite
def adaptations(draw, outputs=(1, 1, 2), max_order=4, min_order=2):
    c = draw(problems(outputs=outputs, max_rank=3, max_order=max_order,
                      min_order=min_order))
    c["init"] = draw(st.sampled_from(["random", "ones", "canonical"]))
    c["steps"] = draw(st.integers(1, 5))
    c["correction"] = draw(st.booleans())
    c["theta"] = draw(st.sampled_from([.1, .5, .8, 1.]))
    c["tree_adapt"] = draw(st.integers(0, 3)) == 0
    c["stop"] = draw(st.integers(0, 3)) == 0
    return c


def full_checks(c, D, s, f, o, stationary=True):
    common(c, D, s, f, o)
    R = D.K @ coefficients(f) - D.Y
    scale = np.sum(D.Y ** 2) + 1e-300
    if stationary and np.sum(R ** 2) > 1e-10 * scale:
        v = orthogonality(f, D.K, R)
        need(v < 1e-5, "the residual is orthogonal to the derivatives with "
             "respect to one parameter at least", value=v)


@P.relation("rank_adaptation", adaptations(), 200,
            rule="the ranks have been increased")
def rank_adaptation(c):
    D = Data(c)
    D.target(c)
    s = tree_solver(c)
    s.rank = 1
    s.initialization_type = c["init"]
    s.rank_adaptation = True
    p = s.rank_adaptation_options
    p["max_iterations"] = c["steps"]
    p["rank_one_correction"] = c["correction"]
    p["theta"] = c["theta"]
    p["early_stopping"] = c["stop"]
    p["early_stopping_factor"] = 1.
    s.tolerance["on_error"] = 1e-10
    s.tree_adaptation = c["tree_adapt"]
    s.tree_adaptation_options["tolerance"] = 1e-8
    frozen = D.give(s, c)
    lab("rank one correction" if c["correction"] else "",
        "%d inactive leaves" % len(c["off"]), "%d outputs" % c["out"],
        "tree adaptation" if c["tree_adapt"] else "")
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    need(s.rank == 1, "prescribed rank unchanged")
    it, rk = o["iterates"], []
    # up to an exact recovery: the truncations then depend on rounding
    exact = [risk(g, D) < 1e-9 * np.sum(D.Y ** 2) for g in it]
    exact = exact.index(True) if any(exact) else len(it)
    for g in it[:exact]:
        rk.append([int(i) for i in g.tensor.ranks])
        t = dict(c, ranks=rk[-1])
        if not c["tree_adapt"]:
            need(cut(t)[:] == rk[-1], "admissible ranks", got=rk[-1],
                 want=cut(t))
    if not c["tree_adapt"] and rk:
        root = m_root(c) - 1
        first = [c["out"] if i == root else int(a)
                 for i, a in enumerate(active(c))]
        need(rk[0] == first, "initial ranks", got=rk[0], want=first)
        for i in range(len(rk) - 1):
            e = [int(j) for j in np.ravel(o["enriched_nodes_iterations"][i])]
            want = [r + (j + 1 in e) for j, r in enumerate(rk[i])]
            need(rk[i + 1] == want, "enriched ranks", before=rk[i],
                 nodes=e, after=rk[i + 1])
    full_checks(c, D, s, f, o, not c["tree_adapt"])
    again(c, s, f, o)
    if len(it) < 2 or list(it[-1].tensor.ranks) == \
            list(it[0].tensor.ranks):
        return False


@composite
def degenerates(draw):
    c = draw(adaptations())
    c["est"] = draw(st.integers(0, 3)) > 0
    c["few"] = draw(st.integers(2, 14))
    c["zero"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["canonical"] = draw(st.booleans()) and c["out"] == 1
    c["adapt"] = draw(st.integers(0, 3)) > 0
    c["rank"] = draw(st.integers(1, 2))
    c["loops"] = 0
    c["select"] = None
    return c


@P.relation("degenerate", degenerates(), 300,
            rule="an infinite error, or values equal to zero")
def degenerate(c):
    """Few samples or zero values: a function is returned all the same."""
    c = dict(c, n=c["few"], target="model")
    D = Data(c)
    D.target(c)
    if c["zero"]:
        j = slice(None) if c["zero"] == 1 else 0
        D.Y[:, j] = 0
        D.y = D.Y.copy().reshape(D.y.shape)
    if c["canonical"]:
        s = canonical_solver(c)
        s.initialization_type = "mean"
    else:
        s = tree_solver(c)
        s.initialization_type = c["init"]
    s.rank = 1
    s.rank_adaptation = c["adapt"]
    s.rank_adaptation_options["max_iterations"] = c["steps"]
    frozen = D.give(s, c)
    seed(c)
    with np.errstate(all="ignore"):
        f, o = solve(s)
    frozen.check("solve")
    a = coefficients(f)
    need(np.all(np.isfinite(a)), "coefficients of the learned function")
    it = o["iterates"]
    need(len(it) > 0, "iterates")
    close(a, coefficients(it[-1]), "the last iterate is returned",
          tol=1e-9, scale=1 + np.max(np.abs(a)))
    lab("canonical" if c["canonical"] else "tree", "rank adaptation"
        if c["adapt"] else "", ["", "zero", "zero output"][c["zero"]])
    if c["test"]:
        for g, e in zip(it, np.ravel(o["test_error_iterations"])):
            want = np.linalg.norm(D.Kt @ coefficients(g) - D.Yt) \
                / np.linalg.norm(D.Yt)
            close(e, want, "test error of an iterate", tol=1e-8,
                  scale=1 + want + size(g, D) / np.linalg.norm(D.Yt))
    if not c["est"]:
        return c["zero"] > 0
    e = np.ravel(o["error_iterations"])
    need(len(e) <= len(it), "errors of the iterates")
    if c["adapt"]:
        need(len(e) == len(it), "one error per iterate")
        need(not np.any(np.isinf(e[1:])), "the iterations stop at an "
             "infinite error", errors=e)
        need(np.array_equal(o["error"], e[-1], equal_nan=True),
             "error of the returned function", got=o["error"], errors=e)
        if o["flag"] == -2:
            lab("infinite error")
    return c["zero"] > 0 or np.any(np.isinf(e)) or o["flag"] == -2


@P.relation("canonical_rank_adaptation", canonicals(), 150,
            rule="at least two ranks")
def canonical_rank_adaptation(c):
    D = Data(c)
    D.target(dict(c, ranks=uniform(c, 2)))
    s = canonical_solver(c)
    s.rank = 1
    s.initialization_type = "mean"
    s.rank_adaptation = True
    s.rank_adaptation_options["max_iterations"] = 1 + c["rank"]
    s.tolerance["on_error"] = 1e-10
    frozen = D.give(s, c)
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    it = o["iterates"]
    for i, g in enumerate(it):
        k = len(g.tensor.core.data)
        need(k == i + 1 or len(c["shape"]) == 2 and k <= i + 1,
             "one more term at each step", got=k, step=i)
    common(c, D, s, f, o)
    R = D.K @ coefficients(f) - D.Y
    if np.sum(R ** 2) > 1e-10 * np.sum(D.Y ** 2) and \
            well_conditioned(f, D.K):
        need(orthogonality(f, D.K, R) < 1e-5, "the weights minimize the risk")
    again(c, s, f, o)
    lab("%d ranks" % len(it))
    if len(it) < 2:
        return False


@P.relation("dmrg", adaptations(outputs=(1,)), 150,
            rule="the ranks have changed")
def dmrg(c):
    D = Data(c)
    D.target(c)
    s = tree_solver(c)
    root = m_root(c) - 1
    start = cut(dict(c, ranks=[
        r + (i != root and r > 0) * (c["seed"] >> 2 * i) % 3
        for i, r in enumerate(c["ranks"])])) if c["seed"] % 4 else \
        [int(a) for a in active(c)]
    s.rank = np.array(start) if c["seed"] % 4 else 1
    s.initialization_type = c["init"]
    s.rank_adaptation = True
    p = s.rank_adaptation_options
    low = c["correction"]
    p["type"] = "dmrg_low_rank" if low else "dmrg"
    k = 1 + c["steps"] if c["stop"] else None
    if k:
        p["max_rank"] = k
    p["post_alternating_minimization"] = c["tree_adapt"]
    s.tolerance["on_error"] = 1e-12
    frozen = D.give(s, c)
    lab(p["type"], "maximal rank" if k else "", "%d inactive leaves"
        % len(c["off"]))
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    common(c, D, s, f, o)
    if k:
        need(all(r <= k or i == root for i, r in enumerate(f.tensor.ranks)),
             "maximal rank", got=f.tensor.ranks, want=k)
    elif not low:
        scale = np.sum(D.Y ** 2)
        decreasing([risk(g, D) for g in o["iterates"]], scale,
                   "empirical risk along the iterations", tol=1e-6)
    again(c, s, f, o)
    if list(f.tensor.ranks) == start:
        return False


# --------------------------------------------------------------------- densities
def density_risk(f, D):
    a = coefficients(f)
    return np.sum(a ** 2) - 2 * np.mean(D.K @ a)


@P.relation("density", adaptations(outputs=(1,)), 250,
            rule="at least two iterates")
def density(c):
    c = dict(c, poly=True, target="model")
    D = Data(c)
    D.target(c)
    loss = tensap.DensityL2LossFunction()
    s = tree_solver(c, loss)
    s.initialization_type = "ones" if c["init"] == "ones" else "random"
    s.bases = D.bases
    s.training_data, s.test_data = D.x, D.xt
    s.tolerance["on_error"] = -np.inf
    adapt = c["stop"]
    if adapt:
        s.rank_adaptation = True
        s.rank_adaptation_options["max_iterations"] = c["steps"]
        s.rank_adaptation_options["rank_one_correction"] = c["correction"]
        s.rank_adaptation_options["theta"] = c["theta"]
    else:
        s.rank = np.array(c["ranks"])
    frozen = Frozen(D.x, D.xt)
    lab("rank adaptation" if adapt else "standard", "%d inactive leaves"
        % len(c["off"]))
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    it = o["iterates"]
    r = [density_risk(g, D) for g in it]
    scale = 1 + abs(r[0]) + abs(r[-1])
    if not adapt:
        decreasing(r, scale, "risk along the iterations")
        need([int(i) for i in f.tensor.ranks] == c["ranks"], "ranks",
             got=f.tensor.ranks)
    a = coefficients(f)
    v = min(np.max(np.abs(
        np.tensordot(derivatives(f.tensor, np.eye(len(a)))[i][:, :, 0],
                     a[:, 0], 1)
        - np.mean(d[:, :, 0], 1)))
        for i, d in enumerate(derivatives(f.tensor, D.K)))
    need(v < 1e-6 * scale, "stationary risk", value=v)
    k = len(it) - 1
    if c["test"]:
        e = np.ravel(o["test_error_iterations"])
        for g, w in zip(it, e):
            b = coefficients(g)
            want = np.sum(b ** 2) - 2 * np.mean(D.Kt @ b)
            close(w, want, "test error", tol=1e-7, scale=1 + abs(want))
    if c["select"] == "cv_error" or c["select"] and c["test"]:
        e = np.ravel(o["error_iterations" if c["select"] == "cv_error"
                       else "test_error_iterations"])
        k = o["selected_model_number"]
        need(len(e) == len(it) and e[k] == np.min(e), "selected model",
             errors=e, k=k)
    close(coefficients(f), coefficients(it[k]), "returned function")
    again(c, s, f, o)
    if len(it) < 2:
        return False


@P.relation("corrections", problems(outputs=(1, 1, 2)), 250,
            rule="the correction is not zero")
def corrections(c):
    """Rank-one and canonical corrections of a given function."""
    dens = c["out"] == 1 and c["est"] and c["poly"]
    D = Data(c)
    D.target(c)
    s = tree_solver(c, tensap.DensityL2LossFunction() if dens else None)
    s.output_dimension = c["out"]
    F = build_tbt(c)[0]
    frozen = D.give(s, c)
    if dens:
        s.bases_eval = [e.copy() for e in D.E]
        s.training_data, s.test_data = D.x, D.xt
    s.bases_eval = [e.copy() for e in D.E]
    check = frozen_tbt(F)
    f = tensap.FunctionalTensor(F, s.bases_eval)
    seed(c)
    s.bases_eval_test = [e.copy() for e in D.Et]
    how = "canonical" if c["shuffle"] and not dens and c["out"] == 1 \
        else "rank one"
    with contextlib.redirect_stdout(io.StringIO()):
        if how == "canonical":
            s.training_data[1] = D.Y[:, 0].copy()
            y = s.training_data[1].copy()
            g = s.canonical_correction(
                f, 1 + (c["seed"] % 2 and min(c["shape"]) > 1))
            same(s.training_data[1], y, "training data unchanged")
        else:
            if not dens and c["out"] == 1:
                s.training_data = [None, D.Y[:, 0].copy()]
            g = s.rank_one_correction(f)
    frozen.check("correction")
    check("correction")
    lab(how, "density" if dens else "square")
    G = tensap.FunctionalTensor(g, s.bases_eval)
    a, b = [(density_risk(h, D) if dens else risk(h, D)) for h in (f, G)]
    scale = 1 + abs(a) + np.sum(D.Y ** 2)
    need(b <= a + 1e-8 * scale, "the correction decreases the risk",
         before=a, after=b)
    close(np.asarray(g.ranks)[m_root(c) - 1], c["out"], "outputs")
    if abs(a - b) < 1e-8 * scale:
        return False


# --------------------------------------------------------------------- gradients
@P.relation("gradients", problems(), 800,
            rule="the parameter has several entries")
def gradients(c):
    D = Data(dict(c, n=5))
    X, x = build_tbt(c)
    f = tensap.FunctionalTensor(X, D.E) if not D.poly or c["seed"] % 2 else \
        tensap.FunctionalTensor(X, D.bases)
    arg = [] if f.evaluated_bases else [D.x]
    V = D.K @ x.reshape(D.K.shape[1], -1)
    act = [n + 1 for n, a in enumerate(active(c)) if a]
    root = m_root(c)
    lab("%d outputs" % c["out"], "%d inactive leaves" % len(c["off"]))
    check = frozen_tbt(X)
    T = [np.asarray(t.data) for t in X.tensors]
    sc = 1 + np.max(np.abs(D.K)) * np.max(np.abs(x)) * 10
    par, d2i = c["par"], c["d2i"]
    for n in act:
        g = f.parameter_gradient_eval(n, *arg)
        dims = list(range(1, T[n - 1].ndim + 1))
        if n == root:
            k = T[n - 1].ndim - (1 if c["out"] > 1 else 0)
            t = T[n - 1]
            got = np.tensordot(g.data, t, (list(range(1, k + 1)),
                                           list(range(k))))
        else:
            got = np.tensordot(g.data, T[n - 1],
                               (dims, list(range(T[n - 1].ndim))))
        close(got.reshape(V.shape), V, "derivatives with respect to the "
              "tensor of node %d" % n, tol=1e-9, scale=sc)
        if n != root and c["out"] == 1:
            # every entry
            i = c["seed"] % T[n - 1].size
            e = np.zeros(T[n - 1].size)
            e[i] = 1
            b = dense_model(par, d2i, T[:n - 1] + [e.reshape(T[n - 1].shape)]
                            + T[n:])
            ix = np.unravel_index(i, T[n - 1].shape)
            close(np.ravel(g.data[(slice(None),) + ix]),
                  D.K @ b.ravel(), "one entry of the gradient", tol=1e-9,
                  scale=sc)
    if c["out"] == 1:
        for n in act:
            if n == root:
                continue
            pa = par[n - 1]
            k = m_children(par, pa).index(n)
            a, b = T[n - 1], T[pa - 1]
            A = a.reshape((-1, a.shape[-1]), order="F")
            B = np.moveaxis(b, k, -1).reshape((-1, b.shape[k]), order="F")
            G = f.parameter_gradient_eval_dmrg(n, *arg, dmrg_type="dmrg")
            M = G.data.reshape((len(V), -1), order="F")
            close(M @ (A @ B.T).ravel(order="F"), V[:, 0],
                  "derivatives with respect to two merged tensors", tol=1e-9,
                  scale=sc)
            G = f.parameter_gradient_eval_dmrg(n, *arg,
                                               dmrg_type="dmrg_low_rank")
            M = [np.reshape(i.data, (len(V), -1), order="F") for i in G]
            close(np.sum((M[0] @ A) * (M[1] @ B), 1), V[:, 0],
                  "derivatives with respect to each merged tensor", tol=1e-9,
                  scale=sc)
    check("gradients")
    # canonical format
    r = 1 + c["seed"] % 3
    rng = np.random.RandomState(c["s"])
    U = [rng.standard_normal((n, r)) for n in c["shape"]]
    # convention: the weights are included in the factor
    w = np.ones(r)
    f = tensap.FunctionalTensor(tensap.CanonicalTensor(U, w), f.bases)
    Q = [e @ u for e, u in zip(D.E, U)]
    V = np.prod(Q, 0) @ w
    sc = 1 + np.max(np.abs(V)) * 10
    for n in range(1, len(U) + 1):
        g = f.parameter_gradient_eval(n, *arg).data
        want = np.prod([q for i, q in enumerate(Q) if i != n - 1], 0) * w
        want = want[:, :, None] * D.E[n - 1][:, None, :]
        close(g, want, "derivatives with respect to a factor", tol=1e-9,
              scale=sc * 10)
    g = f.parameter_gradient_eval(len(U) + 1, *arg).data
    close(g, np.prod(Q, 0), "derivatives with respect to the weights",
          tol=1e-9, scale=sc * 10)
    if max(np.size(t) for t in T) < 2:
        return False


@P.relation("admissible_ranks", problems(outputs=(1,)), 600,
            rule="the proposed ranks are not admissible")
def admissible_ranks(c):
    X = build_tbt(c)[0]
    rng = rng_of(c)
    act = active(c)
    root = m_root(c) - 1
    add = [int(a) * rng.randint(0, 2) * (i != root)
           for i, a in enumerate(act)]
    given = np.array(c["ranks"]) + add
    random.seed(c["seed"])
    rank, d = tensap.TreeBasedTensorLearning.make_ranks_admissible(
        X, given.copy())
    got = [int(i) for i in rank]
    need(cut(dict(c, ranks=got)) == got, "admissible ranks", got=got,
         proposed=given)
    need(all(a <= b <= g for a, b, g in zip(c["ranks"], got, given)),
         "between the ranks of the tensor and the proposed ones",
         before=c["ranks"], got=got, proposed=given)
    same(np.sort(np.ravel(d)).astype(int),
         np.nonzero(np.array(got) != c["ranks"])[0] + 1, "enriched nodes")
    if cut(dict(c, ranks=list(given))) == list(given):
        need(got == list(given), "admissible proposed ranks are accepted",
             got=got, proposed=given)
        return False


# ------------------------------------------------------------- basis adaptation
@composite
def basis_adaptations(draw):
    c = draw(adaptations(outputs=(1, 1, 1, 2)))
    c["how"] = draw(st.sampled_from(["standard", "standard", "rank", "dmrg",
                                     "dmrg_low_rank", "canonical", "greedy"]))
    if c["how"] not in ("standard", "rank") and c["out"] > 1:
        c["how"] = "standard"
    c["path"] = draw(st.sampled_from(["random", "random", "steps",
                                      "default"]))
    c["lin"] = draw(st.booleans())
    return c


def adaptation_path(c, n, rng):
    """Nested sets of functions, in a random order."""
    p = rng.permutation(n)
    steps = [i for i in range(1, n + 1)
             if i == n or c["path"] == "random" or rng.randint(2)]
    m = np.zeros((n, len(steps)), dtype=bool)
    for j, i in enumerate(steps):
        m[p[:i], j] = True
    return m


@contextlib.contextmanager
def conditioning(log):
    """Records the condition numbers of the systems which are solved."""
    L = tensap.LinearModelLearningSquareLoss
    old = L.solve

    def solve(self):
        A = self.basis_eval
        if np.ndim(A) == 3:
            A = np.moveaxis(A, 1, 2).reshape(-1, A.shape[1])
        if np.ndim(A) == 2:
            log.append(np.inf if not np.all(np.isfinite(A)) else
                       np.linalg.cond(A) if A.shape[0] >= A.shape[1]
                       else np.inf)
        return old(self)

    L.solve = solve
    try:
        yield
    finally:
        L.solve = old


@P.relation("basis_adaptation", basis_adaptations(), 300,
            rule="some functions of a basis are not used")
def basis_adaptation(c):
    D = Data(c)
    path = [np.triu(np.ones((n, n), dtype=bool)) for n in c["shape"]]
    if c["path"] != "default":
        rng = np.random.RandomState(c["s"] + 5)
        path = [adaptation_path(c, n, rng) for n in c["shape"]]
    D.target(c, None if c["seed"] % 4 == 0 else
             [p[:, (c["seed"] + i) % p.shape[1]].astype(float)
              for i, p in enumerate(path)])
    loss = tensap.SquareLossFunction()
    how = c["how"]
    root = m_root(c) - 1
    if how in ("canonical", "greedy"):
        s = tensap.CanonicalTensorLearning(len(c["shape"]), loss)
        s.rank = 1 + c["seed"] % 2
        s.test_error, s.error_estimation = c["test"], c["est"]
        s.alternating_minimization_parameters["max_iterations"] = c["maxit"]
        s.alternating_minimization_parameters["random"] = c["shuffle"]
        if how == "greedy":
            s.algorithm = "greedy"
        s.initialization_type = "random" if c["init"] == "canonical" \
            else c["init"]
        c = dict(c, off=[])
        nodes = len(c["shape"]) + 1
    else:
        s = tree_solver(c, loss)
        s.initialization_type = c["init"]
        if how == "standard":
            r = list(c["ranks"])
            r[root] = c["out"]
            s.rank = np.array(r)
        else:
            s.rank = 1
            s.rank_adaptation = True
            if how != "rank":
                s.rank_adaptation_options["type"] = how
            s.rank_adaptation_options["max_iterations"] = c["steps"]
        nodes = sum(active(c))
    frozen = D.give(s, c)
    if c["path"] != "default" or not D.poly:
        s.bases_adaptation_path = [p.copy() for p in path]
    if c["lin"]:
        s.linear_model_learning = [
            tensap.LinearModelLearningSquareLoss() for i in range(nodes)]
        for m in s.linear_model_learning:
            m.basis_adaptation = True
    else:
        s.linear_model_learning.basis_adaptation = True
    lab(how, c["path"], "%d inactive leaves" % len(c["off"]),
        "%d outputs" % c["out"], "list of models" if c["lin"] else "")
    seed(c)
    log = []
    with conditioning(log):
        f, o = solve(s)
    frozen.check("solve")
    m = s.linear_model_learning
    need(all(i.basis_adaptation for i in (m if c["lin"] else [m])),
         "options of the linear models unchanged")
    if c["path"] != "default" or not D.poly:
        for a, b in zip(s.bases_adaptation_path, path):
            same(a, b, "adaptation path unchanged")
    if max(log) > 1e8:
        lab("badly conditioned")
        return False
    # supports
    partial = False
    generic = c["target"] == "noise" or \
        c["target"] == "model" and c["noise"] > 0
    a = coefficients(f).reshape(list(c["shape"]) + [-1])
    for k in range(len(c["shape"])):
        u = np.moveaxis(a, k, 0)
        u = np.max(np.abs(u.reshape(len(u), -1)), 1)
        if np.max(u) == 0:
            return False
        got = u > 1e-12 * np.max(u)
        partial = partial or not np.all(got)
        if generic and how != "greedy" and not (
                how == "canonical" and s.rank > 1):
            need(any(np.array_equal(got, p) for p in path[k].T),
                 "functions used in dimension %d follow the adaptation path"
                 % (k + 1), used=got, path=path[k], of=path)
    common(c, D, s, f, o) if how != "greedy" else None
    again(c, s, f, o)
    if not partial:
        return False


# -------------------------------------------------------------- tree adaptation
@composite
def tree_adaptations(draw):
    c = draw(adaptations(outputs=(1, 1, 1, 2), min_order=4))
    c["shape"] = [3] * len(c["shape"])
    c["target"] = "model"
    c["off"] = c["off"][:2]
    c["n"] = 80
    c["maxit"] = 1 + c["maxit"] % 3
    c["again"] = c["again"] and draw(st.booleans())
    c["steps"] = draw(st.integers(3, 5))
    c["start"] = draw(st.sampled_from([1, 2, 3, 3, 3]))
    c["tol"] = draw(st.sampled_from([None, .1, .1, 1e-10]))
    c["perm"] = draw(st.permutations(range(len(c["shape"]))))
    c["force"] = draw(st.booleans())
    if c["tol"] is None:
        c["est"] = True
    return c


@P.relation("tree_adaptation", tree_adaptations(), 60,
            rule="the tree has been changed")
def tree_adaptation(c):
    """The function is a product of functions of pairs of variables which are
    not siblings in the tree of the solver."""
    D = Data(c)
    d = len(c["shape"])
    rng = np.random.RandomState(c["s"])
    p = c["perm"]
    A = np.ones([3] * d)
    for i in range(0, d - 1, 2):
        u = rng.standard_normal((3, 3))
        sh = [1] * d
        sh[p[i]] = sh[p[i + 1]] = 3
        A = A * u.reshape(sh)
    if d % 2:
        sh = [1] * d
        sh[p[-1]] = 3
        A = A * rng.standard_normal(3).reshape(sh)
    A = np.stack([A.ravel()] + [rng.standard_normal() * A.ravel()
                                for i in range(c["out"] - 1)], 1)
    y, yt = D.K @ A, D.Kt @ A
    y = y + c["noise"] * np.std(y) * rng.standard_normal(y.shape)
    D.Y, D.Yt = y.copy(), yt.copy()
    if c["out"] == 1 and not c["col"]:
        y, yt = y[:, 0], yt[:, 0]
    D.y, D.yt = y, yt
    s = tree_solver(c)
    s.rank = c["start"]
    s.initialization_type = c["init"]
    s.rank_adaptation = True
    s.rank_adaptation_options["max_iterations"] = c["steps"]
    s.rank_adaptation_options["rank_one_correction"] = c["correction"]
    s.rank_adaptation_options["theta"] = c["theta"]
    s.tolerance["on_error"] = s.tolerance["on_stagnation"] = 1e-14
    s.tree_adaptation = True
    s.tree_adaptation_options["tolerance"] = c["tol"]
    s.tree_adaptation_options["force_rank_adaptation"] = c["force"]
    s.alternating_minimization_parameters["stagnation"] = 1e-12
    frozen = D.give(s, c)
    lab("%d outputs" % c["out"], "%d inactive leaves" % len(c["off"]),
        "order %d" % d)
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    T = build_tree(c)
    same(s.tree.adjacency_matrix, T.adjacency_matrix, "tree of the solver")
    same(s.tree.dim2ind, T.dim2ind, "leaves of the solver")
    same(np.array(s.is_active_node), np.array(active(c)),
         "active nodes of the solver")
    need(s.rank == c["start"] and s.tree_adaptation, "options unchanged")
    it = o["iterates"]
    for g in [f] + list(it):
        t = g.tensor
        need(list(t.shape)[:d] == [3] * d, "dimensions", got=t.shape)
        need(t.ranks[t.tree.root - 1] == c["out"], "outputs")
        need(len(t.tree.dim2ind) == d and
             sum(t.is_active_node) == sum(active(c)), "nodes")
    common(c, D, s, f, o)
    again(c, s, f, o)
    if all(np.array_equal(g.tensor.tree.dim2ind, T.dim2ind) and
           np.array_equal(g.tensor.tree.adjacency_matrix, T.adjacency_matrix)
           for g in [f] + list(it)):
        return False


# ------------------------------------------------------------------ constructors
@P.relation("tensor_train", problems(outputs=(1,)), 100,
            rule="at least three variables")
def tensor_train(c):
    """Solvers in tensor train formats."""
    d = len(c["shape"])
    r = 1 + c["seed"] % 2
    tucker = bool(c["again"])
    # nodes of the linear tree: the i-th variables and those before
    s = getattr(tensap.TreeBasedTensorLearning,
                "tensor_train_tucker" if tucker else "tensor_train")(
        d, tensap.SquareLossFunction())
    s.test_error, s.error_estimation = c["test"], c["est"]
    s.alternating_minimization_parameters["max_iterations"] = c["maxit"]
    s.initialization_type = "random"
    n = c["shape"] = [max(2, i) for i in c["shape"]]
    D = Data(c)
    G = [D.rng.standard_normal((1 if i == 0 else r, k,
                                1 if i == d - 1 else r))
         for i, k in enumerate(n)]
    A = G[0]
    for g in G[1:]:
        A = np.tensordot(A, g, ([-1], [0]))
    A = A.reshape(-1, 1)
    D.Y, D.Yt = D.K @ A, D.Kt @ A
    D.Y = D.Y + c["noise"] * np.std(D.Y) * D.rng.standard_normal(D.Y.shape)
    D.y, D.yt = D.Y[:, 0].copy(), D.Yt[:, 0].copy()
    s.rank = r
    frozen = D.give(s, c)
    seed(c)
    f, o = solve(s)
    frozen.check("solve")
    t = f.tensor
    same(t.tree.dim2ind, tensap.DimensionTree.linear(d).dim2ind,
         "linear tree")
    want = [tucker or i == 0 for i in range(d)]
    same(t.is_active_node[t.tree.dim2ind - 1], np.array(want),
         "active leaves")
    a = coefficients(f).reshape(n)
    for k in range(1, d):
        v = np.linalg.svd(a.reshape(prod(n[:k]), -1), compute_uv=False)
        need(np.all(v[r:] <= 1e-9 * v[0]), "tensor train ranks", values=v)
    rk = [risk(g, D) for g in o["iterates"]]
    decreasing(rk, np.sum(D.Y ** 2) + 1e-300, "empirical risk")
    common(c, D, s, f, o)
    if d < 3:
        return False

"""T20: functions in tensor formats (FunctionalTensor)."""
import numpy as np
import tensap
from props.tbt import *
from props import bases as B
from props import laws as L
from props import multi as M

P = Prop("T20", "functional tensors", effort=2.5)
FORMS = ("full", "canonical", "tree")


@composite
def funs(draw, kinds=("poly", "canonical", "sub", "piecewise", "splines"),
         forms=FORMS, laws=M.PROB, extra=False, root_rank=None, min_dim=1,
         inactive=True):
    form = draw(st.sampled_from(list(forms)))
    c = draw(M.multis(kinds=kinds, laws=laws, max_card=4, forms=("bases",),
                      min_dim=2 if form == "tree" else min_dim))
    d = len(c["bases"])
    c["form"] = form
    shape = [B.cardinal(b) for b in c["bases"]]
    c["fdims"] = list(range(d))
    if extra and d < 4:
        # a dimension of the tensor without basis
        k = draw(st.integers(0, d))
        n = draw(st.integers(1, 3))
        shape.insert(k, n)
        c["fdims"] = [i for i in range(d + 1) if i != k]
    c["shape"] = shape
    if form == "tree":
        if len(shape) < 2:
            raise Discard
        c["tree"] = draw(tbts(tree=draw(trees(len(shape), len(shape))),
                              shape=shape, max_rank=3, root_rank=root_rank,
                              kinds=("gauss",), inactive=inactive))
    if form == "canonical":
        c["rank"] = draw(st.integers(1, 3))
    return c


def tensor(c, k=0):
    """Tensor and dense array."""
    if c["form"] == "tree":
        a = dict(c["tree"])
        a["s"] = a["s"] + 1000 * k
        return build_tbt(a)
    rng = np.random.RandomState(c["seed"] + 5 + k)
    if c["form"] == "full":
        A = rng.standard_normal(c["shape"])
        return tensap.FullTensor(A.copy(), A.ndim, A.shape), A
    U = [rng.standard_normal((n, c["rank"])) for n in c["shape"]]
    w = rng.standard_normal(c["rank"])
    A = 0
    for r in range(c["rank"]):
        t = w[r]
        for u in U:
            t = np.multiply.outer(t, u[:, r])
        A = A + t
    return tensap.CanonicalTensor([u.copy() for u in U], w.copy()), A


def bases(c):
    return tensap.FunctionalBases([B.make(b) for b in c["bases"]])


def make(c, k=0):
    T, A = tensor(c, k)
    if c["fdims"] == list(range(len(c["bases"]))) == list(range(T.order)) \
            and c["seed"] % 2:
        return tensap.FunctionalTensor(T, bases(c)), A
    return tensap.FunctionalTensor(T, bases(c), c["fdims"]), A


def apply(A, E, dims):
    """Contract the dims of A with the rows of the matrices E, sample by
    sample; the sample index comes first."""
    out = []
    for i in range(len(E[0])):
        t = A
        for e, d in sorted(zip(E, dims), key=lambda v: -v[1]):
            t = np.tensordot(e[i], t, (0, d))
        out.append(t)
    return np.array(out)


def info(c):
    lab(c["form"], "%d variables" % len(c["bases"]))
    if c["form"] == "tree":
        lab("root rank %d" % c["tree"]["ranks"][m_root(c["tree"]) - 1],
            "%d inactive leaves" % len(c["tree"]["off"]))


def size(A, E):
    return np.max(np.abs(A)) * np.prod([np.max(np.abs(e)) for e in E]) * 3 + 1


@P.relation("evaluation", funs(), 1200, rule="at least two variables")
def evaluation(c):
    info(c)
    f, A = make(c)
    rng, d = rng_of(c), len(c["bases"])
    x = M.generic(c, rng, rng.randint(1, 6))
    E = M.evals(c, x)
    dims = range(d)
    want = apply(A, E, dims)
    sc = size(A, E)
    kw = dict(tol=1e-8, scale=sc)
    close(f.eval(x), want, "values", **kw)
    close(f(x), want[:, 0] if want.shape[1:] == (1,) else want, "call", **kw)
    close(f.eval(list(np.transpose(x))), want, "values at lists of points",
          **kw)
    close(f.eval_with_bases_evals(f.bases.eval(x)), want,
          "values from those of the bases", **kw)
    g = tensap.FunctionalTensor(f.tensor, f.bases.eval(x))
    close(g.eval(None), want, "function with evaluated bases", **kw)
    if A.ndim == len(c["shape"]):
        close(g.norm(), np.linalg.norm(A), "norm of a function with evaluated "
              "bases (orthonormal by convention)", tol=1e-7,
              scale=np.max(np.abs(A)))
    I = M.full_indices([len(x)] * d)
    if len(I) < 700:
        G = f.eval_on_grid(list(np.transpose(x)))
        close(np.asarray(dense(G) if c["form"] == "tree" else
                         G.numpy()),
              np_matprod(A, E, list(dims)), "values on a grid", **kw)
    if all(b["basis"] != "splines" for b in c["bases"]):
        a = [int(v) for v in rng.randint(0, 3, d)]
        D = M.evals(c, x, a)
        close(f.eval_derivative(a, x), apply(A, D, dims),
              "partial derivative", tol=1e-7, scale=size(A, D))
        J = [M.evals(c, x, [int(i == j) for j in dims]) for i in dims]
        G = np.stack([apply(A, e, dims) for e in J], 1)
        close(f.eval_gradient(x), G, "gradient", tol=1e-7,
              scale=max(size(A, e) for e in J))
        if all(b["basis"] in ("poly", "canonical") and b["ind"] == list(range(
                len(b["ind"]))) for b in c["bases"]):
            lab("derivative function")
            h = f.derivative(a)
            close(h.eval(x), apply(A, D, dims), "derivative function",
                  tol=1e-6, scale=size(A, D) + sc)
    need(f.storage() == f.tensor.storage(), "storage")
    close(f.eval(x), want, "function unchanged", **kw)
    return d > 1


@P.relation("partial", funs(kinds=("poly", "canonical", "user"), extra=True,
                            root_rank=1, inactive=False), 1200,
            rule="some variables are not evaluated")
def partial(c):
    info(c)
    lab("other dimensions" if len(c["shape"]) > len(c["bases"]) else
        "all dimensions are functional")
    f, A = make(c)
    rng, d = rng_of(c), len(c["bases"])
    n = rng.randint(2, 5)
    x = M.generic(c, rng, n)
    E = M.evals(c, x)
    sc = size(A, E)
    kw = dict(tol=1e-8, scale=sc)
    k = sorted(rng.permutation(d)[:rng.randint(1, d + 1)])
    fd = c["fdims"]
    # a grid in some of the variables
    g = f.eval_on_grid([x[:, i] for i in k], k)
    W = np_matprod(A, [E[i] for i in k], [fd[i] for i in k])
    rest = [i for i in range(d) if i not in k]
    t = g.tensor if isinstance(g, tensap.FunctionalTensor) else g
    need(isinstance(g, tensap.FunctionalTensor) == bool(rest),
         "type of the values on a grid", got=type(g))
    close(dense_of(t), W, "values on a grid of some variables", **kw)
    if rest:
        same(g.fdims, [fd[i] for i in rest], "functional dimensions")
        need(len(g.bases) == len(rest), "remaining bases")
        y = np.delete(M.generic(c, rng, n), k, 1)
        F = [B.values(c["bases"][i], y[:, j]) for j, i in enumerate(rest)]
    if rest and not (c["form"] == "tree" and
                     1 < len(rest) < g.tensor.order):
        close(np.moveaxis(dense_of(g.eval(y)), min(fd[i] for i in rest), 0),
              apply(W, F, [fd[i] for i in rest]),
              "then values in the other variables", tol=1e-7,
              scale=sc * np.max(np.abs(F[0])) * 10)
    # samples in some of the variables
    if c["form"] == "tree" and 1 < len(k) < f.tensor.order:
        # not implemented
        return True
    h = f.eval(x[:, k], k)
    W = np.moveaxis(apply(A, [E[i] for i in k], [fd[i] for i in k]), 0,
                    min(fd[i] for i in k))
    if not rest:
        close(dense_of(h), W, "values", **kw)
        return False
    need(isinstance(h, tensap.FunctionalTensor), "type of the partial "
         "evaluation", got=type(h))
    close(dense_of(h.tensor), W, "partial evaluation", **kw)
    left = [i for i in range(A.ndim) if i not in [fd[j] for j in k[1:]]]
    same(h.fdims, [left.index(fd[i]) for i in rest],
         "functional dimensions after a partial evaluation")
    y = np.delete(M.generic(c, rng, n), k, 1)
    F = [B.values(c["bases"][i], y[:, j]) for j, i in enumerate(rest)]
    if c["form"] == "tree" and 1 < len(rest) < h.tensor.order:
        return True
    got = dense_of(h.eval(y))
    fr = [left.index(fd[i]) for i in rest]
    close(np.moveaxis(got, min(fr), 0), apply(W, F, fr),
          "evaluation of a partial evaluation", tol=1e-7,
          scale=sc * np.max(np.abs(F[0])) * 10)
    return True


def dense_of(t):
    if isinstance(t, tensap.FunctionalTensor):
        t = t.tensor
    if isinstance(t, tensap.TreeBasedTensor):
        return dense(t)
    if isinstance(t, (tensap.CanonicalTensor, tensap.DiagonalTensor)):
        return t.full().numpy()
    return arr(t)


MOM = ("poly", "canonical", "sub")


def moments_ok(c):
    return not any(b["basis"] == "sub" and b["under"]["basis"] == "piecewise"
                   for b in c["bases"])


@P.relation("statistics", funs(kinds=MOM, root_rank=1), 1200,
            rule="a non-constant function of at least two variables")
def statistics(c):
    if not moments_ok(c):
        raise Discard
    info(c)
    f, A = make(c)
    g, A2 = make(c, 1)
    g.bases = f.bases
    rng, d = rng_of(c), len(c["bases"])
    m, G = M.means(c)
    sc = np.max(np.abs(A)) ** 2 * np.prod([np.max(np.abs(v)) for v in G]) * 9
    kw = dict(tol=1e-7, scale=sc)

    def quad(A, K, B_):
        return np.sum(np_matprod(A, K, list(range(d))) * B_)

    mu = apply(A, [v[None, :] for v in m], range(d))[0]
    close(f.mean(), mu, "mean", **kw)
    close(f.expectation(), mu, "expectation", **kw)
    V = quad(A, G, A) - mu ** 2
    close(f.variance(), V, "variance", **kw)
    if V > 1e-4 * sc:
        close(f.std(), np.sqrt(V), "standard deviation", **kw)
    close(f.dot_product_expectation(f), quad(A, G, A), "second moment", **kw)
    close(f.dot_product_expectation(g), quad(A, G, A2),
          "expectation of a product", **kw)
    close(f.norm() ** 2, quad(A, G, A), "norm", **kw)
    if all(b["basis"] != "sub" for b in c["bases"]):
        lab("other measure")
        os = [{"law": "uniform", "a": -1. + .2 * i, "b": .5 + .3 * (i % 2)}
              for i in range(d)]
        yw = [L.nodes(o) for o in os]
        v2 = [B.values(b, y) for b, (y, _) in zip(c["bases"], yw)]
        m2 = [w @ v for v, (_, w) in zip(v2, yw)]
        G2 = [(v.T * w) @ v for v, (_, w) in zip(v2, yw)]
        X = tensap.RandomVector([L.measure(o) for o in os])
        mu2 = apply(A, [v[None, :] for v in m2], range(d))[0]
        close(f.mean(X), mu2, "mean for another measure", tol=1e-7,
              scale=size(A, m2))
        kw2 = dict(tol=1e-7, scale=size(A, v2) ** 2 + size(A2, v2) ** 2)
        close(f.norm(X) ** 2, quad(A, G2, A), "norm for another measure",
              **kw2)
        close(f.dot_product_expectation(g, None, X), quad(A, G2, A2),
              "expectation of a product for another measure", **kw2)
        V2 = quad(A, G2, A) - mu2 ** 2
        close(f.variance(X), V2, "variance for another measure", **kw2)
        if V2 > 1e-4 * kw2["scale"]:
            close(f.std(X), np.sqrt(V2), "deviation for another measure",
                  **kw2)
        k = sorted(rng.permutation(d)[:rng.randint(1, d + 1)].tolist())
        r = [i for i in range(d) if i not in k]
        if r:
            lab("conditional expectation for another measure")
            h = f.conditional_expectation(k, tensap.RandomVector(
                [L.measure(os[i]) for i in r]))
            x = M.generic(c, rng, 4)
            E = M.evals(c, x)
            close(h.eval(x[:, k]), apply(
                A, [np.tile(m2[i], (4, 1)) if i in r else E[i]
                    for i in range(d)], range(d)),
                "conditional expectation for another measure of the other "
                "variables", tol=1e-7, scale=size(A, [np.concatenate(
                    (E[i], m2[i][None])) for i in range(d)]))
    masks = rng.rand(rng.randint(1, 4), d) < .5
    S = [0 if not b.any() else quad(A, [
        G[i] if b[i] else np.outer(m[i], m[i]) for i in range(d)], A)
        - mu ** 2 for b in masks]
    close(f.variance_conditional_expectation(masks), S,
          "variances of conditional expectations", **kw)
    k = sorted(rng.permutation(d)[:rng.randint(1, d + 1)])
    close(f.variance_conditional_expectation(k), [quad(A, [
        G[i] if i in k else np.outer(m[i], m[i]) for i in range(d)], A)
        - mu ** 2], "variance of the conditional expectation", **kw)
    x = M.generic(c, rng, 4)
    E = M.evals(c, x)
    W = apply(A, [E[i] if i in k else np.tile(m[i], (4, 1))
                  for i in range(d)], range(d))
    sc = size(A, [np.concatenate((E[i], m[i][None])) for i in range(d)])
    h = f.conditional_expectation(k)
    close(h.eval(x[:, k]), W, "conditional expectation", tol=1e-7, scale=sc)
    need(len(h.bases) == len(k) and h.tensor.order == len(k),
         "dimension of the conditional expectation")
    if len(k) > 1:
        lab("unsorted")
        h = f.conditional_expectation(rng.permutation(k))
        close(h.eval(x[:, k]), W, "conditional expectation given by "
              "unsorted variables", tol=1e-7, scale=sc)

    if d > 1:
        h = f.conditional_expectation([i in k for i in range(d)])
        close(h.eval(x[:, k]), W, "conditional expectation given by "
              "booleans", tol=1e-7, scale=sc)
    close(f.conditional_expectation([]), mu, "unconditional expectation",
          tol=1e-7, scale=sc)
    close(f.eval(x), apply(A, E, range(d)), "function unchanged", tol=1e-8,
          scale=size(A, E))
    return d > 1 and V > 1e-9


@P.relation("algebra", funs(kinds=("poly",)), 800,
            rule="at least two variables")
def algebra(c):
    info(c)
    f, A = make(c)
    g, A2 = make(c, 1)
    g.bases = f.bases
    rng, d = rng_of(c), len(c["bases"])
    x = M.generic(c, rng, 4)
    E = M.evals(c, x)
    F, G = apply(A, E, range(d)), apply(A2, E, range(d))
    sc = size(A, E) + size(A2, E)
    close((f + g).eval(x), F + G, "sum", tol=1e-8, scale=sc)
    if c["form"] != "canonical":
        close((f * 2.5).eval(x), 2.5 * F, "multiple", tol=1e-8, scale=3 * sc)
    # product with a function with other degrees
    c2 = dict(c)
    c2["bases"] = [dict(b, ind=sorted(rng.permutation(4)[:rng.randint(
        1, 4)].tolist())) for b in c["bases"]]
    c2["shape"] = [B.cardinal(b) for b in c2["bases"]]
    if "tree" in c2:
        c2["tree"] = dict(c2["tree"], shape=c2["shape"])
    if c["form"] != "canonical" and \
            prod(c["shape"]) * prod(c2["shape"]) < 5000:
        h, A3 = make(c2, 2)
        E3 = M.evals(c2, x)
        H = apply(A3, E3, range(d))
        try:
            s = f + h
        except Exception:
            lab("sum of functions expanded in different bases: refused")
        else:
            close(s.eval(x), F + H, "sum of functions expanded in different "
                  "bases", tol=1e-7, scale=sc + size(A3, E3))
        p = f * h
        close(p.eval(x), F * H, "product of functions", tol=1e-6,
              scale=sc * size(A3, E3))
        if isinstance(p.tensor, tensap.TreeBasedTensor):
            check_tbt(p.tensor, "tensor of the product")
        lab("product")
    close(f.eval(x), F, "function unchanged", tol=1e-8, scale=sc)
    return d > 1


@P.relation("random", funs(kinds=("poly", "canonical"), root_rank=1), 300,
            rule="at least two points")
def random(c):
    info(c)
    f, A = make(c)
    d = len(c["bases"])
    n = rng_of(c).randint(1, 6)
    np.random.seed(c["seed"] % 1000)
    y, x = f.random(n, nargout=2)
    x = np.reshape(np.transpose([np.ravel(v) for v in x]), (n, d))
    for b, v in zip(c["bases"], x.T):
        s = L.support(B.law_of(b))
        need(np.all((v >= s[0]) & (v <= s[1])), "points in the support")
    E = M.evals(c, x)
    close(y, apply(A, E, range(d)), "values at random points", tol=1e-7,
          scale=size(A, E))
    np.random.seed(c["seed"] % 1000)
    close(f.random(n), y, "values alone", tol=1e-7, scale=size(A, E))
    need(isinstance(f.get_random_vector(), tensap.RandomVector),
         "random vector")
    return n > 1

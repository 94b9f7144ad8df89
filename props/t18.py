"""T18: tensor-product bases and functions given by their coefficients."""
import numpy as np
import tensap
from props.common import *
from props import bases as B
from props import laws as L
from props import multi as M

P = Prop("T18", "multivariate bases and arrays of functions", effort=1.5)


def info(c):
    lab(c["form"], "%d variables" % len(c["bases"]))
    lab(*["with " + b["basis"] for b in c["bases"]])
    if M.orthonormal(c):
        lab("orthonormal")


SMOOTH = ("poly", "canonical", "piecewise", "splines", "dilated", "sub")
ANY = ("poly", "canonical", "sub", "piecewise", "splines", "user")


@P.relation("values", M.multis(kinds=ANY, laws=("uniform", "normal",
                                                "lebesgue")), 1200,
            rule="at least two functions of at least two variables")
def values(c):
    info(c)
    H, rng = M.make(c), rng_of(c)
    I, d = M.indices(c), len(c["bases"])
    need(H.cardinal() == len(I), "number of functions", got=H.cardinal())
    need(H.ndim() == d and len(H) == d, "dimension", got=H.ndim())
    x = M.generic(c, rng, 5)
    want = M.values(c, x)
    sc = np.max(np.abs(want)) + 1e-3
    close(H.eval(x), want, "values", tol=1e-8, scale=sc)
    close(H.eval(x[:1]), want[:1], "value at one point", tol=1e-8, scale=sc)
    need(H == M.make(c) or any(b["basis"] in ("splines", "user", "sub",
                                              "piecewise")
                               for b in c["bases"]),
         "bases with the same content are equal")
    for g, b in zip(H.domain(), c["bases"]):
        if B.root(b)["basis"] not in ("user", "canonical"):
            L.same_support(g, B.law_of(b))
    if c["form"] == "sparse":
        J = I.copy()
        i, j = rng.randint(len(I)), rng.randint(d)
        J[i, j] = (J[i, j] + 1) % B.cardinal(c["bases"][j])
        if J[i].tolist() not in I.tolist():
            K = tensap.SparseTensorProductFunctionalBasis(
                H.bases, tensap.MultiIndices(J))
            need(not H == K and not K == H, "bases with different "
                 "multi-indices are different")
        close(H.eval_with_functional_bases_evals(M.evals(c, x)), want,
              "values from the values of the bases", tol=1e-8, scale=sc)
        for p in (1, 2):
            s = np.sum(I.astype(float) ** p, 1)
            lev = np.unique(s)
            same(H.adaptation_path(p), s[:, None] <= lev[None, :],
                 "adaptation path", p=p)
    p = rng.permutation(d)
    T = H.transpose(p)
    y = M.values(c, x)
    Z = T.eval(x[:, p])
    if c["form"] == "sparse":
        close(Z, y, "basis with permuted variables", tol=1e-8, scale=sc)
    else:
        J = M.full_indices([B.cardinal(c["bases"][i]) for i in p])
        close(Z, M.assemble([M.evals(c, x)[i] for i in p], J),
              "basis with permuted variables", tol=1e-8, scale=sc)
    need(T.measure == tensap.ProductMeasure(
        [B.make(c["bases"][i]).measure for i in p]),
         "measure of the permuted basis")
    k = sorted(rng.permutation(d)[:rng.randint(1, d + 1)])
    R = [i for i in range(d) if i not in k]
    for what, K in [("kept", H.keep_bases(k))] + (
            [("removed", H.remove_bases(R))]):
        if c["form"] == "sparse":
            _, first = np.unique(I[:, k], axis=0, return_index=True)
            J = I[np.sort(first)][:, k]
        else:
            J = M.full_indices([B.cardinal(c["bases"][i]) for i in k])
        need(K.cardinal() == len(J) and K.ndim() == len(k),
             "cardinal of the basis with %s variables" % what,
             got=K.cardinal(), want=len(J))
        close(K.eval(x[:, k]), M.assemble([M.evals(c, x)[i] for i in k], J),
              "basis with %s variables" % what, tol=1e-8, scale=sc)
        need(len(K.measure.measures) == len(k), "measure of the basis with "
             "%s variables" % what)
        need(bool(K.is_orthonormal) == all(
            bool(B.make(c["bases"][i]).is_orthonormal) for i in k),
             "orthonormality of the basis with %s variables" % what)
    close(H.eval(x), want, "basis unchanged", tol=1e-8, scale=sc)
    return len(I) > 1 and d > 1


@P.relation("bases", M.multis(kinds=ANY, forms=("bases",)), 1200,
            rule="at least two variables")
def bases(c):
    info(c)
    H, rng = M.make(c), rng_of(c)
    d = len(c["bases"])
    n = [B.cardinal(b) for b in c["bases"]]
    same(H.cardinals(), n, "cardinals")
    same(H.ndim(), [1] * d, "dimensions")
    x = M.generic(c, rng, 4)
    E = M.evals(c, x)
    for g, w in zip(H.eval(x), E):
        close(g, w, "values", tol=1e-8, scale=np.max(np.abs(w)))
    for g, w in zip(H.eval([y for y in x.T]), E):
        close(g, w, "values at lists of points", tol=1e-8,
              scale=np.max(np.abs(w)))
    k = list(rng.permutation(d)[:rng.randint(1, d + 1)])
    same(H.cardinals(k), [n[i] for i in k], "cardinals of some bases")
    out, y = H.eval(x[:, k], k, 2)
    need(len(out) == len(k) and len(y) == len(k), "number of values")
    for g, z, i in zip(out, y, k):
        close(g, E[i], "values of some bases", tol=1e-8,
              scale=np.max(np.abs(E[i])))
        close(np.ravel(z), x[:, i], "points")
    for g, i in zip(H.keep_bases(k).eval(x[:, k]), k):
        close(g, E[i], "kept bases", tol=1e-8, scale=np.max(np.abs(E[i])))
    need(H.keep_bases(k).measure == tensap.ProductMeasure(
        [H.bases[i].measure for i in k]), "measure of the kept bases")
    if len(k) < d:
        R = [i for i in range(d) if i not in k]
        need(not H.keep_bases(k) == H and not H == H.keep_bases(k),
             "a part of the bases is not equal to the whole")
        for g, i in zip(H.remove_bases(k).eval(x[:, R]), R):
            close(g, E[i], "bases after removal", tol=1e-8,
                  scale=np.max(np.abs(E[i])))
        need(H.remove_bases(k).measure == tensap.ProductMeasure(
            [H.bases[i].measure for i in R]), "measure after removal")
    need(H == H, "bases equal to themselves")
    p = rng.permutation(d)
    T = H.transpose(p)
    for g, i in zip(T.eval(x[:, p]), p):
        close(g, E[i], "permuted bases", tol=1e-8, scale=np.max(np.abs(E[i])))
    need(T.measure == tensap.ProductMeasure([H.bases[i].measure for i in p]),
         "measure of the permuted bases")
    for g, w, i in zip(H.domain(), T.domain(), p):
        need(repr(w) == repr(H.domain()[i]), "domain of the permuted bases")
    if all(b["basis"] in ("poly", "canonical") for b in c["bases"]):
        lab("constant function")
        for dims in (None, k):
            q = range(d) if dims is None else dims
            if not all(_has_one(c["bases"][i]) for i in q):
                continue
            one = H.one() if dims is None else H.one(dims)
            need(len(one) == len(q), "number of coefficients of one")
            for g, i in zip(one, q):
                close(E[i] @ np.ravel(g), np.ones(4), "coefficients of "
                      "the constant function", tol=1e-7)
    if all(b["basis"] in SMOOTH for b in c["bases"]):
        a = [int(v) for v in rng.randint(0, 3, d)]
        for g, w in zip(H.eval_derivative(a, x), M.evals(c, x, a)):
            close(g, w, "derivatives", tol=1e-7, scale=np.max(np.abs(w)))
        for g, i in zip(H.eval_derivative([a[i] for i in k], x[:, k], k), k):
            w = M.evals(c, x, a)[i]
            close(g, w, "derivatives of some bases", tol=1e-7,
                  scale=np.max(np.abs(w)))
    if all(b["basis"] in ("poly", "canonical") or b["basis"] == "sub" and
           b["under"]["basis"] != "piecewise" for b in c["bases"]):
        lab("moments")
        m, G = M.means(c)
        for g, w in zip(H.gram_matrices(), G):
            close(g, w, "Gram matrices", tol=1e-7, scale=np.max(np.abs(w)))
        for g, i in zip(H.gram_matrices(k), k):
            close(g, G[i], "some Gram matrices", tol=1e-7,
                  scale=np.max(np.abs(G[i])))
        for g, w, V in zip(H.mean(), m, G):
            close(np.ravel(g), w, "means", tol=1e-7,
                  scale=np.sqrt(np.max(V)))
        for g, i in zip(H.mean(k), k):
            close(np.ravel(g), m[i], "some means", tol=1e-7,
                  scale=np.sqrt(np.max(G[i])))
        o = [{"law": "uniform", "a": float(a), "b": float(a) + 1}
             for a in rng.randint(-2, 2, d)]
        if all(b["basis"] in ("poly", "canonical") for b in c["bases"]):
            lab("means for another measure")
            y, w = L.nodes(o[0])
            for q in (None, k):
                got = H.mean(q, L.measure(o[0]))
                s = range(d) if q is None else q
                need(len(got) == len(s), "number of means")
                for g, i in zip(got, s):
                    V = B.values(c["bases"][i], y)
                    close(np.ravel(g), w @ V, "means for the same measure",
                          tol=1e-7, scale=np.max(np.abs(V)))
            X = tensap.RandomVector([L.measure(o[i]) for i in k])
            for g, i in zip(H.mean(k, X), k):
                y, w = L.nodes(o[i])
                V = B.values(c["bases"][i], y)
                close(np.ravel(g), w @ V, "means of some bases for another "
                      "measure", tol=1e-7, scale=np.max(np.abs(V)))
            X = tensap.RandomVector([L.measure(a) for a in o])
            for g, b, a in zip(H.mean(None, X), c["bases"], o):
                y, w = L.nodes(a)
                V = B.values(b, y)
                close(np.ravel(g), w @ V, "means for another measure",
                      tol=1e-7, scale=np.max(np.abs(V)))
        O = H.orthonormalize() if all(
            np.linalg.cond(g) < 1e6 and (b["basis"] != "sub" or
                                         b["under"]["basis"] == "poly")
            for b, g in zip(c["bases"], G)) else None
        if O is not None:
            for b, h in zip(c["bases"], O.bases):
                y, w = B.rule(b)
                V = h.eval(y)
                close(V.T @ (w[:, None] * V), np.eye(len(V.T)),
                      "orthonormalized bases", tol=1e-6)
    for b, h in zip(c["bases"], tensap.FunctionalBases.duplicate(
            H.bases[0], 3).eval(x[:, [0, 0, 0]])):
        close(h, E[0], "duplicated basis", tol=1e-8,
              scale=np.max(np.abs(E[0])))
    need(H.storage() == sum(h.storage() for h in H.bases), "storage")
    for g, w in zip(tensap.FunctionalBases(H).eval(x), E):
        close(g, w, "copy of the bases", tol=1e-8, scale=np.max(np.abs(w)))
    return d > 1


@composite
def grouped(draw):
    n = draw(st.integers(1, 3))
    g = [draw(M.multis(kinds=("poly", "canonical"), laws=M.PROB, max_dim=2,
                       max_card=3)) for _ in range(n)]
    return {"groups": g, "seed": draw(st.integers(0, 10 ** 6)),
            "form": draw(st.sampled_from(["full", "full", "sparse"]))}


@P.relation("groups", grouped(), 500, rule="a group of several variables")
def groups(c):
    """Tensor products of bases of groups of variables."""
    rng, G = rng_of(c), c["groups"]
    H = tensap.FunctionalBases([M.make(g) for g in G])
    n = [len(M.indices(g)) for g in G]
    d = [len(g["bases"]) for g in G]
    same(H.cardinals(), n, "cardinals")
    same(H.ndim(), d, "dimensions")
    x = [M.generic(g, rng, 5) for g in G]
    X = np.concatenate(x, 1)
    E = [M.values(g, y) for g, y in zip(G, x)]
    for z in (X, x):
        for g, w in zip(H.eval(z), E):
            close(g, w, "values", tol=1e-8, scale=np.max(np.abs(w)))
    k = list(rng.permutation(len(G))[:rng.randint(1, len(G) + 1)])
    for g, i in zip(H.eval(np.concatenate([x[i] for i in k], 1), k), k):
        close(g, E[i], "values of some bases", tol=1e-8,
              scale=np.max(np.abs(E[i])))
    I = M.full_indices(n)
    F = tensap.FullTensorProductFunctionalBasis(H)
    if c["form"] == "sparse":
        I = I[rng.permutation(len(I))[:rng.randint(1, 13)]]
        F = tensap.SparseTensorProductFunctionalBasis(
            H, tensap.MultiIndices(I))
    W = M.assemble(E, I)
    close(F.eval(X), W, "values of the product", tol=1e-8,
          scale=np.max(np.abs(W)))
    need(F.cardinal() == len(I), "cardinal of the product")
    a = rng.standard_normal((len(I), 2))
    f = tensap.FunctionalBasisArray(a, F, 2)
    close(f.eval(X), W @ a, "values of a function", tol=1e-8,
          scale=10 * np.max(np.abs(W)))
    if c["form"] == "full":
        need(F.ndim() == sum(d), "dimension of the product")
        t = tensap.FunctionalTensor(tensap.FullTensor(
            a[:, 0].reshape(n, order="F"), len(n), n), H)
        close(t.eval(X), W @ a[:, 0], "values of a functional tensor",
              tol=1e-8, scale=10 * np.max(np.abs(W)))
    mv = []
    for g in G:
        m, V = M.means(g)
        mv.append((M.assemble([v[None] for v in m], M.indices(g))[0],
                   np.sqrt(np.diag(M.gram(g)))))
    for g, (w, s) in zip(H.mean(), mv):
        close(np.ravel(g), w, "means", tol=1e-7, scale=np.max(s))
    w = M.assemble([m[None] for m, _ in mv], I)[0]
    close(np.ravel(F.mean()), w, "means of the product", tol=1e-7,
          scale=prod([np.max(s) for _, s in mv]))
    lab(c["form"], "%d groups" % len(G))
    return max(d) > 1


def _has_one(b):
    return 0 in b["ind"]


@P.relation("products", M.multis(kinds=("poly",), forms=("bases",),
                                 laws=M.PROB), 300,
            rule="at least two variables")
def products(c):
    info(c)
    H, rng = M.make(c), rng_of(c)
    x = M.generic(c, rng, 4)
    K = H.kron(H)
    E = M.evals(c, x)
    for g, e in zip(K.eval(x), E):
        w = (e[:, None, :] * e[:, :, None]).reshape(4, -1)
        # the first factor varies first
        close(g, w, "products of functions", tol=1e-7,
              scale=np.max(np.abs(w)))
    same(K.cardinals(), H.cardinals() ** 2, "cardinals of the products")
    need(K.length() == H.length() and len(K.keep_bases([0]).bases) == 1,
         "bases of products")
    return len(E) > 1


@P.relation("moments", M.multis(), 1200, rule="at least two functions")
def moments(c):
    if any(b["basis"] == "sub" and b["under"]["basis"] == "piecewise"
           for b in c["bases"]):
        raise Discard
    info(c)
    H, rng = M.make(c), rng_of(c)
    d, I = len(c["bases"]), M.indices(c)
    m, G = M.means(c)
    sc = np.sqrt(np.max(np.abs(M.gram(c)))) + 1e-3
    close(np.ravel(H.mean()), M.assemble(m, I), "means", tol=1e-7, scale=sc)
    if H.is_orthonormal:
        close(M.gram(c), np.eye(len(I)), "functions flagged as orthonormal",
              tol=1e-7)
    if c["form"] == "sparse":
        g = H.gram_matrix()
        g = g.toarray() if hasattr(g, "toarray") else g
        close(g, M.gram(c), "Gram matrix", tol=1e-7, scale=sc ** 2)
        a = [int(v) for v in rng.randint(0, 3, d)]
        x = M.generic(c, rng, 4)
        w = M.values(c, x, a)
        close(H.eval_derivative(a, x), w, "partial derivatives", tol=1e-7,
              scale=np.max(np.abs(w)))
        J = np.stack([M.values(c, x, [int(i == j) for j in range(d)])
                      for i in range(d)], 2)
        close(H.eval_jacobian(x), J, "Jacobian", tol=1e-7,
              scale=np.max(np.abs(J)))
    if c["form"] == "sparse" and all(map(closed, c["bases"])):
        lab("derivatives in the span")
        D = H.derivative(a)
        close(D.eval(x), w, "derivative basis", tol=1e-6,
              scale=np.max(np.abs(w)) + sc)
        if D.is_orthonormal:
            need(_orthonormal(c, a), "derivatives wrongly flagged as "
                 "orthonormal")
        g = H.gram_matrix_h1_0()
        want = 0
        for i in range(d):
            want = want + M.assemble_gram([
                _gram1(b, int(i == j)) for j, b in enumerate(c["bases"])], I)
        close(g.toarray() if hasattr(g, "toarray") else np.asarray(g), want,
              "Gram matrix of the gradients", tol=1e-6,
              scale=np.max(np.abs(want)) + sc ** 2)
    if c["form"] == "full":
        for g, w in zip(H.gram_matrices(), G):
            close(g, w, "Gram matrices", tol=1e-7, scale=np.max(np.abs(w)))
    if all(b["basis"] == "poly" or np.linalg.cond(g) < 1e5
           and b["basis"] == "canonical" for b, g in zip(c["bases"], G)):
        O = H.orthonormalize()
        x = np.stack([np.ravel(v) for v in np.meshgrid(
            *[B.rule(b, 5)[0] for b in c["bases"]], indexing="ij")], 1)
        w = np.prod([np.ravel(v) for v in np.meshgrid(
            *[B.rule(b, 5)[1] for b in c["bases"]], indexing="ij")], 0)
        V = O.eval(x)
        close(V.T @ (w[:, None] * V), np.eye(len(I)), "orthonormalized basis",
              tol=1e-6)
        need(O.is_orthonormal, "orthonormalized basis flagged as such")
    return len(I) > 1


def closed(b):
    """The span of the functions contains their derivatives."""
    b = B.root(b)
    return b["basis"] == "piecewise" or \
        b["ind"] == list(range(len(b["ind"])))


def _gram1(b, k):
    x, w = B.rule(b)
    V = B.values(b, x, k)
    return V.T @ (w[:, None] * V) / w.sum()


def _orthonormal(c, a):
    g = M.assemble_gram([_gram1(b, k) for b, k in zip(c["bases"], a)],
                        M.indices(c))
    return np.allclose(g, np.eye(len(g)), atol=1e-6)


@P.relation("conditional", M.multis(), 1500,
            rule="some variables are averaged")
def conditional(c):
    if any(b["basis"] == "sub" and b["under"]["basis"] == "piecewise"
           for b in c["bases"]):
        raise Discard
    info(c)
    H, rng = M.make(c), rng_of(c)
    d, I = len(c["bases"]), M.indices(c)
    k = sorted(rng.permutation(d)[:rng.randint(1, d + 1)])
    x = M.generic(c, rng, 4)
    E = M.evals(c, x)
    m = M.means(c)[0]
    args = []
    if len(k) < d and rng.rand() < .3 and all(
            b["basis"] in ("poly", "canonical") for b in c["bases"]):
        lab("given measure")
        out, m = [], []
        for i, b in enumerate(c["bases"]):
            o = {"law": "uniform", "a": -1., "b": .5 + i}
            y, w = L.nodes(o)
            m.append(w @ B.values(b, y))
            if i not in k:
                out.append(L.measure(o))
        args = [tensap.RandomVector(out)]
    want = M.assemble([E[i] if i in k else np.tile(m[i], (4, 1))
                       for i in range(d)], I)
    sc = np.max(np.abs(want)) + 1e-3
    h = H.conditional_expectation(k, *args)
    close(np.reshape(h.eval(x[:, k]), (4, -1)), want,
          "conditional expectation", tol=1e-7, scale=sc, dims=k)
    q = [k[i] for i in rng.permutation(len(k))]
    if len(k) < d:
        h = H.conditional_expectation(q, *args)
        close(np.reshape(h.eval(x[:, q]), (4, -1)), want,
              "conditional expectation, variables in another order", tol=1e-7,
              scale=sc, dims=q)
    mask = np.isin(np.arange(d), k)
    s = np.sort(k)
    for b in (mask, [bool(v) for v in mask]):
        if d > 1:
            h = H.conditional_expectation(b, *args)
            close(np.reshape(h.eval(x[:, s]), (4, -1)), want,
                  "conditional expectation given by booleans", tol=1e-7,
                  scale=sc, dims=k)
    return len(k) < d


# ------------------------------------------------------- arrays of functions
@composite
def funs(draw, kinds=("poly", "canonical", "sub"), multi=True, uni=True,
         max_dims=2, forms=("full", "sparse"), laws=M.PROB):
    if uni and (not multi or draw(st.integers(0, 2)) == 0):
        b = {"bases": [draw(B.bases(kinds=kinds, laws=laws))],
             "form": "univariate", "seed": draw(st.integers(0, 10 ** 6))}
    else:
        b = draw(M.multis(kinds=kinds, forms=forms, laws=laws, max_card=3))
    b["shape"] = draw(st.lists(st.integers(1, 3), min_size=0,
                               max_size=max_dims))
    b["zero"] = draw(st.integers(0, 3)) == 0
    return b


def basis(c):
    return B.make(c["bases"][0]) if c["form"] == "univariate" else M.make(c)


def coefficients(c, k=0):
    n = len(M.indices(c))
    rng = np.random.RandomState(c["seed"] + 7 + k)
    A = rng.standard_normal([n] + c["shape"])
    if c["zero"]:
        A *= rng.rand(*A.shape) < .5
    return A


def fun(c, k=0):
    A = coefficients(c, k)
    H = basis(c)
    if not c["shape"]:
        return tensap.FunctionalBasisArray(A, H), A
    return tensap.FunctionalBasisArray(A, H, c["shape"]), A


def sh(c):
    return list(c["shape"]) or [1]


def apply(V, A, c):
    return np.reshape(np.tensordot(V, A, 1), [len(V)] + sh(c))


@P.relation("functions", funs(kinds=ANY), 1500,
            rule="more than one coefficient")
def functions(c):
    info(c)
    lab("values of shape %s" % (tuple(sh(c)),))
    f, A = fun(c)
    g, A2 = fun(c, 1)
    rng = rng_of(c)
    x = M.generic(c, rng, 4)
    V = M.values(c, x)
    sc = (np.max(np.abs(V)) + 1) * 10
    kw = dict(tol=1e-8, scale=sc)
    want = apply(V, A, c)
    close(f.eval(x), want, "values", **kw)
    close(f.eval_with_bases_evals(V), want, "values from those of the basis",
          **kw)
    close(f(x), want[:, 0] if sh(c) == [1] else want, "values by calling the "
          "function", **kw)
    if c["form"] == "univariate":
        close(f.eval(x[:, 0]), want, "values at a flat array", **kw)
    close((f + g).eval(x), apply(V, A + A2, c), "sum", **kw)
    close((f - g).eval(x), apply(V, A - A2, c), "difference", **kw)
    close((-f).eval(x), -want, "opposite", **kw)
    close((f * 2.5).eval(x), 2.5 * want, "multiple", **kw)
    same(f.storage(), A.size, "storage")
    same(f.sparse_storage(), np.count_nonzero(A), "sparse storage")
    close(f.get_coefficients(), np.reshape(A, [len(A)] + sh(c)),
          "coefficients")
    close(np.ravel(f.dot(g)), [np.sum(A * A2)], "inner product")
    close(f.dot(g, 0), np.sum(np.reshape(A * A2, [len(A)] + sh(c)), 0,
                              keepdims=True), "inner product along a "
          "dimension")
    close(f.norm(), np.linalg.norm(A), "norm of the coefficients")
    close(f.norm(2), np.linalg.norm(np.reshape(A, (len(A), -1)), 2),
          "spectral norm of the coefficients")
    n = sh(c)[-1]
    R = rng.standard_normal((n, rng.randint(1, 4)))
    W = np.tensordot(np.reshape(A, [len(A)] + sh(c)), R, 1)
    close(f.matmul(R).eval(x), np.tensordot(V, W, 1), "product with a matrix",
          **kw)
    same(f.matmul(R).shape, W.shape[1:], "shape of the product")
    if len(sh(c)) == 1:
        Q = np.linalg.qr(rng.standard_normal((n, n)))[0] + 2 * np.eye(n)
        W = np.reshape(A, [len(A), n]) @ np.linalg.inv(Q)
        close(f.matdiv(Q).eval(x), V @ W, "right division by a matrix", **kw)
        S = f.sub_functional_basis()
        need(S.cardinal() == n, "cardinal of the spanned basis")
        close(S.eval(x), want, "spanned basis", **kw)
    close(f.eval(x), want, "function unchanged", **kw)
    return A.size > 1


@P.relation("calculus", funs(), 1200, rule="a non-zero derivative")
def calculus(c):
    if any(b["basis"] == "sub" and b["under"]["basis"] == "piecewise"
           for b in c["bases"]) or c["form"] == "full":
        raise Discard
    info(c)
    f, A = fun(c)
    rng, d = rng_of(c), len(c["bases"])
    x = M.generic(c, rng, 4)
    k = [int(v) for v in rng.randint(0, 3, d)]
    V = M.values(c, x, k)
    sc = 10 * (np.max(np.abs(V)) + np.max(np.abs(M.values(c, x))))
    n = k[0] if c["form"] == "univariate" else k
    p = x[:, 0] if c["form"] == "univariate" else x
    close(f.eval_derivative(n, p), apply(V, A, c), "partial derivative",
          tol=1e-7, scale=sc)
    if all(map(closed, c["bases"])):
        lab("derivatives in the span")
        close(f.derivative(n).eval(p), apply(V, A, c), "derivative function",
              tol=1e-6, scale=sc)
    J = [M.values(c, x, [int(i == j) for j in range(d)]) for i in range(d)]
    G = np.stack([apply(W, A, c) for W in J], 1)
    if sh(c) == [1]:
        G = G[:, :, 0]
    close(np.reshape(f.eval_gradient(x), G.shape), G, "gradient", tol=1e-7,
          scale=10 * np.max(np.abs(J)))
    need(np.size(f.eval_gradient(x)) == G.size, "size of the gradient")
    return np.max(np.abs(V)) > 1e-3 and any(k)


@P.relation("statistics", funs(), 1500,
            rule="a function with non-zero variance")
def statistics(c):
    if any(b["basis"] == "sub" and b["under"]["basis"] == "piecewise"
           for b in c["bases"]):
        raise Discard
    info(c)
    f, A = fun(c)
    g, A2 = fun(c, 1)
    rng, d = rng_of(c), len(c["bases"])
    m, G = M.means(c)
    I = M.indices(c)
    mu = M.assemble(m, I)
    Q = M.gram(c)
    sc = 10 * np.max(np.abs(Q))
    want = np.reshape(np.tensordot(mu, A, 1), [1] + sh(c))
    kw = dict(tol=1e-7, scale=sc)
    close(f.mean(), want, "mean", **kw)
    close(f.expectation(), want, "expectation", **kw)
    if all(b["basis"] in ("poly", "canonical") for b in c["bases"]):
        o = {"law": "uniform", "a": -1., "b": .5}
        y, w = L.nodes(o)
        m2 = M.assemble([w @ B.values(b, y) for b in c["bases"]], I)
        X = L.measure(o)
        if c["form"] != "univariate":
            X = tensap.RandomVector([X] * d)
        want2 = np.reshape(np.tensordot(m2, A, 1), [1] + sh(c))
        close(f.mean(X), want2, "mean for another measure", tol=1e-7,
              scale=10 * np.max(np.abs(m2)) + 10)
        V = [B.values(b, y) for b in c["bases"]]
        K = M.assemble_gram([(v.T * w) @ v for v in V], I)
        kw2 = dict(tol=1e-7, scale=1 + 10 * np.max(np.abs(K))
                   + np.max(np.abs(want2)) ** 2)
        E2 = np.reshape(np.einsum("i...,ij,j...->...", A, K, A),
                        [1] + sh(c))
        close(f.dot_product_expectation(g, None, X), np.reshape(
            np.einsum("i...,ij,j...->...", A, K, A2), [1] + sh(c)),
            "expectation of a product for another measure", **kw2)
        close(np.square(f.norm_expectation(X)), E2,
              "second moment for another measure", **kw2)
        close(f.variance(X), E2 - want2 ** 2,
              "variance for another measure", **kw2)
        if np.min(E2 - want2 ** 2) > 1e-4 * kw2["scale"]:
            close(f.std(X), np.sqrt(E2 - want2 ** 2),
                  "standard deviation for another measure", **kw2)
        lab("another measure")
    if not f.basis.is_orthonormal:
        lab("not orthonormal")
        return False
    E2 = np.reshape(np.sum(A ** 2, 0), [1] + sh(c))
    V = E2 - want ** 2
    close(f.variance(), V, "variance", **kw)
    close(np.square(f.norm_expectation()), E2, "second moment", **kw)
    close(f.dot_product_expectation(f), E2, "second moment", **kw)
    if np.min(V) > 1e-6:
        close(f.std(), np.sqrt(V), "standard deviation", **kw)
    if all(b["basis"] in ("poly", "canonical") for b in c["bases"]):
        close(f.dot_product_expectation(g),
              np.reshape(np.sum(A * A2, 0), [1] + sh(c)),
              "expectation of the product", **kw)
    if c["form"] != "univariate":
        lab("conditional")
        x = M.generic(c, rng, 3)
        E = M.evals(c, x)
        k = sorted(rng.permutation(d)[:rng.randint(1, d + 1)])
        W = M.assemble([E[i] if i in k else np.tile(m[i], (3, 1))
                        for i in range(d)], I)
        h = f.conditional_expectation(k)
        close(h.eval(x[:, k]), apply(W, A, c), "conditional expectation",
              tol=1e-7, scale=10 * np.max(np.abs(W)))
        same(h.shape, sh(c), "shape of the conditional expectation")
        masks = rng.rand(rng.randint(1, 4), d) < .5
        S = []
        for b in masks:
            gs = [G[i] if b[i] else np.outer(m[i], m[i]) for i in range(d)]
            K = M.assemble_gram(gs, I)
            S.append(np.reshape(np.einsum("i...,ij,j...->...", A, K, A),
                                sh(c)) - want[0] ** 2)
        close(f.variance_conditional_expectation(masks), S,
              "variances of conditional expectations", **kw)
        close(f.variance_conditional_expectation([k]), [np.reshape(
            np.einsum("i...,ij,j...->...", A, M.assemble_gram(
                [G[i] if i in k else np.outer(m[i], m[i])
                 for i in range(d)], I), A), sh(c)) - want[0] ** 2],
            "variance of the conditional expectation", **kw)
    return np.max(V) > 1e-6


@P.relation("projection", funs(uni=False, forms=("sparse",)), 500,
            rule="not all the functions are in the target")
def projection(c):
    info(c)
    f, A = fun(c)
    rng = rng_of(c)
    I = M.indices(c)
    F = M.full_indices([B.cardinal(b) for b in c["bases"]])
    J = F[rng.permutation(len(F))[:rng.randint(len(I), len(F) + 1)]]
    H = tensap.SparseTensorProductFunctionalBasis(
        f.basis.bases, tensap.MultiIndices(J))
    x = M.generic(c, rng, 4)
    E = M.evals(c, x)
    pos = {tuple(i): k for k, i in enumerate(I)}
    D = np.array([A[pos[tuple(j)]] if tuple(j) in pos else 0 * A[0]
                  for j in J])
    want = np.reshape(np.tensordot(M.assemble(E, J), D, 1), [4] + sh(c))
    g = f.projection(H)
    close(g.eval(x), want, "projection on other multi-indices", tol=1e-8,
          scale=10 * np.max(np.abs(M.assemble(E, I))))
    close(g.get_coefficients(), np.reshape(D, [len(J)] + sh(c)),
          "coefficients of the projection")
    T = tensap.FullTensorProductFunctionalBasis(f.basis.bases)
    g = f.projection(T, tensap.MultiIndices(F))
    close(g.eval(x), np.reshape(np.tensordot(M.values(c, x), A, 1),
                                [4] + sh(c)), "projection on the full "
          "tensor-product basis", tol=1e-8,
          scale=10 * np.max(np.abs(M.assemble(E, I))))
    return any(tuple(i) not in set(map(tuple, J)) for i in I)


@P.relation("random", funs(kinds=("poly", "canonical")), 300,
            rule="more than one point")
def random(c):
    info(c)
    f, A = fun(c)
    d = len(c["bases"])
    n = rng_of(c).randint(1, 6)
    np.random.seed(c["seed"] % 1000)
    y, x = f.random(n)
    x = np.reshape(x, (n, d))
    for b, v in zip(c["bases"], x.T):
        s = L.support(B.law_of(b))
        need(np.all((v >= s[0]) & (v <= s[1])), "points in the support")
    V = M.values(c, x)
    close(y, apply(V, A, c), "values at random points", tol=1e-7,
          scale=10 * np.max(np.abs(V)))
    h, x = f.basis.random(n)
    V = M.values(c, np.reshape(x, (n, d)))
    close(h, V, "values of the basis at random points", tol=1e-7,
          scale=np.max(np.abs(V)))
    if c["form"] != "univariate":
        H = f.basis.bases
        some = [int(i) for i in np.random.permutation(d)[
            :np.random.randint(1, d + 1)]]
        for dims in (None, [0], some):
            out = H.random(n, None, 2) if dims is None else \
                H.random_dims(dims, n, None, 2)
            e, x = out
            k = range(d) if dims is None else dims
            e = e if isinstance(e, list) else [e]
            need(len(e) == len(k) == len(x), "number of bases")
            for i, p, v in zip(k, x, e):
                s = L.support(B.law_of(c["bases"][i]))
                need(np.all((p >= s[0]) & (p <= s[1])), "points of some "
                     "variables in their supports")
                w = B.values(c["bases"][i], np.ravel(p))
                close(v, w, "values of the bases at random points", tol=1e-7,
                      scale=np.max(np.abs(w)))
                need(len(v) == n, "number of points")
        X = H.get_random_vector()
        need(isinstance(X, tensap.RandomVector) and X.ndim() == d,
             "random vector of the bases")
    return n > 1

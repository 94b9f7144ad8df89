"""T02: dense tensor contractions, orthogonalisation, principal components."""
import numpy as np
import tensap
from props.common import *

P = Prop("T02", "dense tensors: contractions and orthogonalisation", effort=3)


@composite
def mats_for(draw, sh, dims, rows=None, max_rows=4):
    out = []
    for i in dims:
        r = rows if rows is not None else draw(st.integers(1, max_rows))
        out.append(draw(array_spec([r, sh[i]])))
    return out


@composite
def g_modeprod(draw):
    sh = draw(shapes(1, 5, 4, 200))
    d = len(sh)
    dims = draw(subset(d, 1))
    n = draw(st.integers(1, 4))
    return {"x": draw(array_spec(sh)), "dims": dims,
            "m": draw(mats_for(sh, dims)),
            "all": draw(mats_for(sh, range(d), max_rows=3)),
            "v": [draw(array_spec([sh[i]])) for i in dims],
            "va": [draw(array_spec([n])) for n in sh],
            "h": draw(mats_for(sh, dims, rows=n)),
            "ha": draw(mats_for(sh, range(d), rows=n)),
            "wrap": draw(st.booleans())}


@P.relation("mode_products", g_modeprod, 2500,
            rule="matrices / vectors along any ordered subset of dimensions; "
                 "trivial if order 1")
def _(case):
    x = build(case["x"])
    X = tensap.FullTensor(x)
    d, dims = x.ndim, case["dims"]
    M = [build(m) for m in case["m"]]
    A = [build(m) for m in case["all"]]
    V = [build(m) for m in case["v"]]
    VA = [build(m) for m in case["va"]]
    H = [build(m) for m in case["h"]]
    HA = [build(m) for m in case["ha"]]
    fz = Frozen(X.data, *(M + A + V + VA + H + HA))
    w = (lambda l: [tensap.FullTensor(m) for m in l]) if case["wrap"] else list
    alld = list(range(d))
    close(arr(X.tensor_matrix_product(w(A))), np_matprod(x, A, alld),
          "tensor_matrix_product")
    close(arr(X.tensor_matrix_product(w(M), dims)), np_matprod(x, M, dims),
          "tensor_matrix_product(dims)", dims=dims)
    if len(dims) == 1:
        close(arr(X.tensor_matrix_product(w(M)[0], dims[0])),
              np_matprod(x, M, dims), "tensor_matrix_product(int)")
    ref = np_matprod(x, [v[None, :] for v in V], dims)
    close(arr(X.tensor_vector_product(w(V), dims)),
          np.squeeze(ref, tuple(dims)), "tensor_vector_product(dims)",
          dims=dims)
    ref = np_matprod(x, [v[None, :] for v in VA], alld)
    close(arr(X.tensor_vector_product(w(VA))), ref.ravel()[0],
          "tensor_vector_product", shape=False)
    # diagonal matrices
    close(arr(X.tensor_diagonal_matrix_product(list(V), dims)),
          np_matprod(x, [np.diag(v) for v in V], dims),
          "tensor_diagonal_matrix_product(dims)")
    close(arr(X.tensor_diagonal_matrix_product(list(VA))),
          np_matprod(x, [np.diag(v) for v in VA], alld),
          "tensor_diagonal_matrix_product")
    # evaluation of the diagonal of the product
    close(arr(X.tensor_matrix_product_eval_diag(w(HA))),
          np_diag(np_matprod(x, HA, alld), alld),
          "tensor_matrix_product_eval_diag")
    got = arr(X.tensor_matrix_product_eval_diag(w(H), dims))
    ref = np_diag(np_matprod(x, H, dims), dims)
    ref = np.moveaxis(ref, sum(1 for i in range(min(dims))), 0)
    if got.shape == ref.shape:
        close(got, ref, "tensor_matrix_product_eval_diag(dims)", dims=dims)
    else:
        fail("tensor_matrix_product_eval_diag(dims): wrong shape",
             got=got.shape, want=ref.shape, dims=dims)
    fz.check("mode products")
    lab("order%d" % d, "sub%d" % len(dims))
    return d > 1


@composite
def g_contract(draw):
    sh1 = draw(shapes(1, 4, 4, 100))
    sh2 = draw(shapes(1, 4, 4, 100))
    d1, d2 = len(sh1), len(sh2)
    k = draw(st.integers(0, min(d1, d2)))
    c1 = list(draw(st.permutations(range(d1))))[:k]
    c2 = list(draw(st.permutations(range(d2))))[:k]
    for i, j in zip(c1, c2):
        sh2[j] = sh1[i]
    rest1 = [i for i in range(d1) if i not in c1]
    rest2 = [i for i in range(d2) if i not in c2]
    g1, g2, diag = [], [], draw(st.booleans())
    if rest1 and rest2:
        m = draw(st.integers(1, min(len(rest1), len(rest2))))
        g1 = list(draw(st.permutations(rest1)))[:m]
        m2 = m if diag else draw(st.integers(1, len(rest2)))
        g2 = list(draw(st.permutations(rest2)))[:m2]
        if diag:
            for i, j in zip(g1, g2):
                sh2[j] = sh1[i]
        else:
            n = sh1[g1[0]]
            for i in g1:
                sh1[i] = n
            for j in g2:
                sh2[j] = n
    return {"x": draw(array_spec(sh1)), "y": draw(array_spec(sh2)),
            "c1": c1, "c2": c2, "g1": g1, "g2": g2, "diag": diag}


@P.relation("contractions", g_contract, 2500,
            rule="tensordot, outer products, tensordot_eval_diag with one or "
                 "several diagonals; non-trivial: both orders > 1")
def _(case):
    x, y = build(case["x"]), build(case["y"])
    X, Y = tensap.FullTensor(x), tensap.FullTensor(y)
    fz = Frozen(X.data, Y.data)
    c1, c2, g1, g2 = (case[k] for k in ("c1", "c2", "g1", "g2"))
    scale = np.linalg.norm(x) * np.linalg.norm(y)
    if c1:
        ref = np.tensordot(x, y, axes=(c1, c2))
        close(arr(X.tensordot(Y, c1, c2)), ref, "tensordot", scale=scale,
              c1=c1, c2=c2)
        if len(c1) == 1:
            close(arr(X.tensordot(Y, c1[0], c2[0])), ref, "tensordot(int)",
                  scale=scale)
    close(arr(X.tensordot(Y, 0)), np.multiply.outer(x, y), "outer product")
    if g1 and g2:
        i1 = list(range(x.ndim))
        i2 = list(range(x.ndim, x.ndim + y.ndim))
        for i, j in zip(c1, c2):
            i2[j] = i1[i]
        if case["diag"]:
            for i, j in zip(g1, g2):
                i2[j] = i1[i]
        else:
            first = min(g1)
            for i in g1:
                i1[i] = first
            for j in g2:
                i2[j] = first
        out = []
        for i in [v for p, v in enumerate(i1)] + i2:
            if i in out or i in [c for c in c1]:
                continue
            out.append(i)
        ref = np.einsum(x, i1, y, i2, out)
        if c1:
            got = X.tensordot_eval_diag(Y, c1, c2, g1, g2, case["diag"])
        else:
            got = X.tensordot_eval_diag(Y, None, None, g1, g2, case["diag"])
            close(arr(X.outer_product_eval_diag(Y, g1, g2, case["diag"])),
                  ref, "outer_product_eval_diag", scale=scale)
        close(arr(got), ref, "tensordot_eval_diag", scale=scale, **{
            k: case[k] for k in ("c1", "c2", "g1", "g2", "diag")})
        lab("diag" if case["diag"] else "one_diag",
            "contracted%d" % len(c1))
    fz.check("contractions")
    return x.ndim > 1 and y.ndim > 1


@composite
def g_metric(draw):
    d = draw(st.integers(1, 4))
    sh1 = draw(shapes(d, d, 4, 100))
    sh2 = draw(shapes(d, d, 4, 100))
    dim = draw(st.integers(0, d - 1))
    return {"x": draw(array_spec(sh1)), "y": draw(array_spec(sh2)),
            "m": [draw(array_spec([a, b])) for a, b in zip(sh1, sh2)],
            "dim": dim}


@P.relation("metric", g_metric, 1200,
            rule="weighted inner products of tensors of different shapes; "
                 "trivial if order 1")
def _(case):
    x, y = build(case["x"]), build(case["y"])
    M = [build(m) for m in case["m"]]
    X, Y = tensap.FullTensor(x), tensap.FullTensor(y)
    fz = Frozen(X.data, Y.data, *M)
    my = np_matprod(y, M, range(y.ndim))
    scale = np.linalg.norm(x) * np.linalg.norm(my) + np.linalg.norm(x) * \
        np.linalg.norm(y) * prod([max(1, np.linalg.norm(m)) for m in M])
    close(X.dot_with_rank_one_metric(Y, M), np.sum(x * my),
          "dot_with_rank_one_metric", scale=scale, shape=False)
    dim = case["dim"]
    dims = [i for i in range(x.ndim) if i != dim]
    if dims:
        my = np_matprod(y, [M[i] for i in dims], dims)
        ref = np.tensordot(x, my, axes=(dims, dims))
        close(arr(X.tensordot_matrix_product_except_dim(Y, list(M), dim)),
              ref, "tensordot_matrix_product_except_dim", scale=scale)
    fz.check("metric")
    return x.ndim > 1


@composite
def g_orth(draw):
    sh = draw(shapes(1, 4, 5, 200))
    return {"x": draw(array_spec(sh)), "dim": draw(
        st.integers(-1, len(sh) - 1)), "alpha": draw(subset(len(sh), 1)),
        "k": draw(st.integers(1, 6)),
        "eps": draw(st.sampled_from([0.5, 0.1, 1e-3, 1e-8]))}


@P.relation("orth_svd", g_orth, 1500,
            rule="QR along any dimension, singular values and principal "
                 "components of any matricization; trivial if order 1")
def _(case):
    x = build(case["x"])
    X = tensap.FullTensor(x)
    fz = Frozen(X.data)
    dim = case["dim"] % x.ndim
    nx = max(1.0, np.linalg.norm(x))
    if x.ndim > 1:
        Q, R = X.orth(case["dim"])
        q, r = arr(Q), np.asarray(R)
        m = np.moveaxis(q, dim, -1).reshape(-1, q.shape[dim])
        close(m.T @ m, np.eye(m.shape[1]), "orth: orthonormal factor",
              tol=1e-10)
        close(np_matprod(q, [r.T], [dim]), x, "orth: x = q x_dim r", tol=1e-10,
              scale=nx)
        need(Q.is_orth and Q.orth_dim == dim, "orth: flags")
        T0, R0 = X.orth()
        close(arr(T0), x, "orth(): copy")
    sv = X.singular_values()
    if x.ndim == 2:
        close(sv, np.linalg.svd(x, compute_uv=False), "singular_values",
              tol=1e-10, scale=nx)
    else:
        need(len(sv) == x.ndim, "singular_values: one set per dimension")
        for i, s in enumerate(sv):
            mat = np.moveaxis(x, i, 0).reshape(x.shape[i], -1)
            close(s, np.linalg.svd(mat, compute_uv=False),
                  "singular_values", tol=1e-10, scale=nx, dim=i)
    al = case["alpha"]
    rest = [i for i in range(x.ndim) if i not in al]
    mat = np.reshape(np.transpose(x, al + rest),
                     (prod([x.shape[i] for i in al]), -1), order="F")
    s = np.linalg.svd(mat, compute_uv=False)
    if s[0] > 0:
        for par in (None, case["k"], case["eps"]):
            pc, sv = X.alpha_principal_components(al, par)
            pc, sv = np.asarray(pc), np.asarray(sv)
            r = pc.shape[1]
            close(pc.T @ pc, np.eye(r), "principal components: orthonormal",
                  tol=1e-9)
            close(np.diag(sv), s[:r], "principal components: singular values",
                  tol=1e-9, scale=s[0])
            err = np.linalg.norm(mat - pc @ (pc.T @ mat))
            best = np.sqrt(np.sum(s[r:] ** 2))
            need(abs(err - best) <= 1e-7 * s[0],
                 "principal components: not the dominant subspace",
                 err=err, best=best, par=par)
            if par is None:
                need(err <= 1e-7 * s[0], "principal components: all of them")
            elif par < 1:
                need(err <= par * np.linalg.norm(s) * (1 + 1e-6),
                     "principal components: tolerance not met", err=err)
                if r > 1:
                    need(np.sqrt(np.sum(s[r - 1:] ** 2)) >=
                         par * np.linalg.norm(s) * (1 - 1e-6),
                         "principal components: more components than needed",
                         s=s, r=r, par=par)
            else:
                need(r <= case["k"], "principal components: too many", r=r)
                k = min(case["k"], len(s))
                if s[k - 1] > 1e-8 * s[0]:
                    need(r == k, "principal components: too few", r=r, k=k)
            lab("par_" + ("none" if par is None else
                          "rank" if par >= 1 else "tol"))
    fz.check("orth/svd")
    return x.ndim > 1

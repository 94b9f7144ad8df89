"""T01: dense tensor arithmetic, reshaping, extraction against numpy."""
import numpy as np
import tensap
from props.common import *

P = Prop("T01", "dense tensors: arithmetic, layout and extraction", effort=6)


def FT(spec):
    return tensap.FullTensor(build(spec))


@composite
def g_arith(draw):
    sh = draw(shapes())
    return {"x": draw(array_spec(sh)), "y": draw(array_spec(sh)),
            "c": draw(st.integers(-3, 3)), "p": draw(st.integers(0, 3))}


@P.relation("arithmetic", g_arith, 500,
            rule="every pair of equal-shape tensors; trivial if one entry")
def _(case):
    x, y, c = build(case["x"]), build(case["y"]), case["c"]
    X, Y = tensap.FullTensor(x), tensap.FullTensor(y)
    fz = Frozen(X.data, Y.data, x, y)
    close(arr(X + Y), x + y, "x+y")
    close(arr(X - Y), x - y, "x-y")
    close(arr(X * Y), x * y, "x*y")
    close(arr(X.hadamard_product(Y)), x * y, "hadamard")
    close(arr(-X), -x, "-x")
    close(arr(X + c), x + c, "x+c")
    close(arr(c + X), x + c, "c+x")
    close(arr(X - c), x - c, "x-c")
    close(arr(c - X), c - x, "c-x")
    close(arr(c * X), c * x, "c*x")
    close(arr(X * c), c * x, "x*c")
    close(arr(X ** case["p"]), x ** case["p"], "x**p")
    if c:
        close(arr(X / c), x / c, "x/c")
    z = np.where(y == 0, 1.5, y)
    close(arr(X / tensap.FullTensor(z)), x / z, "x/y", tol=1e-8)
    close(X.dot(Y), np.sum(x * y), "dot", scale=np.linalg.norm(x)
          * np.linalg.norm(y), shape=False)
    close(X.norm(), np.linalg.norm(x.ravel()), "norm", shape=False)
    need(bool(X == tensap.FullTensor(x)), "x == copy of x")
    need(not bool(X == tensap.FullTensor(x + 1)), "x == x+1")
    need(int(X.storage()) == x.size, "storage")
    need(int(X.sparse_storage()) == np.count_nonzero(x), "sparse_storage")
    same(X.shape, x.shape, "shape")
    need(int(np.asarray(X.order)) == x.ndim and int(X.ndim) == x.ndim, "order")
    same(X.size, x.shape, "size")
    close(X.numpy(), x, "numpy()")
    close(arr(X.full()), x, "full()")
    fz.check("arithmetic")
    lab("order%d" % x.ndim)
    return x.size > 1


@composite
def g_layout(draw):
    sh = draw(shapes())
    d = len(sh)
    n = prod(sh)
    # a random factorisation of the size as a new shape
    new, rest = [], n
    while rest > 1 and len(new) < 4:
        divs = [k for k in range(1, rest + 1) if rest % k == 0]
        k = draw(st.sampled_from(divs))
        new.append(k)
        rest //= k
    if rest > 1 or not new:
        new.append(rest)
    dims1 = draw(subset(d, 1))
    ones = [i for i in range(d) if sh[i] == 1]
    return {"x": draw(array_spec(sh)),
            "perm": list(draw(st.permutations(range(d)))), "new": new,
            "dims1": dims1,
            "rest": list(draw(st.permutations(
                [i for i in range(d) if i not in dims1]))),
            "sq": draw(st.lists(st.sampled_from(ones), unique=True,
                                min_size=1)) if ones else [],
            "red": draw(subset(d, 1))}


@P.relation("layout", g_layout, 500,
            rule="transposes, reshapes, matricizations; trivial if order 1")
def _(case):
    x = build(case["x"])
    X = tensap.FullTensor(x)
    fz = Frozen(X.data)
    p = case["perm"]
    close(arr(X.transpose(p)), np.transpose(x, p), "transpose")
    close(arr(X.itranspose(p)), np.transpose(x, np.argsort(p)), "itranspose")
    close(arr(X.transpose(p).itranspose(p)), x, "itranspose o transpose")
    close(arr(X.reshape(case["new"])),
          np.reshape(x, case["new"], order="F"), "reshape (column major)")
    close(arr(tensap.FullTensor(x.ravel(order="F"), x.ndim, x.shape)), x,
          "construction from column-major values and shape")
    close(arr(tensap.FullTensor(x, x.ndim + 2)), x[..., None, None],
          "construction with a larger order")
    d1 = case["dims1"]
    d2 = [i for i in range(x.ndim) if i not in d1]
    ref = np.reshape(np.transpose(x, d1 + d2),
                     (prod([x.shape[i] for i in d1]),
                      prod([x.shape[i] for i in d2])), order="F")
    close(arr(X.matricize(d1)), ref, "matricize(dims1)")
    ref = np.reshape(np.transpose(x, d1 + case["rest"]), ref.shape, order="F")
    if case["rest"]:
        close(arr(X.matricize(d1, case["rest"])), ref,
              "matricize(dims1, dims2)")
    if len(d1) == 1:
        close(arr(X.matricize(d1[0])), ref if not case["rest"] else
              np.reshape(np.transpose(x, d1 + d2), ref.shape, order="F"),
              "matricize(int)")
    last = x.ndim - 1
    ref = np.reshape(np.moveaxis(x, last, 0), (x.shape[last], -1), order="F")
    close(arr(X.matricize(-1)), ref, "matricize(-1)")
    ref = np.squeeze(x)
    got = X.squeeze()
    close(arr(got), ref, "squeeze()")
    if case["sq"]:
        close(arr(X.squeeze(case["sq"])), np.squeeze(x, tuple(case["sq"])),
              "squeeze(dims)")
    r = tuple(case["red"])
    for q in (r, list(r), np.array(r)):
        close(arr(X.reduce_sum(q)), np.sum(x, r, keepdims=True), "reduce_sum")
        close(arr(X.reduce_mean(q)), np.mean(x, r, keepdims=True),
              "reduce_mean")
    close(arr(X.reduce_sum()), np.sum(x, keepdims=True), "reduce_sum()")
    close(arr(X.reduce_sum(r[0])), np.sum(x, r[0], keepdims=True),
          "reduce_sum(int)")
    fz.check("layout")
    lab("order%d" % x.ndim, "has1" if 1 in x.shape else "no1")
    return x.ndim > 1


@composite
def g_extract(draw):
    eq = draw(st.booleans())
    sh = draw(shapes())
    d = len(sh)
    dims = draw(subset(d, 1))
    if eq:
        n = draw(st.integers(1, 3))
        for i in dims:
            sh[i] = n
    k = draw(st.integers(1, 6))
    idx = [[draw(st.integers(0, sh[i] - 1)) for i in dims] for _ in range(k)]
    full = [[draw(st.integers(0, n - 1)) for n in sh] for _ in range(k)]
    sub = []
    for n in sh:
        if draw(st.booleans()):
            sub.append(":")
        else:
            sub.append(draw(st.lists(st.integers(0, n - 1), min_size=1,
                                     max_size=4)))
    return {"x": draw(array_spec(sh)), "dims": dims, "idx": idx, "full": full,
            "sub": sub, "eq": eq}


@P.relation("extraction", g_extract, 700,
            rule="entries at multi-indices, partial evaluation along any "
                 "ordered subset of dimensions, diagonals, sub-tensors; "
                 "trivial if order 1")
def _(case):
    x = build(case["x"])
    X = tensap.FullTensor(x)
    fz = Frozen(X.data)
    close(X.eval_at_indices(np.array(case["full"])),
          x[tuple(np.array(case["full"]).T)], "eval_at_indices", shape=False)
    dims, idx = case["dims"], np.array(case["idx"])
    got = arr(X.eval_at_indices(idx, dims))
    if len(dims) == x.ndim:
        ref = x[tuple(idx[:, np.argsort(dims)].T)]
    else:
        ref = np_partial(x, idx, dims)
        lab("partial%d" % len(dims),
            "gap" if np.any(np.diff(sorted(dims)) > 1) else "contiguous",
            "unsorted" if dims != sorted(dims) else "sorted")
    if len(dims) > 1 or len(case["idx"]) == 1 or True:
        close(got, ref, "eval_at_indices(dims)", shape=len(dims) != x.ndim,
              dims=dims, idx=idx)
    ref = x
    args = []
    for i, s in enumerate(case["sub"]):
        if s != ":":
            ref = np.take(ref, s, axis=i)
        args.append(s if s == ":" or len(s) > 1 else
                    (s if i % 2 else s[0]))
    close(arr(X.sub_tensor(*args)), ref, "sub_tensor", sub=case["sub"])
    if case["eq"]:
        if len(dims) == x.ndim and x.ndim > 1:
            close(arr(X.eval_diag()), np_diag(x, dims), "eval_diag()")
        close(arr(X.eval_diag(dims)), np_diag(x, dims), "eval_diag(dims)",
              dims=dims)
        lab("diag%d" % len(dims))
    fz.check("extraction")
    return x.ndim > 1


@composite
def g_cat(draw):
    d = draw(st.integers(1, 4))
    sh1 = draw(shapes(d, d, 3))
    sh2 = draw(shapes(d, d, 3))
    dims = draw(subset(d, 1))
    for i in range(d):
        if i not in dims:
            sh2[i] = sh1[i]
    sh3 = draw(shapes(1, 4, 3, 60))
    return {"x": draw(array_spec(sh1)), "y": draw(array_spec(sh2)),
            "z": draw(array_spec(sh3)), "dims": dims,
            "n": draw(st.integers(1, 4)), "o": draw(st.integers(1, 4))}


@P.relation("cat_kron", g_cat, 400,
            rule="concatenation along any subset of dimensions, Kronecker "
                 "products of any two orders, diagonal tensors")
def _(case):
    x, y, z = build(case["x"]), build(case["y"]), build(case["z"])
    X, Y, Z = map(tensap.FullTensor, (x, y, z))
    fz = Frozen(X.data, Y.data, Z.data)
    dims = case["dims"]
    sh = [a + b if i in dims else a
          for i, (a, b) in enumerate(zip(x.shape, y.shape))]
    ref = np.zeros(sh)
    ref[tuple(slice(0, n) for n in x.shape)] += x
    ref[tuple(slice(sh[i] - n, sh[i]) for i, n in enumerate(y.shape))] += y
    close(arr(X.cat(Y, dims)), ref, "cat(dims)", dims=dims)
    if len(dims) == 1:
        close(arr(X.cat(Y, dims[0])), ref, "cat(int)")
    if len(dims) == x.ndim:
        close(arr(X.cat(Y)), ref, "cat()")
    # kron: the smaller order is completed with trailing dimensions of size 1
    n = max(x.ndim, z.ndim)
    a = x.reshape(x.shape + (1,) * (n - x.ndim))
    b = z.reshape(z.shape + (1,) * (n - z.ndim))
    close(arr(X.kron(Z)), np.kron(a, b), "kron")
    lab("kron_eq" if x.ndim == z.ndim else "kron_diff")
    v = build({"shape": [case["n"]], "k": "gauss", "s": case["x"]["s"]})
    ref = np.zeros((case["n"],) * case["o"])
    for i in range(case["n"]):
        ref[(i,) * case["o"]] = v[i]
    close(arr(tensap.FullTensor.diag(v, case["o"])), ref, "diag")
    close(arr(tensap.FullTensor.zeros(x.shape)), np.zeros(x.shape), "zeros")
    close(arr(tensap.FullTensor.ones(x.shape)), np.ones(x.shape), "ones")
    fz.check("cat/kron")
    close(arr(X.tree_based_tensor().full()) if x.ndim > 1 else x, x,
          "conversion to a tree-based tensor", tol=1e-10)
    close(arr(X.sparse().full()) if x.ndim > 1 and
          np.count_nonzero(x) > 1 else x, x, "conversion to a sparse tensor")
    r = tensap.FullTensor.rand(x.shape)
    need(r.data.shape == x.shape and np.all(r.data >= 0)
         and np.all(r.data <= 1), "rand: uniform on [0, 1]")
    r = tensap.FullTensor.randn(x.shape)
    need(r.data.shape == x.shape and np.all(np.isfinite(r.data)), "randn")

"""T11: sets of multi-indices against sets of tuples."""
import itertools
import numpy as np
import tensap
from props.common import *

P = Prop("T11", "sets of multi-indices: set operations and constructions", effort=1.5)
MI = tensap.MultiIndices


@composite
def sets(draw, d=None, min_size=1, max_size=12, top=4, down=None):
    """A list of distinct multi-indices, downward closed on request."""
    d = d or draw(st.integers(1, 4))
    if down is None:
        down = draw(st.booleans())
    if down:
        gens = draw(st.lists(st.lists(st.integers(0, 3 if d < 4 else 2),
                                      min_size=d, max_size=d),
                             min_size=1, max_size=3))
        s = set()
        for g in gens:
            s |= set(itertools.product(*[range(k + 1) for k in g]))
        s = sorted(s)
        rng = np.random.RandomState(draw(st.integers(0, 2 ** 16)))
        return [list(map(int, s[i])) for i in rng.permutation(len(s))]
    return draw(st.lists(st.lists(st.integers(0, top), min_size=d, max_size=d),
                         min_size=min_size, max_size=max_size,
                         unique_by=tuple))


def build_mi(rows, how=0):
    a = np.array(rows, dtype=int).reshape(len(rows), -1)
    return MI(MI(a) if how else a)


def tup(I):
    a = np.asarray(I.array)
    need(a.ndim == 2, "array of the multi-indices", got=a)
    need(np.issubdtype(a.dtype, np.integer), "integer multi-indices",
         got=a.dtype)
    return [tuple(int(i) for i in r) for r in a]


def is_set(I, want, what, **kw):
    need(isinstance(I, MI), what + ": type", got=type(I))
    got = tup(I)
    need(len(set(got)) == len(got), what + ": repeated multi-indices",
         got=got, **kw)
    need(set(got) == set(want), what, extra=sorted(set(got) - set(want)),
         missing=sorted(set(want) - set(got)), **kw)
    return got


def is_list(I, want, what, **kw):
    need(isinstance(I, MI), what + ": type", got=type(I))
    got = tup(I)
    need(got == [tuple(w) for w in want], what, got=got, want=want, **kw)


def frozen_mi(*sets_):
    a = [(I, I.array, I.array.copy()) for I in sets_]

    def ok(what):
        for I, x, y in a:
            need(I.array.shape == y.shape and np.array_equal(I.array, y),
                 what + ": a set was modified", before=y, after=I.array)
    return ok


@composite
def g_ops(draw):
    d = draw(st.integers(1, 4))
    a = draw(sets(d))
    how = draw(st.sampled_from(["other", "other", "sub", "one"]))
    if how == "sub":
        b = [a[i] for i in draw(subset(len(a), 1))]
    elif how == "one":
        b = draw(sets(d, 1, 1, down=False))
    else:
        b = draw(sets(d))
    return {"a": a, "b": b, "m": draw(st.integers(-2, 3)),
            "mv": [draw(st.integers(-2, 3)) for _ in range(d)],
            "k": draw(subset(len(a), 1)), "dims": draw(subset(d, 1)),
            "list": draw(st.booleans())}


@P.relation("set_operations", g_ops, 2500,
            rule="unions, differences, intersections, comparisons, "
                 "translations, projections of sets in dimension 1 to 4; "
                 "trivial if one multi-index in dimension 1")
def _(case):
    a = [tuple(r) for r in case["a"]]
    b = [tuple(r) for r in case["b"]]
    d = len(a[0])
    A, B = build_mi(a, case["list"]), build_mi(b)
    ok = frozen_mi(A, B)
    sa, sb = set(a), set(b)
    need(A.cardinal() == len(a) and A.ndim() == d, "cardinal and dimension")
    is_list(A.add_indices(B), a + [r for r in b if r not in sa],
            "add_indices")
    is_list(A.remove_indices(B), [r for r in a if r not in sb],
            "remove_indices(set)")
    k = case["k"]
    arg = list(k) if case["list"] else np.array(k)
    is_list(A.remove_indices(arg), [r for i, r in enumerate(a) if i not in k],
            "remove_indices(numbers)")
    is_list(A.remove_indices(k[0]), [r for i, r in enumerate(a) if i != k[0]],
            "remove_indices(number)")
    I, i1, i2 = A.intersect_indices(B)
    is_set(I, sa & sb, "intersect_indices")
    same(A.array[i1], I.array, "intersect_indices: positions in the first set")
    same(B.array[i2], I.array,
         "intersect_indices: positions in the second set")
    is_list(A.keep_indices(arg), [a[i] for i in k], "keep_indices")
    same(A.get_indices(arg), [a[i] for i in k], "get_indices(numbers)")
    same(A.get_indices(k[0]), a[k[0]], "get_indices(number)")
    dims = case["dims"]
    darg = list(dims) if case["list"] else np.array(dims)
    is_list(A.keep_dims(darg), list(dict.fromkeys(
        tuple(r[i] for i in dims) for r in a)), "keep_dims")
    rest = [i for i in range(d) if i not in dims]
    if rest:
        is_list(A.remove_dims(darg), list(dict.fromkeys(
            tuple(r[i] for i in rest) for r in a)), "remove_dims")
    cols = A.to_list()
    need(len(cols) == d, "to_list: length")
    for i in range(d):
        same(cols[i], [r[i] for r in a], "to_list")
    m, mv = case["m"], np.array(case["mv"])
    ar = np.array(a)
    is_list(A + m, ar + m, "I + m")
    is_list(A + mv, ar + mv, "I + array")
    is_list(A - m, ar - m, "I - m")
    is_list(A - mv, ar - mv, "I - array")
    is_list(m + A, ar + m, "m + I")
    ok("translation")
    is_list(m - A, m - ar, "m - I")
    ok("translation")
    # comparisons, entry by entry
    same(np.asarray(A == A), np.ones(len(a), bool), "I == I")
    if len(b) == len(a):
        same(np.asarray(A == B), [p == q for p, q in zip(a, b)], "I == J")
        same(np.asarray(A <= B), [all(np.array(p) <= np.array(q))
                                  for p, q in zip(a, b)], "I <= J")
    B1 = build_mi(b[:1])
    same(np.asarray(A == B1), [p == b[0] for p in a], "I == one multi-index")
    same(np.asarray(A <= B1), [all(np.array(p) <= np.array(b[0])) for p in a],
         "I <= one multi-index")
    need(B1.cardinal() == 1, "comparison: the set was modified",
         got=B1.array)
    need((A == 3) is False, "I == something else")
    P_ = A.product(B)
    is_list(P_, [p + q for q in b for p in a], "product")
    ok("set operations")
    lab("dim%d" % d)
    return len(a) > 1 or d > 1


@composite
def g_order(draw):
    d = draw(st.integers(1, 4))
    a = draw(sets(d))
    return {"a": a, "p": draw(st.sampled_from([1, 2, 3, 0.5, "inf"])),
            "w": [draw(st.sampled_from([0.25, 0.5, 1, 1.5, 2, 3]))
                  for _ in range(d)],
            "cols": draw(subset(d, 1)), "k": draw(subset(len(a), 1)),
            "mode": draw(st.sampled_from(["ascend", "descend"])),
            "list": draw(st.booleans()), "s": draw(st.integers(0, 2 ** 16))}


def pnorm(a, p):
    a = np.asarray(a, dtype=float)
    return a.max(axis=1) if p == "inf" else (a ** p).sum(axis=1) ** (1 / p)


@P.relation("norms_and_sorting", g_order, 2000,
            rule="norms, sorting by norm and by columns, flat indices; "
                 "trivial if one multi-index")
def _(case):
    a, p, w, k, mode = (case[i] for i in ("a", "p", "w", "k", "mode"))
    A = build_mi(a)
    ok = frozen_mi(A)
    ar = np.array(a)
    d = ar.shape[1]
    pp = np.inf if p == "inf" else p
    warg = list(w) if case["list"] else np.array(w)
    close(A.norm(pp), pnorm(a, p), "norm")
    close(A.norm(pp, k), pnorm(ar[k], p), "norm(k)")
    close(A.norm(), pnorm(a, 2), "norm: default")
    close(A.weighted_norm(pp, warg), pnorm(ar * w, p), "weighted_norm")
    close(A.weighted_norm(pp, warg, k), pnorm(ar[k] * w, p),
          "weighted_norm(k)")
    sign = 1 if mode == "ascend" else -1
    B = A.sort_by_norm(pp, mode)
    is_set(B, map(tuple, a), "sort_by_norm")
    n = pnorm(B.array, p)
    need(np.all(sign * np.diff(n) >= -1e-12), "sort_by_norm: order", got=n)
    B = A.sort_by_weighted_norm(pp, warg, mode)
    is_set(B, map(tuple, a), "sort_by_weighted_norm")
    n = pnorm(B.array * w, p)
    need(np.all(sign * np.diff(n) >= -1e-12), "sort_by_weighted_norm: order",
         got=n)
    cols = case["cols"]
    for what, arg, c in (("sort()", None, list(range(d - 1, -1, -1))),
                         ("sort(columns)", list(cols) if case["list"]
                          else np.array(cols), cols)):
        B = A.sort(arg, mode)
        is_set(B, map(tuple, a), what)
        keys = [tuple(int(r[i]) for i in c) for r in B.array]
        need(keys == sorted(keys, reverse=sign < 0), what + ": order " + mode,
             got=keys)
    is_list(A.sort(), sorted(map(tuple, a), key=lambda r: r[::-1]),
            "sort: default")
    # flat indices: first index fastest
    sh = ar.max(axis=0) + 1 + np.random.RandomState(case["s"]).randint(0, 3, d)
    f = A.sub2ind(sh)
    want = (ar * np.concatenate([[1], np.cumprod(sh[:-1])])).sum(axis=1)
    same(np.asarray(f), want, "sub2ind")
    is_list(MI.ind2sub(sh, f), a, "ind2sub o sub2ind")
    is_list(MI.ind2sub(list(map(int, sh)), list(map(int, f))), a,
            "ind2sub(list)")
    ok("norms and sorting")
    lab(mode, "p=%s" % p)
    return len(a) > 1


def m_margin(s, d):
    out = set()
    for r in s:
        for k in range(d):
            q = r[:k] + (r[k] + 1,) + r[k + 1:]
            if q not in s:
                out.add(q)
    return out


def m_down(s, m=0):
    """Closed for the order, above the lowest index m."""
    return all(r[:k] + (r[k] - 1,) + r[k + 1:] in s
               for r in s for k in range(len(r)) if r[k] > m)


@composite
def g_mono(draw):
    d = draw(st.integers(1, 4))
    a = draw(sets(d, top=2, max_size=9))
    return {"a": a, "s": draw(st.integers(0, 2 ** 16)),
            "u": draw(st.sampled_from(["gauss", "int"])),
            "list": draw(st.booleans()), "m": draw(st.sampled_from([0, 0, 1]))}


@P.relation("monotone_sets", g_mono, 2000,
            rule="margins, maximal elements, closure test, envelopes of sets, "
                 "downward closed or not; trivial if one multi-index")
def _(case):
    a = [tuple(r) for r in case["a"]]
    m = case["m"]
    A = build_mi(a)
    ok = frozen_mi(A)
    d, s = len(a[0]), set(a)
    down = m_down(s)
    need(bool(A.is_downward_closed()) == down, "is_downward_closed",
         got=A.is_downward_closed(), want=down, set=a)
    A1 = A + 1
    need(bool(A1.is_downward_closed(1)) == down, "is_downward_closed(1)",
         want=down, set=A1.array)
    if not (down and len(a) == 0):
        need(not A1.is_downward_closed(), "is_downward_closed of a "
             "translated set")
    marg = m_margin(s, d)
    is_set(A.get_margin(), marg, "get_margin", set=a)
    red = {q for q in marg if all(
        q[k] == 0 or q[:k] + (q[k] - 1,) + q[k + 1:] in s for k in range(d))}
    is_set(A.get_reduced_margin(), red, "get_reduced_margin", set=a)
    if down:
        top = {r for r in s if not any(
            r[:k] + (r[k] + 1,) + r[k + 1:] in s for k in range(d))}
        is_set(A.get_maximal_indices(), top, "get_maximal_indices", set=a)
        for q in sorted(red)[:3]:
            need(bool(A.add_indices(build_mi([q])).is_downward_closed()),
                 "adding an element of the reduced margin breaks the closure")
        if len(a) > 1:
            q = sorted(top)[0]
            need(bool(A.remove_indices(build_mi([q])).is_downward_closed()),
                 "removing a maximal element breaks the closure")
            q = sorted(s - top)
            if q:
                need(not A.remove_indices(build_mi(q[:1]))
                     .is_downward_closed(), "closure after the removal of a "
                     "non maximal element")
    rng = np.random.RandomState(case["s"])
    u = rng.randn(len(a)) if case["u"] == "gauss" else \
        rng.randint(-5, 6, len(a))
    env = [max(abs(u[j]) for j in range(len(a))
               if all(x >= y for x, y in zip(a[j], a[i])))
           for i in range(len(a))]
    fz = Frozen(u)
    close(A.envelope(u.tolist() if case["list"] else u), env, "envelope")
    fz.check("envelope")
    ok("monotone sets")
    lab("down" if down else "any", "dim%d" % d)
    return len(a) > 1


@composite
def g_make(draw):
    d = draw(st.integers(1, 4))
    return {"d": d, "p": draw(st.sampled_from(["inf", 1, 2, 3, 0.5, 0.75])),
            "m": draw(st.integers(0, 6 if d < 3 else 4)),
            "w": [draw(st.sampled_from([0.5, 0.75, 1, 1.25, 2, 3]))
                  for _ in range(d)],
            "b": [draw(st.integers(0, 3)) for _ in range(d)],
            "m0": draw(st.integers(0, 1)), "q": draw(st.integers(0, 4)),
            "sets": [draw(sets(draw(st.integers(1, 2)), 1, 4, down=False))
                     for _ in range(draw(st.integers(1, 3)))],
            "grid": sorted(draw(st.sets(st.integers(0, 9), min_size=1,
                                        max_size=4))),
            "list": draw(st.booleans())}


def ball(d, top, cond):
    return {r for r in itertools.product(range(top + 1), repeat=d) if cond(r)}


@P.relation("constructions", g_make, 1500,
            rule="balls, boxes, products, hyperbolic crosses, low-order "
                 "interactions in dimension 1 to 4; trivial if one "
                 "multi-index")
def _(case):
    d, p, m, w, q = (case[k] for k in ("d", "p", "m", "w", "q"))
    pp = np.inf if p == "inf" else p

    def nrm(r, w=None):
        return pnorm(np.array([r]) * (1 if w is None else np.array(w)), p)[0]

    I = MI.with_bounded_norm(d, pp, m)
    # multi-indices on the boundary, up to rounding errors, are free unless
    # the norm is exact
    if p in (1, 2, "inf"):
        is_set(I, ball(d, m, lambda r: nrm(r) <= m * (1 + 1e-12)),
               "with_bounded_norm", d=d, p=p, m=m)
    got = set(tup(I))
    need(len(got) == I.cardinal() and
         ball(d, m, lambda r: nrm(r) <= m * (1 - 1e-12)) <= got
         <= ball(d, m, lambda r: nrm(r) <= m * (1 + 1e-12)),
         "with_bounded_norm", got=sorted(got), d=d, p=p, m=m)
    if p in (1, 2, "inf"):
        need(bool(I.is_downward_closed()), "with_bounded_norm: not monotone")
    top = int(m / min(w)) + 1
    if (top + 1) ** d < 20000:
        warg = list(w) if case["list"] else np.array(w)
        want = ball(d, top, lambda r: nrm(r, w) <= m * (1 + 1e-12))
        low = ball(d, top, lambda r: nrm(r, w) <= m * (1 - 1e-12))
        J = MI.with_bounded_weighted_norm(d, pp, m, warg)
        got = set(tup(J))
        need(len(got) == J.cardinal() and low <= got <= want,
             "with_bounded_weighted_norm", got=sorted(got),
             want=sorted(want), d=d, p=p, m=m, w=w)
    is_set(MI.hyperbolic_cross_set(d, m), ball(d, m, lambda r: np.prod(
        np.array(r) + 1) <= m + 1), "hyperbolic_cross_set", d=d, p=m)
    hi = int((m + 1) ** (1 / min(w)) + 1)
    if (hi + 1) ** d < 20000:
        f = (lambda r: np.prod((np.array(r) + 1.0) ** np.array(w)))
        J = MI.weighted_hyperbolic_cross_set(
            d, m, list(w) if case["list"] else np.array(w))
        got = set(tup(J))
        need(len(got) == J.cardinal()
             and ball(d, hi, lambda r: f(r) <= (m + 1) * (1 - 1e-12)) <= got
             <= ball(d, hi, lambda r: f(r) <= (m + 1) * (1 + 1e-12)),
             "weighted_hyperbolic_cross_set", got=sorted(got), d=d, p=m, w=w)
    is_set(MI.low_order_interactions(d, m, q), ball(
        d, m, lambda r: np.count_nonzero(r) <= q), "low_order_interactions",
        d=d, p=m, m=q)
    b, m0 = case["b"], case["m0"]
    is_list(MI.bounded_by(list(b) if case["list"] else np.array(b)),
            [r[::-1] for r in itertools.product(
                *[range(x + 1) for x in b[::-1]])], "bounded_by")
    b1 = [max(x, m0) for x in b]
    is_list(MI.bounded_by(b1, m0), [r[::-1] for r in itertools.product(
        *[range(m0, x + 1) for x in b1[::-1]])], "bounded_by(m, m0)")
    # products
    L = [np.array(s) if case["list"] else build_mi(s) for s in case["sets"]]
    L0 = list(L)
    rows = [[tuple(r) for r in s] for s in case["sets"]]
    want = [sum(r[::-1], ()) for r in itertools.product(*rows[::-1])]
    is_list(MI.product_set(L), want, "product_set")
    need(len(L) == len(L0) and all(x is y for x, y in zip(L, L0)),
         "product_set: the list was modified")
    g = case["grid"]
    arg = list(g) if case["list"] else np.array(g)
    want = [r[::-1] for r in itertools.product(g, repeat=d)]
    is_list(MI.product_set([arg], d), want, "product_set([set], d)")
    is_list(MI.product_set(arg, d), want, "product_set(set, d)")
    same(arg, g, "product_set: argument")
    lab("dim%d" % d, "p=%s" % p)
    return I.cardinal() > 1

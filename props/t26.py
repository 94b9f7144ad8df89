"""T26: functions defined by the user, storage of evaluations, restrictions,
compositions and benchmark functions."""
import numpy as np
import tensap
from props.tbt import *

P = Prop("T26", "functions: evaluation, storage, restriction, composition", effort=5)

SHAPES = [1, 1, 1, 2, 3, [2, 3], [3, 2], [1, 2]]


@composite
def functions(draw, outputs=SHAPES):
    return {"dim": draw(st.integers(1, 4)), "s": draw(st.integers(0, 9999)),
            "out": draw(st.sampled_from(outputs)),
            "multi": draw(st.booleans()),
            "kind": draw(st.sampled_from(["row", "flat", "list", "function",
                                          "string"]))}


class Model:
    """Reference function, with the list of the evaluated points."""

    def __init__(self, c):
        rng = np.random.RandomState(c["s"])
        self.shape = list(np.atleast_1d(c["out"]))
        k = prod(self.shape)
        self.w = rng.randint(-3, 4, (k, c["dim"])) + 0.5
        self.b = rng.randint(-3, 4, k)
        self.calls = []

    def __call__(self, x):
        """One row per point, one column per output (in C order)."""
        self.calls += [tuple(r) for r in np.atleast_2d(x).tolist()]
        return self.value(x)

    def value(self, x):
        return np.cos(np.atleast_2d(x) @ self.w.T + self.b) + self.b

    def want(self, x):
        return self.value(x).reshape([len(x)] + self.shape)


class Sub(tensap.Function):
    """Subclass of the abstract class."""

    def __init__(self, m, c):
        tensap.Function.__init__(self)
        self.m, self.dim = m, c["dim"]
        self.output_shape = c["out"]

    def eval(self, x):
        y = self.m(x)
        return y if self.output_shape == 1 else \
            y.reshape([len(y)] + self.m.shape)


def make(c, m=None):
    """A function in the library and its model."""
    m = m or Model(c)
    if c["kind"] == "string":
        # one output
        t = " + ".join("%r * x%d" % (float(m.w[0, i]), i)
                       for i in range(c["dim"]))
        f = tensap.UserDefinedFunction("np.cos(%s + %d) + %d"
                                       % (t, m.b[0], m.b[0]), c["dim"])
        f.evaluation_at_multiple_points = c["multi"]
        return f, m
    if c["kind"] == "function":
        if c["s"] % 2:
            f = tensap.UserDefinedFunction(Sub(m, c), c["dim"], c["out"])
        else:
            return Sub(m, c), m
    elif c["kind"] == "list" and c["multi"]:
        f = tensap.UserDefinedFunction(
            lambda x: list(m(x).T), c["dim"], c["out"])
    elif c["kind"] == "flat" and c["out"] == 1:
        f = tensap.UserDefinedFunction(lambda x: m(x)[:, 0], c["dim"])
    else:
        f = tensap.UserDefinedFunction(
            lambda x: m(x).reshape([-1] + m.shape), c["dim"], c["out"])
    f.evaluation_at_multiple_points = c["multi"]
    return f, m


def valid(c):
    if c["kind"] == "string":
        c = dict(c, out=1)
    return c


def check_values(got, x, m, what):
    w = m.want(x)
    close(np.reshape(got, w.shape), w, what, tol=1e-12, scale=10)
    need(np.shape(got)[:1] == (len(x),), what + ": one value per point",
         got=np.shape(got))


# ------------------------------------------------------------------------ strings
@composite
def expressions(draw):
    d = draw(st.integers(1, 24))
    var = st.integers(0, d - 1)
    return {"dim": d, "n": draw(st.integers(1, 4)),
            "s": draw(st.integers(0, 9999)), "multi": draw(st.booleans()),
            "terms": draw(st.lists(st.tuples(
                st.integers(-3, 3), st.lists(var, min_size=1, max_size=3),
                st.sampled_from(["", "", "np.exp", "np.maximum0", "abs",
                                 "square"])).map(list),
                min_size=1, max_size=4)), "last": draw(st.booleans())}


@P.relation("strings", expressions(), 600,
            rule="at least two variables in the expression")
def strings(c):
    d, terms = c["dim"], list(c["terms"])
    if c["last"]:
        terms.append([2, [d - 1], ""])
    x = points(np.random.RandomState(c["s"]), c["n"], d)
    text, want = [], np.zeros(c["n"])
    for k, v, g in terms:
        t = "*".join("x%d" % i for i in v)
        y = np.prod([x[:, i] for i in v], 0)
        if g == "np.exp":
            t, y = "np.exp(-(%s)**2)" % t, np.exp(-y ** 2)
        elif g == "np.maximum0":
            t, y = "np.maximum(%s, x%d)" % (t, v[0]), np.maximum(y, x[:, v[0]])
        elif g == "abs":
            t, y = "abs(%s-x%d)" % (t, v[-1]), abs(y - x[:, v[-1]])
        elif g == "square":
            t, y = "(%s)**2" % t, y ** 2
        text.append("%d*%s" % (k, t))
        want += k * y
    f = tensap.UserDefinedFunction(" + ".join(text), d)
    f.evaluation_at_multiple_points = c["multi"]
    lab("more than ten variables" if d > 10 else "", "multi" if c["multi"]
        else "one by one")
    fr = Frozen(x)
    sc = 1 + np.max(np.abs(want))
    y = f(x)
    close(np.ravel(y), want, "values of an expression", tol=1e-12, scale=sc)
    need(np.shape(y)[0] == c["n"], "one value per point", got=np.shape(y))
    close(np.ravel(f.eval(x)), want, "values of an expression (eval)",
          tol=1e-12, scale=sc)
    fr.check("evaluation")
    return len({i for t in terms for i in t[1]}) > 1


# --------------------------------------------------------------------- evaluation
@composite
def evaluations(draw):
    c = valid(draw(functions()))
    c["n"] = draw(st.integers(1, 6))
    c["sizes"] = draw(st.lists(st.integers(1, 3), min_size=c["dim"],
                               max_size=c["dim"]))
    c["grid"] = draw(st.sampled_from(["full", "sparse"]))
    return c


def points(rng, n, d):
    return rng.randint(-4, 5, (n, d)) / 2


@P.relation("evaluation", evaluations(), 1200,
            rule="several points or several outputs")
def evaluation(c):
    f, m = make(c)
    rng = np.random.RandomState(c["s"] + 1)
    x = points(rng, c["n"], c["dim"])
    fr = Frozen(x)
    lab(c["kind"], "outputs %s" % c["out"], "dimension %d" % c["dim"])
    y = f.eval(x)
    check_values(y, x, m, "eval")
    z = f(x)
    check_values(z, x, m, "call")
    if c["out"] == 1:
        same(np.shape(z), (c["n"],), "call: one value per point")
    else:
        same(np.shape(z), np.shape(m.want(x)), "call: shape")
    z, g = f(x, return_f=True)
    check_values(z, x, m, "call with return_f")
    need(isinstance(g, tensap.Function), "the function is returned")
    if c["dim"] == 1:
        check_values(f(x[:, 0]), x, m, "call at a vector of points")
    # grids
    pts = [np.unique(points(rng, n, 1))[:, None] for n in c["sizes"]]
    sz = [len(p) for p in pts]
    G = tensap.FullTensorGrid(pts)
    if c["grid"] == "full":
        v = f.eval_on_tensor_grid(G)
        need(isinstance(v, tensap.FullTensor), "full tensor", got=type(v))
        w = np.empty(sz + m.shape)
        for i in np.ndindex(*sz):
            w[i] = m.want(np.array([[p[k, 0] for p, k in zip(pts, i)]]))[0]
        if c["out"] == 1:
            w = w.reshape(sz)
        same(np.array(v.shape), np.array(w.shape), "shape on the grid")
        close(v.data, w, "values on a grid", tol=1e-12, scale=10, shape=True)
    elif c["out"] == 1:
        keep = [i for i in np.ndindex(*sz) if rng.randint(3)] or [(0,) * len(sz)]
        I = tensap.MultiIndices(np.array(keep))
        g = tensap.SparseTensorGrid(pts, I)
        v = f.eval_on_tensor_grid(g)
        w = np.zeros(sz)
        for i in keep:
            w[i] = m.want(np.array([[p[k, 0] for p, k in zip(pts, i)]]))[0, 0]
        close(np.reshape(v.full().data, sz), w, "values on a sparse grid",
              tol=1e-12, scale=10)
    fr.check("evaluation")
    if c["n"] == 1 and c["out"] == 1:
        return False


# ------------------------------------------------------------------------ storage
@composite
def histories(draw):
    c = valid(draw(functions()))
    c["store"] = draw(st.sampled_from(["attribute", "attribute", "method"]))
    c["pool"] = draw(st.integers(1, 6))
    i = st.integers(0, c["pool"] - 1)
    c["ops"] = draw(st.lists(st.tuples(
        st.sampled_from(["call", "call", "store_eval", "pair", "eval",
                         "modify"]),
        st.lists(i, min_size=1, max_size=4)), min_size=1, max_size=7))
    return c


@P.relation("storage", histories(), 1500,
            rule="a stored evaluation is used")
def storage(c):
    """Whatever the history, stored evaluations are the ones of the function
    and no stored point is evaluated again."""
    f, m = make(c)
    rng = np.random.RandomState(c["s"] + 1)
    pool = points(rng, c["pool"], c["dim"])
    if c["pool"] > 1 and rng.randint(2):
        # different points, very close to each other
        lab("close points")
        pool[-1] = pool[0]
        pool[-1, rng.randint(c["dim"])] += 1e-9
    if c["store"] == "attribute":
        f.store = True
    known, used = set(), False
    last = None
    lab(c["kind"], "outputs %s" % c["out"])
    for op, idx in c["ops"]:
        op = str(op)
        if op == "modify":
            # the user's arrays may be modified after the evaluation
            if last is not None:
                last[0][...] = 77.
                last[1][...] = -55.
                last = None
            continue
        x = pool[list(idx)].copy()
        del m.calls[:]
        before = set(known)
        if op == "call":
            y = f(x)
        elif op == "pair":
            y, g = f(x, True)
            need(g is f, "the function is returned")
        elif op == "store_eval":
            y, g = f.store_eval(x)
            need(g is f, "the function is returned")
        else:
            y = f.eval(x)
        check_values(y, x, m, "values of " + op)
        same(x, pool[list(idx)], "points unchanged")
        new = [tuple(r) for r in x.tolist()]
        if op == "store_eval":
            need(f.store, "the evaluations are stored")
        if op != "eval" and f.store:
            if c["kind"] != "string":
                again = [p for p in m.calls if p in before]
                need(not again, "stored points are not evaluated again",
                     again=again)
                need(set(new) - before <= set(m.calls),
                     "points that are not stored are evaluated",
                     calls=m.calls, points=new)
            used = used or any(p in before for p in new)
            known |= set(new)
            if isinstance(y, np.ndarray) and y.ndim:
                last = (x, y)
    if not used:
        return False


# -------------------------------------------------------------------- restrictions
@composite
def restrictions(draw):
    c = valid(draw(functions()))
    c["dim"] = draw(st.integers(2, 4))
    c["fixed"] = draw(st.permutations(range(c["dim"])).flatmap(
        lambda p: st.integers(1, len(p) - 1).map(lambda k: list(p[:k]))))
    c["n"] = draw(st.integers(1, 5))
    c["measure"] = draw(st.booleans())
    c["store"] = draw(st.booleans())
    return c


@P.relation("restriction", restrictions(), 800,
            rule="several variables or points")
def restriction(c):
    f, m = make(c)
    rng = np.random.RandomState(c["s"] + 1)
    d = c["dim"]
    mus = [tensap.UniformRandomVariable(-1 - i, i + 2) for i in range(d)]
    if c["measure"]:
        f.measure = tensap.RandomVector(mus)
    f.store = c["store"]
    x0 = points(rng, 1, len(c["fixed"]))
    g = f.partial_evaluation(np.array(c["fixed"]) if c["s"] % 2
                             else c["fixed"], x0)
    free = [i for i in range(d) if i not in c["fixed"]]
    need(g.dim == len(free), "dimension", got=g.dim)
    for _ in range(2):
        x = points(rng, c["n"], len(free))
        full = np.zeros((c["n"], d))
        full[:, free] = x
        full[:, c["fixed"]] = x0
        check_values(g.eval(x), full, m, "values of the restriction")
        check_values(g(x), full, m, "values of the restriction (call)")
        if c["store"]:
            k = len(m.calls)
            check_values(g(x), full, m, "stored values of the restriction")
            need(len(m.calls) == k,
                 "the restriction of a function that stores its evaluations "
                 "stores its own", before=k, after=len(m.calls))
    if c["measure"]:
        want = np.array([[-1 - i, i + 2] for i in free], dtype=float)
        close(np.reshape(g.measure.support(), want.shape), want,
              "measure of the restriction", tol=1e-12)
    lab("%d fixed" % len(c["fixed"]), c["kind"],
        "unsorted" if sorted(c["fixed"]) != c["fixed"] else "")
    if len(free) == 1 and c["n"] == 1:
        return False


# ------------------------------------------------------------------ random, errors
@composite
def errors(draw):
    c = valid(draw(functions(outputs=[1, 1, 2, [2, 3]])))
    c["n"] = draw(st.integers(2, 8))
    c["how"] = draw(st.sampled_from(["points", "values", "measure",
                                     "own measure", "other measure",
                                     "both measures"]))
    return c


@P.relation("errors", errors(), 800, rule="the error is not zero")
def error(c):
    f, m = make(c)
    g, p = make(dict(c, s=c["s"] + 17), None)
    d, n = c["dim"], c["n"]
    rng = np.random.RandomState(c["s"] + 1)
    mu = tensap.RandomVector(tensap.UniformRandomVariable(-1, 2), d)

    def draw():
        np.random.seed(c["s"])
        return np.reshape(mu.random(n), (n, d))

    x = draw()
    np.random.seed(c["s"])
    how = c["how"]
    if how == "points":
        got = f.test_error(g, x)
    elif how == "values":
        got = f.test_error(g.eval(x), x)
    elif how == "measure":
        got = f.test_error(g, n, mu)
    elif how == "own measure":
        f.measure = mu
        got = f.test_error(g, n)
    elif how == "both measures":
        # the measure of the function comes first
        f.measure = mu
        g.measure = tensap.RandomVector(tensap.UniformRandomVariable(5, 7), d)
        got = f.test_error(g, n)
    else:
        g.measure = mu
        got = f.test_error(g, n)
    a, b = m.want(x).reshape(n, -1), p.want(x).reshape(n, -1)
    want = [np.linalg.norm(a - b) / np.linalg.norm(b),
            np.max(np.linalg.norm(a - b, axis=1))
            / np.max(np.linalg.norm(b, axis=1))]
    lab(how)
    close(np.array(got), np.array(want), "L2 and maximal errors", tol=1e-9,
          scale=1 + max(want))
    # random evaluations
    np.random.seed(c["s"])
    if how == "own measure":
        y, z = f.random(n)
    else:
        y, z = f.random(n, mu)
    z = np.reshape(z, (n, d))
    need(np.all((z >= -1) & (z <= 2)), "points drawn from the measure")
    check_values(y, z, m, "random evaluations")
    if want[0] == 0:
        return False


# -------------------------------------------------------------------- compositions
@composite
def compositions(draw):
    c = draw(trees(min_order=1, max_order=6))
    c["n"] = draw(st.integers(1, 4))
    c["s"] = draw(st.integers(0, 9999))
    c["funs"] = draw(st.sampled_from(["one", "list", "array", "functions"]))
    return c


@P.relation("composition", compositions(), 800,
            rule="at least two internal nodes")
def composition(c):
    tree = build_tree(c)
    par, d2i = c["par"], [int(i) for i in c["d2i"]]
    d = len(d2i)
    rng = np.random.RandomState(c["s"])
    w = rng.randint(1, 4, (len(par), 8))
    x = points(rng, c["n"], d)

    def combine(n, a):
        k = n if c["funs"] != "one" else 1
        return sum((w[k - 1, i] + i) * v for i, v in enumerate(a)) \
            + w[k - 1, 7] * (a[0] * a[-1]) / 3

    def value(n):
        if n in d2i:
            return x[:, d2i.index(n)]
        return combine(n, [value(k) for k in m_children(par, n)])

    funs = [None if n in d2i else (lambda n: lambda *a: combine(n, a))(n)
            for n in range(1, len(par) + 1)]
    if c["funs"] == "functions":
        for n in range(1, len(par) + 1):
            if n not in d2i:
                f = tensap.UserDefinedFunction(
                    (lambda n: lambda y: combine(n, list(y.T)))(n),
                    len(m_children(par, n)))
                f.evaluation_at_multiple_points = bool(c["s"] % 2)
                funs[n - 1] = f
    if c["funs"] == "one":
        arg = lambda *a: combine(1, a)
    else:
        arg = np.array(funs, dtype=object) if c["funs"] == "array" else funs
    mu = tensap.RandomVector(tensap.UniformRandomVariable(), d)
    f = tensap.CompositionalModelFunction(tree, arg, mu)
    fr = Frozen(x)
    want = value(m_root(c))
    lab(c["funs"], "%d variables" % d)
    sc = 1 + np.max(np.abs(want))
    close(np.ravel(f.eval(x)), want, "composition", tol=1e-11, scale=sc,
          shape=True)
    close(np.ravel(f(x)), want, "composition (call)", tol=1e-11, scale=sc,
          shape=True)
    fr.check("composition")
    if d > 1 and c["n"] > 0:
        # restriction to the first variable
        g = f.partial_evaluation(list(range(1, d)), x[:1, 1:])
        y = x[:, :1]
        full = np.hstack([y, np.tile(x[:1, 1:], (c["n"], 1))])
        close(np.ravel(g.eval(y)), np.ravel(f.eval(full)),
              "restriction of a composition", tol=1e-11, scale=sc * 10)
    if len(par) - d < 2:
        return False


# ---------------------------------------------------------------------- benchmarks
NAMES = ["borehole", "ishigami", "sin_of_a_sum", "linear_additive",
         "linear_rank_one", "quadratic_rank_one", "canonical_rank_2",
         "mixture", "field", "oscillatory", "product_peak", "corner_peak",
         "gaussian", "continuous", "henon_heiles", "sobol", "anisotropic",
         "polynomial"]
MIN = {"ishigami": 3, "canonical_rank_2": 3, "mixture": 6, "field": 6,
       "anisotropic": 16, "henon_heiles": 2}


def reference(name, x, a):
    d = x.shape[1]
    x = x.T
    if name == "borehole":
        rw, r, Tu, Hu, Tl, Hl, L, Kw = x
        lg = 7.71 + 1.0056 * r - np.log(rw)
        return 2 * np.pi * Tu * (Hu - Hl) / (
            lg * (1 + 2 * L * Tu / (lg * rw ** 2 * Kw) + Tu / Tl))
    if name == "ishigami":
        p, q = (list(a[1:]) + [7, .1][len(a[1:]):])[:2]
        return np.sin(x[0]) * (1 + q * x[2] ** 4) + p * np.sin(x[1]) ** 2
    if name == "sin_of_a_sum":
        return np.sin(np.dot(a[1] if len(a) > 1 else np.ones(d), x))
    if name == "linear_additive":
        return np.dot(a[1] if len(a) > 1 else np.ones(d), x)
    if name == "linear_rank_one":
        w = a[1] if len(a) > 1 else np.zeros(d)
        return np.prod([w[i] + 2 * x[i] for i in range(d)], 0)
    if name == "quadratic_rank_one":
        k = a[1]
        return np.prod([k[0, i] + k[1, i] * x[i] + k[2, i] * x[i] ** 2
                        for i in range(d)], 0)
    if name == "canonical_rank_2":
        return x[0] * x[1] * x[2] + x[0] ** 2 + x[1]
    if name == "mixture":
        return (np.sin(x[0] + x[3]) * np.exp(x[4])
                + np.sin(x[2] * x[3])) * x[5]
    if name == "field":
        g = [np.cos(x[0]), np.sin(x[0]), np.exp(x[0]), 1 / (1 + x[0]),
             1 / (3 + 2 * x[0])]
        return 1 + sum(u * x[i + 1] for i, u in enumerate(g))
    if name == "henon_heiles":
        h = np.sum(x ** 2, 0) / 2
        for i in range(d - 1):
            h = h + .2 * (x[i] * x[i + 1] ** 2 - x[i] ** 3) \
                + .0025 * (x[i] ** 2 + x[i + 1] ** 2) ** 2
        return h
    if name == "sobol":
        k = a[1] if len(a) > 1 else [1, 2, 5, 10, 20, 50, 100, 500] \
            if len(a) == 0 else [2 ** i for i in range(d)]
        return np.prod([(np.abs(4 * x[i] - 2) + k[i]) / (1 + k[i])
                        for i in range(d)], 0)
    if name == "anisotropic":
        return x[2] * np.sin(x[3] + x[15])
    if name == "polynomial":
        q = a[1] if len(a) > 1 else 2
        return np.prod([(1 + 3 * x[i] ** q) / 2 for i in range(d)], 0)


@composite
def benchmarks(draw):
    name = draw(st.sampled_from(NAMES))
    return {"name": name, "d": draw(st.integers(MIN.get(name, 1), 16 if
                                    name == "anisotropic" else 8)),
            "args": draw(st.integers(0, 3)), "n": draw(st.integers(1, 5)),
            "s": draw(st.integers(0, 9999))}


@P.relation("benchmark", benchmarks(), 1200, rule="several points")
def benchmark(c):
    name, n, d = c["name"], c["n"], c["d"]
    rng = np.random.RandomState(c["s"])
    a = []
    k = c["args"] if name != "quadratic_rank_one" else 2
    if k and name != "borehole":
        a = [d]
        if k > 1 and name in ("sin_of_a_sum", "linear_additive",
                              "linear_rank_one"):
            a.append(rng.randint(-3, 4, d) / 2)
        elif k > 1 and name == "quadratic_rank_one":
            a.append(rng.randint(-3, 4, (3, d)) / 2)
        elif k > 1 and name == "sobol":
            a.append(rng.randint(1, 9, d))
        elif k > 1 and name == "polynomial":
            a.append(int(rng.randint(1, 4)))
        elif k > 1 and name == "ishigami":
            a += [5., .3][:k - 1]
    np.random.seed(c["s"])
    f, X = tensap.multivariate_functions_benchmark(name, *a)
    lab(name, "%d arguments" % len(a))
    D = {"borehole": 8, "mixture": 6, "field": 6, "oscillatory": 10,
         "product_peak": 10, "corner_peak": 10, "gaussian": 10,
         "continuous": 10, "sobol": 8, "anisotropic": 16,
         "polynomial": 16}.get(name, 3)
    d = d if a else D
    need(len(X.random_variables) == d, "dimension", got=len(
        X.random_variables), want=d)
    x = np.reshape(X.random(n), (n, d))
    fr = Frozen(x)
    y = np.asarray(f(x))
    fr.check("evaluation")
    need(y.size == n and len(y) == n, "one value per point", got=y.shape, n=n)
    close(np.ravel(f(x[::-1])), y.ravel()[::-1], "evaluation point by point",
          tol=1e-12, scale=1 + np.max(np.abs(y)))
    close(np.ravel(f(x[:1])), y.ravel()[:1], "evaluation of one point",
          tol=1e-12, scale=1 + np.max(np.abs(y)))
    y = y.ravel()
    r = reference(name, x, a)
    if r is not None:
        close(y, r, "values of " + name, tol=1e-10,
              scale=1 + np.max(np.abs(r)))
    else:
        genz(name, f, x, rng)
    if n < 2:
        return False


def genz(name, f, x, rng):
    """Genz functions with random parameters w and c in (0, 1)."""
    n, d = x.shape
    F = lambda z: np.ravel(f(z))
    i = rng.randint(d)
    e = np.eye(d)[i]
    z = np.reshape(np.random.rand(n, d), (n, d))
    if name == "oscillatory":
        # f(x + h e) + f(x - h e) = 2 cos(c_i h) f(x)
        need(np.all(np.abs(F(x)) <= 1), "bounded by one")
        v = np.vstack([x, z, rng.rand(3, d)])
        A = np.stack([F(v + e) + F(v - e), F(v)], 1)
        q = np.linalg.svd(A, compute_uv=False)
        need(q[1] <= 1e-9 * q[0], "plane wave", values=q)
        s = np.dot(A[:, 0], A[:, 1]) / np.dot(A[:, 1], A[:, 1])
        need(2 * np.cos(1) - 1e-9 <= s <= 2 + 1e-9, "wave number", got=s)
    elif name == "corner_peak":
        g = F(np.vstack([x, z, np.zeros((1, d)), np.ones((1, d))])) \
            ** (-1 / (d + 1))
        m = F((x + z) / 2) ** (-1 / (d + 1))
        close(m, (g[:n] + g[n:2 * n]) / 2, "affine", tol=1e-9,
              scale=np.max(g))
        close(g[-2:], np.array([1, 1 + 185 / d ** 2]), "values at the corners",
              tol=1e-9, scale=np.max(g))
    else:
        y = F(x)
        need(np.all(y > 0), "positive")
        t = np.log(y)
        # product of univariate functions
        a, b = x.copy(), z.copy()
        a[:, i], b[:, i] = z[:, i], x[:, i]
        close(np.log(F(a)) + np.log(F(b)), t + np.log(F(z)),
              "product of univariate functions", tol=1e-9,
              scale=1 + np.max(np.abs(t)) + np.max(np.abs(np.log(F(z)))))
        h = np.stack([1 / F(x + k * e) if name == "product_peak" else
                      -np.log(F(x + k * e)) for k in range(4)])
        sc = np.max(np.abs(h)) + 1
        if name == "continuous":
            # after the kink, in (0, 1)
            h = np.stack([-np.log(F(np.where(e > 0, k, x)))
                          for k in range(1, 4)])
            close(h[2] - 2 * h[1] + h[0], 0 * h[0], "linear after the kink",
                  tol=1e-9, scale=np.max(np.abs(h)) + 1)
            h = np.stack([-np.log(F(np.where(e > 0, -k, x)))
                          for k in range(3)])
            close(h[2] - 2 * h[1] + h[0], 0 * h[0], "linear before the kink",
                  tol=1e-9, scale=np.max(np.abs(h)) + 1)
            need(np.all(y <= 1), "bounded by one")
        else:
            close(h[3] - 3 * h[2] + 3 * h[1] - h[0], 0 * h[0],
                  "quadratic in each variable", tol=1e-8, scale=sc)
            q = h[2] - 2 * h[1] + h[0]
            need(np.all(q > 0), "convex", got=q)
            # minimum in (0, 1)
            u = .5 - (h[1] - h[0]) / q + x[:, i]
            # product_peak: the scale can hide the minimum
            sl = sc / np.min(q) * 1e-10
            if name == "gaussian":
                need(np.all((u > -1e-6 - sl) & (u < 1 + 1e-6 + sl)),
                     "peak in the unit cube", got=u)
                need(np.all(y <= 1), "bounded by one")
            else:
                need(np.all((u > -1 - 1e-6 - sl) & (u < 1e-6 + sl)),
                     "peak", got=u)
                # at the peak x_i = -w_i the factor is 1 / c_i^2 > 1
                v = x.copy()
                v[:, i] = u
                p = np.ravel(1 / F(v)) / (q / 2)
                need(np.all(p > 1 - 1e-3), "width of the peak", got=p)

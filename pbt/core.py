"""Shared machinery: relations, generators of numeric data, comparisons."""
import collections
import contextlib
import hashlib
import json
import math
import os

from . import boot

boot.install()

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

composite = st.composite


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The machinery itself is wrong (never reported as a violation)."""


class Discard(Exception):
    """The generated case lies outside the property's domain."""


class Relation:
    def __init__(self, name, gen, check, examples, thorough, rule):
        self.name, self.gen, self.check = name, gen, check
        self.examples, self.thorough, self.rule = examples, thorough, rule


class Prop:
    def __init__(self, pid, title, assumptions=(), effort=1):
        """effort multiplies the number of cases of the quick check."""
        self.pid, self.title, self.effort = pid, title, effort
        self.relations = collections.OrderedDict()
        self.assumptions = list(assumptions)

    def relation(self, name, gen, examples, thorough=None, rule=""):
        def deco(fun):
            assert name not in self.relations, name
            self.relations[name] = Relation(
                name, gen, fun, int(self.effort * examples),
                thorough if thorough is not None
                else 20 * int(self.effort * examples), rule)
            return fun
        return deco


# ---------------------------------------------------------------- per-case log
_labels = collections.Counter()
_case_labels = None


def lab(*names):
    """Classify the current case (counted once per case and label)."""
    if _case_labels is not None:
        _case_labels.update(str(n) for n in names)


def key_of(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(text):
    return hashlib.sha256(text.encode()).digest()[:10]


# ------------------------------------------------------------------ comparisons
def fail(msg, **kw):
    raise Violation(msg + "".join("\n  %s = %s" % (k, _short(v))
                                  for k, v in kw.items()))


def _short(v):
    s = repr(v) if not isinstance(v, np.ndarray) else np.array2string(
        v, precision=17, threshold=60)
    return s if len(s) < 900 else s[:900] + "..."


def need(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def arr(x):
    """The numerical content of a value returned by the code under test."""
    if hasattr(x, "data") and not isinstance(x, (np.ndarray, memoryview)):
        x = x.data
    return np.asarray(x)


def close(got, want, what, tol=1e-9, scale=None, shape=True, **kw):
    """|got - want| <= tol * max(1, |want|_max, scale), entry by entry."""
    try:
        got = np.asarray(got, dtype=float)
    except Exception as exc:  # a wrong type was returned
        fail(what + ": not a numeric array (%s)" % exc, got=got, want=want, **kw)
    want = np.asarray(want, dtype=float)
    if shape and got.shape != want.shape:
        fail(what + ": wrong shape", got_shape=got.shape,
             want_shape=want.shape, got=got, want=want, **kw)
    if not shape:
        if got.size != want.size:
            fail(what + ": wrong number of entries", got=got, want=want, **kw)
        got, want = got.reshape(-1), want.reshape(-1)
    if want.size == 0:
        return
    if not np.all(np.isfinite(got)):
        if not np.all(np.isfinite(want)):
            m = ~np.isfinite(want)
            same = np.array_equal(got[m], want[m], equal_nan=True) \
                and np.all(np.isfinite(got[~m]))
            if same:
                return
        fail(what + ": non-finite values", got=got, want=want, **kw)
    bound = tol * max(1.0, float(np.max(np.abs(want))),
                      float(scale) if scale is not None else 0.0)
    err = np.max(np.abs(got - want))
    if not err <= bound:
        fail(what + ": values differ", err=float(err), bound=bound, got=got,
             want=want, **kw)


def same(got, want, what, **kw):
    """Exact equality of two integer / boolean arrays (shape included)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape or not np.array_equal(got, want):
        fail(what + ": differ", got=got, want=want, **kw)


def raises(fun, what, kinds=(Exception,)):
    try:
        out = fun()
    except kinds:
        return
    fail(what + ": an error was expected", got=out)


# --------------------------------------------------------------- numeric inputs
KINDS = ["int", "gauss", "sparse", "lowish", "scaled"]


@composite
def array_spec(draw, shape, kinds=tuple(KINDS)):
    return {"shape": [int(x) for x in shape],
            "k": draw(st.sampled_from(list(kinds))),
            "s": draw(st.integers(0, 2 ** 16))}


def build(spec):
    """A reproducible array from its JSON description."""
    shape = tuple(spec["shape"])
    rng = np.random.RandomState(spec["s"])
    k = spec["k"]
    if k == "int":
        return rng.randint(-3, 4, size=shape).astype(float)
    if k == "gauss":
        return rng.randn(*shape)
    if k == "sparse":
        return rng.randn(*shape) * (rng.rand(*shape) < 0.35)
    if k == "scaled":
        return rng.randn(*shape) * 10.0 ** rng.randint(-3, 4)
    if k == "unif":
        return rng.rand(*shape)
    if k == "pos":
        return 0.1 + rng.rand(*shape)
    if k == "lowish":   # approximately rank one plus a small perturbation
        out = np.ones(shape)
        for i, n in enumerate(shape):
            v = rng.randn(n)
            out = out * v.reshape([n if j == i else 1
                                   for j in range(len(shape))])
        return out + 1e-3 * rng.randn(*shape)
    raise HarnessError("unknown kind " + str(k))


def size_of(spec):
    return int(np.prod(spec["shape"], dtype=np.int64))


def rng_of(case):
    h = int.from_bytes(digest(key_of(case))[:4], "little")
    return np.random.RandomState(h)


@composite
def subset(draw, n, min_size=0, max_size=None):
    """An ordered list of distinct elements of range(n)."""
    perm = draw(st.permutations(range(n))) if n else []
    k = draw(st.integers(min_size, n if max_size is None else min(n, max_size)))
    return list(perm[:k])


class Frozen:
    """Remembers the bytes of some arrays, and tells whether they changed."""

    def __init__(self, *arrays):
        self.items = [(a, np.array(a, copy=True)) for a in arrays]

    def check(self, what):
        for a, b in self.items:
            if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
                fail(what + ": an input array was modified", before=b, after=a)

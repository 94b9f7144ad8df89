"""Generators shared by the tensor properties."""
import numpy as np
from pbt.core import *          # noqa: F401,F403
from pbt.core import composite, st, array_spec, build, subset


@composite
def shapes(draw, min_order=1, max_order=5, max_dim=4, max_size=400):
    """Shapes of arrays; from time to time with larger sizes, or more
    dimensions if the order is not prescribed."""
    d = draw(st.integers(min_order, max_order))
    regime = draw(st.integers(0, 15))
    if regime == 15:
        max_dim, max_size = 4 * max_dim, 2 * max_size
    elif regime == 14 and min_order < max_order and max_order >= 4:
        d, max_dim, max_size = d + 2, min(3, max_dim), 2 * max_size
    out, size = [], 1
    for _ in range(d):
        m = max(1, min(max_dim, max_size // size))
        n = draw(st.integers(1, m))
        out.append(n)
        size *= n
    return out


def np_matprod(x, mats, dims):
    """Contract the second index of mats[k] with index dims[k] of x."""
    for m, d in zip(mats, dims):
        x = np.moveaxis(np.tensordot(m, x, axes=(1, d)), 0, d)
    return x


def np_diag(x, dims):
    """Diagonal over dims, the diagonal index placed where the smallest of
    dims is."""
    dims = sorted(dims)
    n = x.shape[dims[0]]
    letters = list(range(x.ndim))
    for d in dims[1:]:
        letters[d] = dims[0]
    out = [i for i in range(x.ndim) if i not in dims[1:]]
    assert all(x.shape[d] == n for d in dims)
    return np.einsum(x, letters, out)


def np_partial(x, idx, dims):
    """x evaluated at the rows of idx in dims; evaluation index placed where
    the smallest of dims is."""
    dims = list(dims)
    rest = [i for i in range(x.ndim) if i not in dims]
    y = np.transpose(x, dims + rest)[tuple(np.asarray(idx).T)]
    pos = sum(1 for r in rest if r < min(dims))
    return np.moveaxis(y, 0, pos)


def prod(x):
    return int(np.prod(x, dtype=np.int64)) if len(x) else 1

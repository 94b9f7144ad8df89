"""Tensor-product bases with an independent description (T18-T23)."""
import numpy as np
import tensap
from props.common import *
from props import bases as B
from props import laws as L

PROB = ("uniform", "normal")


@composite
def multis(draw, kinds=("poly", "canonical", "sub"), laws=PROB, max_dim=4,
           max_card=4, forms=("full", "sparse"), min_dim=1, max_size=150):
    d = draw(st.integers(min_dim, max_dim))
    b = [draw(B.bases(kinds=kinds, laws=laws, max_card=max_card if d < 4
                      else 3)) for _ in range(d)]
    while prod([B.cardinal(x) for x in b]) > max_size:
        i = int(np.argmax([B.cardinal(x) for x in b]))
        b[i] = {"basis": "poly", "ind": [0, 1],
                "law": {"law": "uniform", "a": -1, "b": 1}}
    c = {"bases": b, "form": draw(st.sampled_from(list(forms))),
         "seed": draw(st.integers(0, 10 ** 6))}
    if c["form"] == "sparse":
        n = [B.cardinal(x) for x in b]
        c["n"] = draw(st.integers(1, min(prod(n), 12)))
    return c


def full_indices(n):
    return np.stack(np.unravel_index(np.arange(prod(n)), n, order="F"), 1)


def indices(c):
    """Multi-indices, one row for each function."""
    I = full_indices([B.cardinal(x) for x in c["bases"]])
    if c["form"] == "sparse":
        rng = np.random.RandomState(c["seed"] + 1)
        I = I[rng.permutation(len(I))[:c["n"]]]
    return I


def make(c):
    H = tensap.FunctionalBases([B.make(b) for b in c["bases"]])
    if c["form"] == "bases":
        return H
    if c["form"] == "full":
        return tensap.FullTensorProductFunctionalBasis(H)
    return tensap.SparseTensorProductFunctionalBasis(
        H, tensap.MultiIndices(indices(c)))


def generic(c, rng, n):
    return np.stack([B.generic(b, rng, n) for b in c["bases"]], 1)


def evals(c, x, der=None):
    der = [0] * len(c["bases"]) if der is None else der
    return [B.values(b, y, k) for b, y, k in
            zip(c["bases"], np.transpose(x), der)]


def assemble(H, I):
    """Row-wise products of the columns of the matrices H selected by I."""
    out = 1
    for h, i in zip(H, np.transpose(I)):
        out = out * h[..., i]
    return out


def values(c, x, der=None):
    return assemble(evals(c, x, der), indices(c))


def means(c):
    """Expectation of the univariate functions, with their second moments."""
    m, G = [], []
    for b in c["bases"]:
        x, w = B.rule(b)
        w = w / w.sum()
        V = B.values(b, x)
        m.append(w @ V)
        G.append(V.T @ (w[:, None] * V))
    return m, G


def gram(c):
    I, G = indices(c), means(c)[1]
    out = 1
    for g, i in zip(G, I.T):
        out = out * g[np.ix_(i, i)]
    return out


def orthonormal(c):
    """All univariate bases are orthonormal by construction."""
    return all(b["basis"] in ("poly", "piecewise") or
               b["basis"] == "sub" and b["orth"] and
               b["under"]["basis"] in ("poly", "piecewise")
               for b in c["bases"])


def assemble_gram(G, I):
    out = 1
    for g, i in zip(G, np.transpose(I)):
        out = out * g[np.ix_(i, i)]
    return out

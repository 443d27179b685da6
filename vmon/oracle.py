"""Reference distances and comparison rules, independent of the package."""

import numpy as np


def distances(metric, q, m):
    """Reference distances from q to each row of m, in float64."""
    q = np.asarray(q, dtype=np.float64)
    m = np.asarray(m, dtype=np.float64)
    if metric == "cosine":
        nq = np.sqrt((q * q).sum())
        nm = np.sqrt((m * m).sum(axis=1))
        out = np.ones(len(m))
        ok = (nm > 0) & (nq > 0)
        out[ok] = 1.0 - (m[ok] @ q) / (nm[ok] * nq)
        return out
    if metric == "euclidean":
        return np.sqrt(((m - q) ** 2).sum(axis=1))
    if metric == "manhattan":
        return np.abs(m - q).sum(axis=1)
    raise ValueError(metric)


def tolerance(metric, q, m, eps=2.0 ** -52):
    """Rounding error any sound floating-point evaluation of the distance may show.

    Expanding |q-m|^2 into dot products is allowed: it costs eps*(|q|^2+|m|^2) on the square.
    """
    q = np.asarray(q, dtype=np.float64)
    m = np.asarray(m, dtype=np.float64)
    if metric == "cosine":
        out = np.full(len(m), 64 * eps * (len(q) + 4) + 1e-9)
        # a vector shorter than ten rounding units may count as zero (scikit-learn's rule)
        nq, nm = np.sqrt((q * q).sum()), np.sqrt((m * m).sum(axis=1))
        out[((nm > 0) & (nm < 11 * eps)) | (0 < nq < 11 * eps)] = 2.0
        return out
    scale = (q * q).sum() + (m * m).sum(axis=1)
    true = distances("euclidean", q, m)
    err2 = 64 * eps * (len(q) + 4) * scale
    return np.sqrt(true * true + err2) - true + 1e-9 * (1 + true)


def eps_of(*arrays):
    """Unit roundoff of the coarsest precision a search over these may compute in."""
    coarse = any(np.asarray(a).dtype in (np.float32, np.float16) for a in arrays)
    return 2.0 ** -23 if coarse else 2.0 ** -52

"""Workload generators: vectors, metadata, ids, queries."""

import copy

import numpy as np

DTYPES = ["float64", "float32", "float64", "float32", "float16", "int64", "int32", "uint8", "int8"]


def dim(ctx, low=1, high=24):
    r = ctx.rng.random()
    if r < 0.12:
        return low
    if r < 0.25:
        return min(2, high)
    if r > 0.985:  # as wide as embeddings are, past what a byte counts
        return ctx.rng.choice([64, 129, 257, 300, 640])
    return ctx.rng.randint(low, high)


def vectors(ctx, n, d, style=None, dtype=None):
    """n vectors of dimension d in one of several adversarial styles."""
    rng = ctx.np
    style = style or ctx.rng.choice(
        ["normal", "normal", "uniform", "grid", "ties", "clusters", "tiny", "huge", "sparse", "offset", "ints"]
    )
    if style == "normal":
        v = rng.normal(size=(n, d))
    elif style == "uniform":
        v = rng.uniform(-1, 1, size=(n, d))
    elif style == "grid":
        v = rng.integers(-2, 3, size=(n, d)).astype(float)
    elif style == "ties":
        base = rng.normal(size=(max(1, n // 3), d))
        v = base[rng.integers(0, len(base), size=n)]
    elif style == "clusters":
        centers = rng.normal(size=(4, d)) * 5
        v = centers[rng.integers(0, 4, size=n)] + rng.normal(size=(n, d)) * 0.05
    elif style == "tiny":
        v = rng.normal(size=(n, d)) * 1e-4
    elif style == "huge":
        v = rng.normal(size=(n, d)) * 1e4
    elif style == "sparse":
        v = rng.normal(size=(n, d)) * (rng.random(size=(n, d)) < 0.3)
    elif style == "offset":
        v = rng.normal(size=(n, d)) + 50.0
    elif style == "ints":
        v = rng.integers(-100, 101, size=(n, d)).astype(float)
    else:
        raise ValueError(style)
    if n and ctx.rng.random() < 0.12:
        v[ctx.rng.randrange(n)] = 0.0
    if dtype is None:
        dtype = ctx.rng.choice(["float64", "float64", "float32", "float32", "int64", "uint8"])
    return cast(v, dtype)


def cast(v, dtype):
    if dtype.startswith("uint"):
        v = np.abs(np.round(v * (1 if np.abs(v).max(initial=0) > 3 else 40)))
        return np.clip(v, 0, 255).astype(dtype)
    if dtype.startswith("int"):
        v = np.round(v * (1 if np.abs(v).max(initial=0) > 3 else 40))
        if dtype == "int8":
            v = np.clip(v, -128, 127)
        return v.astype(dtype)
    return v.astype(dtype)


WORDS = ["alpha", "β-ray", "naïve", "日本", "x" * 40, "", " spaced ", "a/b", "line\nbreak", "😀"]


def metadata(ctx, unique=None, allow_none=True, depth=2):
    """A metadata dictionary; `unique` makes it identifiable."""
    if allow_none and unique is None and ctx.rng.random() < 0.15:
        return None
    m = {}
    if unique is not None:
        m["uid"] = unique
    for _ in range(ctx.rng.randint(0, 3)):
        m[ctx.rng.choice(["k", "title", "ключ", "n", "tags", "nested"])] = _value(ctx, depth)
    return m


def _value(ctx, depth):
    r = ctx.rng.random()
    if r < 0.2:
        return ctx.rng.choice(WORDS)
    if r < 0.35:
        return ctx.rng.randint(-(10 ** 12), 10 ** 12)
    if r < 0.5:
        return ctx.rng.uniform(-1e6, 1e6)
    if r < 0.58:
        return ctx.rng.choice([True, False, None])
    if depth > 0 and r < 0.8:
        return [_value(ctx, depth - 1) for _ in range(ctx.rng.randint(0, 3))]
    if depth > 0:
        return {ctx.rng.choice(["a", "b", "c d"]): _value(ctx, depth - 1) for _ in range(ctx.rng.randint(0, 3))}
    return ctx.rng.randint(0, 9)


ODD_IDS = [
    "a", "A", "b", "a/b", "a/../b", "../up", "..", ".", "a_b", "a b", "a.npy", "a.pkl", "a%2Fb", "%", "%41",
    "ключ", "日本語", "ß", "ss", "a\\b", "a:b", "*", "?", "~", "-rf", "0", "00", "1e3", "None", "a\nb", "tab\t",
    "x" * 60, "CON", "é", "e\u0301", "vectors", "metadata", "\u200b", "'", '"', "[a]", "#", "@", "a..b", " a", "a ",
]


def ids(ctx, n):
    pool = list(ODD_IDS)
    # as long as a file name may be, and alike but for their ends
    long = "x" * ctx.rng.choice([100, 200, 230, 240, 246])
    twins = [long + "a", long + "b", "a" + long]
    pool += twins
    ctx.rng.shuffle(pool)
    if ctx.rng.random() < 0.3:
        pool = twins + pool
    out = list(dict.fromkeys(pool))[: n // 2]
    while len(out) < n:
        c = ctx.rng.choice("abcxyz/._-% é") + str(ctx.rng.randint(0, 10 ** 6))
        if c not in out:
            out.append(c)
    return out


def scribble(ctx, value):
    """Alter a caller-owned object in place, deeply."""
    if isinstance(value, np.ndarray):
        if value.size and value.flags.writeable:
            value += np.asarray(7).astype(value.dtype)
    elif isinstance(value, dict):
        for k in list(value):
            scribble(ctx, value[k])
            if not isinstance(value[k], (dict, list, np.ndarray)):
                value[k] = "SCRIBBLED"
        value["scribble"] = "SCRIBBLED"
    elif isinstance(value, list):
        for x in value:
            scribble(ctx, x)
        value.append("SCRIBBLED")


def same(a, b):
    """Deep equality of metadata, NaN-free, also for arrays."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def same_vector(a, b):
    """The same type, shape and values to the bit: NaN is NaN, and the zeros differ."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == "c":
        return same_vector(a.real, b.real) and same_vector(a.imag, b.imag)
    if a.dtype.kind == "f":
        return np.array_equal(a, b, equal_nan=True) and np.array_equal(np.signbit(a), np.signbit(b))
    return np.array_equal(a, b)


def same_meta(a, b):
    """Metadata equality; an absent one may be reported as an empty one."""
    return same(a or {}, b or {})


snapshot = copy.deepcopy

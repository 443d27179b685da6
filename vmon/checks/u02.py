"""U02: the similarity functions compute what their names say, for every numeric type."""

import numpy as np

from vmon import gen

LEVEL = "exploration"
QUICK = 14
RULE = (
    "pairs and sets of vectors of ten styles and nine dtypes, zero, equal, opposite and parallel ones, through every "
    "similarity, distance and normalization function; results compared with a float64 oracle written from the "
    "definitions, and with each other (symmetry, range, pairwise against batch); mismatched shapes must be refused; "
    "distinct by event hash"
)
REQUIRED = {"pairs": 2500, "batches": 300, "normalized": 2500, "refused": 800, "crowded": 30}


def mathematics(a, b):
    """Every function by its definition, in exact enough arithmetic."""
    x, y = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    diff = x - y
    na, nb = float(np.sqrt((x * x).sum())), float(np.sqrt((y * y).sum()))
    cos = float((x * y).sum()) / (na * nb) if na and nb else 0.0
    p, q = set(np.flatnonzero(x > 0)), set(np.flatnonzero(y > 0))
    jac = len(p & q) / len(p | q) if p | q else 1.0
    return {
        "cosine_similarity": cos, "cosine_distance": 1 - cos,
        "euclidean_distance": float(np.sqrt((diff * diff).sum())),
        "euclidean_distance_squared": float((diff * diff).sum()),
        "dot_product": float((x * y).sum()),
        "manhattan_distance": float(np.abs(diff).sum()),
        "chebyshev_distance": float(np.abs(diff).max()),
        "hamming_distance": float(len(p ^ q)),
        "jaccard_similarity": jac, "jaccard_distance": 1 - jac,
    }


def tolerance(name, a, b, want):
    if name.startswith(("hamming", "jaccard")):
        return 1e-12
    x, y = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    # computing in the inputs' own floating type is allowed
    floats = [np.finfo(v.dtype).eps for v in (a, b) if v.dtype.kind == "f"]
    eps = max(floats, default=2.0 ** -52) if min([v.dtype.itemsize for v in (a, b) if v.dtype.kind == "f"],
                                                 default=8) >= 4 else 2.0 ** -23
    size = np.abs(x).max(initial=0) + np.abs(y).max(initial=0)
    n = len(x) + 4
    if name.startswith("cosine"):
        return 16 * eps * n
    # one after the other, n terms add up to an error of n roundings of their sum
    both = np.abs(x) + np.abs(y)
    if name in ("dot_product", "euclidean_distance_squared"):
        return eps * n * max(16 * size * size, 2 * float((both * both).sum())) + 1e-300
    total = float(both.sum()) if name == "manhattan_distance" else float(np.sqrt((both * both).sum()))
    return eps * n * max(16 * size, 2 * total) + 1e-300


def pair(ctx):
    d = gen.dim(ctx, 1, 40)
    if ctx.rng.random() < 0.004:
        d = ctx.rng.choice([33000, 70000])  # past what two bytes count
    dtype = ctx.rng.choice(gen.DTYPES)
    style = ctx.rng.choice(["normal", "uniform", "grid", "sparse", "offset", "ints", "tiny"])
    v = gen.vectors(ctx, 2, d, style, dtype)
    a, b = v[0], v[1]
    r = ctx.rng.random()
    if r < 0.1:
        b = a.copy()
    elif r < 0.2:
        b = np.zeros_like(a)
    elif r < 0.3 and dtype != "uint8":
        b = -np.where(a == np.iinfo(a.dtype).min, 0, a) if a.dtype.kind == "i" else -a
    elif r < 0.4 and a.dtype.kind == "f":
        b = (a * 3).astype(dtype)
    elif r < 0.5:
        b = gen.vectors(ctx, 1, d, style, ctx.rng.choice(gen.DTYPES))[0]
    elif r < 0.55:
        a = np.zeros_like(a)
    for v in (a, b):
        if v.dtype.kind == "f" and v.dtype.itemsize >= 4 and ctx.rng.random() < 0.2:
            v *= v.dtype.type(10.0 ** ctx.rng.choice([-9, -7, 6]))
    return a, b


def pairs(ctx):
    from valori.utils import similarity as sim

    for _ in range(12):
        a, b = pair(ctx)
        before = a.copy(), b.copy()
        want = mathematics(a, b)
        ctx.count("pairs")
        ctx.event("pair", str(a.dtype), str(b.dtype), a.tolist()[:6], b.tolist()[:6])
        for name, value in want.items():
            f = getattr(sim, name)
            got, back = float(f(a, b)), float(f(b, a))
            tol = tolerance(name, a, b, value)
            ctx.check(abs(got - value) <= tol, f"{name} is wrong", got=got, want=value, tolerance=tol, a=a, b=b)
            ctx.check(abs(got - back) <= 2 * tol, f"{name} is not symmetric", got=got, back=back, a=a, b=b)
            low, high = {"cosine_similarity": (-1, 1), "cosine_distance": (0, 2), "jaccard_similarity": (0, 1),
                         "jaccard_distance": (0, 1), "dot_product": (-np.inf, np.inf),
                         "hamming_distance": (0, len(a))}.get(name, (0, np.inf))
            ctx.check(low <= got <= high, f"{name} is out of its range", got=got, a=a, b=b)
        ctx.check(np.array_equal(a, before[0]) and np.array_equal(b, before[1]), "an argument was altered")
        ctx.state(str(a.dtype), str(b.dtype), len(a))
        for norm in ("l2", "l1", "max"):
            x = np.asarray(a, dtype=np.float64)
            size = {"l2": np.sqrt((x * x).sum()), "l1": np.abs(x).sum(), "max": np.abs(x).max()}[norm]
            got = sim.normalize_vector(a, norm)
            ctx.count("normalized")
            tol = tolerance("cosine", a, a, 1)
            goal = x / size if size else x
            ctx.check(got.shape == a.shape and np.all(np.abs(got - goal) <= tol), f"normalize_vector {norm} is wrong",
                      got=got, want=goal)
            ctx.check(not np.shares_memory(got, a) and np.array_equal(a, before[0]),
                      f"normalize_vector {norm}: the result is the argument, or altered it", a=a)


def batch(ctx):
    from valori.utils import similarity as sim

    d = gen.dim(ctx, 1, 20)
    dtype = ctx.rng.choice(gen.DTYPES)
    a = gen.vectors(ctx, ctx.rng.choice([1, 2, 9]), d, ctx.rng.choice(["normal", "sparse", "ints"]), dtype)
    b = gen.vectors(ctx, ctx.rng.choice([1, 3, 8]), d, ctx.rng.choice(["normal", "sparse", "ints"]),
                    ctx.rng.choice([dtype, "float64"]))
    for v in (a, b):
        if v.dtype.kind == "f" and v.dtype.itemsize >= 4:  # the direction does not depend on the size
            v *= v.dtype.type(10.0 ** ctx.rng.choice([-9, -8, -7, -4, 0, 0, 0, 0, 4, 9]))
    if ctx.rng.random() < 0.3:
        b[0] = 0
    got = sim.batch_cosine_similarity(a, b)
    ctx.count("batches")
    ctx.event("batch", a.shape, b.shape, str(a.dtype), a.ravel()[:4].tolist())
    ctx.check(got.shape == (len(a), len(b)), "batch_cosine_similarity: wrong shape", got=got.shape)
    for i in range(len(a)):
        for j in range(len(b)):
            want = mathematics(a[i], b[j])["cosine_similarity"]
            ctx.check(abs(got[i, j] - want) <= tolerance("cosine", a[i], b[j], want) and -1 <= got[i, j] <= 1,
                      "batch_cosine_similarity differs from the pair", got=got[i, j], want=want, a=a[i], b=b[j])


def crowded(ctx):
    """Hundreds against hundreds, of any size."""
    from valori.utils import similarity as sim

    d = gen.dim(ctx, 1, 6)
    dtype = ctx.rng.choice(["float64", "float64", "float32", "int64", "int8"])
    a, b = (gen.vectors(ctx, ctx.rng.choice([1, 40, 330, 1030]), d, ctx.rng.choice(["normal", "sparse", "ints", "clusters"]),
                        dtype) for _ in range(2))
    for v in (a, b):
        if v.dtype.kind == "f":
            v *= v.dtype.type(10.0 ** ctx.rng.choice([-9, -4, 0, 4, 9] + [-60, 60] * (dtype == "float64")))
    got = sim.batch_cosine_similarity(a, b)
    x, y = a.astype(np.float64), b.astype(np.float64)
    norms = np.sqrt((x * x).sum(axis=1))[:, None] * np.sqrt((y * y).sum(axis=1))
    want = np.divide(x @ y.T, norms, out=np.zeros_like(norms), where=norms > 0)
    ctx.count("crowded")
    ctx.event("crowded", a.shape, b.shape, dtype, a.ravel()[:4].tolist())
    ctx.check(got.shape == want.shape and bool(np.all(np.abs(got - want) <= tolerance("cosine", a[0], b[0], 1))),
              "batch_cosine_similarity of many is wrong", a=a.shape, b=b.shape, worst=np.abs(got - want).max())


def refused(ctx):
    from valori.utils import similarity as sim

    d = ctx.rng.randint(1, 9)
    a = gen.vectors(ctx, 1, d, "normal", "float64")[0]
    longer = np.append(a, 1.0)
    for name in mathematics(a, a):
        f = getattr(sim, name)
        for x, y in [(a, longer), (longer, a), (a[None], a), (a, a[None]), (np.array(1.0), a), (a[None], a[None])]:
            ctx.raises(ValueError, lambda: f(x, y), f"{name} takes vectors that do not match", a=x.shape, b=y.shape)
            ctx.count("refused")
    m = a[None]
    for x, y in [(a, m), (m, a), (m, longer[None])]:
        ctx.raises(ValueError, lambda: sim.batch_cosine_similarity(x, y), "batch_cosine_similarity takes what does not match")
    ctx.raises(ValueError, lambda: sim.normalize_vector(m), "normalize_vector takes a matrix")
    ctx.raises(ValueError, lambda: sim.normalize_vector(a, ctx.rng.choice(["", "L2", "l3", "inf"])),
               "normalize_vector takes an unknown norm")
    ctx.event("refused", d)


SCENARIOS = {"pairs": (pairs, 250, 4000), "batch": (batch, 350, 4000), "crowded": (crowded, 30, 300), "refused": (refused, 20, 60)}

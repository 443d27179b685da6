"""A random history of index operations, with the answers judged after each."""

import numpy as np

from . import gen


def batch(ctx, d, n, style, dtype):
    return gen.vectors(ctx, n, d, style=style, dtype=dtype)


def query(ctx, under, style, dtype):
    """A query: random, a stored vector, close to one, zero, or opposite to one."""
    d = under.d
    r = ctx.rng.random()
    stored = [v for v, _ in under.model.values()]
    if stored and r < 0.3:
        return np.array(ctx.rng.choice(stored))
    if stored and r < 0.45:
        v = np.asarray(ctx.rng.choice(stored), dtype=np.float64)
        return v + gen.vectors(ctx, 1, d, "normal", "float64")[0] * 1e-3 * (np.abs(v).max() + 1e-3)
    if stored and r < 0.5:
        return -np.asarray(ctx.rng.choice(stored), dtype=np.float64)
    if r < 0.55:
        return np.zeros(d)
    return gen.vectors(ctx, 1, d, style=style, dtype=dtype)[0]


def history(ctx, under, steps, judge, style=None, dtype=None, max_batch=8, ops=None, mixed=True):
    """judge(q, k, results) is called for every search."""
    style = style or ctx.rng.choice(
        ["normal", "uniform", "grid", "ties", "clusters", "tiny", "huge", "sparse", "offset", "ints"])
    dtype = dtype or ctx.rng.choice(["float64", "float64", "float32", "int64", "uint8", "float16"])
    if dtype == "float16" and style == "huge":
        style = "normal"
    choices = ops or ["insert", "insert", "delete", "update", "update", "search", "search", "search"]
    for step in range(steps):
        op = ctx.rng.choice(choices)
        if not under.model and op in ("delete", "update") and ctx.rng.random() < 0.8:
            op = "insert"
        ids = list(under.model)
        if op == "insert":
            n = ctx.rng.choice([1, 1, 2, ctx.rng.randint(1, max_batch)])
            dt = dtype if not mixed or ctx.rng.random() < 0.9 else ctx.rng.choice(["float64", "float32"])
            v = batch(ctx, under.d, n, style, dt)
            r = ctx.rng.random()
            if r < 0.2:
                under.insert(v)
            elif r < 0.3 and n > 1 and under.kind in ("flat", "hnsw", "ivf"):
                under.insert(v, [gen.metadata(ctx, (step, j)) for j in range(n - 1)])
            else:
                under.insert(v, [gen.metadata(ctx, (step, j) if ctx.rng.random() < 0.7 else None)
                                 for j in range(n)])
        elif op == "delete":
            r = ctx.rng.random()
            gone = under.gone()
            if gone and r < 0.1:
                under.delete([ctx.rng.choice(gone), *ids[:ctx.rng.choice([0, 1])]])
                ctx.count("delete again")
            elif r < 0.15 or not ids:
                under.delete(["no-such-id"] if r < 0.08 else ["no-such-id", *ids[:1]])
            elif r < 0.2:
                under.delete(ids)
            else:
                under.delete(ctx.rng.sample(ids, min(len(ids), ctx.rng.choice([1, 1, 2, 4]))))
        elif op == "update":
            i = ctx.rng.choice(ids) if ids and ctx.rng.random() < 0.9 else "999999"
            if ctx.rng.random() < 0.05 and under.gone():
                i = ctx.rng.choice(under.gone())
            v = batch(ctx, under.d, 1, style, dtype)[0]
            under.update(i, v, gen.metadata(ctx, ("u", step)) if ctx.rng.random() < 0.75 else None)
        else:
            q = query(ctx, under, style, dtype)
            n = len(under.model)
            k = ctx.rng.choice([1, 1, 2, 3, 5, max(1, n - 1), max(1, n), n + 3, 100])
            results = under.search(q, k)
            judge(q, k, results)
            ctx.event("search", under.kind, k, n, len(results))
        ctx.count(op)
        ctx.state(under.kind, op, len(under.model))
    return style, dtype


def count(under):
    stats = under.index.get_stats()
    return stats["vector_count"] if "vector_count" in stats else stats["num_vectors"]


def crowded(ctx, under, n, judge, queries=10, style=None):
    """Thousands of vectors, inserted in a few batches, some changed and removed, searched for few and for many."""
    style = style or ctx.rng.choice(["normal", "clusters", "offset", "uniform"])
    dtype = ctx.rng.choice(["float64", "float64", "float32"])
    parts = ctx.rng.choice([1, 2, 5])
    for part in range(parts):
        size = n // parts
        under.insert(gen.vectors(ctx, size, under.d, style, dtype))
    ids = list(under.model)
    under.delete(ctx.rng.sample(ids, 20))
    for i in ctx.rng.sample(sorted(under.model), 10):
        under.update(i, gen.vectors(ctx, 1, under.d, style, dtype)[0], {"updated": i})
    middle = np.mean([np.asarray(v, dtype=np.float64) for v, _ in under.model.values()], axis=0)
    for j in range(queries):
        q = query(ctx, under, style, dtype) if j % 3 else middle + ctx.np.normal(size=under.d) * 0.1
        size = len(under.model)
        k = [1, 10, size // 20, ctx.rng.choice([3, 100, size // 2, size + 1])][j % 4]
        judge(q, k, under.search(q, k))
        ctx.count("search")
    ctx.event("crowded", under.kind, style, dtype, under.d, n, parts)
    ctx.count("crowded")

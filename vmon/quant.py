"""Quantizers under test and their training data."""

import numpy as np

from . import gen


def made(kind, **config):
    from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer

    q = {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}[kind](config)
    q.initialize()
    return q


def data(ctx, n, d, dtype=None, style=None):
    style = style or ctx.rng.choice(["normal", "uniform", "grid", "ties", "clusters", "sparse", "offset", "ints"])
    dtype = dtype or ctx.rng.choice(["float64", "float32", "float64", "float32", "int64", "uint8", "int8"])
    v = gen.vectors(ctx, n, d, style, dtype)
    if ctx.rng.random() < 0.3:
        v[:, ctx.rng.randrange(d)] = v[0, 0]  # a constant dimension
    return v


def retrained(ctx, kind, settings, train, first, codes, back, query):
    """A quantizer used with another training first must end as `first`, which was trained only on `train`."""
    from valori.exceptions import QuantizationError

    q = made(kind, **settings)
    if ctx.rng.random() < 0.8:
        m = settings.get("m", 1)
        other = train[::-1] * 3 + 1 if ctx.rng.random() < 0.5 and train.dtype.kind == "f" else data(
            ctx, ctx.rng.randint(1, 12), m * ctx.rng.randint(1, 4))
        if other.shape[1] <= settings.get("total_bits", other.shape[1]):
            q.train(other)
            ctx.count("retrained")
            # and used: whatever it remembers has to be forgotten
            used = q.quantize(other)
            for code in used[:20]:
                q.compute_distance(other[0], code)
            if other.shape == train.shape:
                for code in codes[:20]:
                    try:
                        q.compute_distance(other[0], code)
                    except QuantizationError:
                        pass  # this training has no such codeword
            q.dequantize(used)
            if kind == "saq":
                q.search_with_rescoring(other[0], used, 3)
    given = train.copy()
    q.train(given)
    gen.scribble(ctx, given)  # the caller's own, and so is what is handed out
    gen.scribble(ctx, q.quantize(train))
    gen.scribble(ctx, q.dequantize(codes))
    a, b = first.get_stats(), q.get_stats()
    timed = ("segmentation_time", "adjustment_improvements")
    ctx.check(a.keys() == b.keys() and all(gen.same(a[k], b[k]) for k in a if k not in timed),
              f"{kind}: an earlier training changes the statistics", want=a, got=b)
    ctx.check(gen.same_vector(q.quantize(train), codes) and gen.same_vector(q.dequantize(codes), back),
              f"{kind}: training on the same vectors gives another result")
    for i in range(min(6, len(codes))):
        a, b = first.compute_distance(query, codes[i]), q.compute_distance(query, codes[i])
        ctx.check(abs(a - b) <= 1e-9 * max(1.0, abs(a)), f"{kind}: an earlier training changes the distances", want=a, got=b)
    if kind == "saq":
        a, b = first.search_with_rescoring(query, codes, 5), q.search_with_rescoring(query, codes, 5)
        ctx.check(np.array_equal(a[0], b[0]) and np.allclose(a[1], b[1]),
                  "saq: an earlier training changes what a search finds", want=a, got=b)
    return q


def cosine_distance(q, v):
    q, v = np.asarray(q, dtype=np.float64), np.asarray(v, dtype=np.float64)
    n = np.linalg.norm(q) * np.linalg.norm(v)
    return 1.0 if n == 0 else 1.0 - float(q @ v) / n

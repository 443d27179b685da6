"""Q03: segmented quantization spends its bits, and encodes each segment by its nearest codeword."""

import numpy as np

from vmon import gen, quant

LEVEL = "exploration"
QUICK = 4
RULE = (
    "random training sets, budgets of 1 to 256 bits, 1 to 12 segments (also more than dimensions), 0 to 5 adjustment "
    "rounds; segments and bits are judged from the reported statistics, codes against the codewords that the training "
    "set's own codes decode to, in the standardised space recomputed by the oracle; distinct by event hash"
)
REQUIRED = {"parts": 5000, "distances": 500, "exact": 15, "partitions": 100, "wide": 8, "far": 3000}


def standard(train):
    x = np.asarray(train, dtype=np.float64)
    mean = x.mean(axis=0)
    std = x.std(axis=0)
    flat = std <= 1e-9 * (np.abs(x).max(axis=0) + 1e-300)
    return mean, np.where(flat, 1.0, std), flat


def partition(ctx, q, d, segments, total):
    stats = q.get_stats()
    bounds, bits = stats["segment_boundaries"], stats["segment_bits"]
    ctx.count("partitions")
    ctx.check(len(bounds) == min(segments, d) and len(bits) == len(bounds), "saq: the number of segments is wrong",
              stats=stats, configured=segments, dim=d)
    at = 0
    for start, end in bounds:
        ctx.check(start == at and end > start, "saq: the segments do not split the dimensions in order", bounds=bounds)
        at = end
    ctx.check(at == d, "saq: the segments do not cover every dimension", bounds=bounds, dim=d)
    if total >= len(bounds):
        ctx.check(sum(bits) == total, "saq: the bits of the segments are not the budget", bits=bits, total=total)
        ctx.check(min(bits) >= 1, "saq: a segment has no bit", bits=bits)
    ctx.check(abs(stats["compression_ratio"] - d * 32 / total) < 1e-9 * d * 32, "saq: the compression ratio is wrong",
              stats=stats)
    ctx.check(stats["dimensions"] == d and stats["trained"] is True, "saq: stats are wrong", stats=stats)
    return [(int(a), int(b)) for a, b in bounds], [int(b) for b in bits]


def wide(ctx):
    """More codewords than a byte can tell apart, and thousands of vectors."""
    if ctx.rng.random() < 0.5:
        run(ctx, ctx.rng.choice([257, 300, 400]), ctx.rng.choice([1, 2]), ctx.rng.choice([18, 20, 64]))
    else:
        run(ctx, ctx.rng.choice([1001, 2500]), ctx.rng.randint(1, 6), ctx.rng.choice([6, 8]))
    ctx.count("wide")


def run(ctx, n=None, d=None, total=None):
    many = n is not None
    d = d or gen.dim(ctx, 1, 12)
    n = n or ctx.rng.choice([1, 2, 3, 10, 30, 60])
    segments = ctx.rng.choice([1, 2] if many else [1, 2, 3, 4, 8, 12])
    total = total or ctx.rng.choice([segments, segments + 1, 8, 16, 32, 64, 128, 256])
    total = max(total, min(segments, d))
    train = quant.data(ctx, n, d, *((ctx.rng.choice(["float64", "float32"]), "normal") if many else ()))
    keep = train.copy()
    ctx.event("config", d, n, segments, total, str(train.dtype))
    config = {"total_bits": total, "n_segments": segments, "adjustment_iters": ctx.rng.choice([0, 1, 3, 5])}
    q = quant.made("saq", **config)
    q.train(train)
    bounds, bits = partition(ctx, q, d, segments, total)
    mean, std, flat = standard(keep)
    x = (np.asarray(keep, dtype=np.float64) - mean) / std
    codes = q.quantize(train)
    ctx.check(codes.shape == (n, len(bounds)) and codes.dtype.kind in "iu", "saq: codes have the wrong shape or type",
              shape=codes.shape, dtype=codes.dtype)
    back = q.dequantize(codes)
    ctx.check(back.shape == train.shape, "saq: decoded vectors have the wrong shape", shape=back.shape)
    y = (np.asarray(back, dtype=np.float64) - mean) / std
    far = None
    if ctx.rng.random() < 0.7:
        # other vectors, also much farther away than those trained on
        far = ctx.np.normal(size=(20, d)) * std * ctx.np.choice([0.5, 3.0, 20.0, 200.0], size=(20, d)) + mean
        far_codes = q.quantize(far)
        far_back = np.asarray(q.dequantize(far_codes), dtype=np.float64)
        far, far_y = (far - mean) / std, (far_back - mean) / std
    # decoded values pass through float32 in the original space
    fuzz = 2e-6 * (np.abs(mean) / std + np.abs(x).max(axis=0) + 1)
    for s, (a, b) in enumerate(bounds):
        own = codes[:, s].astype(np.int64)
        ctx.check(int(own.min()) >= 0 and (bits[s] >= 62 or int(own.max()) < max(2, 1 << bits[s])),
                  "saq: a code does not fit the bits of its segment", codes=own, bits=bits[s])
        # the same code decodes to the same part, whatever the vector
        decoded = {}
        for i in range(n):
            ctx.check(int(own[i]) not in decoded or np.array_equal(decoded[int(own[i])], back[i, a:b]),
                      "saq: one code decodes to two different parts", segment=s)
            decoded[int(own[i])] = back[i, a:b]
        words = (np.asarray(list(decoded.values()), dtype=np.float64) - mean[a:b]) / std[a:b]
        live = ~flat[a:b]
        dist = ((x[:, None, a:b] - words[None]) ** 2)[:, :, live].sum(axis=2)
        chosen = ((x[:, a:b] - y[:, a:b]) ** 2)[:, live].sum(axis=1)
        near = np.sqrt(dist.min(axis=1))
        slack = 3 * float(np.linalg.norm(fuzz[a:b][live])) + 2e-3 * float(np.sqrt(max(1.0, (x ** 2).max()) * (b - a)))
        if far is not None:
            for i in range(len(far)):
                code = int(far_codes[i, s])
                ctx.check(code not in decoded or np.array_equal(decoded[code], np.asarray(far_back[i, a:b], dtype=back.dtype)),
                          "saq: one code decodes to two different parts", segment=s)
            others = np.sqrt(((far[:, None, a:b] - words[None]) ** 2)[:, :, live].sum(axis=2).min(axis=1))
            taken = np.sqrt(((far[:, a:b] - far_y[:, a:b]) ** 2)[:, live].sum(axis=1))
            room = 3 * float(np.linalg.norm(fuzz[a:b][live])) + 1e-6 * (1 + np.abs(far).max())
            ctx.count("far", len(far))
            ctx.check(bool(np.all(taken <= others + room)), "saq: a part far away is not encoded by its nearest codeword",
                      segment=s, worst=(taken - others).max(), room=room)
        ctx.count("parts", n)
        ctx.check(bool(np.all(np.sqrt(chosen) <= near + slack)), "saq: a part is not encoded by its nearest codeword",
                  segment=s, worst=(np.sqrt(chosen) - near).max(), slack=slack)
    ctx.check(gen.same_vector(train, keep), "saq: the caller's vectors were altered")

    if all(bits[s] >= 30 or 2 ** bits[s] >= n for s in range(len(bits))):
        error = np.abs(np.asarray(back, dtype=np.float64) - np.asarray(keep, dtype=np.float64))
        ctx.count("exact")
        bound = 2e-3 * std + 2e-6 * np.abs(np.asarray(keep, dtype=np.float64)).max(axis=0)
        ctx.check(bool(np.all(error <= bound)), "saq: with a codeword for every training vector, one comes back different",
                  worst=(error - bound).max(), bits=bits)

    for _ in range(4):
        query = gen.vectors(ctx, 1, max(1, d + ctx.rng.choice([0, 0, 0, 1, -1])),
                            dtype=ctx.rng.choice(["float64", "float32", "int64"]))[0]
        i = ctx.rng.randrange(n)
        got = q.compute_distance(query, codes[i])
        aligned = np.zeros(d)
        aligned[:min(d, len(query))] = np.asarray(query, dtype=np.float64)[:d]
        want = quant.cosine_distance(aligned, back[i])
        ctx.count("distances")
        ctx.check(isinstance(got, float) and abs(got - want) < 1e-4, "saq: the distance is not the one to the decoded vector",
                  got=got, want=want, query=query, back=back[i])

    # training is reproducible, and an earlier training leaves no trace
    q2 = quant.retrained(ctx, "saq", config, train, q, codes, back, ctx.np.normal(size=d))
    ctx.check(partition(ctx, q2, d, segments, total) == (bounds, bits), "saq: training again splits otherwise")


SCENARIOS = {"wide": (wide, 8, 60), "nearest": (run, 160, 2500)}

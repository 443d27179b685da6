"""Q01: scalar quantization is right to half a step, for every bit width."""

import numpy as np

from vmon import gen, quant

LEVEL = "exploration"
QUICK = 8
RULE = (
    "random training sets of eight styles and five dtypes, every bit width from 1 to 64, vectors inside and outside the "
    "trained range; the reconstruction error of each value is compared with half a step (plus float32 rounding), codes "
    "with their range, order and batch independence, distances with a float64 oracle; distinct by event hash"
)
REQUIRED = {"values": 20000, "distances": 500, "outside": 200, "crowded": 16}


def step_and_slack(train, bits):
    t = np.asarray(train, dtype=np.float64)
    low, high = t.min(axis=0), t.max(axis=0)
    levels = float(min(2 ** bits - 1, 2 ** 53 - 1))
    step = (high - low) / levels
    # codes pass through float32; so may the scale and the offset
    eps = 2.0 ** -22
    slack = eps * (high - low) + eps * np.maximum(np.abs(low), np.abs(high))
    return low, high, step, slack


def run(ctx):
    d = gen.dim(ctx, 1, 16)
    n = ctx.rng.choice([1, 2, 5, 40])
    bits = ctx.rng.choice([1, 2, 3, 4, 8, 8, 12, 16, 24, 30, 31, 32, 33, 48, 53, 54, 62, 63, 64])
    train = quant.data(ctx, n, d)
    ctx.event("config", n, d, bits, str(train.dtype))
    keep = train.copy()
    q = quant.made("scalar", bits=bits)
    q.train(train)
    low, high, step, slack = step_and_slack(keep, bits)

    inside = [train]
    if train.dtype.kind == "f":
        inside.append((low + ctx.np.random(size=(5, d)) * (high - low)).astype(train.dtype))
    for v in inside:
        codes = q.quantize(v)
        back = q.dequantize(codes)
        ctx.check(codes.shape == v.shape and codes.dtype.kind in "iu", "scalar: codes have the wrong shape or type",
                  shape=codes.shape, dtype=codes.dtype)
        ctx.check(bool(np.all(codes >= 0)) and int(codes.max()) <= 2 ** bits - 1,
                  "scalar: a code does not fit the bit width", codes=codes, bits=bits)
        error = np.abs(np.asarray(back, dtype=np.float64) - np.asarray(v, dtype=np.float64))
        ctx.count("values", error.size)
        ctx.check(bool(np.all(error <= step / 2 + slack)), "scalar: a value comes back off by more than half a step",
                  worst=(error - step / 2 - slack).max(), bits=bits, value=v, back=back, dtype=v.dtype)
        one = ctx.rng.randrange(len(v))
        ctx.check(gen.same_vector(q.quantize(v[one:one + 1])[0], codes[one]),
                  "scalar: a vector's code depends on the batch it is in")
        ctx.check(gen.same_vector(q.dequantize(codes[one])[0], back[one]),
                  "scalar: a single code comes back differently")
        # a larger value never has a smaller code
        for j in range(d):
            order = np.argsort(np.asarray(v[:, j], dtype=np.float64), kind="stable")
            ctx.check(bool(np.all(np.diff(codes[order, j]) >= 0)), "scalar: codes are not in the order of values")
        query = ctx.np.normal(size=d).astype(ctx.rng.choice(["float64", "float32"]))
        for i in range(min(4, len(v))):
            got = q.compute_distance(query, codes[i])
            want = quant.cosine_distance(query, back[i])
            ctx.count("distances")
            ctx.check(isinstance(got, float) and abs(got - want) < 1e-4 + 1e-5 * d,
                      "scalar: the distance is not that of the decoded vector", got=got, want=want)
    ctx.check(gen.same_vector(train, keep), "scalar: the caller's vectors were altered")
    codes = q.quantize(train)
    quant.retrained(ctx, "scalar", {"bits": bits}, train, q, codes, q.dequantize(codes), ctx.np.normal(size=d))

    # outside the range: the nearest end
    if train.dtype.kind == "f":
        far = np.array([low - 10 * (high - low) - 1, high + 10 * (high - low) + 1])
        back = np.asarray(q.dequantize(q.quantize(far)), dtype=np.float64)
        ctx.count("outside")
        varied = high > low
        ctx.check(bool(np.all(np.abs(back[0] - low) <= slack)), "scalar: below the range is not the low end",
                  back=back[0], low=low)
        ctx.check(bool(np.all((np.abs(back[1] - high) <= slack + step / 2)[varied])),
                  "scalar: above the range is not the high end", back=back[1], high=high, bits=bits)


def finer(ctx):
    """More bits never give a larger worst error, and each extra bit about halves it."""
    d = gen.dim(ctx, 1, 8)
    train = quant.data(ctx, 60, d, ctx.rng.choice(["float64", "float32"]), "uniform")
    probe = train
    worst = None
    for bits in (1, 2, 4, 6, 8, 10, 12):
        q = quant.made("scalar", bits=bits)
        q.train(train)
        back = np.asarray(q.dequantize(q.quantize(probe)), dtype=np.float64)
        error = float(np.abs(back - np.asarray(probe, dtype=np.float64)).max())
        low, high, step, slack = step_and_slack(train, bits)
        ctx.count("values", back.size)
        ctx.check(error <= (step / 2 + slack).max(), "scalar: the error exceeds half a step", bits=bits, error=error)
        worst = error
    ctx.event("finer", d, round(worst, 9))
    stats = q.get_stats()
    ctx.check(stats["trained"] is True and stats["bits"] == 12, "scalar: stats are wrong", stats=stats)


def crowded(ctx):
    """Thousands of vectors: the range is that of all of them, and each is encoded as if it were alone."""
    d, n = ctx.rng.randint(1, 4), ctx.rng.choice([1023, 1024, 1025, 2500, 4097, 6000, 12000])
    bits = ctx.rng.choice([1, 4, 8, 16, 31])
    train = gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "uniform", "offset", "clusters"]),
                        ctx.rng.choice(["float64", "float32"]))
    for j in range(d):  # the ends of the range may be anywhere
        train[ctx.rng.randrange(n), j] *= ctx.rng.choice([1, 30, -30])
    q = quant.made("scalar", bits=bits)
    q.train(train)
    low, high, step, slack = step_and_slack(train, bits)
    codes = q.quantize(train)
    back = q.dequantize(codes)
    ctx.count("crowded")
    ctx.event("crowded", n, d, bits, train[:3].tolist())
    error = np.abs(np.asarray(back, dtype=np.float64) - np.asarray(train, dtype=np.float64))
    ctx.check(bool(np.all(error <= step / 2 + slack)), "scalar: one of thousands comes back off by more than half a step",
              worst=(error - step / 2 - slack).max(), bits=bits, n=n)
    for i in [0, n - 1] + [ctx.rng.randrange(n) for _ in range(30)]:
        ctx.check(gen.same_vector(q.quantize(train[i:i + 1])[0], codes[i]) and gen.same_vector(
            q.dequantize(codes[i:i + 1])[0], back[i]), "scalar: a vector's code depends on the thousands it is among", i=i)


SCENARIOS = {"crowded": (crowded, 16, 150), "roundtrip": (run, 200, 3000), "finer": (finer, 30, 300)}

"""Q02: product quantization encodes each part of a vector by its nearest codeword."""

import numpy as np

from vmon import gen, quant

LEVEL = "exploration"
QUICK = 12
RULE = (
    "random training sets of eight styles and seven dtypes, numbers of parts and codewords from 1 to above the number of "
    "training vectors (and above 256); the codebook is read back by decoding every code, and each encoded part is compared "
    "with all codewords in float64; distances against decoded vectors, with short and long queries; distinct by event hash"
)
REQUIRED = {"parts": 5000, "distances": 800, "exact": 20, "wide": 10, "crowded": 16}


def codebook(q, m, k):
    """The decoded vector of (c, c, ..., c) for every c."""
    codes = np.tile(np.arange(k, dtype=np.int64)[:, None], (1, m))
    return np.asarray(q.dequantize(codes), dtype=np.float64)


def judge(ctx, q, book, m, d, v, where):
    codes = q.quantize(v)
    k = len(book)
    ctx.check(codes.shape == (len(v), m) and codes.dtype.kind in "iu", f"{where}: codes have the wrong shape or type",
              shape=codes.shape, dtype=codes.dtype)
    ctx.check(len(v) == 0 or (int(codes.min()) >= 0 and int(codes.max()) < k), f"{where}: a code has no codeword",
              codes=codes, k=k)
    back = q.dequantize(codes)
    ctx.check(back.shape == v.shape, f"{where}: decoded vectors have the wrong shape", shape=back.shape)
    w = d // m
    x = np.asarray(v, dtype=np.float64)
    for i in range(m):
        part = slice(i * w, (i + 1) * w)
        own = codes[:, i].astype(int)
        ctx.check(np.array_equal(np.asarray(back[:, part], dtype=np.float64), book[own][:, part]),
                  f"{where}: a part is not decoded as its codeword", part=i)
        dist = ((x[:, None, part] - book[None, :, part]) ** 2).sum(axis=2)
        chosen = dist[np.arange(len(v)), own]
        best = dist.min(axis=1)
        # single precision differences are precise enough, and so is the square expanded in double precision
        scale = (x[:, part] ** 2).sum(axis=1) + (book[:, part] ** 2).sum(axis=1).max()
        slack = 1e-4 * best + 1e-12 * scale + 1e-35
        ctx.count("parts", len(v))
        ctx.check(bool(np.all(chosen <= best + slack)), f"{where}: a part is not encoded by its nearest codeword",
                  part=i, worst=(chosen - best).max(), scale=scale.max())
    return codes, back


def run(ctx, wide=0):
    m = ctx.rng.choice([1, 1, 2, 3, 4, 8])
    d = m * ctx.rng.randint(1, 4)
    n = ctx.rng.choice([1, 2, 3, 10, 30, 60])
    k = ctx.rng.choice([1, 2, 3, 8, 16, n, n + 1, 256])
    style = dtype = None
    if wide:
        m, d, n, k, style, dtype = 1, 2, 330, wide, "normal", "float32"
        ctx.count("wide")
    train = quant.data(ctx, n, d, dtype, style)
    keep = train.copy()
    ctx.event("config", m, k, d, n, str(train.dtype))
    q = quant.made("product", m=m, k=k)
    q.train(train)
    stats = q.get_stats()
    size = stats["effective_k"]
    ctx.check(1 <= size <= k, "product: more codewords than configured", stats=stats)
    ctx.check(size == min(k, n), "product: fewer codewords than configured and trained for", stats=stats, k=k, n=n)
    book = codebook(q, m, size)
    codes, back = judge(ctx, q, book, m, d, train, "product: training vectors")
    fresh = quant.data(ctx, ctx.rng.randint(1, 8) if ctx.rng.random() < 0.9 else ctx.rng.randint(250, 2500), d)
    judge(ctx, q, book, m, d, fresh, "product: other vectors")
    if fresh.dtype.kind == "f":
        # also much farther away than those trained on
        far = (fresh[:8] * fresh.dtype.type(ctx.rng.choice([30, 1000]))).astype(fresh.dtype)
        judge(ctx, q, book, m, d, far, "product: vectors far away")
    ctx.check(gen.same_vector(train, keep), "product: the caller's vectors were altered")

    if k >= n:
        error = np.abs(np.asarray(back, dtype=np.float64) - np.asarray(keep, dtype=np.float64)).max()
        ctx.count("exact")
        # k-means of float32 vectors cannot tell apart two whose squared distance is lost to rounding
        ctx.check(error <= (2e-3 if train.dtype.itemsize < 8 else 1e-5) * (np.abs(np.asarray(keep, dtype=np.float64)).max() + 1e-30),
                  "product: with a codeword for every training vector, one comes back different", error=error)

    # encoding what was decoded changes nothing
    again = q.dequantize(q.quantize(back))
    ctx.check(bool(np.allclose(again, back, rtol=1e-4, atol=1e-4 * (1e-30 + np.abs(back).max()))),
              "product: encoding a decoded vector again moves it", first=back, second=again)
    # one at a time
    i = ctx.rng.randrange(n)
    ctx.check(bool(np.allclose(q.dequantize(q.quantize(train[i:i + 1]))[0], back[i], rtol=1e-4,
                               atol=1e-4 * (1e-30 + np.abs(back).max())))
              or book.shape[0] > 1 and ties(train[i], book, m, d),
              "product: a vector's code depends on the batch it is in", alone=q.quantize(train[i:i + 1]), batch=codes[i])

    for _ in range(6):
        query = gen.vectors(ctx, 1, d + ctx.rng.choice([0, 0, 0, 1, -1]) or 1, dtype=ctx.rng.choice(
            ["float64", "float32", "int64"]))[0]
        i = ctx.rng.randrange(n)
        got = q.compute_distance(query, codes[i])
        aligned = np.zeros(d)
        aligned[:min(d, len(query))] = np.asarray(query, dtype=np.float64)[:d]
        want = float(np.linalg.norm(aligned - np.asarray(back[i], dtype=np.float64)))
        ctx.count("distances")
        ctx.check(isinstance(got, float) and abs(got - want) <= 1e-4 * (
            np.linalg.norm(aligned) + np.linalg.norm(back[i]) + 1e-12),
            "product: the distance is not the one to the decoded vector", got=got, want=want)

    # training is reproducible, and the earlier training leaves no trace
    quant.retrained(ctx, "product", {"m": m, "k": k}, train, q, codes, back, ctx.np.normal(size=d))


def widths(ctx):
    """Codebooks about as large as a byte or two can tell apart."""
    for k in [255, 256, 257, 258, ctx.rng.choice([300, 330, 512])]:
        run(ctx, wide=k)


def ties(x, book, m, d):
    """Whether two codewords of some part are as good as equally near (the choice is then free)."""
    w = d // m
    for i in range(m):
        part = slice(i * w, (i + 1) * w)
        dist = np.sort(((np.asarray(x, dtype=np.float64)[None, part] - book[:, part]) ** 2).sum(axis=1))
        scale = (np.asarray(x[part], dtype=np.float64) ** 2).sum() + (book[:, part] ** 2).sum(axis=1).max()
        if dist[1] - dist[0] <= 1e-5 * scale:
            return True
    return False


def crowded(ctx):
    """Thousands of vectors to train on or to encode, also far from the origin."""
    m = ctx.rng.choice([1, 2, 3])
    d, n, k = m * ctx.rng.randint(1, 3), ctx.rng.choice([257, 600, 1025, 2500, 4100]), ctx.rng.choice([2, 5, 16])
    dtype = ctx.rng.choice(["float64", "float32"])
    v = gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "uniform", "clusters", "offset"]), dtype)
    v = (v + ctx.rng.choice([0, 0, 100, 3000])).astype(dtype)
    train = v if ctx.rng.random() < 0.4 else v[ctx.np.choice(n, 60, replace=False)]
    q = quant.made("product", m=m, k=k)
    q.train(train)
    book = codebook(q, m, q.get_stats()["effective_k"])
    codes, back = judge(ctx, q, book, m, d, v, "product: one of thousands")
    ctx.count("crowded")
    ctx.event("crowded", n, d, m, k, dtype, v[:2].tolist())
    for i in [0, n - 1] + [ctx.rng.randrange(n) for _ in range(20)]:
        ctx.check(gen.same_vector(q.quantize(v[i:i + 1])[0], codes[i]) or ties(v[i], book, m, d),
                  "product: a vector's code depends on the thousands it is among", i=i)


SCENARIOS = {"crowded": (crowded, 16, 150), "nearest": (run, 160, 2500), "wide": (widths, 2, 8)}

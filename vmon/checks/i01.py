"""I01: the flat index returns exactly the k nearest vectors."""

from vmon import gen, indexes, stores, workload

LEVEL = "exploration"
QUICK = 4
RULE = (
    "random histories (insert, delete, update, search) on the flat index over memory, disk and hybrid storage, with "
    "vectors of ten styles and six dtypes, tie-heavy sets and adversarial queries; every search is compared with a "
    "float64 brute-force oracle over the model: which vectors, how many, their distances, order and metadata"
)
REQUIRED = {"search": 2000, "delete": 300, "update": 500, "crowded": 6}


def run(ctx, skind):
    d = gen.dim(ctx)
    storage = stores.opened(ctx, skind, limit=ctx.rng.choice([0, 1, 3, 1000]) if skind == "hybrid" else None)
    u = indexes.Under(ctx, "flat", d, storage=storage)
    ctx.event("config", skind, u.config, d)

    def judge(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)

    workload.history(ctx, u, ctx.rng.randint(15, 50), judge)
    q = gen.vectors(ctx, 1, d, "normal", "float64")[0]
    judge(q, 1000, u.search(q, 1000))
    ctx.check(workload.count(u) == len(u.model), "flat: the count is off", got=workload.count(u),
              want=len(u.model))


def large(ctx):
    """Hundreds of vectors in one batch, high dimension, many queries."""
    d = ctx.rng.choice([3, 64, 128, 384])
    u = indexes.Under(ctx, "flat", d)
    style = ctx.rng.choice(["normal", "clusters", "offset", "uniform", "ints"])
    dtype = ctx.rng.choice(["float64", "float32"])
    for _ in range(3):
        n = ctx.rng.choice([50, 100, 300, 700])
        u.insert(gen.vectors(ctx, n, d, style, dtype), [{"n": j} for j in range(n)])
        u.delete(ctx.rng.sample(sorted(u.model), 20))
        for _ in range(8):
            q = workload.query(ctx, u, style, dtype)
            k = ctx.rng.choice([1, 2, 3, 5, 10, 20, 50, 200, len(u.model)])
            results = u.search(q, k)
            u.sound(q, results, k)
            u.exact(q, results, k)
            ctx.count("search")
    ctx.event("large", style, dtype, d, len(u.model))


def crowded(ctx):
    u = indexes.Under(ctx, "flat", ctx.rng.choice([2, 5, 32]))

    def judge(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)

    workload.crowded(ctx, u, ctx.rng.choice([1100, 2100, 4200, 5200]), judge)


SCENARIOS = {
    "crowded": (crowded, 8, 60),
    "memory": (lambda c: run(c, "memory"), 100, 1500),
    "disk": (lambda c: run(c, "disk"), 50, 600),
    "hybrid": (lambda c: run(c, "hybrid"), 50, 600),
    "large": (large, 24, 200),
}

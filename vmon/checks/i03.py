"""I03: HNSW finds every vector it holds, whatever was inserted, updated and deleted."""

from vmon import gen, indexes, stores, workload

LEVEL = "exploration"
QUICK = 6
RULE = (
    "random delete-heavy histories on HNSW with 1 to 16 links per node; with a search width of at least the number of "
    "vectors each answer must be the exact k nearest by a float64 brute-force oracle, with a smaller width it must "
    "still hold min(k, n) true results; distinct by event hash"
)
REQUIRED = {"search": 2500, "delete": 600, "update": 300, "wide": 1000, "narrow": 500}


def run(ctx, wide):
    d = gen.dim(ctx, 1, 12)
    ef = 2000 if wide else ctx.rng.choice([1, 2, 5, 10])
    cfg = indexes.config(ctx, "hnsw", ef_search=ef, m=ctx.rng.choice([1, 2, 3, 16]))
    if ctx.rng.random() < 0.3:
        cfg["M"] = cfg.pop("m")
    u = indexes.Under(ctx, "hnsw", d, cfg)
    ctx.event("config", d, cfg)

    def judge(q, k, results):
        u.sound(q, results, k)
        ctx.count("wide" if wide else "narrow")
        if wide:
            u.exact(q, results, k)
        else:
            ctx.check(len(results) == min(k, len(u.model)), "hnsw: vectors cannot be reached from the entry point",
                      k=k, stored=len(u.model), got=len(results))

    workload.history(ctx, u, ctx.rng.randint(20, 60), judge,
                     ops=["insert", "insert", "delete", "delete", "update", "search", "search"])
    # remove them one by one, in any order: the rest stays reachable
    for i in ctx.rng.sample(sorted(u.model), len(u.model)):
        q = workload.query(ctx, u, "normal", "float64")
        judge(q, 1000, u.search(q, 1000))
        ctx.count("search")
        u.delete([i])
    ctx.check(u.search(gen.vectors(ctx, 1, d, "normal", "float64")[0], 5) == [], "hnsw: an emptied index answers")
    # and it can be filled again
    u.insert(gen.vectors(ctx, 5, d, "normal", "float64"))
    q = gen.vectors(ctx, 1, d, "normal", "float64")[0]
    judge(q, 5, u.search(q, 5))


def grown(ctx):
    """A few hundred vectors with deletions, searched for themselves."""
    d = ctx.rng.choice([4, 16, 32])
    u = indexes.Under(ctx, "hnsw", d, indexes.config(ctx, "hnsw", ef_search=2000, m=ctx.rng.choice([1, 2, 16])))
    for _ in range(3):
        u.insert(gen.vectors(ctx, ctx.rng.randint(30, 80), d, "normal", "float64"))
        u.delete(ctx.rng.sample(sorted(u.model), 15))
        for i in ctx.rng.sample(sorted(u.model), 10):
            q = u.model[i][0]
            results = u.search(q, 3)
            u.sound(q, results, 3)
            u.exact(q, results, 3)
            if q.any():  # a zero vector is equally far from all by cosine
                ctx.check(i in [r["id"] for r in results], "hnsw: a vector is not found by itself", id=i)
            ctx.count("search")
            ctx.count("wide")
    ctx.event("grown", d, len(u.model))


def recall(ctx):
    """With the default width, results are at least as near as random picks would be."""
    import numpy as np

    d = 8
    n = 300
    u = indexes.Under(ctx, "hnsw", d, {"metric": "euclidean"})
    u.insert(gen.vectors(ctx, n, d, "normal", "float64"))
    hits = total = 0
    for _ in range(30):
        q = ctx.np.normal(size=d)
        results = u.search(q, 5)
        u.sound(q, results, 5)
        rows = np.array([v for v, _ in u.model.values()])
        ids = list(u.model)
        near = {ids[j] for j in np.argsort(((rows - q) ** 2).sum(axis=1))[:15]}
        hits += sum(r["id"] in near for r in results)
        total += len(results)
    ctx.event("recall", hits, total)
    # picking 5 of 300 blindly would hit the nearest 15 in 5% of cases
    ctx.check(hits >= 0.3 * total, "hnsw: search results are hardly nearer than random ones", hits=hits, total=total)


def crowded(ctx):
    """More vectors than small tests hold: nodes that collect many links, deep levels."""
    u = indexes.Under(ctx, "hnsw", ctx.rng.choice([2, 8]),
                      indexes.config(ctx, "hnsw", ef_search=5000, m=ctx.rng.choice([1, 2, 16])))

    def judge(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)

    workload.crowded(ctx, u, ctx.rng.choice([600, 1100]), judge)


SCENARIOS = {
    "crowded": (crowded, 6, 60),
    "wide": (lambda c: run(c, True), 120, 1500),
    "narrow": (lambda c: run(c, False), 80, 1000),
    "grown": (grown, 16, 150),
    "recall": (recall, 8, 60),
}

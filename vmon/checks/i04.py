"""I04: IVF search is exact before training and with all clusters probed, and loses nothing."""

import numpy as np

from vmon import gen, indexes, stores, workload

LEVEL = "exploration"
QUICK = 10
RULE = (
    "random histories on IVF around and after its training, with vectors moved between clusters; exactness with all "
    "clusters probed against a float64 oracle, monotonicity of answers in the number of probes, cluster sizes adding up, "
    "and self-queries with one probe; distinct by event hash"
)
REQUIRED = {"search": 1500, "trained": 600, "untrained": 300, "self_found": 500, "monotone": 300}


def exact(ctx):
    d = gen.dim(ctx, 1, 12)
    c = ctx.rng.choice([1, 2, 3, 5, 8, 15])
    u = indexes.Under(ctx, "ivf", d, indexes.config(ctx, "ivf", n_clusters=c, n_probes=ctx.rng.choice([c, c + 5])))
    ctx.event("config", d, u.config)

    def judge(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)
        stats = u.index.get_stats()
        ctx.count("trained" if stats["trained"] else "untrained")
        ctx.check(stats["vector_count"] == len(u.model), "ivf: the count is off", stats=stats)
        if stats["trained"]:
            ctx.check(sum(stats["cluster_stats"].values()) == len(u.model),
                      "ivf: the clusters do not add up to the stored vectors", stats=stats, stored=len(u.model))

    workload.history(ctx, u, ctx.rng.randint(15, 40), judge)


def untrained(ctx):
    """Fewer vectors than clusters: brute force over all of them."""
    d = gen.dim(ctx, 1, 12)
    u = indexes.Under(ctx, "ivf", d, {"metric": ctx.rng.choice(["cosine", "euclidean"]),
                                      "n_probes": 1} if ctx.rng.random() < 0.5 else
                      indexes.config(ctx, "ivf", n_clusters=200, n_probes=1))
    ctx.event("config", d, u.config)

    def judge(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)
        ctx.count("untrained")

    workload.history(ctx, u, ctx.rng.randint(15, 30), judge, max_batch=4)


def one_probe(ctx):
    """A vector is found by itself with a single probe, wherever updates moved it."""
    d = ctx.rng.randint(2, 10)
    metric = ctx.rng.choice(["euclidean", "euclidean", "cosine"])
    c = ctx.rng.choice([2, 3, 5])
    u = indexes.Under(ctx, "ivf", d, {"metric": metric, "n_clusters": c, "n_probes": 1})
    ids = u.insert(gen.vectors(ctx, c * 4, d, ctx.rng.choice(["normal", "uniform"]), "float64") + 0.01)
    ctx.event("config", d, u.config)
    for step in range(15):
        op = ctx.rng.choice(["insert", "update", "update", "delete"])
        if op == "insert":
            ids += u.insert(ctx.np.normal(size=(2, d)) * 2)
        elif op == "update":
            i = ctx.rng.choice(sorted(u.model))
            u.update(i, ctx.np.normal(size=d) * 3)
            if i not in ids:
                ids.append(i)
        elif len(u.model) > 3:
            i = ctx.rng.choice(sorted(u.model))
            u.delete([i])
            if i in ids:
                ids.remove(i)
        for i in ctx.rng.sample(sorted(ids), min(4, len(ids))):
            q = u.model[i][0]
            results = u.search(q, len(u.model))
            u.sound(q, results, len(u.model))
            ctx.check(i in [r["id"] for r in results], "ivf: a vector is not found by itself with one probe",
                      id=i, metric=metric, step=op)
            ctx.count("self_found")
            ctx.count("search")
        stats = u.index.get_stats()
        ctx.check(sum(stats["cluster_stats"].values()) == len(u.model),
                  "ivf: the clusters do not add up to the stored vectors", stats=stats, stored=len(u.model))


def monotone(ctx):
    """More probes never give a worse answer at any rank."""
    d = ctx.rng.randint(1, 10)
    c = ctx.rng.choice([3, 5, 8])
    metric = ctx.rng.choice(["euclidean", "cosine"])
    v = gen.vectors(ctx, c * 6, d, ctx.rng.choice(["normal", "clusters", "uniform", "offset"]), "float64")
    late = gen.vectors(ctx, 6, d, "normal", "float64")
    answers = {}
    queries = [workload_query(ctx, v, d) for _ in range(8)]
    k = ctx.rng.choice([1, 3, 10])
    for probes in range(1, c + 1):
        u = indexes.Under(ctx, "ivf", d, {"metric": metric, "n_clusters": c, "n_probes": probes})
        u.insert(v)
        u.insert(late)
        for n, q in enumerate(queries):
            results = u.search(q, k)
            u.sound(q, results, k)
            ctx.count("search")
            got = [r["distance"] for r in results]
            if probes > 1:
                before = answers[n]
                ctx.check(len(got) >= len(before), "ivf: more probes give fewer results", probes=probes)
                ctx.check(all(g <= b + 1e-12 for g, b in zip(got, before)),
                          "ivf: more probes give farther results", probes=probes, got=got, before=before)
                ctx.count("monotone")
            if probes == c:
                u.exact(q, results, k)
            answers[n] = got
    ctx.event("monotone", d, c, metric, k)


def workload_query(ctx, v, d):
    if ctx.rng.random() < 0.4:
        return np.array(v[ctx.rng.randrange(len(v))])
    return ctx.np.normal(size=d)


def crowded(ctx):
    """Thousands of vectors in few clusters."""
    c = ctx.rng.choice([1, 2, 4, 20, 4000])
    u = indexes.Under(ctx, "ivf", ctx.rng.choice([2, 8]), indexes.config(ctx, "ivf", n_clusters=c, n_probes=c))

    def judge(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)

    workload.crowded(ctx, u, ctx.rng.choice([1100, 2100, 3000]), judge)
    stats = u.index.get_stats()
    if stats["trained"]:
        ctx.check(sum(stats["cluster_stats"].values()) == len(u.model),
                  "ivf: the clusters do not add up to the stored vectors", stats=stats, stored=len(u.model))


SCENARIOS = {
    "crowded": (crowded, 6, 60),
    "exact": (exact, 80, 1000),
    "untrained": (untrained, 40, 500),
    "one-probe": (one_probe, 60, 800),
    "monotone": (monotone, 24, 300),
}

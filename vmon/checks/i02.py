"""I02: whatever an index returns is a live vector, once, with its true distance, in order."""

from vmon import gen, indexes, stores, workload

LEVEL = "exploration"
QUICK = 6
RULE = (
    "random histories on each of the five indexes with random configurations and adversarial vectors; each search "
    "answer is compared with a model: at most k results, each a stored (not removed) vector, none twice, with its true "
    "distance or similarity and its current metadata, in order; ids are never given out twice, and "
    "deleting or updating removed ones again is reported and harmless; distinct by event hash"
)
REQUIRED = {"search": 3000, "delete": 500, "update": 700, "results": 5000, "crowded": 8, "delete again": 50}


def run(ctx, kind):
    d = gen.dim(ctx, 1, 16)
    cfg = indexes.config(ctx, kind)
    if kind == "lsh" and ctx.rng.random() < 0.5:
        cfg["threshold"] = ctx.rng.choice([0.0, 0.3, 0.5, 0.9, -1.0])
    storage = stores.opened(ctx, ctx.rng.choice(stores.KINDS), limit=2) if kind in indexes.BACKED else None
    u = indexes.Under(ctx, kind, d, cfg, storage)
    ctx.event("config", d, cfg)

    def judge(q, k, results):
        u.sound(q, results, k)
        ctx.count("results", len(results))
        if kind == "lsh":
            for r in results:
                ctx.check(r["distance"] >= cfg["threshold"], "lsh: a result is below the threshold",
                          got=r["distance"], threshold=cfg["threshold"])

    style = "normal" if kind == "annoy" and ctx.rng.random() < 0.5 else None
    workload.history(ctx, u, ctx.rng.randint(20, 60), judge, style=style)
    ctx.check(workload.count(u) == len(u.model), f"{kind}: the count is off", got=workload.count(u),
              want=len(u.model))


def crowded(ctx, kind):
    """Thousands of vectors."""
    u = indexes.Under(ctx, kind, ctx.rng.choice([2, 5, 16]))

    def judge(q, k, results):
        u.sound(q, results, k)
        ctx.count("results", len(results))

    workload.crowded(ctx, u, ctx.rng.choice([600, 1100] if kind == "hnsw" else [1100, 2100, 3000]), judge)


SCENARIOS = {k: ((lambda c, k=k: run(c, k)), 60, 900) for k in indexes.KINDS}
SCENARIOS.update({"crowded-" + k: ((lambda c, k=k: crowded(c, k)), 2, 20) for k in indexes.KINDS})

"""I05: an index opened on a filled storage serves exactly what the storage holds."""

from vmon import gen, indexes, stores, workload

LEVEL = "exploration"
QUICK = 6
RULE = (
    "records are written through a storage backend or an index over it, then flat, HNSW and IVF indexes are opened on "
    "the same storage (new object, or the same one initialized again after the storage was changed behind it); answers "
    "are compared with an exact oracle over what the storage holds, and later writes must work; distinct by event hash"
)
REQUIRED = {"opened": 400, "search": 1000, "large": 20}


def run(ctx, kind):
    d = gen.dim(ctx, 1, 10)
    metric = ctx.rng.choice(["cosine", "euclidean"])
    skind = ctx.rng.choice(stores.KINDS)
    folder = ctx.scratch()
    storage = stores.opened(ctx, skind, folder, ctx.rng.choice([0, 1, 100]))
    cfg = {"metric": metric, "n_clusters": ctx.rng.choice([1, 3, 6]), "n_probes": 10, "ef_search": 1000,
           "m": ctx.rng.choice([1, 2, 16])}
    model = {}
    pool = gen.ids(ctx, 20)
    u = None
    for round_ in range(4):
        for step in range(ctx.rng.randint(0, 8)):
            i = ctx.rng.choice(pool + list(model))
            if ctx.rng.random() < 0.75:
                v = gen.vectors(ctx, 1, d, "normal", ctx.rng.choice(["float64", "float32"]))[0]
                m = gen.metadata(ctx, (round_, step))
                storage.store_vector(i, v, m)
                model[i] = (v.copy(), gen.snapshot(m))
            elif storage.delete_vector(i):
                model.pop(i)
        how = ctx.rng.choice(["new", "again", "closed"] if u is not None and u.kind == kind else ["new"])
        if how == "new":
            k2 = kind if ctx.rng.random() < 0.7 else ctx.rng.choice(indexes.BACKED)
            u = indexes.Under(ctx, k2, d, cfg, storage)
        else:
            if how == "closed":
                u.index.close()
            u.index.initialize(storage)
        u.model = model
        ctx.event("opened", how, u.kind, len(model))
        ctx.check(workload.count(u) == len(model), f"{u.kind}: the count differs from what the storage holds",
                  got=workload.count(u), want=len(model), how=how)
        for _ in range(3):
            q = workload.query(ctx, u, "normal", "float64")
            k = ctx.rng.choice([1, 3, 100])
            results = u.search(q, k)
            u.sound(q, results, k, f"opened ({how})")
            u.exact(q, results, k, f"opened ({how})")
            ctx.count("search")

        def judge(q, k, results):
            u.sound(q, results, k, f"used after being opened ({how})")
            u.exact(q, results, k, f"used after being opened ({how})")

        workload.history(ctx, u, ctx.rng.randint(2, 10), judge, style="normal", dtype="float64", mixed=False)
        model = u.model
        stores.compare_all(ctx, storage, model, f"{u.kind}: the storage behind the index")


def large(ctx, kind):
    """More records than small tests ever hold; opened, changed behind the index, and opened again."""
    d = ctx.rng.choice([2, 4])
    storage = stores.opened(ctx, "memory", None, None)
    cfg = {"metric": ctx.rng.choice(["cosine", "euclidean"]), "n_clusters": ctx.rng.choice([1, 2, 3]), "n_probes": 10,
           "ef_search": 5000, "m": 16}
    u = indexes.Under(ctx, kind, d, cfg, storage)
    n = ctx.rng.choice([257, 300, 520] + ([1030, 1500] if kind != "hnsw" else []))
    model = {}
    for j, v in enumerate(gen.vectors(ctx, n, d, "normal", "float64")):
        model[f"r{j}"] = (v, {"n": j})
        storage.store_vector(f"r{j}", v, {"n": j})
    for how in ("new", "again"):
        if how == "new":
            u = indexes.Under(ctx, kind, d, cfg, storage)
        else:
            for i in ctx.rng.sample(sorted(model), n // 10):
                storage.delete_vector(i)
                del model[i]
            u.index.initialize(storage)
        u.model = dict(model)
        ctx.event("opened", "large", how, kind, len(model))
        ctx.count("large")
        ctx.check(workload.count(u) == len(model), f"{kind}: the count differs from what the storage holds",
                  got=workload.count(u), want=len(model), how=how)
        order = sorted(model, key=lambda i: int(i[1:]))
        for i in [order[0], order[-1], order[-2]] + ctx.rng.sample(order, 4):
            q = model[i][0] + ctx.rng.choice([0, 1e-3])
            k = ctx.rng.choice([1, 10, len(model), n + 5])
            results = u.search(q, k)
            u.sound(q, results, k, f"opened on many records ({how})")
            u.exact(q, results, k, f"opened on many records ({how})")


SCENARIOS = {k: ((lambda c, k=k: run(c, k)), 60, 800) for k in indexes.BACKED}
SCENARIOS.update({"large-" + k: ((lambda c, k=k: large(c, k)), 3, 40) for k in indexes.BACKED})

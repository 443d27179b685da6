"""S06: hybrid storage keeps within its memory limit and memory never contradicts disk."""

from vmon import gen, stores

LEVEL = "exploration"
QUICK = 8
RULE = (
    "random histories on hybrid storage with limits 0 to 6; after every operation the number of records in memory is "
    "compared with the limit, every id is read through a second, fresh disk view of the same directory, and "
    "both are compared with a dictionary; distinct by event hash"
)
REQUIRED = {"op": 1500, "at_limit": 300, "promotion": 200}


def history(ctx):
    folder = ctx.scratch()
    limit = ctx.rng.choice([0, 1, 1, 2, 3, 6])
    storage = stores.opened(ctx, "hybrid", folder, limit)
    pool = gen.ids(ctx, ctx.rng.randint(2, 9))
    model = {}
    for step in range(ctx.rng.randint(15, 40)):
        op = ctx.rng.choice(["store", "store", "update", "delete", "retrieve", "retrieve", "retrieve"])
        i = ctx.rng.choice(pool)
        where = f"limit {limit}, step {step} {op}"
        ctx.event("op", op, i)
        if op in ("store", "update"):
            v, m = stores.value(ctx, step)
            done = storage.store_vector(i, v, m) if op == "store" else storage.update_vector(i, v, m)
            ctx.check(bool(done) == (op == "store" or i in model), f"{where}: wrong answer", got=done)
            if done:
                model[i] = (v, m)
        elif op == "delete":
            ctx.check(bool(storage.delete_vector(i)) == (i in model), f"{where}: wrong answer")
            model.pop(i, None)
        else:
            stores.compare(ctx, storage.retrieve_vector(i), model.get(i), where, id=i)
        stats = storage.get_stats()
        in_memory = stats["memory"]["vector_count"]
        ctx.check(in_memory <= limit, f"{where}: more records in memory than the limit allows",
                  in_memory=in_memory, limit=limit)
        ctx.check(stats["disk"]["vector_count"] == len(model), f"{where}: the count on disk is off",
                  stats=stats["disk"], stored=len(model))
        ctx.check(stats["memory_limit"] == limit, f"{where}: the limit is reported wrongly", stats=stats)
        if in_memory == limit:
            ctx.count("at_limit")
        if limit and model and op == "retrieve" and i in model:
            ctx.count("promotion")
            ctx.check(in_memory >= 1, f"{where}: a record that was just read is not kept in memory", stats=stats)
        fresh = stores.opened(ctx, "disk", folder)
        stores.compare_all(ctx, fresh, model, f"{where}: seen from disk", [x for x in pool if x not in model])
        ctx.state(limit, in_memory, len(model))
    # everything is still there for all ids, in any order, with evictions going on
    for _ in range(2):
        for i in ctx.rng.sample(pool, len(pool)):
            stores.compare(ctx, storage.retrieve_vector(i), model.get(i), f"limit {limit}: at the end", id=i)
            in_memory = storage.get_stats()["memory"]["vector_count"]
            ctx.check(in_memory <= limit, "at the end: more records in memory than the limit allows",
                      in_memory=in_memory, limit=limit)
    storage.close()


SCENARIOS = {"history": (history, 120, 2000)}

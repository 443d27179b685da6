"""S05: concurrent use of memory and hybrid storage is as if one operation ran at a time."""

import numpy as np

from vmon import gen, linear, stores

LEVEL = "exploration"
QUICK = 8
RULE = (
    "3-6 threads run random operations on few shared ids while threads are delayed at random lines of the package "
    "and switched every microsecond; every write carries a unique value in vector and metadata; each id's recorded "
    "history must be linearizable, no record torn; listings and counts must fit the history of the whole storage; the final state must be one of its outcomes; and two operations are run with the first held up at each of its lines in turn while the second runs; distinct by the "
    "hash of the observed interleaving"
)
REQUIRED = {"ops": 3000, "overlapping_pairs": 500, "keys_judged": 150, "whole_judged": 150, "stats": 400, "duel": 3000}
ASSUMPTIONS = ["interleavings come from the interpreter's thread switches and injected delays"]


def record(uid, dim):
    return np.full(dim, float(uid)), {"uid": uid, "list": [uid] * 5}


def seen(ctx, result):
    """The unique value of a record, which must be whole."""
    if result is None:
        return None
    vector, meta = result
    uid = vector[0]
    ctx.check(bool(np.all(vector == uid)), "a vector mixes two writes", vector=vector)
    ctx.check(isinstance(meta, dict) and meta.get("uid") == uid and meta.get("list") == [int(uid)] * 5,
              "vector and metadata come from different writes", vector=vector, metadata=meta)
    return int(uid)


def step(state, op):
    """Sequential behaviour of one id: state is the uid stored, or None."""
    if op.name == "store":
        return (op.args[1],) if op.result is True else None
    if op.name == "update":
        if bool(op.result) != (state is not None):
            return None
        return (op.args[1],) if op.result else (state,)
    if op.name == "delete":
        return (None,) if bool(op.result) == (state is not None) else None
    if op.name == "retrieve":
        return (state,) if op.result == state else None
    raise ValueError(op.name)


def run(ctx, kind):
    limit = ctx.rng.choice([0, 1, 2, 100])
    storage = stores.opened(ctx, kind, limit=limit)
    keys = gen.ids(ctx, ctx.rng.randint(1, 4))
    n_threads = ctx.rng.randint(2, 6)
    per_thread = 24 // n_threads * len(keys) if kind == "memory" else 12 // n_threads * len(keys) + 2
    per_thread = min(per_thread, 40)
    rec = linear.Recorder()
    uids = iter(range(1, 10 ** 6))
    plans = []
    for t in range(n_threads):
        plan = []
        for _ in range(per_thread):
            name = ctx.rng.choice(["store", "store", "update", "delete", "retrieve", "retrieve", "list", "stats"])
            plan.append((name, ctx.rng.choice(keys), next(uids)))
        plans.append(plan)
    listings = []

    def body(t):
        def go():
            for name, key, uid in plans[t]:
                if name == "store":
                    rec.run(t, name, (key, uid), lambda: storage.store_vector(key, *record(uid, 1 + uid % 7)))
                elif name == "update":
                    rec.run(t, name, (key, uid), lambda: storage.update_vector(key, *record(uid, 1 + uid % 7)))
                elif name == "delete":
                    rec.run(t, name, (key,), lambda: storage.delete_vector(key))
                elif name == "retrieve":
                    rec.run(t, name, (key,), lambda: seen(ctx, storage.retrieve_vector(key)))
                elif name == "list":
                    listings.append(storage.list_vectors())
                else:
                    storage.get_stats()
        return go

    errors = linear.run_threads(ctx, [body(t) for t in range(n_threads)],
                                sleep_chance=ctx.rng.choice([0.0, 0.01, 0.05]))
    for e in errors:
        raise e
    for key in keys:  # the final state closes each history
        rec.run(99, "retrieve", (key,), lambda: seen(ctx, storage.retrieve_vector(key)))
    ctx.count("ops", len(rec.ops))
    ctx.count("overlapping_pairs", linear.overlaps(rec.ops))
    ctx.event("interleaving", kind, [(o.thread, o.name) for o in sorted(rec.ops, key=lambda o: o.start)][:40])
    for key in keys:
        ops = [o for o in rec.ops if o.args[0] == key]
        verdict = linear.linearizable(ops, None, step)
        ctx.count("keys_judged" if verdict is not None else "keys_undecided")
        ctx.check(verdict is not False, f"{kind}: the answers about one id fit no order of the operations",
                  history=sorted(ops, key=lambda o: o.start))
    for listed in listings:
        ctx.check(len(set(listed)) == len(listed) and set(listed) <= set(keys),
                  f"{kind}: a listing made during the run is wrong", listed=listed)
    final = {k for k in keys if storage.retrieve_vector(k) is not None}
    ctx.check(sorted(storage.list_vectors()) == sorted(final), f"{kind}: the final listing is wrong",
              listed=storage.list_vectors(), stored=final)
    ctx.check(stores.count(storage) == len(final), f"{kind}: the final count is wrong",
              count=stores.count(storage), stored=len(final))
    if kind == "hybrid":
        ctx.check(storage.get_stats()["memory"]["vector_count"] <= max(limit, 0),
                  "hybrid: more records in memory than the limit", stats=storage.get_stats(), limit=limit)
        # memory and disk agree: a fresh view of the directory gives the same answers
        fresh = stores.make("disk", str(storage.disk_storage.data_dir))
        fresh.initialize()
        for k in keys:
            ctx.check(seen(ctx, storage.retrieve_vector(k)) == seen(ctx, fresh.retrieve_vector(k)),
                      "hybrid: memory and disk disagree after the run", id=k)


def whole_step(state, op):
    """Sequential behaviour of the whole storage: state is {(id, uid)}."""
    if op.name == "list":
        return (state,) if op.result == {i for i, _ in state} else None
    if op.name == "stats":
        return (state,) if op.result == len(state) else None
    known = dict(state)
    key = op.args[0]
    after = step(known.get(key), op)
    if after is None:
        return None
    rest = state - {(key, known.get(key))}
    return (rest if after[0] is None else rest | {(key, after[0])},)


def whole(ctx, kind):
    """Listings and counts see the storage as it was at one moment, too."""
    limit = ctx.rng.choice([0, 1, 2, 100])
    storage = stores.opened(ctx, kind, limit=limit)
    keys = gen.ids(ctx, ctx.rng.randint(2, 5))
    n_threads = ctx.rng.randint(2, 4)
    rec = linear.Recorder()
    uids = iter(range(1, 10 ** 6))
    plans = [[(ctx.rng.choice(["store", "update", "delete", "retrieve", "list", "stats", "stats"]), ctx.rng.choice(keys),
               next(uids)) for _ in range(ctx.rng.randint(4, 8))] for _ in range(n_threads)]

    def listing():
        listed = storage.list_vectors()
        ctx.check(len(set(listed)) == len(listed), f"{kind}: a listing made during the run repeats an id", listed=listed)
        return frozenset(listed)

    def counting():
        stats = storage.get_stats()
        parts = [stats, stats.get("memory", {}), stats.get("disk", {})]
        ctx.check(not any("error" in p for p in parts), f"{kind}: statistics fail during the run", stats=stats)
        if kind == "hybrid":
            ctx.check(stats["memory"]["vector_count"] <= min(max(limit, 0), stats["disk"]["vector_count"]),
                      "hybrid: more in memory than the limit or the disk allows", stats=stats, limit=limit)
        ctx.count("stats")
        return stats.get("disk", stats)["vector_count"]

    def body(t):
        def go():
            for name, key, uid in plans[t]:
                if name == "store":
                    rec.run(t, name, (key, uid), lambda: storage.store_vector(key, *record(uid, 1 + uid % 7)))
                elif name == "update":
                    rec.run(t, name, (key, uid), lambda: storage.update_vector(key, *record(uid, 1 + uid % 7)))
                elif name == "delete":
                    rec.run(t, name, (key,), lambda: storage.delete_vector(key))
                elif name == "retrieve":
                    rec.run(t, name, (key,), lambda: seen(ctx, storage.retrieve_vector(key)))
                elif name == "list":
                    rec.run(t, name, (), listing)
                else:
                    rec.run(t, name, (), counting)
        return go

    for e in linear.run_threads(ctx, [body(t) for t in range(n_threads)],
                                sleep_chance=ctx.rng.choice([0.0, 0.01, 0.05])):
        raise e
    rec.run(99, "list", (), listing)
    rec.run(99, "stats", (), counting)
    ctx.count("ops", len(rec.ops))
    ctx.count("overlapping_pairs", linear.overlaps(rec.ops))
    ctx.event("whole", kind, [(o.thread, o.name) for o in sorted(rec.ops, key=lambda o: o.start)][:40])
    verdict = linear.linearizable(rec.ops, frozenset(), whole_step)
    ctx.count("whole_judged" if verdict is not None else "whole_undecided")
    ctx.check(verdict is not False, f"{kind}: listings, counts and answers fit no order of the operations",
              history=sorted(rec.ops, key=lambda o: o.start))


def duel(ctx, kind):
    """Two operations on the same ids, the first held up at each of its lines in turn while the second runs."""
    limit = ctx.rng.choice([0, 1, 2, 100])
    storage = stores.opened(ctx, kind, limit=limit)
    keys = gen.ids(ctx, 2)
    uids = iter(range(1, 10 ** 6))
    names = ["store", "update", "update", "delete", "retrieve", "list", "stats"]
    ops = [(ctx.rng.choice(names[:5]), keys[0]), (ctx.rng.choice(names), ctx.rng.choice([keys[0], keys[0], keys[1]]))]
    present = ctx.rng.random() < 0.8
    fresh = stores.make("disk", str(storage.disk_storage.data_dir)) if kind == "hybrid" else None
    if fresh:
        fresh.initialize()
    stride = ctx.rng.choice([1, 1, 2, 3])
    for at in range(ctx.rng.randint(1, stride), 400, stride):
        rec = linear.Recorder()
        state = {}
        for key in keys:
            if present or key == keys[1]:
                state[key] = next(uids)
                storage.store_vector(key, *record(state[key], 3))
            else:
                storage.delete_vector(key)

        def body(t, name, key):
            uid = next(uids)
            if name == "store":
                return lambda: rec.run(t, name, (key, uid), lambda: storage.store_vector(key, *record(uid, 3)))
            if name == "update":
                return lambda: rec.run(t, name, (key, uid), lambda: storage.update_vector(key, *record(uid, 3)))
            if name == "delete":
                return lambda: rec.run(t, name, (key,), lambda: storage.delete_vector(key))
            if name == "retrieve":
                return lambda: rec.run(t, name, (key,), lambda: seen(ctx, storage.retrieve_vector(key)))
            if name == "list":
                return lambda: rec.run(t, name, (), lambda: frozenset(storage.list_vectors()))
            return lambda: rec.run(t, name, (), lambda: stores.count(storage))

        lines, errors = linear.preempted(body(0, *ops[0]), body(1, *ops[1]), at)
        for e in errors:
            raise e
        ctx.event("duel", kind, limit, ops[0][0], ops[1][0], at, lines >= at)
        ctx.count("overlapping_pairs", linear.overlaps(rec.ops))
        for key in keys:
            rec.run(99, "retrieve", (key,), lambda: seen(ctx, storage.retrieve_vector(key)))
        rec.run(99, "list", (), lambda: frozenset(storage.list_vectors()))
        rec.run(99, "stats", (), lambda: stores.count(storage))
        ctx.count("ops", len(rec.ops))
        ctx.check(linear.linearizable(rec.ops, frozenset(state.items()), whole_step) is not False,
                  f"{kind}: two operations at once answer as neither order of them does", limit=limit, at=at,
                  history=sorted(rec.ops, key=lambda o: o.start))
        if fresh:
            for key in keys:
                ctx.check(seen(ctx, storage.retrieve_vector(key)) == seen(ctx, fresh.retrieve_vector(key)),
                          "hybrid: memory and disk disagree after two operations at once", at=at, ops=[o[0] for o in ops])
        if lines < at:
            break


SCENARIOS = {
    "duel-memory": (lambda c: duel(c, "memory"), 6, 200),
    "duel-hybrid": (lambda c: duel(c, "hybrid"), 16, 300),
    "whole-memory": (lambda c: whole(c, "memory"), 40, 600),
    "whole-hybrid": (lambda c: whole(c, "hybrid"), 40, 600),
    "memory": (lambda c: run(c, "memory"), 60, 1200),
    "hybrid": (lambda c: run(c, "hybrid"), 60, 1200),
}

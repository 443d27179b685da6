"""I09: a client shared by threads behaves as if one operation ran at a time."""

import time

import numpy as np

from vmon import gen, indexes, linear, stores

LEVEL = "exploration"
QUICK = 3
RULE = (
    "3-5 threads insert, update, delete, search, count and close through one client over each index kind, delayed at random lines of "
    "the package; every vector carries a unique value in vector and metadata; searches return the whole content, so the "
    "recorded history must be linearizable as operations on one set, and the final content must match; distinct by the "
    "hash of the interleaving; two operations are also run with the first held up at one of its lines while the second runs"
)
REQUIRED = {"ops": 2000, "overlapping_pairs": 500, "judged": 120, "stats": 100, "refused": 100, "duel": 800}
ASSUMPTIONS = ["interleavings come from the interpreter's thread switches and injected delays"]

D = 3


def vector(uid):
    return np.array([float(uid), 1.0, float(uid % 5)])


def snapshot(ctx, kind, results):
    """The content a search saw: {(id, uid)}; each result must be whole."""
    out = set()
    for r in results:
        meta = r["metadata"]
        ctx.check(isinstance(meta, dict) and "uid" in meta, f"{kind}: a result has no metadata", result=r)
        out.add((str(r["id"]), meta["uid"]))
    ctx.check(len({i for i, _ in out}) == len(results), f"{kind}: a result is returned twice", results=results)
    return frozenset(out)


def step(state, op):
    if op.name == "insert":
        ids, uids = op.result, op.args
        if {i for i, _ in state} & set(ids):
            return None
        return (state | frozenset(zip(ids, uids)),)
    known = dict(state)
    if op.name == "update":
        i, uid = op.args
        if bool(op.result) != (i in known):
            return None
        if i not in known:
            return (state,)
        return ((state - {(i, known[i])}) | {(i, uid)},)
    if op.name == "delete":
        if bool(op.result) != all(i in known for i in op.args):
            return None
        return (state - {(i, known[i]) for i in op.args if i in known},)
    if op.name == "search":
        return (state,) if op.result == state else None
    if op.name == "stats":
        return (state,) if set(op.result) == {len(state)} else None
    raise ValueError(op.name)


def run(ctx, kind):
    from valori import VectorDBClient
    from valori.exceptions import ValoriError

    metric = "euclidean"
    cfg = {"metric": metric, "ef_search": 5000, "m": ctx.rng.choice([1, 2, 16]), "n_clusters": 3, "n_probes": 3}
    if kind == "lsh":
        # one bit per table of one projection, many tables: everything is a candidate of most queries
        cfg = {"metric": metric, "hash_size": 1, "num_projections": 64, "num_hash_tables": 64, "threshold": 0.0,
               "random_seed": ctx.rng.randint(0, 99)}
    if kind == "annoy":
        cfg = {"metric": metric, "num_trees": 2}
    storage = stores.opened(ctx, ctx.rng.choice(["memory", "hybrid"]) if kind in indexes.BACKED else "memory",
                            limit=ctx.rng.choice([0, 1, 100]))
    db = VectorDBClient(storage, indexes.classes()[kind](cfg))
    db.initialize()
    rec = linear.Recorder()
    uids = iter(range(1, 10 ** 6))
    start_uids = [next(uids) for _ in range(4)]
    start = rec.run(98, "insert", tuple(start_uids),
                    lambda: db.insert(np.array([vector(x) for x in start_uids]),
                                      [{"uid": x} for x in start_uids]))
    shared = list(start)
    n_threads = ctx.rng.randint(3, 5)
    plans = [[(ctx.rng.choice(["insert", "insert", "update", "delete", "search", "search", "stats"]),
               [next(uids) for _ in range(ctx.rng.choice([1, 2, 3, 8, 20]))], ctx.rng.random())
              for _ in range(ctx.rng.randint(4, 7))] for _ in range(n_threads)]
    searches = kind in indexes.BACKED
    query = vector(0)

    def search():
        return snapshot(ctx, kind, db.search(query, 10 ** 4))

    def counts():
        """Every count of vectors the statistics give."""
        stats = db.get_stats()
        index = stats["index"]
        out = [index["vector_count"] if "vector_count" in index else index["num_vectors"]]
        if kind in indexes.BACKED:
            storage_stats = stats["storage"]
            out.append(storage_stats.get("disk", storage_stats)["vector_count"])
        if index.get("trained") and kind == "ivf":
            out.append(sum(index["cluster_stats"].values()))
        ctx.count("stats")
        return tuple(out)

    def some(r):
        """One or several neighbouring ids."""
        at = int(r * len(shared))
        return sorted(set(shared[at:at + 1 + int(r * 50) % 6]))

    def body(t):
        def go():
            for name, us, r in plans[t]:
                if name == "stats":
                    rec.run(t, name, (), counts)
                elif name == "insert":
                    v = np.array([vector(x) for x in us])
                    ids = rec.run(t, name, tuple(us), lambda: db.insert(v, [{"uid": x} for x in us]))
                    shared.extend(ids)
                elif name == "update":
                    i = shared[int(r * len(shared))]

                    def update():
                        try:
                            return db.update(i, vector(us[0]), {"uid": us[0]})
                        except ValoriError:
                            if kind == "annoy":
                                return False  # its way to report an unknown id
                            raise
                    rec.run(t, name, (i, us[0]), update)
                elif name == "delete":
                    ids = some(r)
                    rec.run(t, name, tuple(ids), lambda: db.delete(ids))
                elif searches:
                    rec.run(t, name, (), search)
                elif kind == "lsh":
                    # what a search finds is whole and once, also in the middle of things
                    snapshot(ctx, kind, db.search(query, 10 ** 4))
        return go

    for e in linear.run_threads(ctx, [body(t) for t in range(n_threads)],
                                sleep_chance=ctx.rng.choice([0.0, 0.01, 0.03])):
        raise e
    if kind == "annoy":
        db.index.build()
    if kind == "lsh":
        # every stored vector is found by itself
        model = {}
        for u in {x for o in rec.ops for x in {"insert": o.args, "update": o.args[1:]}.get(o.name, ())}:
            for r in db.search(vector(u), 10 ** 4):
                model[str(r["id"])] = r["metadata"]["uid"]
        final = frozenset(model.items())
        rec.run(99, "search", (), lambda: final)
    else:
        final = rec.run(99, "search", (), search)
    ctx.count("ops", len(rec.ops))
    ctx.count("overlapping_pairs", linear.overlaps(rec.ops))
    ctx.event("interleaving", kind, [(o.thread, o.name) for o in sorted(rec.ops, key=lambda o: o.start)][:40])
    verdict = linear.linearizable(rec.ops, frozenset(), step)
    ctx.count("judged" if verdict is not None else "undecided")
    ctx.check(verdict is not False, f"{kind}: the answers fit no order of the operations",
              history=sorted(rec.ops, key=lambda o: o.start))
    # afterwards the database is consistent and works
    u = indexes.Under.__new__(indexes.Under)
    u.ctx, u.kind, u.metric, u.index, u.d = ctx, kind, metric, db.index, D
    u.model = {i: (vector(x), {"uid": x}) for i, x in final}
    stats = db.index.get_stats()
    ctx.check(stats.get("vector_count", stats.get("num_vectors")) == len(final), f"{kind}: the count is off",
              stats=stats, stored=len(final))
    for i in sorted(u.model)[:10]:
        q = u.model[i][0]
        results = db.search(q, 10 ** 4)
        u.sound(q, results, 10 ** 4, "after concurrent use")
        ctx.check(i in [str(r["id"]) for r in results], f"{kind}: a vector is not found after concurrent use", id=i)
        if kind != "lsh":
            u.exact(q, results, 10 ** 4, "after concurrent use")
    if kind in indexes.BACKED:
        stores.compare_all(ctx, storage, u.model, f"{kind}: the storage after concurrent use")
    db.close()


REFUSED = "refused"


def closing_step(state, op):
    content, is_open = state
    if op.name == "close":
        return ((content, False),)
    if op.name == "reopened":
        return (state,) if op.result == content else None
    if op.result == REFUSED:
        return None if is_open else (state,)
    if not is_open:
        return None
    after = step(content, op)
    return None if after is None else ((after[0], True),)


def closing(ctx):
    """One thread closes the client among the others: what came before is done, what comes after is refused."""
    from valori import VectorDBClient
    from valori.exceptions import ValoriError

    kind = ctx.rng.choice(sorted(indexes.BACKED))
    where = ctx.rng.choice(["disk", "disk", "hybrid"])
    folder = ctx.scratch()
    cfg = {"metric": "euclidean", "ef_search": 5000, "n_clusters": 3, "n_probes": 3}
    db = VectorDBClient(stores.make(where, folder, ctx.rng.choice([0, 1, 100])), indexes.classes()[kind](cfg))
    db.initialize()
    rec = linear.Recorder()
    uids = iter(range(1, 10 ** 6))
    us = [next(uids) for _ in range(4)]
    shared = list(rec.run(98, "insert", tuple(us), lambda: db.insert(
        np.array([vector(x) for x in us]), [{"uid": x} for x in us])))
    n_threads = ctx.rng.randint(2, 4)
    plans = [[(ctx.rng.choice(["insert", "insert", "update", "delete", "search"]),
               [next(uids) for _ in range(ctx.rng.choice([1, 3, 12]))], ctx.rng.random())
              for _ in range(ctx.rng.randint(3, 6))] for _ in range(n_threads)]
    after = ctx.rng.randint(2, 2 + sum(map(len, plans)))  # ticks

    def attempt(function):
        def go():
            try:
                return function()
            except ValoriError:
                ctx.count("refused")
                return REFUSED
        return go

    def body(t):
        def go():
            for name, us, r in plans[t]:
                i = shared[int(r * len(shared))]
                if name == "insert":
                    v, m = np.array([vector(x) for x in us]), [{"uid": x} for x in us]
                    ids = rec.run(t, name, tuple(us), attempt(lambda: db.insert(v, m)))
                    if ids != REFUSED:
                        shared.extend(ids)
                elif name == "update":
                    rec.run(t, name, (i, us[0]), attempt(lambda: db.update(i, vector(us[0]), {"uid": us[0]})))
                elif name == "delete":
                    ids = sorted(set(shared[int(r * len(shared)):][:1 + int(r * 50) % 6]))
                    rec.run(t, name, tuple(ids), attempt(lambda: db.delete(ids)))
                else:
                    rec.run(t, name, (), attempt(lambda: snapshot(ctx, kind, db.search(vector(0), 10 ** 4))))
        return go

    def close():
        while rec.tick < after:
            time.sleep(0.0001)
        rec.run(97, "close", (), db.close)

    for e in linear.run_threads(ctx, [body(t) for t in range(n_threads)] + [close],
                                sleep_chance=ctx.rng.choice([0.0, 0.01, 0.03])):
        raise e
    again = stores.make(where, folder, 100)
    again.initialize()
    found = frozenset((i, again.retrieve_vector(i)[1]["uid"]) for i in again.list_vectors())
    rec.run(99, "reopened", (), lambda: found)
    ctx.count("ops", len(rec.ops))
    ctx.count("overlapping_pairs", linear.overlaps(rec.ops))
    ctx.event("closing", kind, where, [(o.thread, o.name) for o in sorted(rec.ops, key=lambda o: o.start)][:40])
    verdict = linear.linearizable(rec.ops, (frozenset(), True), closing_step)
    ctx.count("judged" if verdict is not None else "undecided")
    ctx.check(verdict is not False, f"{kind}: a client closed among operations leaves something half done",
              history=sorted(rec.ops, key=lambda o: o.start))
    again.close()


def duel(ctx, kind):
    """Two operations, the first held up at one of its lines while the second runs."""
    from valori import VectorDBClient

    cfg = {"metric": "euclidean", "ef_search": 5000, "m": 2, "n_clusters": 3, "n_probes": 3}
    storage = stores.opened(ctx, ctx.rng.choice(["memory", "hybrid"]), limit=ctx.rng.choice([0, 1, 100]))
    db = VectorDBClient(storage, indexes.classes()[kind](cfg))
    db.initialize()
    uids = iter(range(1, 10 ** 6))

    def search():
        return snapshot(ctx, kind, db.search(vector(0), 10 ** 4))

    def counts():
        stats = db.get_stats()
        parts = stats["storage"]
        return (stats["index"]["vector_count"], parts.get("disk", parts)["vector_count"])

    def operation(t, rec, name, content):
        us = [next(uids) for _ in range(ctx.rng.choice([1, 2, 4]))]
        ids = sorted(i for i, _ in content)
        some = ctx.rng.sample(ids, min(len(ids), ctx.rng.randint(1, 3)))
        if name == "insert" or not some:
            v = np.array([vector(x) for x in us])
            return lambda: rec.run(t, "insert", tuple(us), lambda: db.insert(v, [{"uid": x} for x in us]))
        if name == "update":
            return lambda: rec.run(t, name, (some[0], us[0]), lambda: db.update(some[0], vector(us[0]), {"uid": us[0]}))
        if name == "delete":
            return lambda: rec.run(t, name, tuple(some), lambda: db.delete(some))
        return lambda: rec.run(t, name, (), search if name == "search" else counts)

    content, lines = frozenset(), {}
    for _ in range(25):
        first, second = (ctx.rng.choice(["insert", "update", "delete", "search", "stats"]) for _ in range(2))
        rec = linear.Recorder()
        at = ctx.rng.randint(1, lines.get(first, 30))
        lines[first], errors = linear.preempted(operation(0, rec, first, content), operation(1, rec, second, content), at)
        for e in errors:
            raise e
        ctx.event("duel", kind, first, second, at)
        ctx.count("overlapping_pairs", linear.overlaps(rec.ops))
        final = rec.run(99, "search", (), search)
        rec.run(99, "stats", (), counts)
        ctx.count("ops", len(rec.ops))
        ctx.check(linear.linearizable(rec.ops, content, step) is not False,
                  f"{kind}: two operations at once answer as neither order of them does", at=at, of=lines[first],
                  history=sorted(rec.ops, key=lambda o: o.start))
        content = final
    db.close()


SCENARIOS = {"duel-" + k: ((lambda c, k=k: duel(c, k)), 16, 300) for k in sorted(indexes.BACKED)} | {"closing": (closing, 40, 600)} | {k: ((lambda c, k=k: run(c, k)), 30, 500) for k in indexes.KINDS}

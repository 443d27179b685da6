"""I06: an operation that is refused or fails changes nothing."""

import os

import numpy as np

from vmon import gen, indexes, stores, workload

LEVEL = "fault_enumeration"
QUICK = 5
RULE = (
    "filled indexes of all five kinds are given every kind of bad input (dimension, rank, NaN, infinity, text, complex, "
    "objects, unstorable metadata, unknown ids) and, for the storage-backed ones, a storage that fails at the n-th call "
    "for every n, or a disk that refuses the n-th access of a reading; each must raise the package's error (or report failure), and answers, counts and storage contents are "
    "then compared with those before; distinct by event hash"
)
REQUIRED = {"rejected": 2000, "storage_fault": 600, "after_fault_works": 400, "read_struck": 500}


class Boom(Exception):
    pass


def bad_vectors(ctx, d):
    """Name, value: arrays no index over dimension d can search."""
    good = gen.vectors(ctx, 3, d, "normal", "float64")

    def spoiled(x):
        v = good.copy()
        v[ctx.rng.randrange(3), ctx.rng.randrange(d)] = x
        return v

    return [
        ("one-dimensional", good[0]),
        ("three-dimensional", good[None]),
        ("wider", np.hstack([good, good[:, :1]])),
        ("narrower", good[:, :-1]),
        ("nan", spoiled(np.nan)),
        ("inf", spoiled(np.inf)),
        ("-inf", spoiled(-np.inf)),
        ("text", good.astype(str)),
        ("complex", good.astype(complex) * 1j),
        ("objects", np.array([[object()] * d] * 3, dtype=object)),
    ]


def state(u, queries):
    s = [u.index.get_stats()["vector_count"] if u.kind in indexes.BACKED else u.index.get_stats()["num_vectors"]]
    s += [u.answers(q) for q in queries]
    if u.kind in indexes.BACKED:
        s.append(sorted(u.storage.list_vectors()))
    return s


def same_state(ctx, u, queries, before, what):
    after = state(u, queries)
    ctx.check(gen.same(before, after), f"{u.kind}: {what} changed what the index answers or counts",
              before=before, after=after)


def rejected(ctx, kind):
    from valori.exceptions import ValoriError

    d = ctx.rng.randint(2, 8)
    skind = ctx.rng.choice(stores.KINDS)
    u = indexes.Under(ctx, kind, d, exact_config(ctx, kind), stores.opened(ctx, skind, limit=3))
    ctx.event("config", skind, u.config, d)
    empty_first = ctx.rng.random() < 0.3
    ids = []
    if not empty_first:
        ids = u.insert(gen.vectors(ctx, ctx.rng.randint(3, 10), d, "normal", "float64"))
    queries = [gen.vectors(ctx, 1, d, "normal", "float64")[0] for _ in range(2)]
    u.ready()
    before = state(u, queries)

    for name, bad in bad_vectors(ctx, d):
        if empty_first and name in ("wider", "narrower"):
            continue  # nothing has set the dimension yet
        if name == "complex" and kind in ("lsh", "annoy"):
            continue  # these take any numbers, and use the real part
        meta = [gen.metadata(ctx, j) for j in range(len(bad))] if ctx.rng.random() < 0.5 else None
        ctx.raises(ValoriError, lambda: u.index.insert(bad, meta), f"{kind}: inserting {name} vectors")
        ctx.event("rejected", "insert", name)
        same_state(ctx, u, queries, before, f"a refused insert ({name})")
        if ids:
            if name == "one-dimensional":
                v = gen.vectors(ctx, 2, d, "normal", "float64")
            elif name == "three-dimensional":
                v = np.float64(3.0) * np.ones((1, d, 1))
            else:
                bad_rows = [r for r in bad if kind_of_bad(r, d)]
                v = bad_rows[0]
            i = ctx.rng.choice(ids)
            refused_update(ctx, u, i, v, name)
            same_state(ctx, u, queries, before, f"a refused update ({name})")
            if name not in ("one-dimensional", "three-dimensional") and kind in ("lsh", "annoy"):
                ctx.raises(ValoriError, lambda: u.index.search(v, 3), f"{kind}: searching for a {name} vector")
                same_state(ctx, u, queries, before, f"a refused search ({name})")
                ctx.event("rejected", "search", name)
            ctx.raises(ValoriError, lambda: u.index.search(np.ones((2, d)), 3),
                       f"{kind}: searching for a matrix")
    if kind in ("lsh", "annoy"):
        v = gen.vectors(ctx, 3, d, "normal", "float64")
        ctx.raises(ValoriError, lambda: u.index.insert(v, [{}]), f"{kind}: fewer metadata than vectors")
        same_state(ctx, u, queries, before, "an insert with too few metadata")
    if ids:
        unknown = ["no-such-id", "123456", "-1"]
        ctx.check(u.index.delete(unknown) is False, f"{kind}: deleting unknown ids reports success")
        same_state(ctx, u, queries, before, "deleting unknown ids")
        for i in unknown:
            try:
                ok = u.index.update(i, gen.vectors(ctx, 1, d, "normal", "float64")[0], {})
            except ValoriError:
                ok = False
            ctx.check(ok is False, f"{kind}: updating an unknown id reports success", id=i)
        same_state(ctx, u, queries, before, "updating unknown ids")
    ctx.check(u.index.insert(np.zeros((0, d)), []) == [], f"{kind}: inserting nothing returns ids")
    same_state(ctx, u, queries, before, "inserting nothing")
    # the index goes on working
    more = u.insert(gen.vectors(ctx, 3, d, "normal", "float64"), [{"n": j} for j in range(3)])
    for i in more:
        results = u.search(u.model[i][0], len(u.model))
        u.sound(u.model[i][0], results, len(u.model), "after refused operations")
        ctx.check(i in [str(r["id"]) for r in results], f"{kind}: a vector inserted after refusals is not found")
    ctx.count("after_fault_works")


def kind_of_bad(row, d):
    if row.shape != (d,):
        return True
    if row.dtype.kind not in "fiu":
        return True
    return not np.isfinite(row).all()


def refused_update(ctx, u, i, v, name):
    from valori.exceptions import ValoriError

    try:
        ok = u.index.update(i, v, {"refused": True})
    except ValoriError:
        ok = False
    ctx.check(ok is False, f"{u.kind}: updating with a {name} vector reports success", vector=v)
    ctx.event("rejected", "update", name)


def exact_config(ctx, kind):
    extra = {"ef_search": 1000} if kind == "hnsw" else {"n_probes": 10, "n_clusters": 4} if kind == "ivf" else {}
    return indexes.config(ctx, kind, **extra)


class Faulty:
    """A storage that fails at its n-th writing call, before or after doing it."""

    def __init__(self, inner):
        self.inner = inner
        self.armed = None
        self.late = False
        self.calls = 0
        self.reads = False

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def _fail(self, function, *args):
        if self.armed is None:
            return function(*args)
        n = self.calls
        self.calls += 1
        if n == self.armed:
            self.armed = None
            if self.late:
                function(*args)
            from valori.exceptions import StorageError

            raise StorageError("injected")
        return function(*args)

    def retrieve_vector(self, *args):
        return self._fail(self.inner.retrieve_vector, *args) if self.reads else self.inner.retrieve_vector(*args)

    def list_vectors(self, *args):
        return self._fail(self.inner.list_vectors, *args) if self.reads else self.inner.list_vectors(*args)

    def store_vector(self, *args):
        return self._fail(self.inner.store_vector, *args)

    def update_vector(self, *args):
        return self._fail(self.inner.update_vector, *args)

    def delete_vector(self, *args):
        return self._fail(self.inner.delete_vector, *args)


def storage_fault(ctx, kind):
    """The storage fails at the n-th write of a batch: the whole insert is undone."""
    from valori.exceptions import ValoriError

    d = ctx.rng.randint(2, 6)
    inner = stores.opened(ctx, ctx.rng.choice(stores.KINDS), limit=3)
    storage = Faulty(inner)
    u = indexes.Under(ctx, kind, d, exact_config(ctx, kind), storage)
    start = ctx.rng.choice([0, 2, 8])
    if start:
        u.insert(gen.vectors(ctx, start, d, "normal", "float64"))
    queries = [gen.vectors(ctx, 1, d, "normal", "float64")[0] for _ in range(2)]
    ctx.event("config", u.config, start)
    n = ctx.rng.randint(1, 6)
    for point in range(n):
        before = state(u, queries)
        # one that fails late has written: the undo must take that back as well
        storage.armed, storage.late, storage.calls = point, ctx.rng.random() < 0.5, 0
        batch = gen.vectors(ctx, n, d, "normal", "float64")
        ctx.raises(ValoriError, lambda: u.index.insert(batch, [{"j": j} for j in range(n)]),
                   f"{kind}: insert although the storage failed")
        storage.armed = None
        ctx.event("storage_fault", "insert", point, n, storage.late)
        same_state(ctx, u, queries, before, f"an insert whose storage failed at vector {point} of {n}")
    if u.model:
        i = ctx.rng.choice(sorted(u.model))
        before = state(u, queries)
        storage.armed, storage.late, storage.calls = 0, False, 0
        ctx.raises(ValoriError, lambda: u.index.update(i, np.ones(d), {}),
                   f"{kind}: update although the storage failed")
        storage.armed = None
        ctx.event("storage_fault", "update")
        same_state(ctx, u, queries, before, "an update whose storage failed")
    fault_in_change(ctx, u, storage, queries)
    # the same insert now succeeds, and everything is found
    u.insert(batch)
    q = queries[0]
    results = u.search(q, 100)
    u.sound(q, results, 100, "after storage faults")
    u.exact(q, results, 100, "after storage faults")
    ctx.check(sorted(inner.list_vectors()) == sorted(u.model), f"{kind}: the storage holds other records than the index",
              listed=inner.list_vectors(), want=list(u.model))
    ctx.count("after_fault_works")


def fault_in_change(ctx, u, storage, queries):
    """Deletions and updates whose storage fails before or after doing what it was told: the index follows it."""
    from valori.exceptions import ValoriError

    for _ in range(3):
        if not u.model:
            return
        op = ctx.rng.choice(["delete", "delete", "update"])
        ids = ctx.rng.sample(sorted(u.model), ctx.rng.randint(1, min(4, len(u.model))) if op == "delete" else 1)
        point = ctx.rng.randrange(len(ids))
        before = state(u, queries)
        v = gen.vectors(ctx, 1, u.d, "normal", "float64")[0]
        storage.armed, storage.late, storage.calls = point, ctx.rng.random() < 0.5, 0
        ctx.raises(ValoriError, lambda: u.index.delete(ids) if op == "delete" else u.index.update(ids[0], v, {"u": 1}),
                   f"{u.kind}: {op} although the storage failed")
        late, storage.armed = storage.late, None
        ctx.event("storage_fault", op, point, len(ids), late)
        if not late and point == 0:
            same_state(ctx, u, queries, before, f"a {op} whose storage failed")
        # those before the failure are done, the one it struck is as the storage has it, the rest untouched
        done = point + (1 if late else 0)
        if op == "delete":
            for i in ids[:done]:
                del u.model[i]
        elif late:
            u.model[ids[0]] = (v, {"u": 1})
        name = f"after a {op} whose storage failed " + ("late" if late else "early")
        ctx.check(workload.count(u) == len(u.model), f"{u.kind}: the count is off {name}", got=workload.count(u),
                  want=len(u.model), ids=ids, point=point)
        for q in queries:
            results = u.search(q, 100)
            u.sound(q, results, 100, name)
            u.exact(q, results, 100, name)


def unstorable(ctx, kind):
    """Metadata that cannot be written, in the middle of a batch on disk."""
    import threading

    from valori.exceptions import ValoriError

    d = 3
    u = indexes.Under(ctx, kind, d, exact_config(ctx, kind),
                      stores.opened(ctx, ctx.rng.choice(["disk", "hybrid"]), limit=ctx.rng.choice([0, 2])))
    u.insert(gen.vectors(ctx, 5, d, "normal", "float64"), [{"n": j} for j in range(5)])
    queries = [gen.vectors(ctx, 1, d, "normal", "float64")[0]]
    before = state(u, queries)
    n = ctx.rng.randint(1, 5)
    bad = ctx.rng.randrange(n)
    meta = [{"ok": j} for j in range(n)]
    meta[bad] = {"lock": threading.Lock()}
    ctx.raises(ValoriError, lambda: u.index.insert(gen.vectors(ctx, n, d, "normal", "float64"), meta),
               f"{kind}: inserting metadata that cannot be stored")
    ctx.event("rejected", "metadata", kind, n, bad)
    same_state(ctx, u, queries, before, "an insert with metadata that cannot be stored")
    i = ctx.rng.choice(sorted(u.model))
    ctx.raises(ValoriError, lambda: u.index.update(i, np.ones(d), {"lock": threading.Lock()}),
               f"{kind}: updating with metadata that cannot be stored")
    same_state(ctx, u, queries, before, "an update with metadata that cannot be stored")


def unknown_metric(ctx, kind):
    """A metric the index does not know is refused before it answers anything."""
    from valori.exceptions import ValoriError

    d = ctx.rng.randint(1, 5)
    metric = ctx.rng.choice(["", "none", "Cosine ", "euclid", "mahalanobis", "l3"])
    v = gen.vectors(ctx, ctx.rng.randint(1, 6), d, "normal", "float64")

    def use():
        index = indexes.classes()[kind]({"metric": metric, "n_clusters": ctx.rng.choice([1, 100])})
        index.initialize(stores.opened(ctx, "memory"))
        index.insert(v, [{} for _ in v])
        if kind == "annoy":
            index.build()
        return index.search(v[0], 3)

    ctx.raises(ValoriError, use, f"{kind}: searching by an unknown metric", metric=metric)
    ctx.event("rejected", "metric", kind, metric)


def read_fault(ctx, kind):
    """The storage fails at the n-th reading call of a search or an initialization."""
    from valori.exceptions import ValoriError

    d = ctx.rng.randint(2, 6)
    inner = stores.opened(ctx, ctx.rng.choice(stores.KINDS), limit=3)
    storage = Faulty(inner)
    cfg = exact_config(ctx, kind)
    u = indexes.Under(ctx, kind, d, cfg, storage)
    u.insert(gen.vectors(ctx, ctx.rng.randint(2, 9), d, "normal", "float64"))
    queries = [gen.vectors(ctx, 1, d, "normal", "float64")[0] for _ in range(2)]
    ctx.event("config", u.config)
    for point in range(14):
        if ctx.rng.random() < 0.5:
            # an index that reads everything from the storage
            storage.armed, storage.late, storage.calls, storage.reads = point, False, 0, True
            try:
                u.index.initialize(storage)
            except ValoriError:
                ctx.event("storage_fault", "initialize", point)
                storage.armed = None
                u.index.initialize(storage)
        before = None if storage.armed is not None else state(u, queries)
        q, k = queries[0], ctx.rng.choice([1, 3, 100])
        storage.reads = True
        if storage.armed is None:
            storage.armed, storage.late, storage.calls = point, False, 0
        try:
            results = u.index.search(q, k)
        except ValoriError:
            results = None
            ctx.event("storage_fault", "search", point)
        struck = storage.armed is None
        storage.armed, storage.reads = None, False
        if results is not None:
            u.sound(q, results, k, "although the storage failed at a reading call")
            u.exact(q, results, k, "although the storage failed at a reading call")
        if before is not None:
            same_state(ctx, u, queries, before, "a search whose storage failed")
        for q in queries:
            results = u.search(q, 100)
            u.sound(q, results, 100, "after the storage failed at a reading call")
            u.exact(q, results, 100, "after the storage failed at a reading call")
        ctx.count("read_struck", int(struck))
    ctx.check(workload.count(u) == len(u.model), f"{kind}: the count is off after reading failures", got=workload.count(u))


SCENARIOS = {
    **{f"read-fault-{k}": ((lambda c, k=k: read_fault(c, k)), 20, 200) for k in indexes.BACKED},
    **{f"metric-{k}": ((lambda c, k=k: unknown_metric(c, k)), 6, 60) for k in indexes.KINDS},
    **{f"rejected-{k}": ((lambda c, k=k: rejected(c, k)), 40, 500) for k in indexes.KINDS},
    **{f"fault-{k}": ((lambda c, k=k: storage_fault(c, k)), 80, 900) for k in indexes.BACKED},
    **{f"unstorable-{k}": ((lambda c, k=k: unstorable(c, k)), 20, 200) for k in indexes.BACKED},
}

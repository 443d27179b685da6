"""S03: what disk and hybrid storage acknowledged is there after a restart."""

import os
import pickle

import numpy as np

from vmon import faults, gen, stores

LEVEL = "exploration"
QUICK = 5
RULE = (
    "random histories on disk and hybrid storage cut by restarts of three kinds (closed and opened again, "
    "abandoned without closing, the process killed right after the last answer); after each, every record, the "
    "listing and the count are compared with the acknowledged operations; openings, readings and listings whose n-th "
    "access is refused by the system must raise or answer truly; distinct by event hash"
)
REQUIRED = {"restart-close": 60, "restart-abandon": 60, "restart-kill": 60, "meanwhile": 20, "refused": 400}


def one(ctx, storage, model, pool, step):
    op = ctx.rng.choice(["store", "store", "update", "delete", "retrieve"])
    i = ctx.rng.choice(pool)
    ctx.event(op, i)
    if op in ("store", "update"):
        v, m = stores.value(ctx, step)
        ok = storage.store_vector(i, v, m) if op == "store" else storage.update_vector(i, v, m)
        if ok:
            model[i] = (v, m)
    elif op == "delete":
        if storage.delete_vector(i):
            model.pop(i, None)
    else:
        stores.compare(ctx, storage.retrieve_vector(i), model.get(i), op, id=i)


def history(ctx, kind):
    folder = ctx.scratch()
    # the other backend must find the same records: both keep the documented layout on disk
    limit = ctx.rng.choice([0, 1, 3, 100])
    pool = gen.ids(ctx, ctx.rng.randint(2, 10))
    model = {}
    storage = stores.opened(ctx, kind, folder, limit)
    for round_ in range(ctx.rng.randint(2, 5)):
        n = ctx.rng.randint(1, 15)
        how = ctx.rng.choice(["close", "abandon", "kill"])
        if how == "kill":
            # a child process does the work, reports what was acknowledged, and dies
            storage.close()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    s = stores.opened(ctx, kind, folder, limit)
                    for step in range(n):
                        one(ctx, s, model, pool, (round_, step))
                    with os.fdopen(wfd, "wb") as f:
                        # (pickling an array may change its byte order)
                        plain = {i: ((v.dtype.str, v.shape, v.tobytes()), m) for i, (v, m) in model.items()}
                        pickle.dump((plain, ctx.rng.getstate()), f)
                except BaseException as e:
                    try:
                        os.write(wfd, pickle.dumps(e))
                    except BaseException:
                        pass
                os._exit(9)
            os.close(wfd)
            with os.fdopen(rfd, "rb") as f:
                got = pickle.load(f)
            os.waitpid(pid, 0)
            if isinstance(got, BaseException):
                raise got
            plain, state = got
            model = {i: (np.frombuffer(raw, dtype).reshape(shape), m) for i, ((dtype, shape, raw), m) in plain.items()}
            ctx.rng.setstate(state)
        else:
            for step in range(n):
                one(ctx, storage, model, pool, (round_, step))
            if how == "close":
                storage.close()
        ctx.event(f"restart-{how}", round_)
        kind = kind if ctx.rng.random() < 0.8 else ctx.rng.choice(["disk", "hybrid"])
        storage = stores.opened(ctx, kind, folder, limit)
        stores.compare_all(ctx, storage, model, f"{kind}: after a restart ({how})",
                           [x for x in pool if x not in model])
        ctx.state(how, len(model))


def same_object(ctx):
    """Closing and initializing the same object is a restart, too."""
    folder = ctx.scratch()
    kind = ctx.rng.choice(["disk", "hybrid"])
    storage = stores.opened(ctx, kind, folder, ctx.rng.choice([0, 1, 100]))
    pool = gen.ids(ctx, 5)
    model = {}
    for round_ in range(3):
        for step in range(ctx.rng.randint(1, 8)):
            one(ctx, storage, model, pool, (round_, step))
        if ctx.rng.random() < 0.7:
            storage.close()
            if ctx.rng.random() < 0.5:
                # meanwhile somebody else works on the same directory
                other = stores.opened(ctx, ctx.rng.choice(["disk", "hybrid"]), folder, 100)
                for step in range(ctx.rng.randint(1, 4)):
                    one(ctx, other, model, pool, (round_, "other", step))
                other.close()
                ctx.count("meanwhile")
        storage.initialize()
        ctx.event("reinitialize", round_)
        stores.compare_all(ctx, storage, model, f"{kind}: after initializing again",
                           [x for x in pool if x not in model])


def client(ctx):
    """A database made with create_vector_db over disk comes back with its vectors."""
    import numpy as np
    from valori import VectorDBClient
    from vmon import indexes

    folder = ctx.scratch()
    skind = ctx.rng.choice(["disk", "hybrid"])
    d = ctx.rng.randint(1, 6)
    metric = ctx.rng.choice(["cosine", "euclidean"])
    model = {}
    for round_ in range(3):
        kind = ctx.rng.choice(["flat", "hnsw", "ivf"])
        cfg = {"metric": metric, "n_clusters": 3, "n_probes": 3, "ef_search": 200}
        db = VectorDBClient(stores.make(skind, folder, ctx.rng.choice([1, 100])),
                            indexes.classes()[kind](cfg))
        db.initialize()
        under = indexes.Under.__new__(indexes.Under)
        under.ctx, under.kind, under.metric, under.model = ctx, kind, metric, model
        q = gen.vectors(ctx, 1, d, style="normal", dtype="float64")[0]
        results = db.search(q, 100)
        under.sound(q, results, 100, "after a restart")
        under.exact(q, results, 100, "after a restart")
        ctx.event("client-restart", kind, len(model))
        n = ctx.rng.randint(1, 6)
        v = gen.vectors(ctx, n, d, style="normal", dtype="float64")
        m = [gen.metadata(ctx, (round_, j)) for j in range(n)]
        keep = gen.snapshot(m)
        for j, i in enumerate(db.insert(v, m)):
            model[i] = (v[j].copy(), keep[j])
        gone = ctx.rng.sample(sorted(model), ctx.rng.randint(0, min(2, len(model))))
        if gone:
            ctx.check(db.delete(gone), "deleting known ids failed", ids=gone)
            for i in gone:
                del model[i]
        if model and ctx.rng.random() < 0.6:
            i = ctx.rng.choice(sorted(model))
            nv, nm = np.array(v[0]) * 2 + 1, gen.metadata(ctx, "upd")
            ctx.check(db.update(i, nv, nm), "updating a known id failed", id=i)
            model[i] = (nv.copy(), gen.snapshot(nm))
        if ctx.rng.random() < 0.7:
            db.close()


def refused_access(ctx, kind):
    """The operating system refuses one access to the directory: what is asked fails, or is answered truly."""
    from valori.exceptions import StorageError

    folder = ctx.scratch()
    limit = ctx.rng.choice([0, 1, 3, 100])
    pool = gen.ids(ctx, ctx.rng.randint(2, 6))
    model = {}
    storage = stores.opened(ctx, kind, folder, limit)
    for step in range(ctx.rng.randint(1, 10)):
        one(ctx, storage, model, pool, step)
    for point in range(60):
        i = ctx.rng.choice(pool)
        v, m = stores.value(ctx, ("refused", point))
        fresh = stores.make(kind, folder, limit) if ctx.rng.random() < 0.6 else None
        kept = fresh or storage
        order = ["list", "retrieve", "count", "store", "update", "delete"]
        ctx.rng.shuffle(order)
        where = f"{kind}: an access to the directory was refused"
        opened = fresh is None
        either = set()  # what a failed write may have done or not
        with faults.hampered(folder, point) as plan:
            for op in (["open"] if fresh else []) + order[: ctx.rng.randint(1, 6)]:
                try:
                    if op == "open":
                        kept.initialize()
                        opened = True
                    elif not opened:
                        continue
                    elif op == "list":
                        got = kept.list_vectors()
                        ctx.check(sorted(got) == sorted(model), f"{where}: a listing shows other records than there are",
                                  listed=got, want=sorted(model), access=point)
                    elif op == "retrieve":
                        stores.compare(ctx, kept.retrieve_vector(i), model.get(i), where, id=i, access=point)
                    elif op == "count":
                        stats = kept.get_stats()
                        stats = stats.get("disk", stats)
                        ctx.check("error" in stats or stats["vector_count"] == len(model), f"{where}: the count is wrong",
                                  stats=stats, want=len(model), access=point)
                    elif op == "delete":
                        either.add(i)
                        done = kept.delete_vector(i)
                        either.discard(i)
                        ctx.check(done == (i in model), f"{where}: a deletion reports wrongly", id=i, done=done)
                        model.pop(i, None)
                    else:
                        either.add(i)
                        done = kept.store_vector(i, v, m) if op == "store" else kept.update_vector(i, v, m)
                        either.discard(i)
                        ctx.check(done == (op == "store" or i in model), f"{where}: a write reports wrongly", id=i, done=done)
                        if done:
                            model[i] = (v, m)
                except StorageError:
                    ctx.event("refused", kind, op, point)
                    if op == "delete" or op in ("store", "update"):
                        break
        if not opened:
            kept.initialize()
        else:
            kept = kept if ctx.rng.random() < 0.5 else stores.opened(ctx, kind, folder, limit)
        for j in either:
            got = kept.retrieve_vector(j)
            old = model.get(j)
            if got is None:
                ctx.check(old is None or op == "delete", f"{where}: a record is lost by a write that failed", id=j, op=op)
                model.pop(j, None)
            elif old is None or not gen.same_vector(got[0], old[0]):
                stores.compare(ctx, got, None if op == "delete" else (v, m), f"{where}: after a failed {op}", id=j)
                model[j] = (v, m)
        stores.compare_all(ctx, kept, model, f"{where}: afterwards", [x for x in pool if x not in model])
        storage = kept
        if not plan["struck"]:
            break


SCENARIOS = {
    "refused-access-disk": (lambda c: refused_access(c, "disk"), 40, 500),
    "refused-access-hybrid": (lambda c: refused_access(c, "hybrid"), 40, 500),
    "disk": (lambda c: history(c, "disk"), 80, 1000),
    "hybrid": (lambda c: history(c, "hybrid"), 80, 1000),
    "same-object": (same_object, 60, 600),
    "client": (client, 60, 600),
}

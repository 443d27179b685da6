"""S02: what is stored is a private copy, and so is what is handed out."""

import numpy as np

from vmon import gen, stores

LEVEL = "exploration"
QUICK = 6
RULE = (
    "records with nested metadata and arrays of every dtype are stored, updated, read and searched while the "
    "caller scribbles over every object it passed in or got back; contents are compared with deep copies taken "
    "before; non-trivial when at least one comparison was made, distinct by event hash"
)
REQUIRED = {"scribble_in": 1500, "scribble_out": 1500, "index_scribble_in": 300, "index_scribble_out": 300, "held": 500, "large": 2000, "churned": 200}


def storage(ctx, kind):
    s = stores.opened(ctx, kind, limit=ctx.rng.choice([0, 1, 3, 100]) if kind == "hybrid" else None)
    pool = gen.ids(ctx, 5)
    model = {}
    held = []
    for step in range(ctx.rng.randint(10, 30)):
        i = ctx.rng.choice(pool)
        op = ctx.rng.choice(["store", "update", "retrieve", "retrieve"])
        if op in ("store", "update"):
            v, m = stores.value(ctx, step)
            v = np.array(v)
            if m is not None and ctx.rng.random() < 0.3:
                m["arr"] = np.arange(3.0)
            if ctx.rng.random() < 0.1 and step < 20:  # a large one
                v = ctx.np.normal(size=ctx.rng.choice([5000, 10000]))
                if i in model and model[i][0].size > 1000:
                    v = ctx.np.normal(size=model[i][0].shape).astype(model[i][0].dtype)
            keep = (gen.snapshot(v), gen.snapshot(m))
            done = s.store_vector(i, v, m) if op == "store" else s.update_vector(i, v, m)
            ctx.check(gen.same_vector(v, keep[0]) and gen.same(m, keep[1]),
                      f"{kind}: {op} altered an object the caller passed in", id=i, vector=v, metadata=m)
            if done:
                model[i] = keep
            gen.scribble(ctx, v)
            gen.scribble(ctx, m)
            ctx.event("scribble_in", kind, op, i)
            stores.compare(ctx, s.retrieve_vector(i), model.get(i),
                           f"{kind}: after the caller changed what it had passed to {op}", id=i)
        else:
            got = s.retrieve_vector(i)
            stores.compare(ctx, got, model.get(i), f"{kind}: {op}", id=i)
            if got is None:
                continue
            if ctx.rng.random() < 0.4:  # what is not scribbled over stays as it was handed out
                held.append((got, gen.snapshot(got)))
                ctx.count("held")
                continue
            gen.scribble(ctx, got[0])
            gen.scribble(ctx, got[1])
            ctx.event("scribble_out", kind, i)
            stores.compare(ctx, s.retrieve_vector(i), model.get(i),
                           f"{kind}: after the caller changed what it had been handed", id=i)
        listed, other = s.list_vectors(), s.list_vectors()
        listed.append("SCRIBBLED")
        del listed[: len(listed) // 2]
        ctx.check(sorted(other) == sorted(model), f"{kind}: a change to one listing shows in another", got=other)
        gen.scribble(ctx, s.get_stats())
        stores.compare_all(ctx, s, model, f"{kind}: after the caller changed a listing")
        for got, keep in held:
            ctx.check(gen.same_vector(got[0], keep[0]) and gen.same(got[1], keep[1]),
                      f"{kind}: a record handed out earlier changes when another operation is made", got=got, was=keep, op=op)


def large(ctx, kind):
    """Large vectors, updated in the same shape and type while the caller still holds them."""
    s = stores.opened(ctx, kind, limit=ctx.rng.choice([0, 1, 3]) if kind == "hybrid" else None)
    n = ctx.rng.choice([100, 1000, 9000, 20000])
    held, model = [], {}
    for step in range(12):
        i = ctx.rng.choice("ab")
        v, m = ctx.np.normal(size=n), {"n": step, "notes": ["x" * n]}
        keep = gen.snapshot((v, m))
        if ctx.rng.random() < 0.7 and i in model:
            s.update_vector(i, v, m)
        else:
            s.store_vector(i, v, m)
        model[i] = keep
        if ctx.rng.random() < 0.5:
            gen.scribble(ctx, v)
            gen.scribble(ctx, m)
        got = s.retrieve_vector(i)
        ctx.event("large", kind, n, i)
        stores.compare(ctx, got, keep, f"{kind}: large vectors", id=i)
        if ctx.rng.random() < 0.3 and got[0].flags.writeable:
            gen.scribble(ctx, got[0])
            gen.scribble(ctx, got[1])
            stores.compare(ctx, s.retrieve_vector(i), keep, f"{kind}: after the caller changed a large one", id=i)
        else:
            held.append((got, keep))
        for got, keep in held:
            ctx.check(gen.same_vector(got[0], keep[0]) and gen.same(got[1], keep[1]),
                      f"{kind}: a large record handed out earlier changes with another operation", id=i, n=n)


def index(ctx, kind):
    from vmon import indexes

    d = ctx.rng.randint(2, 8)
    ix = indexes.Under(ctx, kind, d)
    ctx.event("index", d, ix.config)
    ids = []
    dtype = ctx.rng.choice(["float64", "float64", "float32"])
    for round_ in range(3):
        n = ctx.rng.randint(1, 12)
        v = gen.vectors(ctx, n, d, style="normal", dtype=dtype)
        m = [gen.metadata(ctx, f"{round_}-{j}") for j in range(n)]
        if ctx.rng.random() < 0.3:
            m[0]["arr"] = np.arange(3.0)
        keep = gen.snapshot((v, m))
        # an array that owns its data, or a view of one the caller goes on using
        base = np.vstack([v, v])
        passed = base[:n] if ctx.rng.random() < 0.5 else base[:n].copy()
        ids += ix.insert(passed, m)
        ctx.check(gen.same_vector(passed, keep[0]) and gen.same(m, keep[1]),
                  f"{kind}: insert altered an object the caller passed in")
        queries = [gen.vectors(ctx, 1, d, style="normal", dtype=dtype)[0], keep[0][0].copy()]
        before = [ix.answers(q) for q in queries]
        gen.scribble(ctx, passed)
        gen.scribble(ctx, base)
        gen.scribble(ctx, m)
        churn(ctx, ix, dtype)
        ctx.event("index_scribble_in", kind, round_)
        compare(ctx, kind, before, [ix.answers(q) for q in queries],
                "after the caller changed what it had inserted")
        for j, i in enumerate(ids[-n:]):
            ix.model[i] = (keep[0][j], keep[1][j])
        got = [ix.search(q, 50) for q in queries]
        for results in got:
            gen.scribble(ctx, results)
        ctx.event("index_scribble_out", kind, round_)
        compare(ctx, kind, before, [ix.answers(q) for q in queries],
                "after the caller changed search results")
        for q in queries:
            keep_q = q.copy()
            ix.search(q, 5)
            ctx.check(gen.same_vector(q, keep_q), f"{kind}: search altered the query")
        i = ctx.rng.choice(ids)
        nv, nm = gen.vectors(ctx, 1, d, style="normal", dtype=dtype)[0].copy(), gen.metadata(ctx, f"u{round_}")
        keep = gen.snapshot((nv, nm))
        ix.update(i, nv, nm)
        before = [ix.answers(q) for q in queries]
        gen.scribble(ctx, nv)
        gen.scribble(ctx, nm)
        churn(ctx, ix, dtype)
        ix.model[i] = keep
        compare(ctx, kind, before, [ix.answers(q) for q in queries],
                "after the caller changed what it had passed to update")
        gen.scribble(ctx, ix.index.get_stats())
        gone = ctx.rng.choice(ids)
        listing = [gone]
        ix.delete(listing)
        ids.remove(gone)
        ctx.check(listing == [gone], f"{kind}: delete altered the list of ids")


def churn(ctx, ix, dtype):
    """Make an index whose answers do not depend on its history build itself again."""
    if ix.kind in ("flat", "lsh", "annoy") and ctx.rng.random() < 0.5:
        ix.delete(ix.insert(gen.vectors(ctx, 1, ix.d, style="normal", dtype=dtype), [{"gone": True}]))
        ctx.count("churned")


def compare(ctx, kind, before, after, what):
    ctx.check(gen.same(before, after), f"{kind}: search answers differ {what}", before=before, after=after)


SCENARIOS = {
    **{f"storage-{k}": ((lambda c, k=k: storage(c, k)), 100, 1200) for k in stores.KINDS},
    **{f"large-{k}": ((lambda c, k=k: large(c, k)), 10, 150) for k in stores.KINDS},
    **{f"index-{k}": ((lambda c, k=k: index(c, k)), 50, 500) for k in ["flat", "hnsw", "ivf", "lsh", "annoy"]},
}

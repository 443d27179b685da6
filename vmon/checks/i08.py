"""I08: an Annoy index answers for exactly what it holds, through build, change, save and load."""

import os

import numpy as np

from vmon import gen, indexes, workload

LEVEL = "exploration"
QUICK = 8
RULE = (
    "random histories of insert, update, delete, build, save, load and clear on Annoy indexes (in memory and on disk, "
    "four metrics), with an oracle for which vectors must be returned at full search effort, for their similarity and "
    "metadata, and for when a search must be refused; distinct by event hash"
)
REQUIRED = {"search": 1200, "build": 300, "saveload": 200, "unbuilt": 200, "damaged": 100}


def config(ctx):
    return indexes.config(ctx, "annoy", metric=ctx.rng.choice(["angular", "euclidean", "manhattan"]))


def judge(ctx, u, where="", n=3, style="normal", dtype="float64"):
    for _ in range(n):
        q = workload.query(ctx, u, style, dtype)
        k = ctx.rng.choice([1, 2, 5, 100])
        results = u.index.search(q, k)
        u.sound(q, results, k, where)
        u.exact(q, results, k, where)
        ctx.count("search")


def unbuilt(ctx, u):
    from valori.exceptions import ValoriIndexError

    ctx.raises(ValoriIndexError, lambda: u.index.search(np.ones(u.d), 3),
               "annoy: a search although vectors were added or changed since the last build")
    ctx.count("unbuilt")


def history(ctx):
    d = ctx.rng.randint(2, 12)
    u = indexes.Under(ctx, "annoy", d, config(ctx))
    style = ctx.rng.choice(["normal", "uniform", "ties", "ints", "clusters"])
    dtype = ctx.rng.choice(["float64", "float32"])
    ctx.event("config", d, u.config, style)
    built = False
    for step in range(ctx.rng.randint(12, 30)):
        op = ctx.rng.choice(["insert", "insert", "update", "delete", "build", "build", "search"])
        ids = list(u.model)
        if op == "insert":
            n = ctx.rng.randint(1, 8)
            u.insert(gen.vectors(ctx, n, d, style, dtype), [gen.metadata(ctx, (step, j)) for j in range(n)])
            built = False
        elif op == "update" and ids:
            u.update(ctx.rng.choice(ids), gen.vectors(ctx, 1, d, style, dtype)[0],
                     gen.metadata(ctx, ("u", step)) if ctx.rng.random() < 0.7 else None)
            built = False
        elif op == "delete" and ids:
            u.delete(ctx.rng.sample(ids, min(len(ids), 2)))
        elif op == "build":
            u.index.build()
            built = True
        if built:
            judge(ctx, u, f"step {step} after {op}", 2, style, dtype)
        else:
            unbuilt(ctx, u)
        stats = u.index.get_stats()
        ctx.check(stats["built"] == built, "annoy: the index does not say whether it is built", stats=stats)
        ctx.check(stats["num_vectors"] == len(u.model), "annoy: the count is off", stats=stats)
        ctx.event(op, len(u.model), built)
        ctx.state(op, len(u.model), built)


def saveload(ctx):
    """What is saved and loaded into another index answers the same, and can be changed further."""
    d = ctx.rng.randint(2, 12)
    folder = ctx.scratch()
    u = indexes.Under(ctx, "annoy", d, config(ctx))
    u.insert(gen.vectors(ctx, ctx.rng.randint(1, 20), d, "normal", "float64"),)
    n = 5
    u.insert(gen.vectors(ctx, n, d, "normal", "float32"), [gen.metadata(ctx, j) for j in range(n)])
    ctx.event("config", d, u.config)
    for round_ in range(3):
        if ctx.rng.random() < 0.5 and len(u.model) > 2:
            u.delete([ctx.rng.choice(sorted(u.model))])
        if ctx.rng.random() < 0.5:
            u.update(ctx.rng.choice(sorted(u.model)), gen.vectors(ctx, 1, d, "normal", "float64")[0],
                     {"updated": round_})
        u.ready()
        path = os.path.join(folder, ctx.rng.choice(["x.annoy", "y", "naïve ü.ann"]))
        u.index.save(path)
        qs = [workload.query(ctx, u, "normal", "float64") for _ in range(4)]
        before = [[(r["id"], r["distance"], r["metadata"]) for r in u.index.search(q, 100)] for q in qs]
        if ctx.rng.random() < 0.5:
            u.index.close()
        v = indexes.Under(ctx, "annoy", d, dict(u.config, build_on_disk=False, num_trees=ctx.rng.choice([1, 5]),
                                                metric=ctx.rng.choice(["angular", "euclidean"])))
        if ctx.rng.random() < 0.3:
            v.insert(gen.vectors(ctx, 3, d, "normal", "float64"))  # loading replaces these
        v.index.load(path)
        v.metric, v.model = u.metric, u.model
        v.config = u.config
        after = [[(r["id"], r["distance"], r["metadata"]) for r in v.index.search(q, 100)] for q in qs]
        ctx.check(gen.same(before, after), "annoy: a loaded index answers differently", before=before, after=after)
        judge(ctx, v, "loaded")
        stats = v.index.get_stats()
        ctx.check(stats["num_vectors"] == len(v.model), "annoy: the count after loading is off", stats=stats)
        ctx.event("saveload", round_, len(v.model))
        gone = ctx.rng.choice(sorted(v.model))
        if len(v.model) > 1:
            v.delete([gone])
            judge(ctx, v, "loaded, then deleted from")
        v.insert(gen.vectors(ctx, 2, d, "normal", "float64"), [{"late": 0}, None])
        unbuilt(ctx, v)
        v.ready()
        judge(ctx, v, "loaded, then added to")
        # what was saved is not altered by that
        for _ in range(2):
            w = indexes.Under(ctx, "annoy", d, dict(u.config, build_on_disk=ctx.rng.random() < 0.6, num_trees=2))
            if ctx.rng.random() < 0.3:
                w.insert(gen.vectors(ctx, 3, d, "normal", "float64"))
                w.ready()
            w.index.load(path)
            again = [[(r["id"], r["distance"], r["metadata"]) for r in w.index.search(q, 100)] for q in qs]
            ctx.check(gen.same(before, again), "annoy: the saved file changed with the loaded index")
            # nor is it the index's own: what becomes of the index does not matter to it
            after = ctx.rng.choice(["close", "clear", "insert"])
            if after == "insert":
                w.index.insert(gen.vectors(ctx, 3, d, "normal", "float64"))
                w.index.build()
                w.index.close()
            else:
                getattr(w.index, after)()
            kept = [f for f in (path, path + ".meta") if not os.path.exists(f)]
            ctx.check(not kept, f"annoy: a saved file is gone after the index that loaded it went on ({after})", gone=kept)
        u = v


def damaged(ctx):
    """Files that cannot all be read are refused, and the index that was to load them is as it was."""
    from valori.exceptions import ValoriIndexError

    d = ctx.rng.randint(2, 8)
    folder = ctx.scratch()
    u = indexes.Under(ctx, "annoy", d, config(ctx))
    u.insert(gen.vectors(ctx, ctx.rng.randint(2, 20), d, "normal", "float64"))
    u.index.build()
    path = os.path.join(folder, "saved")
    u.index.save(path)
    u.index.close()
    v = indexes.Under(ctx, "annoy", ctx.rng.choice([d, d + 1]), config(ctx))
    state = ctx.rng.choice(["empty", "built", "unbuilt"])
    if state != "empty":
        v.insert(gen.vectors(ctx, 5, v.d, "normal", "float64"), [{"n": j} for j in range(5)])
    if state == "built":
        v.index.build()
    elif state == "empty":
        v.index.build()
        ctx.raises(ValoriIndexError, lambda: v.index.save(path), "annoy: saving an index without vectors")
        v.index.clear()
    part = ctx.rng.choice(["", ".meta", ".data"])
    how = ctx.rng.choice(["cut", "emptied", "garbage"] + (["missing"] if part != ".data" else []))
    target = path + part
    size = os.path.getsize(target)
    if how == "missing":
        os.remove(target)
    elif how == "cut":
        with open(target, "r+b") as f:
            f.truncate(size - 1)
    else:
        with open(target, "wb") as f:
            f.write(b"" if how == "emptied" else b"\x01garbage")
    ctx.event("damaged", part, how, state, d, v.d)
    if part == ".meta" and how == "missing" and state != "empty":
        return  # an index with a dimension may try its own
    stats = v.index.get_stats()
    ctx.raises(ValoriIndexError, lambda: v.index.load(path), "annoy: damaged files are loaded", part=part, how=how)
    ctx.count("damaged")
    ctx.check(v.index.get_stats() == stats, "annoy: a failed load changed the index", before=stats,
              after=v.index.get_stats())
    if state == "unbuilt":
        unbuilt(ctx, v)
    if state != "empty":
        v.ready()
        judge(ctx, v, "after a failed load")
    v.insert(gen.vectors(ctx, 2, v.d, "normal", "float64"))
    v.ready()
    judge(ctx, v, "after a failed load, then added to")


def life(ctx):
    from valori.exceptions import ValoriIndexError

    d = ctx.rng.randint(2, 8)
    there = temporary()
    u = indexes.Under(ctx, "annoy", d, config(ctx))
    unbuilt(ctx, u)
    u.index.build()
    ctx.check(u.index.search(np.ones(d), 3) == [], "annoy: an empty built index answers")
    ctx.raises(ValoriIndexError, lambda: u.index.load(os.path.join(ctx.scratch(), "none")),
               "annoy: loading a file that is not there")
    for round_ in range(3):
        u.insert(gen.vectors(ctx, 4, d, "normal", "float64"))
        unbuilt(ctx, u)
        ctx.raises(ValoriIndexError, lambda: u.index.save(os.path.join(ctx.scratch(), "f")),
                   "annoy: saving an index that is not built")
        if ctx.rng.random() < 0.3:
            u.index.initialize()
        u.index.build()
        judge(ctx, u)
        if ctx.rng.random() < 0.3:
            u.index.initialize()
            judge(ctx, u, "initialized again")
        if ctx.rng.random() < 0.5:
            u.index.clear()
        else:
            u.index.close()
            ctx.raises(ValoriIndexError, lambda: u.index.search(np.ones(d), 3), "annoy: searching a closed index")
            u.index.initialize()
        u.model = {}
        unbuilt(ctx, u)
        ctx.check(u.index.get_stats()["num_vectors"] == 0, "annoy: a cleared index counts vectors")
        d = u.d = ctx.rng.randint(2, 8)  # nothing binds it to the old dimension
        ctx.event("life", round_, d)
    u.index.close()
    left = temporary() - there
    ctx.check(not left, "annoy: temporary files are left behind", files=left)


def temporary():
    return {f for f in os.listdir(os.environ["TMPDIR"]) if f.endswith(".annoy")}


def on_disk(ctx):
    """Built on disk or in memory, the answers are the same."""
    d = ctx.rng.randint(2, 12)
    cfg = config(ctx)
    v = gen.vectors(ctx, ctx.rng.randint(2, 40), d, "normal", "float64")
    got = []
    qs = [gen.vectors(ctx, 1, d, "normal", "float64")[0] for _ in range(4)]
    for disk in (False, True):
        u = indexes.Under(ctx, "annoy", d, dict(cfg, build_on_disk=disk))
        u.insert(v, [{"j": j} for j in range(len(v))])
        u.index.build()
        judge(ctx, u, f"build_on_disk={disk}")
        got.append([u.answers(q, 10) for q in qs])
        u.index.close()
    ctx.event("build", "on-disk", d, cfg)
    ctx.check(gen.same(got[0], got[1]), "annoy: an index built on disk answers differently")


def neighbours(ctx):
    """Several indexes in one process do not meddle with each other's trees and files."""
    there = temporary()
    folder = ctx.scratch()
    all_ = []
    for j in range(3):
        u = indexes.Under(ctx, "annoy", ctx.rng.randint(2, 6), dict(config(ctx), build_on_disk=ctx.rng.random() < 0.8))
        u.insert(gen.vectors(ctx, ctx.rng.randint(1, 30), u.d, "normal", "float64"))
        all_.append(u)
    for step in range(8):
        u = ctx.rng.choice(all_)
        op = ctx.rng.choice(["insert", "build", "build", "close", "clear", "save and load"])
        if op == "insert":
            u.insert(gen.vectors(ctx, 2, u.d, "normal", "float64"))
        elif op == "save and load" and u.model:
            u.ready()
            u.index.save(os.path.join(folder, f"{id(u)}"))
            u.index.load(os.path.join(folder, f"{id(u)}"))
        elif op in ("close", "clear"):
            u.index.close() if op == "close" else u.index.clear()
            u.index.initialize()
            u.model = {}
        u.ready()
        ctx.event("neighbours", op, len(u.model))
        for other in all_:
            other.ready()
            judge(ctx, other, "beside others", n=1)
    for u in all_:
        u.index.close()
    left = temporary() - there
    ctx.check(not left, "annoy: temporary files are left behind", files=left)


def crowded(ctx):
    """Thousands of vectors: deep trees."""
    u = indexes.Under(ctx, "annoy", ctx.rng.choice([2, 16]), config(ctx))

    def judged(q, k, results):
        u.sound(q, results, k)
        u.exact(q, results, k)

    workload.crowded(ctx, u, ctx.rng.choice([1100, 2100, 3000]), judged)


SCENARIOS = {
    "crowded": (crowded, 4, 40),
    "neighbours": (neighbours, 20, 200),
    "history": (history, 80, 1000),
    "saveload": (saveload, 70, 800),
    "life": (life, 40, 300),
    "damaged": (damaged, 40, 400),
    "on-disk": (on_disk, 40, 300),
}

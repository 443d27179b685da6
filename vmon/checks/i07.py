"""I07: LSH answers depend on what is stored, not on how it got there, and never miss a twin."""

import numpy as np

from vmon import gen, indexes, workload

LEVEL = "exploration"
QUICK = 8
RULE = (
    "random histories on LSH indexes, each compared with a fresh index of the same seed filled with the surviving "
    "vectors only; a query equal to a stored vector must find it; a higher threshold must keep exactly the results that "
    "pass it; more tables or k must only add; near neighbours must nearly always be found; distinct by event hash"
)
REQUIRED = {"near": 20, "search": 1500, "twin": 700, "fresh_compared": 500, "threshold": 500}


def keyed(results, names):
    return sorted((round(r["distance"], 9), names[str(r["id"])]) for r in results)


def history(ctx):
    d = gen.dim(ctx, 1, 16)
    cfg = indexes.config(ctx, "lsh")
    u = indexes.Under(ctx, "lsh", d, cfg)
    first = gen.vectors(ctx, 3, d, "normal", "float64")
    ctx.event("config", d, cfg)
    u.insert(first)
    style, dtype = None, None
    for round_ in range(4):
        style, dtype = workload.history(
            ctx, u, ctx.rng.randint(3, 12), lambda q, k, r: u.sound(q, r, k), style=style, dtype=dtype,
            ops=["insert", "insert", "update", "update", "delete"])
        fresh = indexes.Under(ctx, "lsh", d, cfg)
        names = {}
        if u.model:
            # projections are drawn at the first insert, whatever it holds
            for i, (v, m) in ctx.rng.sample(sorted(u.model.items()), len(u.model)):
                [j] = fresh.insert(v[None], [m or {}])
                names[j] = i
        for _ in range(5):
            q = workload.query(ctx, u, style, dtype)
            got = u.search(q, 1000)
            u.sound(q, got, 1000)
            ctx.count("search")
            if u.model:
                want = fresh.search(q, 1000)
                ctx.check(keyed(got, {i: i for i in u.model}) == keyed(want, names),
                          "lsh: answers depend on vectors that were removed or replaced",
                          got=keyed(got, {i: i for i in u.model}), fresh=keyed(want, names), query=q)
                ctx.count("fresh_compared")
            else:
                ctx.check(got == [], "lsh: an emptied index answers", got=got)
            threshold_and_k(ctx, u, q, got)
        for i in ctx.rng.sample(sorted(u.model), min(6, len(u.model))):
            twin(ctx, u, i)
    stats = u.index.get_stats()
    ctx.check(stats["num_vectors"] == len(u.model), "lsh: the count is off", stats=stats)


def threshold_and_k(ctx, u, q, everything):
    by_id = {str(r["id"]): r["distance"] for r in everything}
    levels = sorted(by_id.values())
    for t in {0.5, 0.0, ctx.rng.choice(levels) if levels else 0.2}:
        got = u.search(q, 1000, threshold=t)
        ctx.count("threshold")
        ctx.check({str(r["id"]) for r in got} == {i for i, s in by_id.items() if s >= t},
                  "lsh: the threshold does not keep exactly what passes it", threshold=t, got=got, all=by_id)
    k = ctx.rng.randint(0, len(everything) + 1)
    got = u.search(q, k)
    ctx.check([round(r["distance"], 12) for r in got] == [round(r["distance"], 12) for r in everything[:k]],
              "lsh: a smaller k does not give the best of the larger answer", k=k)


def twin(ctx, u, i):
    """A stored vector is always found by itself."""
    q = np.array(u.model[i][0])
    results = u.search(q, 1000)
    u.sound(q, results, 1000)
    ctx.check(i in [str(r["id"]) for r in results], "lsh: a stored vector is not found by itself", id=i)
    ctx.count("twin")
    if u.metric != "cosine" or np.any(q != 0):
        # itself, or something exactly as similar, comes first
        ctx.check(results[0]["distance"] >= 1 - 1e-6, "lsh: the twin of the query does not come first",
                  got=results[0])


def more_tables(ctx):
    """With the same projections, more tables never lose a result."""
    d = ctx.rng.randint(2, 12)
    base = indexes.config(ctx, "lsh")
    v = gen.vectors(ctx, 40, d, ctx.rng.choice(["normal", "clusters", "offset", "grid"]), "float64")
    ctx.event("tables", d, base)
    before = None
    for tables in (1, 2, 4, 9):
        u = indexes.Under(ctx, "lsh", d, dict(base, num_hash_tables=tables))
        u.insert(v)
        answers = []
        for j in range(0, 40, 5):
            results = u.search(v[j], 1000)
            u.sound(v[j], results, 1000)
            ctx.count("search")
            ctx.check(j in [r["id"] for r in results], "lsh: a stored vector is not found by itself", id=j)
            ctx.count("twin")
            answers.append({r["id"] for r in results})
        if before:
            ctx.check(all(a <= b for a, b in zip(before, answers)), "lsh: more tables lose results", tables=tables)
        before = answers


def life(ctx):
    """Cleared or closed and initialized, the index is as good as new."""
    d = ctx.rng.randint(1, 8)
    u = indexes.Under(ctx, "lsh", d)
    ctx.event("life", d, u.config)
    for round_ in range(3):
        u.insert(gen.vectors(ctx, ctx.rng.randint(1, 10), d, "normal", "float64"))
        if ctx.rng.random() < 0.5:
            u.index.initialize()
            ctx.event("initialized again", round_)
        fresh = indexes.Under(ctx, "lsh", d, u.config)
        fresh.insert(np.array([u.model[i][0] for i in sorted(u.model, key=int)]))
        for i in sorted(u.model):
            twin(ctx, u, i)
            q = u.model[i][0] + ctx.np.normal(size=d) * 0.3
            got, want = u.search(q, 1000), fresh.search(q, 1000)
            u.sound(q, got, 1000)
            ctx.check(sorted(round(r["distance"], 9) for r in got) == sorted(round(r["distance"], 9) for r in want),
                      "lsh: a cleared index answers otherwise than a new one", got=got, fresh=want)
            ctx.count("fresh_compared")
        if ctx.rng.random() < 0.5:
            u.index.clear()
        else:
            u.index.close()
            u.index.initialize()
        u.model = {}
        d = u.d = ctx.rng.randint(1, 8)  # nothing binds it to the old dimension
        ctx.event("life", d)
        q = gen.vectors(ctx, 1, d, "normal", "float64")[0]
        ctx.check(u.search(q, 10) == [], "lsh: a cleared index answers")
        ctx.check(u.index.get_stats()["num_vectors"] == 0, "lsh: a cleared index counts vectors")
        ctx.count("search")


def near(ctx):
    """A neighbour at a small angle is found nearly always, though it seldom has the same hash."""
    d = ctx.rng.randint(8, 40)
    found = total = 0
    angle = ctx.rng.uniform(0.08, 0.14)
    for _ in range(60):
        u = indexes.Under(ctx, "lsh", d, {"num_hash_tables": 1, "hash_size": 16, "random_seed": ctx.rng.randint(0, 10 ** 6),
                                            "metric": ctx.rng.choice(["cosine", "euclidean"])})
        v = ctx.np.normal(size=d)
        side = ctx.np.normal(size=d)
        side -= v * (side @ v) / (v @ v)
        u.insert(v[None])
        q = v + side * (np.linalg.norm(v) / np.linalg.norm(side) * np.tan(angle))
        results = u.search(q, 5)
        u.sound(q, results, 5)
        total += 1
        found += bool(results)
    ctx.event("near", d, round(angle, 2), found)
    ctx.count("search", total)
    # sixteen independent bits that each differ with probability angle/pi: at most two differ with probability > 0.96
    ctx.check(found >= 0.8 * total, "lsh: near neighbours are not found", found=found, of=total, angle=angle)


def crowded(ctx):
    """Thousands of vectors: full buckets, many candidates."""
    cfg = indexes.config(ctx, "lsh")
    d = ctx.rng.choice([2, 8, 32])
    u = indexes.Under(ctx, "lsh", d, cfg)
    workload.crowded(ctx, u, ctx.rng.choice([1100, 2100, 3000]), lambda q, k, r: u.sound(q, r, k))
    fresh = indexes.Under(ctx, "lsh", d, cfg)
    order = sorted(u.model, key=int)
    names = dict(zip(fresh.insert(np.array([u.model[i][0] for i in order]), [u.model[i][1] or {} for i in order]), order))
    for _ in range(4):
        q = workload.query(ctx, u, "normal", "float64")
        got, want = u.search(q, 10000), fresh.search(q, 10000)
        ctx.check(keyed(got, {i: i for i in u.model}) == keyed(want, names),
                  "lsh: answers depend on vectors that were removed or replaced", query=q)
        ctx.count("fresh_compared")
        threshold_and_k(ctx, u, q, u.search(q, 1000))
    for i in ctx.rng.sample(order, 10):
        q = np.array(u.model[i][0])
        ctx.check(i in [str(r["id"]) for r in u.search(q, 10000)], "lsh: a stored vector is not found by itself", id=i)
        ctx.count("twin")


SCENARIOS = {
    "crowded": (crowded, 4, 40),
    "near": (near, 4, 40),
    "history": (history, 80, 1000),
    "more-tables": (more_tables, 30, 300),
    "life": (life, 30, 300),
}

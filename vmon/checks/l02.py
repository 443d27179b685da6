"""L02: statistics tell the truth, and asking for them changes nothing."""

import os
import resource
import signal
import time

import numpy as np

from vmon import gen, indexes, persist, quant, stores, workload

LEVEL = "exploration"
QUICK = 5
RULE = (
    "random histories on storages, indexes, clients with all parts, quantizers and persistence managers; after every "
    "operation the reported numbers (vectors, bytes, files, hash buckets, clusters, saves, loads, codes) and echoed "
    "settings are compared with a model or with the files on disk; statistics asked for twice must agree, and contents "
    "and answers must be the same before and after; distinct by event hash"
)
REQUIRED = {"storage_stats": 1200, "index_stats": 1200, "client_stats": 250, "quantizer_stats": 120,
            "persistence_stats": 500, "unchanged": 800, "behind": 300, "interrupted": 40, "failed_save": 100}


def disk_bytes(folder):
    return sum(os.path.getsize(os.path.join(at, n)) for at, _, names in os.walk(folder) for n in names)


def asked_twice(ctx, where, component):
    first = component.get_stats()
    second = component.get_stats()
    ctx.check(gen.same(first, second), f"{where}: statistics change by being asked for", first=first, second=second)
    return first


def check_disk(ctx, where, stats, folder, n):
    ctx.check(stats["backend_type"] == "disk" and stats["vector_count"] == n, f"{where}: vectors on disk", stats=stats, n=n)
    size = disk_bytes(folder)
    ctx.check(stats["disk_usage_bytes"] == size and abs(stats["disk_usage_mb"] - size / 2 ** 20) < 1e-9,
              f"{where}: bytes on disk", stats=stats, size=size)
    ctx.check(os.path.realpath(stats["data_directory"]) == os.path.realpath(folder), f"{where}: data directory", stats=stats)


def check_storage(ctx, where, kind, storage, folder, model, limit):
    stats = asked_twice(ctx, where, storage)
    ctx.check(stats["initialized"] is True, f"{where}: not initialized?", stats=stats)
    n = len(model)
    if kind == "memory":
        ctx.check(stats["backend_type"] == "memory" and stats["vector_count"] == n, f"{where}: vectors in memory",
                  stats=stats, n=n)
        low = sum(v.nbytes for v, _ in model.values())
        ctx.check(stats["memory_usage_bytes"] >= low, f"{where}: less memory than the vectors need", stats=stats, low=low)
        # the same contents take the same, whatever was there before
        fresh = stores.opened(ctx, "memory")
        for i, (v, m) in model.items():
            fresh.store_vector(i, v, m)
        ctx.check(stats["memory_usage_bytes"] == fresh.get_stats()["memory_usage_bytes"],
                  f"{where}: the memory in use depends on what was stored before", stats=stats, fresh=fresh.get_stats())
        if not any(m for _, m in model.values()):
            ctx.check(stats["memory_usage_bytes"] <= low + 64 * n, f"{where}: memory of records that are gone",
                      stats=stats, low=low)
        ctx.check(abs(stats["memory_usage_mb"] - stats["memory_usage_bytes"] / 2 ** 20) < 1e-9, f"{where}: megabytes", stats=stats)
    elif kind == "disk":
        check_disk(ctx, where, stats, folder, n)
    else:
        ctx.check(stats["backend_type"] == "hybrid", f"{where}: type", stats=stats)
        if limit is not None:
            ctx.check(stats["memory_limit"] == limit, f"{where}: the limit", stats=stats, limit=limit)
        check_disk(ctx, where, stats["disk"], folder, n)
        ctx.check(0 <= stats["memory"]["vector_count"] <= n, f"{where}: vectors in memory", stats=stats, n=n)
    ctx.event("storage_stats", kind, n)


def storage(ctx):
    kind = ctx.rng.choice(stores.KINDS)
    folder = os.path.join(ctx.scratch(), "data")
    limit = ctx.rng.choice([None, 0, 1, 3, 100]) if kind == "hybrid" else None
    s = stores.opened(ctx, kind, folder, limit)
    model = {}
    pool = gen.ids(ctx, 6)
    plain = ctx.rng.random() < 0.3
    for step in range(ctx.rng.randint(5, 30)):
        i = ctx.rng.choice(pool)
        r = ctx.rng.random()
        where = f"{kind} step {step}"
        if r < 0.45:
            v, m = stores.value(ctx, step)
            m = None if plain else m
            s.store_vector(i, v, m)
            model[i] = gen.snapshot((np.array(v), m))
        elif r < 0.6:
            v, m = stores.value(ctx, step)
            m = None if plain else m
            if s.update_vector(i, v, m):
                model[i] = gen.snapshot((np.array(v), m))
        elif r < 0.8:
            s.delete_vector(i)
            model.pop(i, None)
        elif r < 0.9:
            s.retrieve_vector(i)
        elif kind != "memory":
            s.close()
            s = stores.opened(ctx, kind, folder, limit)
        check_storage(ctx, where, kind, s, folder, model, limit)
        ctx.state(kind, len(model))
    stores.compare_all(ctx, s, model, f"{kind}: after asking for statistics", pool)
    ctx.event("unchanged", kind, len(model))


SETTINGS = {"ivf": ["n_clusters", "n_probes"], "hnsw": ["m", "ef_search"],
            "lsh": ["num_hash_tables", "hash_size", "num_projections", "threshold"],
            "annoy": ["num_trees", "metric", "build_on_disk"], "flat": ["metric"]}


def check_index(ctx, where, u, stats):
    kind, n = u.kind, len(u.model)
    ctx.check(stats["index_type"] == kind and stats["initialized"] is True, f"{where}: type", stats=stats)
    ctx.check(stats["vector_count" if kind in indexes.BACKED else "num_vectors"] == n, f"{where}: number of vectors",
              stats=stats, stored=n)
    for key in SETTINGS[kind]:
        ctx.check(stats[key] == u.config[key], f"{where}: {key} is not the one configured", stats=stats, config=u.config)
    if kind in ("lsh", "annoy"):
        ctx.check(stats["total_capacity"] >= n, f"{where}: capacity below the number of vectors", stats=stats)
        if n:
            ctx.check(stats["dimension"] == u.d, f"{where}: dimension", stats=stats, d=u.d)
    if kind == "lsh":
        sizes = stats["hash_table_sizes"]
        if n == 0:
            ctx.check(stats["max_bucket_size"] == 0 or not any(sizes), f"{where}: buckets of an empty index", stats=stats)
        else:
            ctx.check(len(sizes) == u.config["num_hash_tables"] and all(x >= 1 for x in sizes),
                      f"{where}: number of buckets", stats=stats, stored=n)
            # every vector is in one bucket of each table
            ctx.check(abs(stats["avg_bucket_size"] * sum(sizes) - n * len(sizes)) < 1e-6 * n * len(sizes),
                      f"{where}: the sizes of the buckets do not add up to the vectors", stats=stats, stored=n)
            ctx.check(stats["avg_bucket_size"] <= stats["max_bucket_size"] <= n, f"{where}: largest bucket", stats=stats)
    if kind == "ivf":
        in_clusters = sum(stats["cluster_stats"].values())
        ctx.check(in_clusters == (n if stats["trained"] else in_clusters) and in_clusters <= n,
                  f"{where}: vectors in clusters", stats=stats, stored=n)
    ctx.event("index_stats", kind, n)


def index(ctx):
    kind = ctx.rng.choice(indexes.KINDS)
    u = indexes.Under(ctx, kind, gen.dim(ctx, 1, 8))
    for step in range(ctx.rng.randint(2, 8)):
        workload.history(ctx, u, 3, lambda q, k, r: None, max_batch=8, style="normal", dtype="float64",
                         ops=["insert", "insert", "delete", "update"])
        where = f"{kind} step {step}"
        q = ctx.np.normal(size=u.d)
        before = u.answers(q) if u.model else None
        stats = asked_twice(ctx, where, u.index)
        check_index(ctx, where, u, stats)
        if before is not None:
            ctx.check(u.answers(q) == before, f"{where}: asking for statistics changed the answers")
            ctx.event("unchanged", kind, len(before))
        ctx.state(kind, len(u.model))


def behind(ctx):
    """Deletions that fail midway, and records that come and go in the storage behind the index."""
    kind = ctx.rng.choice(indexes.BACKED)
    cfg = indexes.config(ctx, kind)
    if kind == "ivf":
        cfg["n_probes"] = cfg["n_clusters"]
    elif kind == "hnsw":
        cfg["ef_search"] = 200
    u = indexes.Under(ctx, kind, gen.dim(ctx, 1, 6), cfg)
    s, real = u.storage, u.storage.delete_vector
    foreign, gone = [], set()
    for step in range(ctx.rng.randint(3, 10)):
        where = f"{kind} step {step}"
        r = ctx.rng.random()
        live = [i for i in u.model if i not in gone]
        if r < 0.35 or not live:
            u.insert(ctx.np.normal(size=(ctx.rng.randint(1, 5), u.d)))
        elif r < 0.5:
            i = f"foreign-{step}"
            s.store_vector(i, ctx.np.normal(size=u.d), None)
            foreign.append(i)
        elif r < 0.6:
            i = ctx.rng.choice(live)
            s.delete_vector(i)
            gone.add(i)
        else:
            ids = ctx.rng.sample(sorted(u.model), ctx.rng.randint(1, min(4, len(u.model))))
            ids += [i for i in foreign if ctx.rng.random() < 0.5] + ["unknown"] * (ctx.rng.random() < 0.2)
            ctx.rng.shuffle(ids)
            fails_at = ctx.rng.choice([None, ctx.rng.randrange(len(ids))])
            if fails_at is not None and gone & set(ids):
                fails_at = None  # whether what is gone is forgotten then is the index's own affair
            seen = []

            def delete(i):
                if len(seen) == fails_at:
                    raise OSError("the disk is on fire")
                seen.append(i)
                return real(i)

            s.delete_vector = delete
            try:
                u.index.delete(ids)
                ctx.check(fails_at is None, f"{where}: a deletion the storage refused is reported as done")
            except Exception as e:
                ctx.check(fails_at is not None, f"{where}: a deletion fails", error=repr(e))
                ctx.count("interrupted")
            finally:
                s.delete_vector = real
            for i in seen:
                u.model.pop(i, None)
                gone.discard(i)
                if i in foreign:
                    foreign.remove(i)
        stats = asked_twice(ctx, where, u.index)
        ctx.check(stats["vector_count"] == len(u.model), f"{where}: number of vectors", stats=stats, want=len(u.model))
        if not gone:
            found = {r["id"] for r in u.index.search(ctx.np.normal(size=u.d), 1000)}
            if kind != "hnsw":
                ctx.check(found == set(u.model), f"{where}: what is counted is not what is found", found=found, want=set(u.model))
        ctx.event("behind", kind, len(u.model), len(foreign), len(gone))
        ctx.state(kind, len(u.model))


def client(ctx):
    from valori import VectorDBClient
    from valori.persistence import TensorPersistence
    from valori.quantization import ScalarQuantizer

    kind = ctx.rng.choice(indexes.KINDS)
    home = ctx.rng.choice(stores.KINDS)
    folder = os.path.join(ctx.scratch(), "data")
    storage = stores.make(home, folder)
    u = indexes.Under.__new__(indexes.Under)
    u.ctx, u.kind, u.d, u.config, u.model = ctx, kind, 3, indexes.config(ctx, kind), {}
    u.metric = u.config["metric"]
    u.index = indexes.classes()[kind](dict(u.config))
    q = ScalarQuantizer({"bits": 8}) if ctx.rng.random() < 0.5 else None
    p = TensorPersistence({"data_dir": os.path.join(ctx.scratch(), "p")}) if ctx.rng.random() < 0.5 else None
    c = VectorDBClient(storage, u.index, q, p)
    c.initialize()
    real = u.index
    u.index = c  # the same operations, through the client
    saves = loads = 0
    for step in range(ctx.rng.randint(2, 8)):
        workload.history(ctx, u, 2, lambda q, k, r: None, style="normal", dtype="float64", ops=["insert", "delete", "update"])
        if p and ctx.rng.random() < 0.5:
            p.save_state({"step": step}, "s")
            saves += 1
            p.load_state("s")
            loads += 1
        if q and ctx.rng.random() < 0.3:
            q.train(ctx.np.normal(size=(5, 3)))
        where = f"client over {kind} and {home}, step {step}"
        stats = asked_twice(ctx, where, c)
        want = {"storage", "index"} | ({"quantization"} if q else set()) | ({"persistence"} if p else set())
        ctx.check(set(stats) == want, f"{where}: parts of the statistics", got=set(stats), want=want)
        check_index(ctx, where, u, stats["index"])
        n = len(u.model) if kind in indexes.BACKED else None
        if n is not None:
            got = stats["storage"].get("vector_count", stats["storage"].get("disk", {}).get("vector_count"))
            ctx.check(got == n, f"{where}: vectors in the storage", stats=stats["storage"], stored=n)
        for name, part in (("storage", storage), ("index", real), ("quantization", q), ("persistence", p)):
            if part is not None:
                ctx.check(gen.same(stats[name], part.get_stats()), f"{where}: {name} is not what the part itself reports")
        if p:
            ctx.check((stats["persistence"]["save_count"], stats["persistence"]["load_count"]) == (saves, loads),
                      f"{where}: saves and loads", stats=stats["persistence"])
        ctx.event("client_stats", kind, home, len(u.model))
    c.close()


def quantizer(ctx):
    kind = ctx.rng.choice(["scalar", "product", "saq"])
    d = ctx.rng.choice([2, 4, 6, 8])
    cfg = {"scalar": {"bits": ctx.rng.choice([1, 4, 8, 16])}, "product": {"m": 2, "k": ctx.rng.choice([2, 4, 16])},
           "saq": {"total_bits": ctx.rng.choice([8, 16, 24]), "n_segments": 2}}[kind]
    q = quant.made(kind, **cfg)
    for step in range(ctx.rng.randint(1, 4)):
        where = f"{kind} step {step}"
        stats = asked_twice(ctx, where, q)
        ctx.check(stats["quantizer_type"] == kind and stats["trained"] is (step > 0), f"{where}: statistics", stats=stats)
        for key, value in cfg.items():
            ctx.check(stats[key] == value, f"{where}: {key} is not the one configured", stats=stats, config=cfg)
        data = quant.data(ctx, ctx.rng.choice([5, 20, 60]), d, style="normal", dtype="float64")
        q.train(data)
        codes = q.quantize(data)
        stats = asked_twice(ctx, where, q)
        ctx.check(stats["trained"] is True and stats["dimensions"] == d, f"{where}: dimensions", stats=stats, d=d)
        if kind == "scalar":
            ctx.check(stats["compression_ratio"] == 32.0 / cfg["bits"], f"{where}: compression", stats=stats)
            ctx.check(stats["max_val"] == 2 ** cfg["bits"] - 1, f"{where}: largest code", stats=stats)
            lo, hi = data.min(axis=0), data.max(axis=0)
            got = [float(x) for pair in ("min_values_range", "max_values_range") for x in stats[pair]]
            ctx.check(np.allclose(got, [lo.min(), lo.max(), hi.min(), hi.max()], rtol=1e-6), f"{where}: ranges", stats=stats)
        elif kind == "product":
            ctx.check(1 <= stats["effective_k"] <= min(cfg["k"], len(data)), f"{where}: codewords in use", stats=stats)
            ctx.check(stats["subvector_dimensions"] * cfg["m"] == d, f"{where}: dimensions of a part", stats=stats)
            ctx.check(int(np.max(codes)) < stats["effective_k"], f"{where}: a code beyond the codewords", stats=stats)
        ctx.check(np.array_equal(q.quantize(data), codes), f"{where}: asking for statistics changed the codes")
        ctx.event("quantizer_stats", kind, len(data))


def persistence(ctx):
    kind = ctx.rng.choice(persist.KINDS)
    folder = os.path.join(ctx.scratch(), "data")
    cfg = persist.config(ctx, kind)
    p = persist.opened(kind, folder, **cfg)
    saves = loads = 0
    for step in range(ctx.rng.randint(3, 15)):
        what = ctx.rng.choice(persist.WHAT)
        name = ctx.rng.choice(["a", "b", "sub/c"])
        if ctx.rng.random() < 0.25:
            failing(ctx, kind, p, folder, what, name, step)
        elif ctx.rng.random() < 0.6:
            persist.save(p, what, f"{what}-{name}", persist.value(ctx, what, step))
            saves += 1
        else:
            got = persist.load(p, what, f"{what}-{name}")
            loads += got is not None
        where = f"{kind} step {step}"
        stats = asked_twice(ctx, where, p)
        ctx.check(stats["persistence_type"] == kind and stats["initialized"] is True, f"{where}: type", stats=stats)
        size = disk_bytes(folder) if os.path.isdir(folder) else 0
        ctx.check(stats["disk_usage_bytes"] == size, f"{where}: bytes on disk", stats=stats, size=size)
        if kind == "tensor":
            files = sum(len(names) for _, _, names in os.walk(folder))
            ctx.check((stats["save_count"], stats["load_count"], stats["file_count"]) == (saves, loads, files),
                      f"{where}: saves, loads and files", stats=stats, want=(saves, loads, files))
            ctx.check(stats["compression_enabled"] is cfg["compression"], f"{where}: compression", stats=stats)
        else:
            ctx.check(stats["operation_count"] == stats["logged_operations"] == saves, f"{where}: operations",
                      stats=stats, want=saves)
            ctx.check(stats["checkpoint_interval"] == cfg["checkpoint_interval"], f"{where}: interval", stats=stats)
        ctx.event("persistence_stats", kind, saves, loads)


def failing(ctx, kind, p, folder, what, name, step):
    """A save or load that fails: it is not counted."""
    from valori.exceptions import PersistenceError

    how = ctx.rng.choice(["cannot be written", "disk full"] + (["folder in the way", "damaged"] if kind == "tensor" else []))
    target = f"{what}-{name}"
    if how == "folder in the way":
        where = f"dir-{step}"
        os.makedirs(os.path.join(folder, where + (".npz" if what == "vectors" else "")))
        ctx.raises(PersistenceError, lambda: persist.save(p, what, where, persist.value(ctx, what, step)),
                   "a save under the name of a folder")
    elif how == "cannot be written":
        bad = (np.ones((2, 2)), [lambda: 0, "b"]) if what == "vectors" else {"thing": lambda: 0}
        ctx.raises(PersistenceError, lambda: persist.save(p, what, target, bad), "a save of what cannot be written")
    elif how == "disk full":
        content = {"noise": ctx.np.bytes(20000)}
        if what == "vectors":
            content = ctx.np.normal(size=(400, 20)), [str(i) for i in range(400)]
        before = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (ctx.rng.choice([0, 400, 6000]), resource.RLIM_INFINITY))
        try:
            ctx.raises(PersistenceError, lambda: persist.save(p, what, target, content), "a save on a full disk")
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            signal.signal(signal.SIGXFSZ, before)
    else:
        where = f"bad-{step}" + (".npz" if what == "vectors" else "")
        with open(os.path.join(folder, where), "wb") as f:
            f.write(b"garbage")
        ctx.raises(PersistenceError, lambda: persist.load(p, what, where), "a load of a damaged file")
    ctx.event("failed_save", how, what)


SCENARIOS = {
    "storage": (storage, 150, 2000),
    "index": (index, 250, 3000),
    "behind": (behind, 100, 1200),
    "client": (client, 100, 1200),
    "quantizer": (quantizer, 120, 1200),
    "persistence": (persistence, 120, 1200),
}

"""U01: batch operations do what the same operations one by one would do."""

import contextlib
import io
import re
import time

import numpy as np

from vmon import gen, indexes, stores

LEVEL = "fault_enumeration"
QUICK = 4
RULE = (
    "batch insert, parallel batch insert and batch search with random batch sizes, workers, failures injected into chosen "
    "calls and delays that change the order of completion; the calls a recording client saw, the ids, results, callbacks "
    "and statistics are compared with the batches worked out by the oracle, and what a real client holds afterwards with "
    "what was given; distinct by event hash"
)
REQUIRED = {"insert": 200, "parallel": 200, "search": 150, "failed_batch": 200, "real": 40, "callback": 500, "alike": 100}


class Recording:
    """A client that answers with ids or results derived from what it is given."""

    def __init__(self, ctx, fail, slow):
        self.ctx, self.fail, self.slow = ctx, fail, slow
        self.seen = []

    def insert(self, vectors, metadata=None):
        uids = [int(v[0]) for v in vectors]
        self.seen.append((uids, gen.snapshot(metadata)))
        if self.slow:
            time.sleep(self.slow[uids[0] % len(self.slow)])
        if any(u in self.fail for u in uids):
            raise self.fail_error(uids)
        return [f"id-{u}" for u in uids]

    def search(self, query, k=10):
        uid = int(query[0])
        self.seen.append((uid, k))
        if uid in self.fail:
            raise self.fail_error([uid])
        return [{"id": f"r-{uid}-{j}", "distance": float(j), "metadata": {}} for j in range(min(k, 3))]

    def fail_error(self, uids):
        return self.ctx.rng.choice([RuntimeError, ValueError, KeyError])(f"no {uids}")


def manager(ctx, size, workers):
    from valori.utils.batch_manager import BatchManager

    m = BatchManager(batch_size=size, max_workers=workers)
    progress, errors = [], []
    if ctx.rng.random() < 0.8:
        m.set_progress_callback(lambda done, total: progress.append((done, total)))
    else:
        progress = None
    if ctx.rng.random() < 0.8:
        m.set_error_callback(lambda e, what: errors.append((e, what)))
    else:
        errors = None
    return m, progress, errors


def quiet(function, *a, **k):
    quiet.start = time.time()
    with contextlib.redirect_stdout(io.StringIO()) as out:
        result = function(*a, **k)
    quiet.took = time.time() - quiet.start
    quiet.said = out.getvalue()
    return result


def said(ctx, m, show, where):
    """Progress is shown when it is asked for, and ends with what was done."""
    lines = [x for x in re.split(r"[\r\n]", quiet.said) if x.startswith("Progress")]
    if not show:
        ctx.check(not lines, f"{where}: progress is shown though it is switched off", said=quiet.said)
        return
    s = m.get_stats()
    if s["total_items"] and s["processed_items"]:
        done = s["processed_items"] / s["total_items"] * 100
        ctx.check(bool(lines) and f"{done:.1f}% ({s['processed_items']}/{s['total_items']})" in lines[-1],
                  f"{where}: the progress shown is not that of the run", said=quiet.said, stats=s)


def stats(ctx, m, total, processed, failed, where):
    s = m.get_stats()
    got = (s["total_items"], s["processed_items"], s["failed_items"])
    ctx.check(got == (total, processed, failed), f"{where}: the statistics are not those of this run",
              got=got, want=(total, processed, failed))
    ctx.check(s["start_time"] <= s["end_time"] and s["total_time"] >= 0 and s["items_per_second"] >= 0,
              f"{where}: the times make no sense", stats=s)
    # Allowing for a clock that is set while it runs
    ctx.check(s["total_time"] <= quiet.took + 60 and abs(s["end_time"] - quiet.start) <= quiet.took + 60,
              f"{where}: the time taken is not that of the run", stats=s, took=quiet.took)
    if s["total_time"] > 0:
        ctx.check(np.isclose(s["items_per_second"] * s["total_time"], processed), f"{where}: the items per second are wrong",
                  stats=s)


def monotone(ctx, progress, total, last, where):
    if progress is None:
        return
    ctx.count("callback", len(progress))
    done = [d for d, _ in progress]
    ctx.check(all(t == total for _, t in progress), f"{where}: the callback is told another total", calls=progress)
    ctx.check(done == sorted(done) and all(0 <= d <= total for d in done), f"{where}: progress goes back", calls=progress)
    if last:
        ctx.check(bool(done) and done[-1] == last, f"{where}: the last progress is not the number of items done",
                  calls=progress, want=last)


def recorded(ctx):
    size = ctx.rng.choice([1, 2, 3, 7, 50])
    m, progress, errors = manager(ctx, size, ctx.rng.choice([1, 2, 4, 8]))
    show = ctx.rng.random() < 0.5
    for _ in range(ctx.rng.randint(1, 4)):
        n = ctx.rng.choice([0, 1, size, size + 1, 2 * size, ctx.rng.randint(1, 40)])
        if size == 50 and ctx.rng.random() < 0.2:
            n = ctx.rng.randint(1000, 2500)
        base = ctx.rng.randint(0, 1000)
        vectors = np.array([[base + i, ctx.rng.random()] for i in range(n)]).reshape(n, 2)
        meta = [{"uid": base + i} for i in range(n)]
        keep = gen.snapshot((vectors, meta))
        fail = {base + i for i in range(n) if ctx.rng.random() < ctx.rng.choice([0, 0, 0.1, 0.5])}
        op = ctx.rng.choice(["insert", "parallel", "search"])
        slow = [ctx.rng.choice([0, 0.002, 0.006]) for _ in range(5)] if op == "parallel" else None
        client = Recording(ctx, fail, slow)
        if progress is not None:
            progress.clear()
        if errors is not None:
            errors.clear()
        batches = [list(range(base + i, base + min(i + size, n))) for i in range(0, n, size)]
        ctx.count(op)
        ctx.state(op, size, len(batches), bool(fail))
        ctx.event("run", op, n, size, sorted(fail))
        if op == "search":
            k = ctx.rng.choice([1, 2, 10])
            got = quiet(m.batch_search, client, vectors, k=k, show_progress=show)
            said(ctx, m, show, "batch_search")
            want = [[] if u in fail else [f"r-{u}-{j}" for j in range(min(k, 3))] for u in range(base, base + n)]
            ctx.check([[r["id"] for r in rs] for rs in got] == want,
                      "batch_search: the results are not those of each query in turn", got=got, want=want)
            ctx.check(client.seen == [(u, k) for u in range(base, base + n)],
                      "batch_search: the client was asked something else", seen=client.seen)
            if errors is not None:
                ctx.check([int(q[0]) for _, q in errors] == sorted(fail),
                          "batch_search: the error callback was not told each failed query", errors=errors)
            s = m.get_stats()
            ctx.check(s["total_items"] == n and s["failed_items"] == len(fail),
                      "batch_search: the statistics are not those of this run", stats=s, fail=fail)
            monotone(ctx, progress, n, s["processed_items"], "batch_search")
            continue
        call = m.batch_insert if op == "insert" else m.parallel_batch_insert
        got = quiet(call, client, vectors, meta, show_progress=show)
        said(ctx, m, show, op)
        good = [b for b in batches if not fail & set(b)]
        bad = [b for b in batches if fail & set(b)]
        ctx.count("failed_batch", len(bad))
        ctx.check(got == [f"id-{u}" for b in good for u in b],
                  f"{op}: the ids are not those of the inserted vectors in order", got=got, good=good)
        seen = client.seen if op == "insert" else sorted(client.seen, key=lambda s: s[0])
        ctx.check([u for u, _ in seen] == batches, f"{op}: the vectors given to the client are not the batches",
                  seen=seen, batches=batches)
        ctx.check(all([x["uid"] for x in md] == u for u, md in seen),
                  f"{op}: vectors and metadata do not belong together", seen=seen)
        if errors is not None:
            told = sorted([int(v[0]) for v in (w["vectors"] if isinstance(w, dict) else w)] for _, w in errors)
            ctx.check(told == bad, f"{op}: the error callback was not told each failed batch", told=told, bad=bad)
            ctx.check(all(isinstance(e, Exception) and str(e).strip("'").startswith("no ") for e, _ in errors),
                      f"{op}: the error callback was given another error", errors=errors)
        n_bad = sum(map(len, bad))
        stats(ctx, m, n, n - n_bad, n_bad, op)
        monotone(ctx, progress, n, n - n_bad if good else 0, op)
        if progress is not None:
            ctx.check(len(progress) >= len(good), f"{op}: there is a batch whose progress was not told",
                      calls=progress, batches=len(good))
        ctx.check(np.array_equal(vectors, keep[0]) and meta == keep[1], f"{op}: the caller's data were altered")


class Answering:
    """A client whose answers say which query they are for, to the last bit, and which of its calls they answer."""

    def __init__(self, fail):
        self.fail, self.calls = fail, 0

    def search(self, query, k=10):
        self.calls += 1
        if self.calls in self.fail:
            raise RuntimeError(f"no {self.calls}")
        return [{"id": f"{query.dtype}-{query.tobytes().hex()}", "distance": float(j), "metadata": {"call": self.calls}}
                for j in range(min(k, 2))]


def queries(ctx):
    """Queries that are alike, equal or many: each one is asked, and gets its own answer."""
    d = ctx.rng.randint(1, 4)
    n = ctx.rng.choice([2, 5, 20, 60]) if ctx.rng.random() < 0.9 else ctx.rng.randint(1000, 3000)
    vectors = gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "grid", "offset"]), ctx.rng.choice(["float64", "float32"]))
    for i in range(1, n):
        how = ctx.rng.random()
        if how < 0.2:
            vectors[i] = vectors[ctx.rng.randrange(i)]
        elif how < 0.4:
            vectors[i] = np.nextafter(vectors[i - 1], ctx.rng.choice([-np.inf, np.inf]))
        elif how < 0.5:
            vectors[i] = -vectors[i - 1]
    if ctx.rng.random() < 0.3:
        vectors = np.asfortranarray(vectors)
    fail = {i + 1 for i in range(n) if ctx.rng.random() < ctx.rng.choice([0, 0.05, 0.3])}
    m, progress, errors = manager(ctx, ctx.rng.choice([1, 3, 10, 1000]), 2)
    k = ctx.rng.choice([1, 2])
    ctx.count("alike")
    ctx.event("queries", n, d, str(vectors.dtype), vectors.tobytes(), sorted(fail))
    got = quiet(m.batch_search, Answering(fail), vectors, k=k, show_progress=ctx.rng.random() < 0.2)
    twin = Answering(fail)
    want = []
    for q in vectors:
        try:
            want.append(twin.search(q, k=k))
        except RuntimeError:
            want.append([])
    ctx.check(got == want, "batch_search: the results are not those of each query in turn", got=got[:20], want=want[:20])
    before = gen.snapshot(got)
    for i in range(min(n, 10)):
        for r in got[i]:
            r["metadata"]["mine"] = i
        ctx.check(got[i + 1:] == before[i + 1:], "batch_search: the results of two queries are one object", query=i)


def real(ctx):
    """A real client holds what was inserted in batches, and answers batches of queries as single ones."""
    from valori import VectorDBClient

    kind = ctx.rng.choice(["flat", "hnsw", "ivf", "lsh"])
    db = VectorDBClient(stores.opened(ctx, "memory"), indexes.classes()[kind](indexes.config(ctx, kind)))
    db.initialize()
    d, n = ctx.rng.randint(1, 6), ctx.rng.randint(1, 60)
    vectors = gen.vectors(ctx, n, d, "normal", "float64")
    if kind in indexes.BACKED:
        broken = {i for i in range(n) if ctx.rng.random() < ctx.rng.choice([0, 0.05])}
    else:
        broken = set()
    for i in broken:
        vectors[i, 0] = np.nan
    meta = [{"uid": i} for i in range(n)]
    size = ctx.rng.choice([1, 3, 10, 100])
    m, progress, errors = manager(ctx, size, 4)
    parallel = ctx.rng.random() < 0.5
    call = m.parallel_batch_insert if parallel else m.batch_insert
    ids = quiet(call, db, vectors, meta, show_progress=False)
    good = [i for b in range(0, n, size) if not broken & set(range(b, min(n, b + size)))
            for i in range(b, min(n, b + size))]
    ctx.event("real", kind, n, size, parallel, sorted(broken))
    ctx.check(len(ids) == len(good) and len(set(ids)) == len(ids), "batch insert: one id per inserted vector",
              ids=ids, good=good)
    stats(ctx, m, n, len(good), n - len(good), "batch insert")
    if kind in indexes.BACKED:
        for i, uid in zip(ids, good):
            record = db.storage_backend.retrieve_vector(i)
            ctx.check(record is not None and np.array_equal(record[0], vectors[uid]) and record[1] == {"uid": uid},
                      "batch insert: an id does not lead to its vector", id=i, uid=uid, got=record)
    asked = gen.vectors(ctx, ctx.rng.randint(0, 12), d, "normal", "float64")
    want = [db.search(q, 4) for q in asked]
    got = quiet(m.batch_search, db, asked, k=4, show_progress=False)
    ctx.check(got == want, "batch_search: the results differ from single searches", got=got, want=want)


def tracker(ctx):
    from valori.utils.batch_manager import ProgressTracker

    total = ctx.rng.choice([0, 1, 7, 1000])
    t = ProgressTracker(total)
    if ctx.rng.random() < 0.5:
        t.update_interval = 0.0
    done = 0
    while done < total:
        by = ctx.rng.randint(1, max(1, total // 3))
        quiet(t.update, by)
        done += by
        ctx.check(t.current == done, "the tracker has lost count", got=t.current, want=done)
    quiet(t.finish)
    ctx.check(t.current == total, "a finished tracker is not at its total", got=t.current, total=total)
    ctx.event("tracked", total, done)


SCENARIOS = {"recorded": (recorded, 250, 4000), "queries": (queries, 100, 1500), "real": (real, 80, 800), "tracker": (tracker, 20, 100)}

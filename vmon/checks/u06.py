"""U06: measuring and inspecting changes nothing, and reports what is there."""

import contextlib
import io
import json
import os
import re
import time

import numpy as np

from vmon import gen, indexes, workload

LEVEL = "exploration"
QUICK = 5
RULE = (
    "functions with random arguments, results and errors (ImportError included) under the timing, memory and debugging "
    "decorators and the profiler, in random nests: the call must happen exactly once, with the same arguments, and give the "
    "same object or error; profiles, reports, vector analyses, query analyses and index inspections are compared with "
    "counts and float64 definitions, and the index answers the same before and after; distinct by event hash"
)
REQUIRED = {"called": 1500, "raised": 500, "profiled": 150, "analyzed": 200, "queries": 100, "inspected": 200,
            "performance": 60, "tracked": 60, "crowded": 20}


def quiet(f, *a, **k):
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            return f(*a, **k)
    finally:
        quiet.said = out.getvalue()


class Odd(Exception):
    pass


def decorated(ctx):
    from valori.utils import debug_function, memory_usage_decorator, timing_decorator
    from valori.utils.debugging import PerformanceProfiler

    decorators = [debug_function, memory_usage_decorator, timing_decorator]
    profiler = PerformanceProfiler()
    profiled = {}
    for _ in range(12):
        calls = []
        result = ctx.rng.choice([None, 0, "", [1], {"a": 1}, np.arange(3), (1, 2), np.zeros((2, 2)), object()])
        error = None
        if ctx.rng.random() < 0.35:
            error = ctx.rng.choice([ValueError("v"), ImportError("i"), ModuleNotFoundError("m"), KeyError("k"), Odd(),
                                    TypeError("t"), StopIteration(), AssertionError(""), OSError(2, "o")])

        def f(*args, **kwargs):
            """Its own words."""
            calls.append((args, kwargs))
            if error is not None:
                raise error
            return result

        f.__name__ = ctx.rng.choice(["f", "search", "длинное"])
        names = ctx.rng.choices(decorators, k=ctx.rng.choice([1, 1, 1, 2, 3]))
        g = f
        for d in names:
            g = d(g)
        where = " over ".join(d.__name__ for d in reversed(names))
        ctx.check(g.__name__ == f.__name__ and g.__doc__ == f.__doc__, f"{where}: name or documentation lost")
        for _ in range(ctx.rng.choice([1, 2])):
            args = tuple(object() for _ in range(ctx.rng.randint(0, 3)))
            kwargs = {k: object() for k in ctx.rng.sample(["a", "b", "func", "args"], ctx.rng.randint(0, 3))}
            del calls[:]
            caught = got = None
            under_profile = ctx.rng.random() < 0.4
            start = time.time()
            try:
                if under_profile:
                    # one operation may be measured within another, or within itself
                    with contextlib.ExitStack() as open_ones:
                        for name in ctx.rng.choices(["one", "two"], k=ctx.rng.choice([1, 1, 2, 4])):
                            profiled[name] = profiled.get(name, 0) + 1
                            open_ones.enter_context(profiler.measure(name))
                        got = quiet(g, *args, **kwargs)
                    ctx.count("profiled")
                else:
                    got = quiet(g, *args, **kwargs)
            except Exception as e:
                caught = e
            took = time.time() - start
            printed = quiet.said
            if isinstance(error, StopIteration) and under_profile:
                ctx.check(caught is not None, f"{where}: the error was swallowed")
            else:
                ctx.check(caught is error, f"{where}: another error", got=caught, want=error)
            ctx.check(error is not None or got is result, f"{where}: another result", got=got, want=result)
            for shown in re.findall(r" took (-?[0-9.]+) seconds", printed):
                ctx.count("shown")
                ctx.check(0 <= float(shown) <= took + 60, f"{where}: the time shown is not that of the call", shown=shown,
                          took=took)
            for shown in re.findall(r"memory usage: (-?[0-9.]+) MB", printed):
                ctx.check(abs(float(shown)) < 20000, f"{where}: the memory shown is more than there is", shown=shown)
            ctx.check(len(calls) == 1, f"{where}: the function ran {len(calls)} times", error=error)
            a, k = calls[0]
            ctx.check(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and k.keys() == kwargs.keys()
                      and all(k[x] is kwargs[x] for x in k), f"{where}: other arguments")
            ctx.event("raised" if error is not None else "called", where, type(error).__name__, len(args), len(kwargs))
    summary = profiler.get_summary()
    ctx.check({n: s["count"] for n, s in summary.items()} == profiled, "profiler: counts", summary=summary, want=profiled)
    for name, s in summary.items():
        d = s["duration"]
        ctx.check(0 <= d["min"] <= d["avg"] <= d["max"] + 1e-12 and abs(d["total"] - d["avg"] * s["count"]) < 1e-9,
                  "profiler: durations", got=d)
        m = s["memory"]
        ctx.check(m["min"] <= m["avg"] + 1e-9 and m["avg"] <= m["max"] + 1e-9, "profiler: memory", got=m)
    path = os.path.join(ctx.scratch(), "report.json")
    profiler.save_report(path)
    with open(path) as f:
        report = json.load(f)
    ctx.check({n: len(x) for n, x in report["raw_data"].items()} == profiled and
              {n: x["count"] for n, x in report["summary"].items()} == profiled, "profiler: the report", report=report)
    quiet(profiler.print_summary)


def close(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def analyzed(ctx):
    from valori.utils.debugging import VectorAnalyzer

    n, d = ctx.rng.choice([0, 1, 2, 3, 10, 40] * 6 + [1001, 1100]), ctx.rng.choice([1, 2, 5, 16])
    dtype = ctx.rng.choice(["float64", "float32", "int64"])
    v = gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "uniform", "grid", "ties", "sparse", "ints"]), dtype)
    if v.dtype.kind == "i":
        v = v % 100
    special = ctx.rng.random() < 0.25 and v.dtype.kind == "f"
    for i in range(n):
        if ctx.rng.random() < 0.1:
            v[i] = 0
        elif ctx.rng.random() < 0.1:
            v[i] = 3
        elif special and ctx.rng.random() < 0.2:
            v[i, ctx.rng.randrange(d)] = ctx.rng.choice([np.nan, np.inf, -np.inf])
    keep = v.copy()
    with np.errstate(all="ignore"):
        a = VectorAnalyzer().analyze_vectors(v)
    ctx.check(v.tobytes() == keep.tobytes(), "analyzer: the vectors were changed")
    if n == 0:
        ctx.check(list(a) == ["error"], "analyzer: no vectors", got=a)
        quiet(VectorAnalyzer().print_analysis, v)
        ctx.check(a["error"] in quiet.said, "analyzer: what is printed of no vectors", said=quiet.said)
        ctx.event("analyzed", n, d, dtype)
        return
    b, q = a["basic_stats"], a["quality"]
    x = keep.astype(np.float64)
    ctx.check((b["count"], b["dimension"]) == (n, d), "analyzer: count and dimension", got=b)
    ctx.check(close(b["memory_size_mb"], v.nbytes / 2 ** 20), "analyzer: size", got=b)
    ctx.check(close(b["sparsity"], np.mean(x == 0)), "analyzer: sparsity", got=b, want=np.mean(x == 0))
    ctx.check(q["nan_values"] == np.isnan(x).sum() and q["inf_values"] == np.isinf(x).sum(), "analyzer: special values", got=q)
    ctx.check(q["zero_vectors"] == sum(1 for r in x if not r.any()), "analyzer: zero vectors", got=q)
    ctx.check(q["constant_vectors"] == sum(1 for r in x if (r == r[0]).all()), "analyzer: constant vectors", got=q)
    ctx.check(0 <= q["quality_score"] <= 1, "analyzer: score", got=q)
    if q["nan_values"] + q["inf_values"] + q["constant_vectors"] == 0:
        ctx.check(q["quality_score"] == 1, "analyzer: score of faultless vectors", got=q)
    if np.isfinite(x).all():
        ctx.check(close(b["mean"], x.mean()) and close(b["std"], x.std(), 1e-4) and b["min"] == x.min() and b["max"] == x.max(),
                  "analyzer: statistics", got=b)
        norms = np.sqrt((x * x).sum(axis=1))
        got = a["distribution"]["norms"]
        ctx.check(close(got["mean"], norms.mean()) and close(got["min"], norms.min()) and close(got["max"], norms.max()),
                  "analyzer: norms", got=got)
        ds = a["distribution"]["dimension_stats"]
        means, stds = x.mean(axis=0), x.std(axis=0)
        for name, value in (("mean_of_means", means.mean()), ("std_of_means", means.std()), ("mean_of_stds", stds.mean()),
                            ("std_of_stds", stds.std())):
            ctx.check(close(ds[name], value, 1e-4), f"analyzer: {name}", got=ds, want=value)
        ctx.check(close(got["std"], norms.std(), 1e-4), "analyzer: norms", got=got)
        s = a["similarity"]["similarity_stats"]
        ctx.check(all(np.isfinite(t) for t in s.values()), "analyzer: similarities are not numbers", got=s)
        u = x / np.where(norms == 0, 1, norms)[:, None]
        pairs = (u @ u.T)[~np.eye(n, dtype=bool)]
        if n > 1000:  # from a sample
            ctx.check(pairs.min() - 1e-5 <= s["min"] <= s["mean"] <= s["max"] <= pairs.max() + 1e-5,
                      "analyzer: similarities of a sample", got=s)
            ctx.check(close(s["mean"], pairs.mean(), 0.2), "analyzer: similarities of a sample", got=s, want=pairs.mean())
        elif n > 1:
            ctx.check(close(s["std"], pairs.std(), 1e-4), "analyzer: similarities", got=s)
            sure = int((pairs < -0.5 - 1e-5).sum()), int((pairs < -0.5 + 1e-5).sum())
            ctx.check(sure[0] <= a["similarity"]["low_similarity_pairs"] <= sure[1], "analyzer: opposed pairs",
                      got=a["similarity"], want=sure)
            ctx.check(close(s["min"], pairs.min(), 1e-5) and close(s["max"], pairs.max(), 1e-5)
                      and close(s["mean"], pairs.mean(), 1e-5), "analyzer: similarities", got=s)
            sure = int((pairs > 0.95 + 1e-5).sum()), int((pairs > 0.95 - 1e-5).sum())
            ctx.check(sure[0] <= a["similarity"]["high_similarity_pairs"] <= sure[1], "analyzer: similar pairs", got=a["similarity"])
    with np.errstate(all="ignore"):
        quiet(VectorAnalyzer().print_analysis, v)
    said = quiet.said
    for name, text in (("Count", f"{n:,}"), ("Dimension", str(d)), ("Sparsity", f"{b['sparsity']:.2%}"),
                       ("Range", f"[{b['min']:.4f}, {b['max']:.4f}]"), ("Mean", f"{b['mean']:.4f} ± {b['std']:.4f}"),
                       ("Quality Score", f"{q['quality_score']:.2f}"), ("NaN values", f"{q['nan_values']:,}"),
                       ("Inf values", f"{q['inf_values']:,}"), ("Constant vectors", f"{q['constant_vectors']:,}"),
                       ("Zero vectors", f"{q['zero_vectors']:,}")):
        ctx.check(any(line.split(":", 1)[0].strip() == name and line.split(":", 1)[1].strip() == text
                      for line in said.splitlines() if ":" in line), f"analyzer: what is printed as {name}", said=said, want=text)
    ctx.event("analyzed", n, d, dtype, q)


def queries(ctx):
    from valori.utils.debugging import QueryAnalyzer

    a = QueryAnalyzer()
    ctx.check("error" in a.analyze_query_patterns(), "query analyzer: patterns of nothing")
    times, counts = [], []
    for _ in range(ctx.rng.choice([130, 1100, 2500]) if ctx.rng.random() < 0.1 else ctx.rng.randint(1, 10)):
        q = ctx.np.normal(size=ctx.rng.randint(1, 6))
        results = [{"id": str(j), "distance": ctx.rng.random(), "metadata": {}} for j in range(ctx.rng.randint(0, 4))]
        keep = gen.snapshot((q, results))
        t = ctx.rng.random()
        got = a.analyze_query(q, results, 5, t)
        ctx.check(gen.same(keep, (q, results)), "query analyzer: the results were changed")
        r = got["result_stats"]
        ctx.check((r["count"], r["expected_count"], r["search_time"]) == (len(results), 5, t), "query analyzer: counts", got=r)
        ctx.check(close(got["query_stats"]["vector_norm"], np.linalg.norm(q)), "query analyzer: norm", got=got)
        if results:
            ds = [x["distance"] for x in results]
            ctx.check(close(r["distance_min"], min(ds)) and close(r["distance_max"], max(ds)) and
                      close(r["distance_mean"], sum(ds) / len(ds)), "query analyzer: distances", got=r)
        times.append(t)
        counts.append(len(results))
        if ctx.rng.random() < 0.5:
            r["count"], r["search_time"] = -1, 1e9  # the caller's own
        if len(times) <= 10:
            ctx.event("queries", len(results))
    p = a.analyze_query_patterns()
    ctx.check(p["total_queries"] == len(times) and close(p["search_time"]["mean"], np.mean(times)) and
              (p["result_count"]["min"], p["result_count"]["max"]) == (min(counts), max(counts)),
              "query analyzer: patterns", got=p)


def inspected(ctx):
    from valori.utils.debugging import IndexInspector

    kind = ctx.rng.choice(indexes.KINDS)
    u = indexes.Under(ctx, kind, ctx.rng.randint(1, 6))
    if ctx.rng.random() < 0.1:  # more than a sample
        u.insert(gen.vectors(ctx, ctx.rng.choice([100, 101, 150, 260]), u.d, "normal", "float64"))
        ctx.count("crowded")
    for _ in range(4):
        if ctx.rng.random() < 0.85:
            workload.history(ctx, u, ctx.rng.randint(1, 5), lambda q, k, r: None, style="normal", dtype="float64",
                             ops=["insert", "delete", "update"])
        q = ctx.np.normal(size=u.d)
        before = u.answers(q) if u.model else None
        inspector = IndexInspector(u.index)
        info = inspector.inspect_index()
        quiet(inspector.print_inspection)
        said = [line.strip() for line in quiet.said.splitlines()]
        for part in ("stats", "vector_info", "hash_info", "configuration"):
            for key, value in info.get(part, {}).items():
                if not isinstance(value, dict) and (part != "stats" or isinstance(value, (int, float))):
                    ctx.check(f"{key}: {value}" in said, f"inspector of {kind}: what is printed of its {part}", key=key,
                              want=value, said=said)
        n = len(u.model)
        ctx.check(info["initialized"] is True and gen.same(info["stats"], u.index.get_stats()),
                  f"inspector of {kind}: statistics", got=info)
        if "vector_info" in info:
            ctx.check(info["vector_info"]["count"] == n, f"inspector of {kind}: number of vectors", got=info, stored=n)
            if n and "dimension" in info["vector_info"]:
                ctx.check(info["vector_info"]["dimension"] == u.d, f"inspector of {kind}: dimension", got=info)
        if kind == "lsh" and n:
            h = info["hash_info"]
            ctx.check(h["table_count"] == u.config["num_hash_tables"] and h["total_entries"] == n * h["table_count"],
                      f"inspector of {kind}: hash tables", got=h, stored=n)
        if before is not None:
            ctx.check(u.answers(q) == before, f"inspector of {kind}: the answers changed")
        ctx.event("inspected", kind, n)


def performance(ctx):
    from valori.utils.helpers import validate_index_performance

    kind = ctx.rng.choice(indexes.KINDS)
    d = ctx.rng.randint(1, 6)
    u = indexes.Under(ctx, kind, d, cfg=indexes.config(ctx, kind))
    v, q = ctx.np.normal(size=(ctx.rng.randint(1, 20), d)), ctx.np.normal(size=(ctx.rng.randint(1, 5), d))
    keep = v.copy(), q.copy()
    start = time.time()
    got = validate_index_performance(u.index, v, q, k=ctx.rng.choice([1, 3, 10]))
    took = time.time() - start
    ctx.check(got["add_time"] + got["avg_search_time"] * len(q) <= took + 60, "performance: the times are not those of the run",
              got=got, took=took)
    ctx.check(np.array_equal(v, keep[0]) and np.array_equal(q, keep[1]), "performance: the vectors were changed")
    ctx.check(all(np.isfinite(got[x]) and got[x] >= 0 for x in ("add_time", "add_throughput", "avg_search_time",
              "search_throughput")), "performance: not a number", got=got)
    ctx.check(got["index_stats"]["vector_count" if kind in indexes.BACKED else "num_vectors"] == len(v),
              "performance: vectors in the index", got=got)
    found = {r["metadata"]["id"] for r in u.index.search(v[0], 100)}
    if kind == "flat":
        ctx.check(found == set(range(len(v))), "performance: vectors inserted", got=found)
    ctx.event("performance", kind, len(v), len(q))


def tracked(ctx):
    from valori.utils.batch_manager import ProgressTracker, ResourceMonitor

    total = ctx.rng.choice([0, 1, 3, 100])
    t = ProgressTracker(total)
    done = 0
    for _ in range(ctx.rng.randint(0, 5)):
        n = ctx.rng.choice([1, 2])
        if ctx.rng.random() < 0.5:
            t.last_update -= 10
        quiet(t.update, n)
        done += n
        ctx.check(t.current == done, "tracker: progress", got=t.current, want=done)
        if quiet.said:
            ctx.check(f"({done}/{total})" in quiet.said, "tracker: what it says", said=quiet.said)
    quiet(t.finish)
    ctx.check(t.current == total and f"({total}/{total})" in quiet.said and "100.0%" in quiet.said,
              "tracker: at the end", said=quiet.said)
    if ctx.rng.random() < 0.3:
        m = ResourceMonitor()
        quiet(m.start_monitoring, 0.001)
        quiet(m.start_monitoring, 0.001)
        time.sleep(0.01)
        quiet(m.stop_monitoring)
        n = len(m.resource_data)
        time.sleep(0.005)
        ctx.check(len(m.resource_data) == n, "monitor: still running after it was stopped")
        s = m.get_summary()
        if s:
            ctx.check(s["duration"] >= 0 and s["memory"]["min"] <= s["memory"]["avg"] + 1e-6 <= s["memory"]["max"] + 2e-6,
                      "monitor: summary", got=s)
        path = os.path.join(ctx.scratch(), "r.json")
        m.save_report(path)
        with open(path) as f:
            ctx.check(len(json.load(f)["data"]) == n, "monitor: report")
    ctx.event("tracked", total, done)


SCENARIOS = {
    "decorated": (decorated, 200, 2000),
    "analyzed": (analyzed, 300, 3000),
    "queries": (queries, 60, 600),
    "inspected": (inspected, 120, 1200),
    "performance": (performance, 100, 1000),
    "tracked": (tracked, 100, 1000),
}

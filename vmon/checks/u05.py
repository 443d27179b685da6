"""U05: the set helpers (normalizing, similarity matrix, duplicates, batch search, text and file vectors) do what they say."""

import contextlib
import io
import os

import numpy as np

from vmon import gen, indexes, models, stores

LEVEL = "exploration"
QUICK = 4
RULE = (
    "sets of vectors of ten styles and nine dtypes through normalization, similarity matrix and duplicate search, against "
    "float64 definitions and the rules of leader grouping; batch search against single searches on every index; texts "
    "and files (some missing, empty or damaged) through vector creation with a recording stand-in model, compared with "
    "what the model gives for each; distinct by event hash"
)
REQUIRED = {"again": 20, "normalized": 200, "matrix": 200, "groups": 200, "searched": 60, "texts": 60, "files": 60, "crowded": 5}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def some(ctx):
    d, n = gen.dim(ctx, 1, 16), ctx.rng.choice([1, 2, 5, 12])
    if ctx.rng.random() < 0.07:
        d, n = ctx.rng.choice([gen.dim(ctx, 3, 8), 20]), ctx.rng.choice([130, 300, 520])
        ctx.count("crowded")
        v = gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "ties", "clusters", "offset", "offset"]), ctx.rng.choice(["float64", "float32"]))
        for _ in range(3):  # twins far apart
            v[ctx.rng.randrange(n)] = v[ctx.rng.randrange(n)]
        return v
    return gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "uniform", "grid", "ties", "clusters", "sparse", "offset", "ints"]),
                       ctx.rng.choice(gen.DTYPES))


def eps(v):
    # single precision is enough for types it holds exactly
    return 2.0 ** -10 if v.dtype == np.float16 else 2.0 ** -23 if np.can_cast(v.dtype, np.float32) else 2.0 ** -52


def normalized(ctx):
    from valori.exceptions import ValidationError
    from valori.utils.helpers import normalize_vectors

    v = some(ctx)
    x, keep = np.asarray(v, dtype=np.float64), v.copy()
    for method in ["l2", "l1", "max", "minmax"]:
        got = normalize_vectors(v, method) if method != "l2" or ctx.rng.random() < 0.5 else normalize_vectors(v)
        ctx.count("normalized")
        if method == "minmax":
            low, span = x.min(axis=1, keepdims=True), np.ptp(x, axis=1, keepdims=True)
            want = (x - low) / (span + 1e-8)
            slack = (np.abs(x).max() + 1) / (span + 1e-8)
        else:
            size = {"l2": np.sqrt((x * x).sum(axis=1)), "l1": np.abs(x).sum(axis=1), "max": np.abs(x).max(axis=1)}[method]
            want = x / (size[:, None] + 1e-8)
            slack = 1.0
        tol = 64 * eps(v) * (x.shape[1] + 4) * slack + 1e-7
        ctx.check(got.shape == v.shape and bool(np.all(np.abs(np.asarray(got, dtype=np.float64) - want) <= tol)),
                  f"normalize_vectors {method} is wrong", got=got, want=want, vectors=v)
        ctx.check(np.array_equal(v, keep), f"normalize_vectors {method} altered its argument")
    ctx.event("normalized", v.shape, str(v.dtype), x.ravel()[:4].tolist())
    ctx.raises(ValidationError, lambda: normalize_vectors(v, ctx.rng.choice(["", "L2", "l3", None])),
               "normalize_vectors takes an unknown method")


def true_matrix(x, metric):
    if metric == "dot":
        return x @ x.T
    if metric == "cosine":
        n = x / (np.sqrt((x * x).sum(axis=1, keepdims=True)) + 1e-8)
        return n @ n.T
    return 1.0 / (1.0 + np.sqrt(((x[:, None] - x[None]) ** 2).sum(axis=2)))


def matrix(ctx):
    from valori.exceptions import ValidationError
    from valori.utils.helpers import compute_similarity_matrix, find_duplicates

    v = some(ctx)
    x, keep = np.asarray(v, dtype=np.float64), v.copy()
    ctx.event("matrix", v.shape, str(v.dtype), x.ravel()[:4].tolist())
    for metric in ["cosine", "euclidean", "dot"]:
        want = true_matrix(x, metric)
        scale = {"dot": (np.abs(x).max(initial=0) + 1) ** 2, "cosine": 1.0,
                 "euclidean": np.abs(x).max(initial=0) + 1}[metric]
        tol = 64 * eps(v) * (x.shape[1] + 4) * scale + 1e-7
        got = compute_similarity_matrix(v, metric)
        ctx.count("matrix")
        ctx.check(got.shape == want.shape and bool(np.all(np.abs(np.asarray(got, dtype=np.float64) - want) <= tol)),
                  f"compute_similarity_matrix {metric} is wrong", got=got, want=want, vectors=v)
        if metric == "dot" and v.dtype == np.float16:
            continue  # may overflow to infinity
        threshold = ctx.rng.choice([0.5, 0.9, 0.99, 1.0 - 1e-6, float(np.median(want)), -1.0, 2.0])
        groups = find_duplicates(v, threshold, metric)
        ctx.count("groups")
        members = [i for g in groups for i in g]
        ctx.check(len(set(members)) == len(members) and all(0 <= i < len(v) for i in members)
                  and all(len(g) > 1 for g in groups), f"find_duplicates {metric}: the groups are not disjoint pairs or more",
                  groups=groups)
        ctx.check(all(g == sorted(g) for g in groups) and [g[0] for g in groups] == sorted(g[0] for g in groups),
                  f"find_duplicates {metric}: groups are not in order", groups=groups)
        for g in groups:
            for j in g[1:]:
                ctx.check(want[g[0], j] >= threshold - tol, f"find_duplicates {metric}: a member is not a duplicate",
                          group=g, member=j, similarity=want[g[0], j], threshold=threshold)
        followers = {j for g in groups for j in g[1:]}
        leaders = [i for i in range(len(v)) if i not in followers]
        apart = np.triu(want[np.ix_(leaders, leaders)] >= threshold + tol, 1)
        ctx.check(not apart.any(), f"find_duplicates {metric}: a duplicate is missed",
                  pairs=[(leaders[a], leaders[b]) for a, b in np.argwhere(apart)[:3]], threshold=threshold,
                  groups=groups[:20])
    ctx.check(np.array_equal(v, keep), "the vectors were altered")
    ctx.raises(ValidationError, lambda: compute_similarity_matrix(v, "angular"), "an unknown metric is taken")
    ctx.raises(ValidationError, lambda: find_duplicates(v, 0.9, ""), "an unknown metric is taken")


def searched(ctx):
    from valori.utils.helpers import batch_search

    kind = ctx.rng.choice(indexes.KINDS)
    d = ctx.rng.randint(1, 6)
    under = indexes.Under(ctx, kind, d)
    under.insert(gen.vectors(ctx, ctx.rng.randint(1, 30), d, "normal", "float64"))
    under.ready()
    queries = gen.vectors(ctx, ctx.rng.choice([0, 1, 4, 11, 11, 60]), d, "normal", "float64")
    for i in range(1, len(queries)):  # alike, or asked twice
        if ctx.rng.random() < 0.3:
            queries[i] = np.nextafter(queries[i - 1], ctx.rng.choice([queries[i - 1], np.full(d, np.inf)]))
    k = ctx.rng.choice([1, 3, 10])
    want = [under.index.search(q, k) for q in queries]
    got = batch_search(under.index, queries, k=k, batch_size=ctx.rng.choice([1, 2, 4, 100]))
    ctx.count("searched")
    ctx.event("searched", kind, len(queries), k)
    ctx.check(got == want, f"{kind}: batch search differs from single searches", got=got, want=want)


def texts(ctx):
    from valori.utils.helpers import create_vectors_from_text

    model = models.Model(ctx.rng.randint(1, 8), ctx.rng.choice(["float32", "float64"]))
    given = [ctx.rng.choice(["alpha", "beta", "zero one", "", "日本", "x y"]) + str(ctx.rng.randint(0, 5))
             for _ in range(ctx.rng.randint(1, 9))]
    name = ctx.rng.choice(["m1", "org/m2"])
    with models.installed("sentence_transformers", model):
        vectors, meta = quiet(create_vectors_from_text, list(given), name, batch_size=ctx.rng.choice([1, 2, 32]))
        ctx.check(vectors.shape == (len(given), model.d) and vectors.dtype == np.float32, "vectors of texts: wrong shape or type",
                  shape=vectors.shape, dtype=vectors.dtype)
        for i, t in enumerate(given):
            ctx.check(np.array_equal(vectors[i], model.of(t).astype(np.float32)), "a text has the vector of another", text=t)
            ctx.check(meta[i]["text"] == t and meta[i]["text_length"] == len(t) and meta[i]["model_used"] == name
                      and meta[i]["embedding_dimension"] == model.d, "the metadata of a text are wrong", meta=meta[i], text=t)
    ctx.check(model.name == name and len(meta) == len(given), "another model was used, or metadata are missing")
    ctx.count("texts")
    ctx.event("texts", given, name)


def files(ctx):
    from valori.utils.helpers import create_vectors_from_files

    folder = ctx.scratch()
    model = models.Model(ctx.rng.randint(1, 8))
    paths, good = [], []
    for i in range(ctx.rng.randint(0, 7)):
        if paths and ctx.rng.random() < 0.2:  # once more
            p = ctx.rng.choice(paths)
            paths.append(p)
            good.extend([g for g in good if g[0] == p][:1])
            ctx.count("again")
            continue
        p = os.path.join(folder, f"{i}" + ctx.rng.choice([".txt", ".md", ".txt", ".xyz", ".pdf"]))
        r = ctx.rng.random()
        text = f"text {ctx.rng.randint(0, 3)}  of file\n" + "more " * ctx.rng.randint(0, 400)
        if r > 0.2:
            with open(p, "w") as f:
                f.write(text)
        fine = r > 0.2 and p.endswith((".txt", ".md"))
        paths.append(p)
        if fine:
            good.append((p, " ".join(text.split())))
    given = paths if ctx.rng.random() < 0.5 else [__import__("pathlib").Path(p) for p in paths]
    with models.installed("sentence_transformers", model):
        vectors, meta = quiet(create_vectors_from_files, given, None, "m")
        ctx.check(len(vectors) == len(meta) == len(good), "not one vector per readable file", got=len(vectors),
                  meta=len(meta), want=[p for p, _ in good])
        for i, (p, text) in enumerate(good):
            want = models.unit(model.of(text), True)
            ctx.check(bool(np.all(np.abs(np.asarray(vectors[i], dtype=np.float64) - want) < 1e-5)),
                      "a file has the vector of another text", file=p, got=vectors[i], want=want)
            ctx.check(os.path.basename(p) == meta[i].get("file_name"), "a file has the metadata of another", meta=meta[i], file=p)
    ctx.count("files")
    ctx.event("files", [os.path.basename(p) for p in paths], len(good))


SCENARIOS = {"normalize": (normalized, 100, 2000), "matrix": (matrix, 150, 3000), "search": (searched, 80, 800),
             "texts": (texts, 80, 800), "files": (files, 80, 600)}

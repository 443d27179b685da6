"""U04: vectors and metadata written to a file are read back as they were."""

import datetime
import decimal
import os
import pathlib
import shutil

import numpy as np

from vmon import gen

LEVEL = "exploration"
QUICK = 12
RULE = (
    "sets of vectors of nine dtypes (also none at all, and of no dimension) with nested metadata (sometimes of another count than the vectors) are written in each "
    "format, over earlier files and with odd names, and read back; shapes and values are compared exactly (dtypes too, "
    "where the format keeps them), metadata deeply; the caller's data and other files must stay as they were; unknown "
    "formats are refused; distinct by event hash"
)
REQUIRED = {"odd": 200, "npz": 200, "pickle": 200, "json": 200, "refused": 60, "overwritten": 150, "bare": 300, "uneven": 300}
SUFFIX = {"npz": [".npz"], "pickle": [".pkl", ".pickle"], "json": [".json"]}


def odd(ctx, path):
    """Metadata of types that a format may not know are refused or come back as they were."""
    from valori.utils.helpers import load_vectors_from_file, save_vectors_to_file

    fmt = ctx.rng.choice(list(SUFFIX))
    path += ctx.rng.choice(SUFFIX[fmt])
    value = ctx.rng.choice([
        np.int64(3), np.float32(0.5), np.bool_(True), datetime.datetime(2024, 5, 6, 7), datetime.date(2024, 5, 6), {1, 2},
        b"bytes", 1 + 2j, pathlib.PurePosixPath("a/b"), decimal.Decimal("1.5"), ctx.np.normal(size=3), frozenset("ab")])
    v = ctx.np.normal(size=(2, 2))
    meta = [{"n": 1, "odd": value}, {"deep": [{"odd": value}]}]
    ctx.event("odd", fmt, type(value).__name__)
    ctx.count("odd")
    try:
        save_vectors_to_file(v, meta, path, format=fmt)
    except (TypeError, ValueError) as e:
        ctx.check(fmt == "json", f"{fmt}: metadata with a {type(value).__name__} are refused", error=e)
        return
    gv, gm = load_vectors_from_file(path)
    ctx.check(np.array_equal(gv, v) and gen.same(gm, meta), f"{fmt}: metadata with a {type(value).__name__} are not read as written",
              got=gm, want=meta)


def run(ctx):
    from valori.exceptions import ValidationError
    from valori.utils.helpers import load_vectors_from_file, save_vectors_to_file

    folder = ctx.scratch()
    written = {}
    bare = {}
    for step in range(ctx.rng.randint(3, 12)):
        if ctx.rng.random() < 0.1:
            name = os.path.join(folder, "x" + ctx.rng.choice(["", ".txt", ".NPZ", ".npy", ".csv"]))
            ctx.raises(ValidationError,
                       lambda: save_vectors_to_file(np.ones((1, 2)), [{}], name, format=ctx.rng.choice(["", "csv", "NPZ", None])),
                       "an unknown format is written")
            open(name, "a").close()
            ctx.raises(ValidationError, lambda: load_vectors_from_file(name), "a file of unknown format is read")
            ctx.count("refused")
            continue
        if ctx.rng.random() < 0.15:
            # a name of any kind with a format said: wherever it went, two names must not end in one file
            name = ctx.rng.choice(["run.1", "run.2", "run", "2024.01.05", "a.b.c", "x.data"])
            fmt = ctx.rng.choice(list(SUFFIX))
            v, meta = ctx.np.normal(size=(2, 3)), [{"n": step}, {}]
            save_vectors_to_file(v, meta, os.path.join(folder, fmt + name), format=fmt)
            bare[fmt + name] = (fmt, v, meta)
            ctx.count("bare")
            for where, (f, wv, wm) in bare.items():
                there = [n for n in (where, where + ".npz") if os.path.exists(os.path.join(folder, n))]
                ctx.check(len(there) == 1, f"{f}: what is written is not under its name", name=where, files=sorted(os.listdir(folder)))
                path = os.path.join(folder, there[0])
                suffixed = os.path.join(folder, "copy" + SUFFIX[f][0])
                shutil.copy(path, suffixed)
                gv, gm = load_vectors_from_file(suffixed)
                os.remove(suffixed)
                ctx.check(np.array_equal(gv, wv) and gen.same(gm, wm), f"{f}: what is written under a name is not there",
                          name=where, got=gv, want=wv)
            continue
        if ctx.rng.random() < 0.15:
            odd(ctx, os.path.join(folder, f"odd{step}"))
            continue
        fmt = ctx.rng.choice(list(SUFFIX))
        stem = ctx.rng.choice(["v", "a.b", "naïve", "with space", "v.npz" if fmt == "json" else "w"])
        path = os.path.join(folder, stem + ctx.rng.choice(SUFFIX[fmt]))
        n, d = ctx.rng.choice([0, 1, 2, 9]), ctx.rng.choice([0, 1, 3, 8])
        v = gen.vectors(ctx, n, d, ctx.rng.choice(["normal", "ints", "huge", "tiny"]), ctx.rng.choice(gen.DTYPES[:4] + gen.DTYPES[5:])) \
            if d else np.zeros((n, 0))
        if v.dtype.kind == "f" and v.size and fmt != "json" and ctx.rng.random() < 0.2:
            v[0, 0] = ctx.rng.choice([np.nan, np.inf, -0.0])
        # metadata of another count than the vectors are read back as they were, too
        many = n if ctx.rng.random() < 0.8 else ctx.rng.choice([0, n + 1, n + 5, n // 2])
        if many != n:
            ctx.count("uneven")
        meta = [gen.metadata(ctx, (step if fmt == "json" else (step, j)), allow_none=False) for j in range(many)]
        keep = gen.snapshot((v, meta))
        if path in written:
            ctx.count("overwritten")
        given = path if ctx.rng.random() < 0.5 else __import__("pathlib").Path(path)
        if ctx.rng.random() < 0.4 and fmt == "npz":
            save_vectors_to_file(v, meta, given)
        else:
            save_vectors_to_file(v, meta, given, format=fmt)
        ctx.check(np.array_equal(v, keep[0], equal_nan=True) and gen.same(meta, keep[1]), f"{fmt}: saving altered the caller's data")
        written[path] = (fmt, *keep)
        ctx.event(fmt, v.shape, str(v.dtype), v.ravel()[:4].tolist(), meta)
        ctx.state(fmt, v.shape, str(v.dtype))
        for p, (f, wv, wm) in written.items():
            gv, gm = load_vectors_from_file(p)
            ctx.check(isinstance(gv, np.ndarray) and gv.shape == wv.shape, f"{f}: the vectors read have another shape",
                      got=getattr(gv, "shape", gv), want=wv.shape)
            ctx.check(np.array_equal(np.asarray(gv, dtype=np.float64), np.asarray(wv, dtype=np.float64), equal_nan=True),
                      f"{f}: the vectors read are not those written", got=gv, want=wv)
            if f != "json":
                ctx.check(gv.dtype == wv.dtype, f"{f}: the vectors read have another type", got=gv.dtype, want=wv.dtype)
            ctx.check(isinstance(gm, list) and gen.same(gm, wm), f"{f}: the metadata read are not those written", got=gm, want=wm)


SCENARIOS = {"files": (run, 200, 3000)}

"""Persistence managers under test, and what is saved with them."""

import json
import os

import numpy as np

from . import gen

KINDS = ["tensor", "incremental"]
WHAT = ["state", "vectors", "index"]


def opened(kind, folder, **config):
    from valori.persistence import IncrementalPersistence, TensorPersistence

    p = {"tensor": TensorPersistence, "incremental": IncrementalPersistence}[kind]({"data_dir": folder, **config})
    p.initialize()
    return p


def config(ctx, kind):
    if kind == "tensor":
        return {"compression": ctx.rng.random() < 0.5}
    return {"checkpoint_interval": ctx.rng.choice([1, 2, 3, 7, 100])}


def value(ctx, what, uid):
    """Something to save; `uid` makes it unlike every other one."""
    if what == "vectors":
        n = ctx.rng.choice([0, 1, 2, 7, 30])
        dtype = ctx.rng.choice(gen.DTYPES)
        v = gen.vectors(ctx, n, gen.dim(ctx, 1, 20), dtype=dtype)
        if ctx.rng.random() < 0.3:
            v = np.asfortranarray(v)
        if ctx.rng.random() < 0.5:
            ids = [f"{c}~{uid}" for c in gen.ids(ctx, n)]
        elif ctx.rng.random() < 0.5:
            ids = [f"v{uid}-{i}" for i in range(n)]
        else:
            ids = [uid * 1000 + i for i in range(n)]
        if ids and ctx.rng.random() < 0.25:  # ids that are not all alike, or that an array would change
            for _ in range(ctx.rng.choice([1, 1, 3])):
                ids[ctx.rng.randrange(n)] = ctx.rng.choice([f"{uid}\0", None, uid, float(uid), f"{uid}", True, (uid, "a"), 2 ** 70,
                                                            2 ** 63, -1, b"b", b"b\0", "", 0.1, [uid]])
        return v, ids
    out = {"uid": uid, "meta": gen.metadata(ctx, uid, depth=3)}
    if ctx.rng.random() < 0.7:
        out["vectors"] = {i: gen.vectors(ctx, 1, gen.dim(ctx, 1, 8))[0] for i in gen.ids(ctx, ctx.rng.randint(0, 4))}
    if ctx.rng.random() < 0.4:
        out[(1, "tuple key")] = {"set": [1, (2, 3)], "bytes": b"\x00\xff", "big": 2 ** 80}
    return out


def names(ctx, n):
    pool = ["a", "b", "state.pkl", "db/state", "db/deep/er/index.bin", "vectors.npz", "v.npy", "v", "with space",
            "ключ", "x.y.z", "UPPER", "upper", "db/vectors.npz", "0", "checkpoint", "final.npz.bak"]
    ctx.rng.shuffle(pool)
    return pool[:n]


def save(p, what, name, content):
    if what == "vectors":
        return p.save_vectors(content[0], content[1], name)
    return p.save_state(content, name) if what == "state" else p.save_index(content, name)


def load(p, what, name):
    """What is found under the name, or None."""
    got = p.load_vectors(name) if what == "vectors" else p.load_state(name) if what == "state" else p.load_index(name)
    if what == "vectors" and got is not None and got[0] is None:
        return None
    return got


def equal(what, a, b):
    if a is None or b is None:
        return a is None and b is None
    if what == "vectors":
        return gen.same_vector(a[0], b[0]) and list(a[1]) == list(b[1]) and [type(x) for x in a[1]] == [type(x) for x in b[1]]
    return gen.same(a, b)


def slot(kind, what, name):
    """Which saved thing a name refers to: incremental persistence has one state."""
    if what == "vectors":
        return "vectors", name if name.endswith(".npz") else name + ".npz"
    if what == "state" and kind == "incremental":
        return "state", ""
    return "file", name


def log(folder):
    """The complete lines of the operation log."""
    path = os.path.join(folder, "operations.log")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8", errors="replace") as f:
            for line in f:
                try:
                    entry = json.loads(line)
                except ValueError:
                    out.append(None)
                    continue
                out.append(entry)
    return out

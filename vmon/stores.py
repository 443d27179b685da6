"""Storage backends under test, and values to put into them."""

import numpy as np

from . import gen

KINDS = ["memory", "disk", "hybrid"]


def make(kind, folder=None, limit=None):
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage

    if kind == "memory":
        return MemoryStorage({})
    if kind == "disk":
        return DiskStorage({"data_dir": folder})
    config = {"memory": {}, "disk": {"data_dir": folder}}
    if limit is not None:
        config["memory_limit"] = limit
    return HybridStorage(config)


def opened(ctx, kind, folder=None, limit=None):
    s = make(kind, folder or (ctx.scratch() if kind != "memory" else None), limit)
    s.initialize()
    return s


def value(ctx, uid=None):
    """A vector of any shape and type a backend accepts, and a metadata dictionary."""
    d = gen.dim(ctx, 1, 40)
    dtype = ctx.rng.choice(gen.DTYPES)
    v = gen.vectors(ctx, 1, d, dtype=dtype)[0]
    r = ctx.rng.random()
    if r < 0.06:
        v = np.zeros(0, dtype=v.dtype)
    elif r < 0.12:
        v = np.stack([v, v[::-1]])
    elif r < 0.2:
        v = np.repeat(v, 2)[::2]  # a strided view
    elif r < 0.26 and v.dtype.kind == "f":
        v = v.copy()
        v[0] = ctx.rng.choice([np.inf, -np.inf, np.nan, -0.0, 5e-324])
    elif r < 0.34:
        v = v.astype(ctx.rng.choice([">f8", ">f4", ">i2", "?", "c16", "c8", "u8", "i2", "g"]))
        if v.dtype.kind == "c":
            v[-1] *= -1j
    elif r < 0.4:
        v = ctx.rng.choice([
            lambda: np.array(v[0]),  # no dimension at all
            lambda: np.asfortranarray(np.stack([v, v + v, v])),
            lambda: v[::-1],
            lambda: v.reshape(1, -1, 1),
            lambda: np.zeros((0, 3), dtype=v.dtype),
            lambda: np.broadcast_to(v[:1], (5,)),  # cannot be written to
        ])()
    return v, gen.metadata(ctx, uid) if ctx.rng.random() < 0.85 else None


def count(storage):
    """Number of stored vectors as the backend reports it."""
    stats = storage.get_stats()
    if "vector_count" in stats:
        return stats["vector_count"]
    return stats["disk"]["vector_count"]


def compare(ctx, got, want, where, **detail):
    """The answer of retrieve_vector against the model's record."""
    if want is None:
        ctx.check(got is None, f"{where}: a record that should be absent is returned", got=got, **detail)
        return
    ctx.check(got is not None, f"{where}: a stored record is missing", want=want, **detail)
    vector, meta = got
    ctx.check(gen.same_vector(vector, want[0]), f"{where}: the vector differs from the one stored",
              got=vector, want=want[0], **detail)
    ctx.check(gen.same_meta(meta, want[1]), f"{where}: the metadata differs from what was stored",
              got=meta, want=want[1], **detail)


def compare_all(ctx, storage, model, where, extra=()):
    """Every record, the listing and the count against the model."""
    for i in list(model) + list(extra):
        compare(ctx, storage.retrieve_vector(i), model.get(i), where, id=i)
    listed = storage.list_vectors()
    ctx.check(sorted(listed) == sorted(model), f"{where}: the listing differs from what is stored",
              listed=sorted(listed), stored=sorted(model))
    ctx.check(count(storage) == len(model), f"{where}: the count differs from what is stored",
              count=count(storage), stored=len(model))

"""S01: a storage backend is a map from ids to records, whatever the history."""

import os
import threading

import numpy as np

from vmon import gen, stores

LEVEL = "exploration"
QUICK = 6
RULE = (
    "random histories of 40-120 operations (store, overwrite, update, delete, retrieve, list with limits, "
    "count) with adversarial ids, dtypes, shapes and metadata on memory, disk and hybrid storage, each "
    "answer compared with a dictionary; a case is non-trivial when the oracle compared at least one answer, "
    "and distinct by the hash of its recorded events"
)
REQUIRED = {"store": 1500, "overwrite": 300, "update": 500, "delete": 500, "retrieve": 1000, "list": 300, "refused": 1500, "awkward_stored": 200, "twin": 100}


class NoText:
    """Can be copied and pickled, but has no text."""

    def __repr__(self):
        raise ValueError("no text")

    def __eq__(self, other):
        return isinstance(other, NoText)


class NoCopy:
    """Cannot be copied or pickled."""

    def __reduce_ex__(self, protocol):
        raise TypeError("no copy")


def awkward(ctx):
    """A record that a backend may refuse, but then it changes nothing."""
    v, m = stores.value(ctx, "awkward")
    m = dict(m or {})
    thing = ctx.rng.choice([NoText, NoCopy, lambda: open(os.devnull), lambda: (i for i in "ab"), lambda: lambda: 0,
                            threading.Lock, lambda: "\ud800"])()
    if ctx.rng.random() < 0.3:
        return np.array([thing, 1.5], dtype=object), m
    m["thing"] = ctx.rng.choice([thing, [1, thing], {"deep": (thing,)}])
    return v, m


def twin(ctx, v, m):
    """A record all but equal to this one: another type, the other zero, 1 for True."""
    v, m = gen.snapshot((v, m))
    r = ctx.rng.random()
    if r < 0.3:
        v = np.asarray(v)
        v = v.astype("float64" if v.dtype != np.float64 else "float32")
    elif r < 0.5:
        v = np.asarray(v).reshape(-1) if np.ndim(v) > 1 else np.asarray(v)[None]
    elif r < 0.6 and np.asarray(v).dtype.kind == "f":
        v = np.array(v)
        v[v == 0] *= -1
    elif m is not None:
        for k, x in m.items():
            if isinstance(x, (bool, int, float)):
                m[k] = ctx.rng.choice([y for y in (bool(x), float(x), -0.0, int(x) if abs(x) < 1e300 else x)
                                       if y == x] or [x])
    return v, m


def try_awkward(ctx, storage, model, i, where):
    """Stored and readable, or refused without a trace."""
    v, m = awkward(ctx)
    update = ctx.rng.random() < 0.4
    try:
        ok = storage.update_vector(i, v, m) if update else storage.store_vector(i, v, m)
    except StorageError:
        ctx.count("refused")
    else:
        ctx.check(bool(ok) == (not update or i in model), f"{where}: the answer is wrong", got=ok)
        if ok:
            ctx.count("awkward_stored")
            got = storage.retrieve_vector(i)
            ctx.check(got is not None and np.shape(got[0]) == v.shape and set(got[1]) == set(m),
                      f"{where}: a record with an unusual value was accepted and is not there", got=got is not None)
            plain = stores.value(ctx, "plain")
            storage.store_vector(i, *plain)
            model[i] = plain
    stores.compare_all(ctx, storage, model, f"{where}: after {'updating' if update else 'storing'} an unusual value",
                       [] if i in model else [i])


def history(ctx, kind):
    global StorageError
    from valori.exceptions import StorageError

    limit = ctx.rng.choice([0, 1, 2, 3, 5, 1000]) if kind == "hybrid" else None
    storage = stores.opened(ctx, kind, limit=limit)
    pool = gen.ids(ctx, ctx.rng.randint(2, 14))
    model = {}
    for step in range(ctx.rng.randint(40, 120)):
        op = ctx.rng.choice(["store", "store", "store", "update", "update", "delete", "retrieve",
                             "retrieve", "retrieve", "list", "sweep", "awkward"])
        i = ctx.rng.choice(pool)
        where = f"{kind}: step {step} {op}"
        if op == "store":
            v, m = stores.value(ctx, step if ctx.rng.random() < 0.5 else None)
            ok = storage.store_vector(i, v, m) if m is not None or ctx.rng.random() < 0.5 \
                else storage.store_vector(i, v)
            ctx.check(ok is True, f"{where}: storing did not report success", id=i, got=ok)
            if i in model:
                ctx.count("overwrite")
            model[i] = (v, m)
        elif op == "update":
            v, m = stores.value(ctx, step if ctx.rng.random() < 0.5 else None)
            if i in model and ctx.rng.random() < 0.3:
                v, m = twin(ctx, *model[i])
                ctx.count("twin")
            ok = storage.update_vector(i, v, m)
            ctx.check(bool(ok) == (i in model), f"{where}: the answer does not say whether the id was known",
                      id=i, got=ok)
            if i in model:
                model[i] = (v, m)
        elif op == "delete":
            ok = storage.delete_vector(i)
            ctx.check(bool(ok) == (i in model), f"{where}: the answer does not say whether the id was known",
                      id=i, got=ok)
            model.pop(i, None)
        elif op == "awkward":
            try_awkward(ctx, storage, model, i, where)
        elif op == "retrieve":
            stores.compare(ctx, storage.retrieve_vector(i), model.get(i), where, id=i)
        elif op == "list":
            n = ctx.rng.choice([None, 0, 1, 2, len(model), len(model) + 3])
            listed = storage.list_vectors() if n is None and ctx.rng.random() < 0.5 else storage.list_vectors(n)
            ctx.check(len(set(listed)) == len(listed), f"{where}: an id is listed twice", listed=listed)
            ctx.check(set(listed) <= set(model), f"{where}: an id is listed that is not stored",
                      listed=listed, stored=list(model))
            want = len(model) if n is None else min(n, len(model))
            ctx.check(len(listed) == want, f"{where}: wrong number of ids for the limit",
                      limit=n, listed=listed, stored=list(model))
        else:
            stores.compare_all(ctx, storage, model, where, [x for x in pool if x not in model])
        if op in ("store", "update", "delete"):
            ctx.check(stores.count(storage) == len(model), f"{where}: the count is off",
                      count=stores.count(storage), stored=len(model))
        ctx.event(op, i, i in model)
        ctx.state(kind, tuple(sorted(pool.index(x) for x in model)))
    stores.compare_all(ctx, storage, model, f"{kind}: end", [x for x in pool if x not in model])
    ctx.check(not storage.store_vector("", gen.vectors(ctx, 1, 2)[0]), "an empty id was accepted")
    stores.compare_all(ctx, storage, model, f"{kind}: after an empty id was refused")
    storage.close()


SCENARIOS = {
    "memory": (lambda c: history(c, "memory"), 60, 800),
    "disk": (lambda c: history(c, "disk"), 60, 800),
    "hybrid": (lambda c: history(c, "hybrid"), 80, 1000),
}

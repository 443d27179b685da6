"""The five indexes behind one interface, next to a model of what they should hold."""

import numpy as np

from . import gen, oracle, stores

KINDS = ["flat", "hnsw", "ivf", "lsh", "annoy"]
BACKED = ["flat", "hnsw", "ivf"]  # keep their vectors in a storage backend
METRICS = {
    "flat": ["cosine", "euclidean"], "hnsw": ["cosine", "euclidean"], "ivf": ["cosine", "euclidean"],
    "lsh": ["cosine", "euclidean", "manhattan"],
    "annoy": ["angular", "euclidean", "manhattan", "dot"],
}
# indexes that report a distance (ascending) and those that report a similarity (descending)
ASCENDING = {"flat", "hnsw", "ivf"}


def classes():
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex

    return {"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}


def config(ctx, kind, metric=None, **extra):
    c = {"metric": metric or ctx.rng.choice(METRICS[kind])}
    if kind == "ivf":
        c["n_clusters"] = ctx.rng.choice([1, 2, 3, 4, 6])
        c["n_probes"] = ctx.rng.choice([1, 2, 3, 6, 10])
    elif kind == "hnsw":
        c["m"] = ctx.rng.choice([1, 2, 4, 16])
        c["ef_search"] = ctx.rng.choice([1, 4, 10, 50])
    elif kind == "lsh":
        c["num_hash_tables"] = ctx.rng.choice([1, 3, 10])
        c["num_projections"] = ctx.rng.choice([8, 16, 64])
        c["hash_size"] = ctx.rng.choice([1, 2, 4, 8])
        c["threshold"] = -2.0
        c["random_seed"] = ctx.rng.randint(0, 1000)
    elif kind == "annoy":
        c["num_trees"] = ctx.rng.choice([1, 3, 10])
        c["build_on_disk"] = ctx.rng.random() < 0.3
    c.update(extra)
    return c


def similarity(kind, metric, q, m):
    """What the index should report for each row of m."""
    if kind in ASCENDING:
        return oracle.distances(metric, q, m)
    q64, m64 = np.asarray(q, dtype=np.float64), np.asarray(m, dtype=np.float64)
    if kind == "lsh" and metric == "cosine":
        d = 1.0 - oracle.distances("cosine", q, m)
        zero = (np.linalg.norm(m64, axis=1) == 0) | (np.linalg.norm(q64) == 0)
        d[zero] = 0.0
        return d
    if metric == "angular":
        # Annoy's angular distance is sqrt(2(1-cos)), sqrt(2) when one of them is zero
        d = np.sqrt(2.0 * np.maximum(0.0, oracle.distances("cosine", q, m)))
        return np.maximum(0.0, 1.0 - d / 2.0)
    if metric == "dot":
        return np.clip(m64 @ q64, 0.0, 1.0)
    return 1.0 / (1.0 + oracle.distances(metric, q, m))


def similarity_tolerance(kind, metric, q, m, eps):
    if kind in ASCENDING:
        return oracle.tolerance(metric, q, m, eps)
    q64, m64 = np.asarray(q, dtype=np.float64), np.asarray(m, dtype=np.float64)
    if kind == "lsh":
        return np.full(len(m64), 1e-6 if eps < 1e-8 else 64 * eps)
    # Annoy computes in float32
    eps = max(eps, 2.0 ** -23)
    if metric == "angular":
        # sqrt(2-2cos) loses half the digits near zero
        square = 2.0 * np.maximum(0.0, oracle.distances("cosine", q, m))
        return (np.sqrt(square + 16 * eps * (q64.size + 4)) - np.sqrt(square)) + 1e-6
    if metric == "dot":
        return 64 * eps * (q64.size + 4) * (np.abs(m64) @ np.abs(q64) + 1)
    scale = np.abs(q64).max(initial=0) + np.abs(m64).max(axis=1, initial=0)
    err = 64 * eps * (q64.size + 4) * (scale + 1)
    return np.minimum(1.0, err)


class Under:
    """An index under test with a storage backend, and a model {id: (vector, metadata)}."""

    def __init__(self, ctx, kind, d, cfg=None, storage=None):
        self.ctx, self.kind, self.d = ctx, kind, d
        self.config = cfg or config(ctx, kind)
        self.metric = self.config["metric"]
        self.storage = storage or stores.opened(ctx, "memory")
        self.index = classes()[kind](dict(self.config))
        self.index.initialize(self.storage)
        self.model = {}

    def issued(self):
        """Every id handed out since the index was new or cleared (which comes with another model)."""
        if getattr(self, "_issued_for", None) is not self.model:
            self._issued_for, self._issued = self.model, set(self.model)
        return self._issued

    def gone(self):
        return sorted(self.issued() - set(self.model))

    def insert(self, vectors, metadata=None):
        issued = self.issued()
        vectors_before = np.array(vectors)
        metadata_before = gen.snapshot(metadata)
        ids = self.index.insert(vectors, metadata) if metadata is not None else self.index.insert(vectors)
        ctx = self.ctx
        ctx.check(len(ids) == len(vectors_before), f"{self.kind}: insert did not return one id per vector",
                  ids=ids, vectors=len(vectors_before))
        ctx.check(all(isinstance(i, str) for i in ids), f"{self.kind}: ids are not strings", ids=ids)
        ctx.check(len(set(ids)) == len(ids) and not set(ids) & set(self.model),
                  f"{self.kind}: insert handed out an id twice", ids=ids)
        ctx.check(not set(ids) & issued, f"{self.kind}: the id of a removed vector is given to another one", ids=ids)
        issued.update(ids)
        for j, i in enumerate(ids):
            meta = metadata_before[j] if metadata_before and j < len(metadata_before) else None
            self.model[i] = (vectors_before[j].copy(), meta)
        return list(ids)

    def delete(self, ids):
        want = all(i in self.model for i in ids) and len(set(ids)) == len(ids)
        got = self.index.delete(ids)
        self.ctx.check(bool(got) == want, f"{self.kind}: delete does not say whether all ids were known",
                       ids=ids, got=got)
        for i in ids:
            self.model.pop(i, None)

    def update(self, i, vector, metadata=None):
        keep = gen.snapshot((vector, metadata))
        if i not in self.model and self.kind == "annoy":
            from valori.exceptions import ValoriIndexError

            self.ctx.raises(ValoriIndexError, lambda: self.index.update(i, vector, metadata),
                            "annoy: update of an unknown id")
            return False
        got = self.index.update(i, vector, metadata)
        self.ctx.check(bool(got) == (i in self.model), f"{self.kind}: update does not say whether the id was known",
                       id=i, got=got)
        if i in self.model:
            meta = keep[1]
            if meta is None and self.kind in ("lsh", "annoy"):
                meta = self.model[i][1]  # these keep the metadata that is not replaced
            self.model[i] = (keep[0], meta)
        return bool(got)

    def ready(self):
        if self.kind == "annoy" and not self.index.get_stats()["built"]:
            self.index.build()

    def search(self, q, k, **kw):
        self.ready()
        return self.index.search(q, k, **kw)

    def answers(self, q, k=1000):
        """A comparable form of the answer to a query."""
        found = [(str(r["id"]), float(r["distance"]), gen.snapshot(r["metadata"] or {}))
                 for r in self.search(q, k)]
        return sorted(found, key=lambda t: t[0])

    def sound(self, q, results, k, where=""):
        """Every result is a live vector, once, with its true distance and metadata, in order."""
        ctx, kind = self.ctx, self.kind
        name = f"{kind} {self.metric} {where}"
        ids = [str(r["id"]) for r in results]
        ctx.check(len(results) <= max(0, k), f"{name}: more than k results", k=k, ids=ids)
        ctx.check(len(set(ids)) == len(ids), f"{name}: a vector is returned twice", ids=ids)
        for r in results:
            i = str(r["id"])
            ctx.check(i in self.model, f"{name}: a result is not a stored vector", id=i, live=list(self.model))
        if not results:
            return
        m = [self.model[i][0] for i in ids]
        eps = oracle.eps_of(q, *m)
        rows = np.array([np.asarray(x, dtype=np.float64) for x in m])
        want = similarity(kind, self.metric, q, rows)
        tol = similarity_tolerance(kind, self.metric, q, rows, eps)
        got = np.array([float(r["distance"]) for r in results])
        ctx.check(bool(np.all(np.isfinite(got))), f"{name}: a distance is not a number", got=got)
        bad = np.abs(got - want) > tol
        if bad.any():
            j = int(np.argmax(bad))
            ctx.check(False, f"{name}: the distance of a result is wrong", id=ids[j], got=got[j],
                      want=want[j], tolerance=tol[j], query=q, vector=m[j])
        step = np.diff(got) if kind in ASCENDING else -np.diff(got)
        ctx.check(bool(np.all(step >= -1e-12)), f"{name}: results are not in order of distance", got=got)
        for r, i in zip(results, ids):
            ctx.check(gen.same_meta(r["metadata"], self.model[i][1]), f"{name}: a result has other metadata",
                      id=i, got=r["metadata"], want=self.model[i][1])

    def exact(self, q, results, k, where=""):
        """The results are the k nearest of all stored vectors (up to rounding and ties)."""
        ctx = self.ctx
        name = f"{self.kind} {self.metric} {where}"
        n = len(self.model)
        ctx.check(len(results) == min(k, n), f"{name}: wrong number of results",
                  k=k, stored=n, got=len(results))
        if not results or len(results) == n:
            return
        rows = np.array([np.asarray(v, dtype=np.float64) for v, _ in self.model.values()])
        eps = oracle.eps_of(q, *[v for v, _ in self.model.values()])
        want = similarity(self.kind, self.metric, q, rows)
        tol = similarity_tolerance(self.kind, self.metric, q, rows, eps)
        got = {str(r["id"]) for r in results}
        inside = np.array([i in got for i in self.model])
        if self.kind not in ASCENDING:
            want = -want
        worst = np.max(want[inside] - tol[inside])
        best_left = np.min(want[~inside] + tol[~inside])
        ctx.check(worst <= best_left, f"{name}: a nearer vector was left out", worst_returned=worst,
                  nearest_left_out=best_left, query=q)

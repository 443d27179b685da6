"""D04: every text gets its own embedding, whatever the cache, the batch or the caller do."""

import copy

import numpy as np

from vmon import models, texts

LEVEL = "exploration"
QUICK = 16
RULE = (
    "random histories of documents, batches, cache clearing and callers altering results, with a recording stand-in for "
    "each of the three model libraries that embeds every text differently (some to zero); each embedding is compared "
    "with what the model gives for that very text, calls with what the cache should save; distinct by event hash"
)
REQUIRED = {"embedded": 3000, "blank": 200, "hit": 300, "batches": 200, "scribbled": 200, "neighbour": 300}
KINDS = ["sentence_transformers", "sentence_transformers", "openai", "huggingface"]


def pool(ctx):
    out = ["a", "b", "a b", "a_b", "zero", "zero two", "ключ", " a", "a ", "A", "x" * 3000, "a_m", "a\nb", "test"]
    out += [texts.prose(ctx, ctx.rng.randint(1, 12)) for _ in range(6)]
    if ctx.rng.random() < 0.2:  # alike for long
        out += [ctx.rng.choice(["x", "word ", "ы"]) * 20000 + end for end in ("a", "b", "")]
    return out


BLANK = ["", " ", "\n\t ", "\u00a0"]


def judge(ctx, got, text, model, config, where):
    ctx.count("embedded")
    got = np.asarray(got)
    ctx.check(got.shape == (model.d,) and got.dtype.kind == "f", f"{where}: the embedding has the wrong shape or type",
              text=text, got=got, dim=model.d)
    ctx.check(bool(np.isfinite(got).all()), f"{where}: the embedding has a NaN", text=text, got=got)
    if not text.strip():
        ctx.count("blank")
        ctx.check(not got.any(), f"{where}: a blank text has a non-zero embedding", text=text, got=got)
        return
    want = models.unit(model.of(text), config.get("normalize_embeddings", True))
    ctx.check(bool(np.allclose(got, want, rtol=1e-4, atol=1e-5 * (1e-9 + np.abs(want).max()))),
              f"{where}: the embedding is not the one of the text", text=text, got=got, want=want)


def run(ctx):
    from valori.exceptions import ProcessingError
    from valori.processors import EmbeddingProcessor

    kind = ctx.rng.choice(KINDS)
    config = {"model_type": kind, "model_name": "m", "batch_size": ctx.rng.choice([1, 2, 3, 7, 32])}
    for key in ("normalize_embeddings", "cache_embeddings"):
        if ctx.rng.random() < 0.5:
            config[key] = ctx.rng.random() < 0.5
    if ctx.rng.random() < 0.3:
        config["device"] = "auto" if kind == "huggingface" else "cpu"
    model = models.Model(ctx.rng.choice([2, 3, 16]), ctx.rng.choice(["float32", "float64"]))
    caching = config.get("cache_embeddings", True)
    all_texts = pool(ctx)
    seen, hits = set(), 0

    def calls_of(text):
        return sum(c.count(text) for c in model.calls)

    with models.installed(kind, model):
        p = EmbeddingProcessor(config)
        ctx.raises(ProcessingError, lambda: p.process({"text": "a"}), "embedding: before initialize")
        p.initialize()
        if ctx.rng.random() < 0.5:
            ctx.check(p.get_embedding_dimension() == model.d, "embedding: the dimension is wrong", got=p.get_embedding_dimension())
        for step in range(ctx.rng.randint(4, 12)):
            r = ctx.rng.random()
            if r < 0.55:
                data = {"metadata": {"a": [1]}}
                if ctx.rng.random() < 0.9:
                    data["text"] = ctx.rng.choice(all_texts + BLANK)
                if ctx.rng.random() < 0.7:
                    data["chunks"] = [{"id": i, "text": ctx.rng.choice(all_texts + BLANK)}
                                      for i in range(ctx.rng.randint(0, 5))]
                keep = copy.deepcopy(data)
                wanted = ([data["text"]] if "text" in data else []) + [c["text"] for c in data.get("chunks", [])]
                fresh = {t: calls_of(t) for t in wanted}
                out = p.process(data)
                ctx.event("process", kind, [t[:20] for t in wanted])
                ctx.check(data == keep, "embedding: the caller's data were altered")
                ctx.check(all(out[k] == keep[k] for k in keep), "embedding: other fields were altered")
                if "text" in data:
                    judge(ctx, out["embedding"], data["text"], model, config, "embedding: a text")
                else:
                    ctx.check("embedding" not in out, "embedding: an embedding of no text")
                if "chunks" in data:
                    ctx.check(len(out["chunk_embeddings"]) == len(data["chunks"]), "embedding: not one embedding per chunk",
                              got=len(out["chunk_embeddings"]), chunks=len(data["chunks"]))
                    for e, c in zip(out["chunk_embeddings"], data["chunks"]):
                        judge(ctx, e, c["text"], model, config, "embedding: a chunk")
                known = set(seen)
                for t in wanted:
                    if t.strip() and caching:
                        if t in seen:
                            hits += 1
                            ctx.count("hit")
                        seen.add(t)
                for t in set(wanted) - {"test"}:  # that one may serve to learn the dimension
                    more = calls_of(t) - fresh[t]
                    want = 0 if not t.strip() else wanted.count(t) if not caching else 0 if t in known else 1
                    ctx.check(more == want, "embedding: the model is not asked once for what is not cached", text=t,
                              calls=more, want=want)
                # the results are the caller's own
                if ctx.rng.random() < 0.6:
                    for e in [out.get("embedding")] + list(out.get("chunk_embeddings", [])):
                        if e is not None and e.flags.writeable:
                            e += 5
                            ctx.count("scribbled")
            elif r < 0.85:
                n = ctx.rng.choice([0, 1, 2, 5, 12])
                batch = [ctx.rng.choice(all_texts + BLANK) for _ in range(n)]
                keep = list(batch)
                at = len(model.calls)
                out = p.batch_process(batch)
                ctx.event("batches", kind, [t[:20] for t in batch])
                ctx.check(batch == keep, "embedding: the caller's texts were altered")
                ctx.check(len(out) == n, "embedding: a batch has not one embedding per text", got=len(out), want=n)
                for e, t in zip(out, batch):
                    judge(ctx, e, t, model, config, "embedding: a batch")
                ctx.check(all(len(c) <= config["batch_size"] for c in model.calls[at:]),
                          "embedding: more texts at once than the batch size", calls=[len(c) for c in model.calls[at:]])
                if kind != "sentence_transformers" and caching:
                    for t in batch:
                        if t.strip():
                            hits += t in seen
                            seen.add(t)
                if ctx.rng.random() < 0.5:
                    for e in out:
                        if e.flags.writeable:
                            e += 5
                            ctx.count("scribbled")
            elif r < 0.92:
                p.clear_cache()
                seen.clear()
                hits = 0
                ctx.event("clear")
            else:
                stats = p.get_stats()
                ctx.event("stats")
                ctx.check(stats["embedding_dimension"] == model.d, "embedding: the dimension is wrong", stats=stats)
        stats = p.get_stats()
        if caching:
            ctx.check(stats["cache_size"] == len(seen) and stats["cache_hits"] == hits, "embedding: the cache is miscounted",
                      stats=stats, texts=len(seen), hits=hits)
        else:
            ctx.check(stats["cache_size"] == 0 and stats["cache_hits"] == 0, "embedding: the cache is used though switched off",
                      stats=stats)
        if kind == "openai":
            ctx.raises(ProcessingError, lambda: p.process({"text": "fail please"}), "embedding: a failing service")
            judge(ctx, p.process({"text": "a"})["embedding"], "a", model, config, "embedding: after a failure")



def neighbours(ctx):
    """Processors of one model in one process that differ in their settings: each goes by its own."""
    from valori.processors import EmbeddingProcessor

    kind = ctx.rng.choice(KINDS)
    model = models.Model(ctx.rng.choice([2, 3, 16]), ctx.rng.choice(["float32", "float64"]))
    all_texts = pool(ctx)
    with models.installed(kind, model):
        processors = []
        for _ in range(ctx.rng.randint(2, 4)):
            config = {"model_type": kind, "model_name": "m", "batch_size": ctx.rng.choice([1, 3, 32]),
                      "normalize_embeddings": ctx.rng.random() < 0.5, "cache_embeddings": ctx.rng.random() < 0.8}
            p = EmbeddingProcessor(dict(config))
            p.initialize()
            processors.append((p, config, set()))
        for _ in range(ctx.rng.randint(4, 15)):
            p, config, seen = ctx.rng.choice(processors)
            some = [ctx.rng.choice(all_texts[:6] + BLANK) for _ in range(ctx.rng.randint(1, 4))]
            ctx.event("neighbour", kind, config["normalize_embeddings"], [t[:20] for t in some])
            if ctx.rng.random() < 0.3:
                for e, t in zip(p.batch_process(list(some)), some):
                    judge(ctx, e, t, model, config, "embedding: a batch beside another processor")
                if kind != "sentence_transformers":
                    seen |= {t for t in some if t.strip()}
            else:
                out = p.process({"chunks": [{"text": t} for t in some]})
                for e, t in zip(out["chunk_embeddings"], some):
                    judge(ctx, e, t, model, config, "embedding: beside another processor")
                    if e.flags.writeable:
                        e *= 3
                seen |= {t for t in some if t.strip()}
            if ctx.rng.random() < 0.1:
                p.clear_cache()
                seen.clear()
            for q, c, s in processors:
                ctx.check(q.get_stats()["cache_size"] == (len(s) if c["cache_embeddings"] else 0),
                          "embedding: what a processor keeps is not its own", stats=q.get_stats(), want=len(s))


def absent(ctx):
    """Without the library, or with an unknown kind of model, initializing is refused."""
    import sys

    from valori.exceptions import ProcessingError
    from valori.processors import EmbeddingProcessor

    kind = ctx.rng.choice(["sentence_transformers", "openai", "huggingface", "no such kind", ""])
    names = {"sentence_transformers": ["sentence_transformers"], "openai": ["openai"], "huggingface": ["torch", "transformers"]}
    saved = {}
    for n in names.get(kind, []):
        saved[n] = sys.modules.get(n)
        sys.modules[n] = None
    try:
        p = EmbeddingProcessor({"model_type": kind})
        ctx.event("absent", kind)
        ctx.raises(ProcessingError, p.initialize, "embedding: a model that is not there", kind=kind)
        ctx.raises(ProcessingError, lambda: p.process({"text": "a"}), "embedding: after a refused initialize")
        ctx.raises(ProcessingError, lambda: p.batch_process(["a"]), "embedding: a batch after a refused initialize")
    finally:
        for n, old in saved.items():
            if old is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = old


SCENARIOS = {"histories": (run, 300, 5000), "neighbours": (neighbours, 60, 1000), "absent": (absent, 20, 60)}

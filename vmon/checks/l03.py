"""L03: what processors and the pipeline report about their work is what they have done."""

import copy

from vmon import gen, models, texts

LEVEL = "exploration"
QUICK = 4
RULE = (
    "random histories of documents, batches, refused input, closing and asking, for each processor and for pipelines of "
    "them; every reported number is compared with a count kept from the inputs and results themselves, settings with the "
    "configuration, and asking twice and asking between steps must change nothing; distinct by event hash"
)
REQUIRED = {"cleaned": 600, "chunked": 600, "embedded": 1500, "hits": 200, "refused": 150, "pipelines": 80, "batches": 150}


def asked(ctx, p, want, where):
    stats = p.get_stats()
    again = p.get_stats()
    ctx.event("stats", where, sorted((k, str(v)) for k, v in stats.items()))
    ctx.check(gen.same(stats, again), f"{where}: asking changes the statistics", first=stats, second=again)
    for key, value in want.items():
        ctx.check(key in stats, f"{where}: {key} is not reported", stats=stats)
        got = stats[key]
        right = abs(got - value) <= 1e-9 * max(1, abs(value)) if isinstance(value, float) else got == value
        ctx.check(right, f"{where}: {key} is reported wrongly", got=got, want=value, stats=stats)
    for value in stats.values():
        if isinstance(value, (dict, list)):
            value.clear()  # the caller's own


class Cleaning:
    """A cleaning processor and the count of what it did."""

    DEFAULTS = {"remove_html": True, "normalize_whitespace": True, "remove_special_chars": False, "normalize_unicode": True,
                "lowercase": False, "remove_stopwords": False}

    def __init__(self, ctx, config=None):
        from valori.processors import CleaningProcessor

        self.ctx = ctx
        if config is None:
            config = {k: ctx.rng.random() < 0.5 for k in self.DEFAULTS if ctx.rng.random() < 0.5}
        self.config = config
        self.p = CleaningProcessor(copy.deepcopy(config))
        self.documents = self.before = self.after = 0

    def note(self, data, out):
        self.ctx.count("cleaned")
        self.documents += 1
        if "text" in data:
            self.before += len(data["text"])
            self.after += len(out["text"])

    def step(self):
        data = {}
        if self.ctx.rng.random() < 0.9:
            data["text"] = self.ctx.rng.choice(["", "<p>a &amp; b</p>", "  x  ", texts.text(self.ctx)])
        if self.ctx.rng.random() < 0.4:
            data["chunks"] = [{"text": texts.text(self.ctx, 5)} for _ in range(self.ctx.rng.randint(0, 3))]
        self.note(data, self.p.process(data))

    def want(self, ready=True):
        return {"processor_type": "cleaning", "documents_processed": self.documents, "total_characters_before": self.before,
                "total_characters_after": self.after, "characters_removed": self.before - self.after,
                "compression_ratio": float(self.after / self.before if self.before else 0), "initialized": ready,
                **self.DEFAULTS, **self.config}


class Chunking:
    DEFAULTS = {"strategy": "fixed_size", "chunk_size": 1000, "chunk_overlap": 100, "min_chunk_size": 50, "max_chunk_size": 2000}

    def __init__(self, ctx, config=None):
        from valori.processors import ChunkingProcessor

        self.ctx = ctx
        if config is None:
            size = ctx.rng.choice([5, 20, 60, 300])
            config = {"chunk_size": size, "chunk_overlap": ctx.rng.randint(0, size // 2)} if ctx.rng.random() < 0.8 else {}
            if ctx.rng.random() < 0.8:
                config["strategy"] = ctx.rng.choice(["fixed_size", "semantic", "sliding_window"])
            if ctx.rng.random() < 0.7:
                config["min_chunk_size"] = ctx.rng.choice([1, 3, 10])
            if ctx.rng.random() < 0.4:
                config["max_chunk_size"] = ctx.rng.choice([15, 40, 400])
        self.config = config
        self.p = ChunkingProcessor(copy.deepcopy(config))
        self.chunks = self.characters = self.lengths = 0

    def note(self, data, out):
        self.ctx.count("chunked")
        self.characters += len(data["text"])
        self.chunks += len(out["chunks"])
        self.lengths += sum(len(c["text"]) for c in out["chunks"])

    def step(self):
        data = {"text": texts.text(self.ctx)}
        self.note(data, self.p.process(data))

    def want(self, ready=True):
        return {"processor_type": "chunking", "chunks_created": self.chunks, "total_characters_processed": self.characters,
                "average_chunk_size": float(self.lengths / self.chunks if self.chunks else 0), "initialized": ready,
                **self.DEFAULTS, **self.config}


class Embedding:
    DEFAULTS = {"batch_size": 32, "max_length": 512, "normalize_embeddings": True, "cache_embeddings": True}

    def __init__(self, ctx, kind, model, config=None):
        from valori.processors import EmbeddingProcessor

        self.ctx, self.model = ctx, model
        if config is None:
            config = {k: v for k, v in (("batch_size", ctx.rng.choice([1, 2, 5])), ("max_length", 77),
                                        ("normalize_embeddings", ctx.rng.random() < 0.5),
                                        ("cache_embeddings", ctx.rng.random() < 0.6)) if ctx.rng.random() < 0.5}
        self.config = {**config, "model_type": kind, "model_name": "m"}
        self.p = EmbeddingProcessor(copy.deepcopy(self.config))
        self.generated = self.hits = 0
        self.seen = set()

    def note_one(self, text):
        if not text.strip():
            return
        self.ctx.count("embedded")
        if self.config.get("cache_embeddings", True):
            if text in self.seen:
                self.hits += 1
                self.ctx.count("hits")
                return
            self.seen.add(text)
        self.generated += 1

    def note(self, data, out=None):
        if "text" in data:
            self.note_one(data["text"])
        for c in data.get("chunks", []):
            if "text" in c:
                self.note_one(c["text"])

    def step(self):
        rng = self.ctx.rng
        word = lambda: rng.choice(["a", "b", "c d", "test", "ключ", " a", texts.prose(self.ctx, 3)])
        if rng.random() < 0.4:
            batch = [word() + "." for _ in range(rng.choice([0, 1, 3, 6]))]
            self.p.batch_process(list(batch))
            self.ctx.count("batches")
            if self.config["model_type"] == "sentence_transformers":
                self.generated += len(batch)
                self.ctx.count("embedded", len(batch))
            else:
                for text in batch:
                    self.note_one(text)
        elif rng.random() < 0.1:
            self.p.clear_cache()
            self.seen.clear()
            self.hits = 0
        else:
            data = {}
            if rng.random() < 0.9:
                data["text"] = rng.choice(["", word(), word(), word()])
            if rng.random() < 0.5:
                data["chunks"] = [rng.choice([{"text": word()}, {"text": word()}, {"id": 1}]) for _ in range(rng.randint(0, 3))]
            self.p.process(data)
            self.note(data)

    def want(self, ready=True):
        done = self.hits + self.generated
        want = {"processor_type": "embedding", "texts_processed": self.generated, "embeddings_generated": self.generated,
                "cache_hits": self.hits, "cache_hit_rate": float(self.hits / done if self.hits else 0),
                "cache_size": len(self.seen), "initialized": ready, "model_name": "m", **self.DEFAULTS, **self.config}
        if ready:
            want["embedding_dimension"] = self.model.d
        return want


def history(ctx, tracked, where):
    from valori.exceptions import ProcessingError

    asked(ctx, tracked.p, tracked.want(False), f"{where}, not initialized")
    tracked.p.initialize()
    for _ in range(ctx.rng.randint(2, 12)):
        r = ctx.rng.random()
        if r < 0.1:
            # what is refused is not counted
            tracked.p.close()
            ctx.raises(ProcessingError, lambda: tracked.p.process({"text": "abc"}), f"{where}: closed")
            ctx.count("refused")
            asked(ctx, tracked.p, tracked.want(False), f"{where}, closed")
            tracked.p.initialize()
        else:
            tracked.step()
        if ctx.rng.random() < 0.6:
            asked(ctx, tracked.p, tracked.want(), where)
    asked(ctx, tracked.p, tracked.want(), where)


def cleaning(ctx):
    tracked = Cleaning(ctx)
    history(ctx, tracked, "cleaning")
    # what fails is not counted, however far it got
    for data in ({"text": 5}, {"text": ["a", "b"]}, {"text": "good", "chunks": [{"text": "x"}, {"text": 5}]},
                 {"text": "good", "chunks": [None]}):
        try:
            tracked.note(data, tracked.p.process(data))
        except Exception:
            ctx.count("refused")
        asked(ctx, tracked.p, tracked.want(), "cleaning that failed")


def chunking(ctx):
    from valori.exceptions import ProcessingError

    history(ctx, Chunking(ctx), "chunking")
    unknown = Chunking(ctx, {"strategy": "no such strategy"})
    try:
        unknown.p.initialize()
    except ProcessingError:
        return
    ctx.raises(ProcessingError, lambda: unknown.p.process({"text": "abc"}), "chunking: unknown strategy")
    ctx.raises(ProcessingError, lambda: unknown.p.process({"chunks": []}), "chunking: no text")
    asked(ctx, unknown.p, unknown.want(), "chunking refused")


def embedding(ctx):
    kind = ctx.rng.choice(["sentence_transformers", "openai", "huggingface"])
    model = models.Model(ctx.rng.choice([2, 7]))
    with models.installed(kind, model):
        e = Embedding(ctx, kind, model)
        history(ctx, e, f"embedding by {kind}")
        if kind == "openai":
            # the service fails: nothing was embedded
            try:
                e.p.process({"text": "fail"})
                ctx.check(False, "a failing service is hidden")
            except Exception:
                ctx.count("refused")
            asked(ctx, e.p, e.want(), "embedding that failed")


def pipeline(ctx):
    from valori.processors import ProcessingPipeline

    model = models.Model(3)
    with models.installed("sentence_transformers", model):
        # each tracked part lends its configuration, and counts from the results of the parts before it
        parts = {"cleaning": Cleaning(ctx), "chunking": Chunking(ctx), "embedding": Embedding(ctx, "sentence_transformers", model)}
        parts = {k: v for k, v in parts.items() if ctx.rng.random() < 0.7}
        p = ProcessingPipeline({"processors": {k: copy.deepcopy(v.config) for k, v in parts.items()}, "parsers": {"text": {}}})
        ctx.check(p.get_pipeline_info() == {"initialized": False}, "pipeline: information before initialize")
        p.initialize()
        for t in parts.values():
            t.p.initialize()  # its twin outside of the pipeline, fed with the same data
        for _ in range(ctx.rng.randint(1, 6)):
            ctx.count("pipelines")
            data = {"text": texts.text(ctx)}
            p.process_text(data["text"])
            for t in parts.values():
                out = t.p.process(data)
                t.note(data, out)
                data = out
            info = p.get_pipeline_info()
            ctx.check(gen.same(info, p.get_pipeline_info()), "pipeline: asking changes what is reported", info=info)
            ctx.check([i["name"] for i in info["processors"]] == [type(t.p).__name__ for t in parts.values()],
                      "pipeline: the processors reported are not the configured ones", info=info)
            for i, t in zip(info["processors"], parts.values()):
                ctx.event("pipeline", i["name"], sorted((k, str(v)) for k, v in i["stats"].items()))
                for key, value in t.want().items():
                    got = i["stats"].get(key)
                    right = abs(got - value) <= 1e-9 * max(1, abs(value)) if isinstance(value, float) else got == value
                    ctx.check(right, f"pipeline: {key} of {i['name']} is reported wrongly", got=got, want=value)
            ctx.check(sorted(info["supported_formats"]) == sorted(p.get_supported_formats()) and ".txt" in info["supported_formats"],
                      "pipeline: the supported formats are wrong", info=info)
            ctx.check(info["initialized"] is True, "pipeline: an initialized pipeline says it is not")
        p.close()
        ctx.check(p.get_pipeline_info() == {"initialized": False}, "pipeline: information after close")


SCENARIOS = {"cleaning": (cleaning, 100, 3000), "chunking": (chunking, 100, 3000), "embedding": (embedding, 150, 3000),
             "pipeline": (pipeline, 60, 2000)}

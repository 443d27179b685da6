"""D02: chunks keep to the configured sizes and break at separators; chunking ends, or refuses its settings."""

from vmon import texts
from vmon.checks.d01 import configuration, made

LEVEL = "exploration"
QUICK = 20
RULE = (
    "random and extreme settings (size 1, overlap size-1, minimum above maximum, empty separators) with texts of eight "
    "styles; sizes, break positions and the number of chunks judged by an independent oracle; settings that cannot work "
    "must be refused; a case that uses 90 s of CPU counts as not ending; distinct by event hash"
)
REQUIRED = {"chunks": 5000, "breaks": 800, "refused": 100, "extreme": 60, "sparse": 60}


def bounds(ctx):
    config = configuration(ctx)
    if ctx.rng.random() < 0.3:
        config["min_chunk_size"] = ctx.rng.choice([config["chunk_size"], config["chunk_size"] * 3, 10 ** 6])
    p = made(**config)
    text = texts.text(ctx)
    chunks = p.process({"text": text})["chunks"]
    size, overlap = config["chunk_size"], config["chunk_overlap"]
    ctx.event("bounds", config["strategy"], size, overlap, config["min_chunk_size"], config["max_chunk_size"], len(text),
              len(chunks))
    where = f"chunking {config['strategy']}"
    for c in chunks:
        ctx.count("chunks")
        ctx.check(config["min_chunk_size"] <= len(c["text"]) <= config["max_chunk_size"],
                  f"{where}: a chunk is outside the minimum and maximum size", chunk=c, config=config)
        if config["strategy"] != "semantic":
            ctx.check(c["end_pos"] - c["start_pos"] <= size, f"{where}: a chunk is larger than the chunk size", chunk=c,
                      config=config)
    if config["strategy"] == "sliding_window" and config["max_chunk_size"] >= size:
        step = size - overlap
        ctx.check(all(c["start_pos"] % step == 0 for c in chunks), f"{where}: a window does not start at a step",
                  starts=[c["start_pos"] for c in chunks], step=step)
        ctx.check(all(c["end_pos"] == min(len(text), c["start_pos"] + size) for c in chunks),
                  f"{where}: a window has the wrong width", config=config)
        want = [i for i in range(0, len(text), step)
                if config["min_chunk_size"] <= len(text[i:i + size].strip()) and text[i:i + size].strip()]
        got = [c["start_pos"] for c in chunks]
        if config["min_chunk_size"] > 0:
            ctx.check(got == want, f"{where}: a window is missing or was added", got=got, want=want)
    if config["strategy"] == "semantic" and config["max_chunk_size"] >= len(text):
        for c in chunks:
            inner = text[c["start_pos"]:c["end_pos"]]
            if len(inner) > size + overlap:
                # only one paragraph (and the overlap before it) may be that large
                parts = [x for x in inner[overlap:].split("\n\n") if x.strip()]
                ctx.check(len(parts) <= 2, f"{where}: paragraphs beyond the chunk size are joined", chunk=c, config=config)
    ctx.check(config["max_chunk_size"] < size or len(chunks) <= len(text) + 1, f"{where}: more chunks than characters", chunks=len(chunks))


def breaks(ctx):
    """A fixed-size chunk ends at the separator of the highest rank that leaves enough text before it."""
    size = ctx.rng.choice([10, 30, 80, 200, 500, 1000, 1500, 4000])
    overlap = ctx.rng.choice([0, 2, size // 5, size // 2])
    least = ctx.rng.choice([1, 2, size // 4])
    separators = ctx.rng.choice([None, None, [" "], ["\n\n", "\n"], ["\n", ". ", " "], []])
    config = {"chunk_size": size, "chunk_overlap": overlap, "min_chunk_size": least, "max_chunk_size": 10 ** 6}
    if separators is not None:
        config["separators"] = separators
    p = made(**config)
    ranked = separators if separators is not None else ["\n\n", "\n", ". ", "! ", "? ", " "]
    if size >= 500 or ctx.rng.random() < 0.1:
        text = texts.sparse(ctx)
        ctx.count("sparse")
    else:
        text = texts.text(ctx, style=ctx.rng.choice(["prose", "paragraphs", "mixed", "lines"]))
    chunks = p.process({"text": text})["chunks"]
    ctx.event("breaks", size, overlap, least, len(text), len(chunks))
    for c in chunks:
        start, end = c["start_pos"], c["end_pos"]
        limit = min(len(text), start + size)
        if limit == len(text):
            ctx.check(end == limit, "chunking: the last chunk does not reach the end", chunk=c, length=len(text))
            continue
        want = limit
        for s in ranked:
            at = text.rfind(s, start, limit)
            if at > start + max(least, overlap):
                want = at + len(s)
                break
        ctx.count("breaks")
        ctx.check(end == want, "chunking: a chunk is not cut at the best separator", chunk=c, end=end, want=want, config=config)


def settings(ctx):
    """Settings that cannot work are refused; extreme ones that can work end."""
    from valori.exceptions import ProcessingError
    from valori.processors import ChunkingProcessor

    if ctx.rng.random() < 0.6:
        size = ctx.rng.choice([-5, 0, 1, 10, 100])
        overlap = ctx.rng.choice([size, size + 1, size + 100, -1, -50]) if size > 0 else ctx.rng.choice([0, 5])
        strategy = ctx.rng.choice(["fixed_size", "semantic", "sliding_window"])
        p = ChunkingProcessor({"strategy": strategy, "chunk_size": size, "chunk_overlap": overlap})
        ctx.event("refused", size, overlap)
        ctx.raises(ProcessingError, p.initialize, "chunking: settings that cannot work", size=size, overlap=overlap)
        ctx.raises(ProcessingError, lambda: p.process({"text": "x " * 200}), "chunking: processing with refused settings")
        return
    if ctx.rng.random() < 0.2:
        p = made(strategy="no such strategy")
        ctx.event("refused", "strategy")
        ctx.raises(ProcessingError, lambda: p.process({"text": "some text"}), "chunking: an unknown strategy")
        ctx.raises(ProcessingError, lambda: made().process({"chunks": []}), "chunking: data without text")
        return
    size = ctx.rng.choice([1, 2, 3, 50])
    config = {"strategy": ctx.rng.choice(["fixed_size", "semantic", "sliding_window"]), "chunk_size": size,
              "chunk_overlap": size - 1, "min_chunk_size": ctx.rng.choice([0, 1, 49, 10 ** 9]),
              "max_chunk_size": ctx.rng.choice([1, 2, 2000])}
    p = made(**config)
    text = texts.text(ctx, size=ctx.rng.choice([80, 250, 600]))
    chunks = p.process({"text": text})["chunks"]
    ctx.event("extreme", size, len(text), len(chunks))
    texts.spans(ctx, text, chunks, "chunking: extreme settings", config["max_chunk_size"] >= size)
    if config["min_chunk_size"] <= 1:
        ctx.check(not texts.uncovered(text, chunks), "chunking: part of the text is in no chunk", config=config)


SCENARIOS = {"bounds": (bounds, 400, 6000), "breaks": (breaks, 200, 3000), "settings": (settings, 300, 2000)}

"""D01: chunks are true spans of the text, and together they leave nothing out."""

import copy

from vmon import texts

LEVEL = "exploration"
QUICK = 12
RULE = (
    "texts of eight styles (prose, paragraphs, unbroken, mostly blank, exotic separators, tiny) through the three chunking "
    "strategies with random sizes, overlaps, minimum and maximum sizes and separators; an oracle marks every character "
    "covered, and compares each chunk with the text at its position; distinct by event hash"
)
REQUIRED = {"chunks": 5000, "full-coverage": 150, "overlaps": 500, "split": 30}


def made(**config):
    from valori.processors import ChunkingProcessor

    p = ChunkingProcessor(config)
    p.initialize()
    return p


def configuration(ctx):
    size = ctx.rng.choice([1, 2, 5, 10, 20, 50, 100, 300, 1000])
    overlap = ctx.rng.choice([0, 0, size // 10, size // 4, size // 2, size - 1])
    config = {
        "strategy": ctx.rng.choice(["fixed_size", "semantic", "sliding_window"]),
        "chunk_size": size,
        "chunk_overlap": overlap,
        "min_chunk_size": ctx.rng.choice([0, 1, 1, 2, size // 4]),
        "max_chunk_size": ctx.rng.choice([2000, 2000, size, 2 * size, max(1, size // 2)]),
    }
    if ctx.rng.random() < 0.3:
        config["separators"] = ctx.rng.choice([[" "], ["\n\n", "\n"], [". ", " "], [], ["e", "x"], ["\n", "\n\n", "."]])
    return config


def run(ctx):
    config = configuration(ctx)
    p = made(**config)
    total = made_chunks = 0
    for _ in range(ctx.rng.randint(1, 4)):
        text = texts.sparse(ctx) if ctx.rng.random() < 0.05 and config["chunk_size"] >= 50 else texts.text(ctx)
        data = {"text": text, "metadata": {"a": [1]}, "structure": {"type": "x"}, "other": 5}
        keep = copy.deepcopy(data)
        out = p.process(data)
        chunks = out["chunks"]
        strategy = config["strategy"]
        where = f"chunking {strategy}"
        ctx.event("chunked", strategy, config["chunk_size"], config["chunk_overlap"], len(text), len(chunks))
        ctx.state(strategy, config["chunk_size"], config["chunk_overlap"], min(len(chunks), 20))
        ctx.check(data == keep, f"{where}: the caller's data were altered", data=data)
        ctx.check({k: v for k, v in out.items() if k != "chunks"} == keep, f"{where}: other fields were altered", out=out)
        texts.spans(ctx, text, chunks, where,
                    config["max_chunk_size"] >= (len(text) if strategy == "semantic" else config["chunk_size"]))
        total += len(text)
        made_chunks += len(chunks)
        for c in chunks:
            ctx.check(c["length"] == len(c["text"]), f"{where}: the length of a chunk is wrong", chunk=c)
            ctx.check(c["metadata"]["strategy"] == strategy == c["metadata"]["chunk_type"],
                      f"{where}: the strategy is not named", chunk=c)
        least, most = config["min_chunk_size"], config["max_chunk_size"]
        left = texts.uncovered(text, chunks)
        if least <= 1:
            ctx.count("full-coverage")
            ctx.check(not left, f"{where}: part of the text is in no chunk", left=left, config=config, text=text)
        if most < config["chunk_size"]:
            ctx.count("split")
    stats = p.get_stats()
    ctx.check(stats["chunks_created"] == made_chunks and stats["total_characters_processed"] == total,
              "chunking: the statistics are wrong", stats=stats, chunks=made_chunks, characters=total)


def gaps(ctx):
    """With a minimum size, what is left out is about that small; neighbours share the overlap."""
    least = ctx.rng.choice([2, 5, 20])
    size = least * ctx.rng.choice([4, 5, 10, 30])
    overlap = ctx.rng.choice([0, 1, size // 10, size // 4])
    strategy = ctx.rng.choice(["fixed_size", "semantic", "sliding_window"])
    p = made(strategy=strategy, chunk_size=size, chunk_overlap=overlap, min_chunk_size=least,
             max_chunk_size=ctx.rng.choice([2000, size * 2, size * 5]))
    text = texts.text(ctx, style=ctx.rng.choice(["prose", "unbroken", "paragraphs"]))
    chunks = p.process({"text": text})["chunks"]
    where = f"chunking {strategy}"
    ctx.event("gaps", strategy, size, overlap, len(text), len(chunks))
    texts.spans(ctx, text, chunks, where)
    for run in texts.uncovered(text, chunks):
        ctx.check(len("".join(run.split())) < 3 * least, f"{where}: a text much longer than the minimum is left out", run=run, least=least)
    if len(text.strip()) >= size:
        ctx.check(bool(chunks), f"{where}: a long text has no chunk", text=text)
    for a, b in zip(chunks, chunks[1:]):
        if b["id"] != a["id"] + 1 or strategy == "sliding_window" and b["start_pos"] - a["start_pos"] > size - overlap:
            continue
        shared = a["end_pos"] - b["start_pos"]
        ctx.count("overlaps")
        if strategy == "semantic":
            if len(text) > p.get_stats()["max_chunk_size"]:
                continue
            ctx.check(shared in (0, overlap) or shared < 0 and not text[a["end_pos"]:b["start_pos"]].strip(),
                      f"{where}: neighbours share something other than the overlap", first=a, second=b)
        else:
            ctx.check(shared == overlap or a["end_pos"] == len(text) or overlap > shared and not text[a["end_pos"]:b["start_pos"]].strip()
                      and not text[max(a["end_pos"] - overlap, 0):b["start_pos"]].strip(),
                      f"{where}: neighbours do not share the overlap", first=a, second=b, overlap=overlap)


SCENARIOS = {"coverage": (run, 400, 6000), "gaps": (gaps, 300, 4000)}

"""D05: the pipeline is its parser and processors one after the other, for each document on its own."""

import copy
import os

import numpy as np

from vmon import documents, gen, models, texts

LEVEL = "exploration"
QUICK = 8
RULE = (
    "random pipelines (any subset of cleaning, chunking and embedding with random settings, four parsers) over texts and "
    "mixed batches of good, missing, damaged and unsupported files; each result is compared field by field with the same "
    "steps made one by one on separate objects; histories with reinitializing and closing; distinct by event hash"
)
REQUIRED = {"text": 400, "document": 300, "batch": 80, "failed": 100, "reinitialized": 50, "again": 100, "replaced": 60}


def configuration(ctx):
    processors = {}
    if ctx.rng.random() < 0.6:
        processors["cleaning"] = {k: ctx.rng.random() < 0.5 for k in ("lowercase", "remove_html", "normalize_whitespace")}
    if ctx.rng.random() < 0.7:
        size = ctx.rng.choice([10, 40, 200, 1000])
        processors["chunking"] = {"chunk_size": size, "chunk_overlap": size // 5, "min_chunk_size": ctx.rng.choice([1, 5]),
                                  "strategy": ctx.rng.choice(["fixed_size", "semantic", "sliding_window"])}
    if ctx.rng.random() < 0.6:
        processors["embedding"] = {"model_type": "sentence_transformers", "normalize_embeddings": ctx.rng.random() < 0.5}
    names = list(processors)
    ctx.rng.shuffle(names)
    parsers = {}
    for name in ("text", "pdf", "office"):
        if ctx.rng.random() < 0.8:
            parsers[name] = {"chunk_size": ctx.rng.choice([20, 100, 1000]), "chunk_overlap": 5}
    config = {"processors": {n: processors[n] for n in names}}
    config["parsers"] = parsers if ctx.rng.random() < 0.5 else {"parsers": parsers}
    return config, parsers


def steps(config):
    from valori.processors import ChunkingProcessor, CleaningProcessor, EmbeddingProcessor

    out = []
    for name, cls in (("cleaning", CleaningProcessor), ("chunking", ChunkingProcessor), ("embedding", EmbeddingProcessor)):
        if name in config["processors"]:
            p = cls(config["processors"][name])
            p.initialize()
            out.append(p)
    return out


def apply(chain, data):
    for p in chain:
        data = p.process(data)
    return data


def equal(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-9)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return gen.same(a, b)


PARSERS = {".txt": ("text", "TextParser"), ".md": ("text", "TextParser"), ".pdf": ("pdf", "PDFParser"),
           ".docx": ("office", "OfficeParser"), ".xlsx": ("office", "OfficeParser")}


def make_file(ctx, folder, n):
    """(path, name of the parser needed or None, whether it can be read)"""
    r = ctx.rng.random()
    if r < 0.1:
        return os.path.join(folder, f"missing{n}.txt"), "text", False
    if r < 0.2:
        path = os.path.join(folder, f"odd{n}.bin")
        documents.write(path, "x")
        return path, None, False
    if r < 0.3:
        path = os.path.join(folder, f"bad{n}" + ctx.rng.choice([".pdf", ".docx", ".xlsx"]))
        documents.write(path, "this is no such document")
        return path, PARSERS[os.path.splitext(path)[1]][0], False
    suffix = ctx.rng.choice([".txt", ".txt", ".md", ".pdf", ".docx", ".xlsx"])
    path = os.path.join(folder, f"f{n}{suffix}")
    if r > 0.8:
        # The same file again, at the same time and of the same length: what counts is what is in it now
        path = os.path.join(folder, "again.txt")
        old = os.stat(path) if os.path.exists(path) else None
        words = f"Revision {ctx.rng.randint(10000, 99999)} of this text, <b>in part</b> only. " * ctx.rng.choice([1, 1, 5])
        documents.write(path, words.encode())
        if old and ctx.rng.random() < 0.8:
            os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
        ctx.count("again")
        return path, "text", True
    if suffix in (".txt", ".md"):
        documents.write(path, texts.text(ctx).encode())
    else:
        getattr(documents, suffix[1:])(ctx, path)
    return path, PARSERS[suffix][0], True


def make_files(ctx, folder, step):
    """The files of a batch: some share their name with another in another directory, some are listed twice."""
    files = []
    for i in range(ctx.rng.randint(0, 7)):
        r = ctx.rng.random()
        if files and r < 0.1:
            files.append(ctx.rng.choice(files))
        elif r < 0.5:
            # the same few names, good, damaged or missing
            sub = os.path.join(folder, f"dir{step}-{i}")
            os.makedirs(sub)
            files.append(make_file(ctx, sub, 0))
        else:
            files.append(make_file(ctx, folder, f"{step}-{i}"))
    return files


def reference(path, parsers, chain, name=None):
    from valori.parsers import OfficeParser, PDFParser, TextParser

    kind = name or PARSERS[os.path.splitext(path)[1]][0]
    p = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser}[kind](parsers[kind])
    p.initialize()
    return apply(chain, p.parse(path))


def judge_document(ctx, out, path, parsers, config, where, mine=None):
    want = reference(path, parsers, steps(config))
    got = {k: v for k, v in out.items() if k != "pipeline_metadata"}
    ctx.check(equal(got, want), f"{where}: differs from its steps made one by one", path=os.path.basename(path),
              got=got, want=want)
    m = out["pipeline_metadata"]
    ctx.check(m["file_path"] == str(path) and m["processing_complete"] is True, f"{where}: the pipeline metadata are wrong", got=m)
    kind, usual = PARSERS[os.path.splitext(path)[1]]
    ctx.check(m["parser_used"] == (mine or {}).get(kind, usual), f"{where}: the wrong parser is named", got=m)
    ctx.check(m["processors_used"] == [type(s).__name__ for s in steps(config)], f"{where}: the wrong processors are named",
              got=m)


def run(ctx):
    from valori.exceptions import ProcessingError
    from valori.parsers import OfficeParser, PDFParser, TextParser
    from valori.processors import ProcessingPipeline

    config, parsers = configuration(ctx)
    keep = copy.deepcopy(config)
    model = models.Model(4)
    folder = ctx.scratch()
    with models.installed("sentence_transformers", model):
        p = ProcessingPipeline(config)
        ctx.raises(ProcessingError, lambda: p.process_text("a"), "pipeline: before initialize")
        ctx.raises(ProcessingError, lambda: p.process_document("a.txt"), "pipeline: a document before initialize")
        ctx.raises(ProcessingError, lambda: p.batch_process_documents([]), "pipeline: a batch before initialize")
        p.initialize()
        mine = {}  # parsers put in the place of the usual ones
        for step in range(ctx.rng.randint(3, 8)):
            if parsers and ctx.rng.random() < 0.12:
                kind = ctx.rng.choice(sorted(parsers))
                base = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser}[kind]
                mine[kind] = ctx.rng.choice(["Mine", "Other"])
                p.parser_registry.add_parser(kind, type(mine[kind], (base,), {}), parsers[kind])
                ctx.event("replaced", kind)
            r = ctx.rng.random()
            if r < 0.4:
                text = texts.text(ctx)
                meta = gen.metadata(ctx, step)
                keep_meta = gen.snapshot(meta)
                given = meta if ctx.rng.random() < 0.8 else None
                out = p.process_text(text, given)
                ctx.event("text", sorted(config["processors"]), text[:40])
                want = apply(steps(config), {"text": text, "metadata": (given and keep_meta) or {},
                                             "structure": {"type": "raw_text"}})
                got = {k: v for k, v in out.items() if k != "pipeline_metadata"}
                ctx.check(equal(got, want), "pipeline: a text differs from its steps made one by one", got=got, want=want)
                ctx.check(gen.same(meta, keep_meta), "pipeline: the caller's metadata were altered")
                m = out["pipeline_metadata"]
                ctx.check(m["input_type"] == "raw_text" and m["processing_complete"] is True and m["processors_used"] == [
                    type(s).__name__ for s in steps(config)], "pipeline: the pipeline metadata are wrong", got=m)
                if ctx.rng.random() < 0.7:
                    for part in (out["metadata"], out["structure"], m, out.get("chunks")):
                        gen.scribble(ctx, part)  # the caller's own
            elif r < 0.65:
                path, need, good = make_file(ctx, folder, step)
                ctx.event("document" if good and need in parsers else "failed", os.path.basename(path), sorted(parsers))
                if good and need in parsers:
                    judge_document(ctx, p.process_document(path), path, parsers, config, "pipeline: a document", mine)
                else:
                    ctx.raises(ProcessingError, lambda: p.process_document(path), "pipeline: a document that cannot be read",
                               path=path, parsers=sorted(parsers))
            elif r < 0.85:
                files = make_files(ctx, folder, step)
                out = p.batch_process_documents([f[0] for f in files])
                ctx.event("batch", [os.path.basename(f[0]) for f in files], sorted(parsers))
                ctx.check(len(out) == len(files), "pipeline: a batch has not one result per document", got=len(out))
                for result, (path, need, good) in zip(out, files):
                    if good and need in parsers:
                        ctx.event("document")
                        ctx.check("error" not in result, "pipeline: a good document of a batch failed", result=result)
                        judge_document(ctx, result, path, parsers, config, "pipeline: a document of a batch", mine)
                    else:
                        ctx.event("failed")
                        ctx.check("error" in result and result["file_path"] == path and "text" not in result
                                  and result["pipeline_metadata"]["processing_failed"] is True,
                                  "pipeline: the failure of a document is not reported in its place", result=result, path=path)
            else:
                ctx.event("reinitialized")
                mine = {}
                if ctx.rng.random() < 0.5:
                    p.close()
                    ctx.raises(ProcessingError, lambda: p.process_text("a"), "pipeline: after close")
                    ctx.check(p.get_pipeline_info() == {"initialized": False} and p.get_supported_formats() == [],
                              "pipeline: a closed pipeline has information")
                p.initialize()
            info = p.get_pipeline_info()
            ctx.check([x["name"] for x in info["processors"]] == [type(s).__name__ for s in steps(config)],
                      "pipeline: the processors are not those configured, in their order", info=info)
        ctx.check(config == keep, "pipeline: the caller's configuration was altered")


def refused(ctx):
    """A pipeline with settings that cannot work is not initialized."""
    from valori.exceptions import ProcessingError
    from valori.processors import ProcessingPipeline

    bad = ctx.rng.choice([{"chunking": {"chunk_size": 0}}, {"chunking": {"chunk_size": 10, "chunk_overlap": 10}},
                          {"embedding": {"model_type": "none such"}}, {"embedding": {}}])
    p = ProcessingPipeline({"processors": {"cleaning": {}, **bad}})
    ctx.event("failed", sorted(bad))
    ctx.raises(ProcessingError, p.initialize, "pipeline: settings that cannot work", bad=bad)
    ctx.raises(ProcessingError, lambda: p.process_text("a b c"), "pipeline: after a refused initialize")


SCENARIOS = {"histories": (run, 300, 3000), "refused": (refused, 20, 100)}

"""D07: the registry finds the parser of the highest rank that can read a file, and only then."""

import os

from vmon import documents

LEVEL = "exploration"
QUICK = 2
RULE = (
    "histories of adding, replacing and removing parsers (the four built-in ones, a stand-in for Docling, recording custom "
    "ones), asking for parsers by file and by name, parsing and closing; every answer is compared with a model of the "
    "registry; names with odd suffixes and cases; distinct by event hash"
)
REQUIRED = {"dispatch": 1500, "none": 200, "named": 300, "add": 150, "remove": 150, "parsed": 200}

FORMATS = {
    "text": [".txt", ".md", ".rst", ".log", ".csv"], "pdf": [".pdf"], "office": [".docx", ".xlsx", ".xls", ".pptx"],
    "docling": [".pdf", ".docx", ".pptx", ".html", ".xml", ".txt"],
}
RANK = {"text": 1, "pdf": 2, "office": 3, "docling": 4}
NAMES = ["a.txt", "A.TXT", "b.md", "c.pdf", "d.PDF", "e.docx", "f.xlsx", "g.pptx", "h.html", "i.xml", "j.csv", "noext",
         ".txt", "k.tar.gz", "l.txt.pdf", "m.pdf.txt", "n.", "dir.pdf/file.txt", "o.xyz", "p.custom", "q.Custom", "r.xls"]


def custom(tag, formats):
    from pathlib import Path

    from valori.parsers.base import DocumentParser

    class Custom(DocumentParser):
        closed = 0

        def initialize(self):
            if self.config.get("fail"):
                raise RuntimeError("cannot start")
            self._initialized = True

        def parse(self, file_path):
            return {"text": tag, "metadata": {"path": str(file_path)}, "config": self.config}

        def get_supported_formats(self):
            return list(formats)

        def can_parse(self, file_path):
            return Path(file_path).suffix.lower() in formats

        def close(self):
            Custom.closed += 1
            super().close()

    return Custom


def suffix(name):
    return os.path.splitext(name)[1].lower()


def run(ctx):
    from valori.exceptions import ParsingError
    from valori.parsers import ParserRegistry

    with documents.docling(lambda p: []):
        _run(ctx, ParsingError, ParserRegistry)


def _run(ctx, ParsingError, ParserRegistry):
    enabled = [n for n in FORMATS if ctx.rng.random() < 0.6]
    config = {"parsers": {n: {"chunk_size": 77} for n in enabled}}
    if ctx.rng.random() < 0.3:
        config["parsers"]["no such parser"] = {}
    r = ParserRegistry(config)
    ctx.raises(ParsingError, lambda: r.get_parser("a.txt"), "registry: before initialize")
    ctx.check(r.get_supported_formats() == [], "registry: formats before initialize")
    r.initialize()
    model = {n: FORMATS[n] for n in enabled}  # name -> formats
    classes = {}
    folder = ctx.scratch()
    for step in range(ctx.rng.randint(5, 25)):
        action = ctx.rng.random()
        if action < 0.5:
            name = ctx.rng.choice(NAMES)
            able = [n for n in model if suffix(name) in model[n]]
            if not able:
                ctx.event("none", name, sorted(model))
                ctx.raises(ParsingError, lambda: r.get_parser(name), "registry: a file nobody can read", name=name,
                           parsers=sorted(model))
                continue
            ctx.event("dispatch", name, sorted(model))
            best = max(RANK.get(n, 0) for n in able)
            got = r.get_parser(name)
            allowed = [n for n in able if RANK.get(n, 0) == best]
            ctx.check(any(r.get_parser(name, n) is got for n in allowed), "registry: not the parser of the highest rank",
                      name=name, got=type(got).__name__, want=allowed)
            ctx.check(got.can_parse(name), "registry: a parser that cannot read the file", name=name)
        elif action < 0.65:
            name = ctx.rng.choice(list(FORMATS) + ["x", "y", ""])
            ctx.event("named", name, sorted(model))
            if name in model:
                ctx.check(sorted(r.get_parser("whatever.bin", name).get_supported_formats()) == sorted(model[name]),
                          "registry: not the parser asked for by name", name=name)
            elif name:
                ctx.raises(ParsingError, lambda: r.get_parser("a.txt", name), "registry: a parser that is not there", name=name)
        elif action < 0.78:
            name = ctx.rng.choice(["x", "y", "text", "docling"])
            formats = ctx.rng.choice([[".custom"], [".txt", ".custom"], [".pdf", ".xyz"], []])
            fail = ctx.rng.random() < 0.2
            cls = custom(name, formats)
            ctx.event("add", name, formats, fail)
            if fail:
                ctx.raises(ParsingError, lambda: r.add_parser(name, cls, {"fail": True}), "registry: a parser that cannot start")
            else:
                r.add_parser(name, cls, {"n": step})
                model[name] = formats
                classes[name] = (cls, step)
                got = r.get_parser("file", name).parse("q")
                ctx.check(got == {"text": name, "metadata": {"path": "q"}, "config": {"n": step}},
                          "registry: an added parser is not used with its settings", got=got)
        elif action < 0.9:
            name = ctx.rng.choice(list(FORMATS) + ["x", "y", "nobody"])
            ctx.event("remove", name, sorted(model))
            cls = classes.pop(name, None)
            before = cls[0].closed if cls else 0
            r.remove_parser(name)
            if cls and name in model:
                ctx.check(cls[0].closed == before + 1, "registry: a removed parser is not closed", name=name)
            model.pop(name, None)
        else:
            name = ctx.rng.choice(["t.txt", "t.md", "sub/t.log"])
            path = os.path.join(folder, name)
            documents.write(path, f"content {step}")
            able = [n for n in model if suffix(name) in model[n]]
            ctx.event("parsed", name, sorted(model))
            if not able:
                ctx.raises(ParsingError, lambda: r.parse_document(path), "registry: parsing a file nobody can read")
                continue
            best = max(able, key=lambda n: RANK.get(n, 0))
            if RANK.get(best, 0) == 0 or best in classes:
                continue
            out = r.parse_document(path)
            if best == "text":
                ctx.check(out["text"] == f"content {step}", "registry: the file is not parsed", got=out)
            ctx.check(out["metadata"]["file_type"] == {"text": "text", "docling": "docling_parsed"}[best],
                      "registry: the file is parsed by another parser", got=out["metadata"])
            ctx.raises(ParsingError, lambda: r.parse_document(path, "nobody"), "registry: parsing with a parser that is not there")
        want = sorted({f for n in model for f in model[n]})
        ctx.check(r.get_supported_formats() == want, "registry: the supported formats are wrong", got=r.get_supported_formats(),
                  want=want)
        info = r.get_parser_info()
        ctx.check({n for n, i in info["parsers"].items() if i["available"]} == set(model),
                  "registry: the available parsers are wrong", got=info, want=sorted(model))
    custom_ones = [(n, c) for n, c in classes.items()]
    counts = {n: c[0].closed for n, c in custom_ones}
    r.close()
    ctx.check(all(c[0].closed == counts[n] + 1 for n, c in custom_ones), "registry: closing leaves a parser open", counts=counts)
    ctx.raises(ParsingError, lambda: r.get_parser("a.txt"), "registry: after close")
    ctx.check(r.get_supported_formats() == [], "registry: formats after close")


SCENARIOS = {"histories": (run, 300, 4000)}

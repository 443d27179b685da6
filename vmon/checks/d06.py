"""D06: a parsed document has the text, the metadata and the chunks of the file."""

import os
import types

from vmon import documents, faults, texts

LEVEL = "exploration"
QUICK = 2
RULE = (
    "files of known content written in each supported format (text in several encodings, Word, Excel, PowerPoint, PDF, "
    "and a stand-in for Docling), parsed with random chunk sizes and overlaps; text and metadata compared with what was "
    "written, chunks judged by the span oracle; damaged, missing, foreign and too large files, and files whose n-th access "
    "is refused; distinct by event hash"
)
REQUIRED = {"undecodable": 5, "txt": 60, "docx": 30, "xlsx": 30, "pptx": 20, "pdf": 30, "docling": 30, "chunks": 1500, "breaks": 500, "refused": 80,
            "unreadable_refused": 80, "unreadable_parsed": 80}


def settings(ctx):
    size = ctx.rng.choice([1, 5, 20, 100, 300, 1000])
    overlap = ctx.rng.choice([0, size // 10, size // 2, size - 1])
    if size > 1000 or ctx.rng.random() < 0.2:
        return {}, 1000, 100
    return {"chunk_size": size, "chunk_overlap": overlap}, size, overlap


def judge_breaks(ctx, text, chunks, size, overlap, where, marks):
    """Chunks end after the last sentence, line or paragraph end in their second half, or else are full."""
    for c in chunks:
        start, end = c["start_pos"], c["end_pos"]
        limit = start + size
        if limit >= len(text) or start + 1 >= limit:
            continue
        last = max(text.rfind(m, start, limit) for m in marks)
        here = any(text[max(start, end - len(m)):end] == m for m in marks)
        after = last + len(max(marks, key=len))
        ctx.count("breaks")
        if last > start + max(size // 2, overlap) + 1:
            ctx.check(end == after, f"{where}: a chunk does not end at the last break of its text", chunk=c, end=after)
        else:
            ctx.check(end == limit or here and end > start + overlap, f"{where}: a chunk is cut short where there is no break",
                      chunk=c, limit=limit)


def judge_chunks(ctx, text, chunks, size, overlap, where, always, marks=("\n",)):
    if not always and len(text) <= size:
        ctx.check(chunks == [], f"{where}: a short text has chunks", chunks=chunks)
        return
    texts.spans(ctx, text, chunks, where)
    judge_breaks(ctx, text, chunks, size, overlap, where, marks)
    ctx.check(not texts.uncovered(text, chunks), f"{where}: part of the text is in no chunk",
              left=texts.uncovered(text, chunks), size=size, overlap=overlap)
    for a in chunks:
        ctx.check(a["end_pos"] - a["start_pos"] <= size, f"{where}: a chunk is larger than the chunk size", chunk=a, size=size)
    for a, b in zip(chunks, chunks[1:]):
        shared = a["end_pos"] - b["start_pos"]
        ctx.check(shared == overlap or shared < overlap and not text[a["end_pos"] - overlap:b["start_pos"]].strip()
                  or overlap >= size or a["end_pos"] - a["start_pos"] <= overlap,
                  f"{where}: neighbouring chunks do not share the overlap", first=a, second=b, overlap=overlap)


def judge_file(ctx, out, path, kind, where):
    ctx.event(kind, len(out["text"]), len(out["chunks"]))
    m = out["metadata"]
    for c in out["chunks"]:
        segment = {"txt": "text", "pdf": "pdf", "docling": "docling"}.get(kind, "office") + "_segment"
        ctx.check(c["metadata"]["chunk_type"] == segment, f"{where}: a chunk is of another type", chunk=c)
        if kind == "docling":
            ctx.check(c["metadata"]["structure_preserved"] is True, f"{where}: a chunk says its structure is lost", chunk=c)
    ctx.check(out["structure"].get("estimated_reading_time", len(out["text"].split()) // 200) == len(out["text"].split()) // 200,
              f"{where}: the reading time is wrong", structure=out["structure"])
    kinds = {"txt": "text", "xlsx": "excel", "docling": "docling_parsed"}
    ctx.check(m["file_type"] == kinds.get(kind, kind), f"{where}: the type of the file is wrong", metadata=m)
    ctx.check(m["file_name"] == os.path.basename(path) and m["file_size"] == os.path.getsize(path),
              f"{where}: the name or size of the file is wrong", metadata=m)
    ctx.check(set(out) == {"text", "metadata", "chunks", "structure"}, f"{where}: fields are missing", fields=sorted(out))


def text_file(ctx):
    from valori.parsers import TextParser

    config, size, overlap = settings(ctx)
    encoding = ctx.rng.choice(["auto", "auto", "utf-8", "latin-1", "utf-16", "cp1252", "ascii"])
    text = texts.text(ctx)
    if ctx.rng.random() < 0.1:
        text = text.replace("\n", "\r\n")
    codec = "utf-8" if encoding == "auto" else encoding
    text = text.encode(codec, "ignore").decode(codec)
    if encoding != "auto" or ctx.rng.random() < 0.5:
        config["encoding"] = encoding
    suffix = ctx.rng.choice([".txt", ".md", ".rst", ".log", ".csv", ".TXT", ".Md"])
    path = os.path.join(ctx.scratch(), "naïve file" + suffix)
    data = text.encode(codec)
    if codec in ("utf-8", "ascii") and config.get("encoding") == codec and ctx.rng.random() < 0.3:
        # bytes that no text in this encoding has: they leave a mark, and the rest stays
        data = data.decode(codec)
        for _ in range(ctx.rng.randint(1, 3)):
            at = ctx.rng.randint(0, len(data))
            data = data[:at] + "\ue000" + data[at:]
        text = data.replace("\ue000", "\ufffd")
        data = data.encode().replace("\ue000".encode(), b"\xff")
        ctx.count("undecodable")
    documents.write(path, data)
    p = TextParser(config)
    p.initialize()
    ctx.check(p.can_parse(path), "text: a supported file is not recognised", suffix=suffix)
    out = p.parse(path if ctx.rng.random() < 0.5 else __import__("pathlib").Path(path))
    where = f"text in {encoding}"
    judge_file(ctx, out, path, "txt", where)
    ctx.check(documents.universal(out["text"]) == documents.universal(text), f"{where}: the text is not that of the file",
              got=out["text"], want=text)
    judge_chunks(ctx, out["text"], out["chunks"], size, overlap, where, False, (".", "\n"))
    ctx.check(out["structure"]["paragraphs"] == len(out["text"].split("\n\n")), f"{where}: paragraphs are miscounted",
              structure=out["structure"])
    if len(text) > size:
        limit = out["metadata"]["file_size"]
        small = TextParser({**config, "max_file_size": limit})
        small.initialize()
        ctx.check(small.parse(path)["text"] == out["text"], f"{where}: a file of the largest size is not read")
        refused(ctx, TextParser({**config, "max_file_size": limit - 1}), path, f"{where}: a file that is too large")


def large(ctx):
    """Texts far above any buffer: letters beyond ASCII come late, or lie across the edges of blocks."""
    from valori.parsers import TextParser

    plain = "".join(ctx.rng.choice(["Plain words stand here. ", "and on they go, ", "one more line\n", "12 3.4 ", "\n\n"])
                    for _ in range(600))
    rare = "Žluťoučký kůň, größer, naïve café, 日本語, ключ, €20 – “said”. " * ctx.rng.randint(2, 6)
    edge = ctx.rng.choice([4096, 8192, 65536, 131072])
    lead = (plain * (1 + edge * 2 // len(plain)))[:edge - ctx.rng.randint(0, 3) + ctx.rng.choice([0, 0, edge])]
    if ctx.rng.random() < 0.3:  # all through
        lead = lead[:len(lead) // 2] + rare + lead[len(lead) // 2:]
    text = lead + rare + plain[:ctx.rng.choice([0, 1, 5000])]
    config = {"encoding": "utf-8"} if ctx.rng.random() < 0.3 else {}
    path = os.path.join(ctx.scratch(), "large.txt")
    documents.write(path, text.encode())
    p = TextParser(config)
    p.initialize()
    out = p.parse(path)
    ctx.event("large", len(text), edge)
    judge_file(ctx, out, path, "txt", "large text")
    ctx.check(out["text"] == text, "large text: the text is not that of the file", length=(len(out["text"]), len(text)),
              lost=out["text"].count("\ufffd"), edge=edge)
    judge_chunks(ctx, text, out["chunks"], 1000, 100, "large text", False, (".", "\n"))


def rewritten(ctx):
    """A parser reads what is in the file now, whatever was there when it read it before."""
    from valori.parsers import OfficeParser, TextParser

    office = ctx.rng.random() < 0.4
    path = os.path.join(ctx.scratch(), "page.docx" if office else "page.txt")
    p = (OfficeParser if office else TextParser)({})
    p.initialize()
    stamp = None
    for i in range(4):
        token = f"revision{ctx.rng.randint(1000, 9999)}"
        if office:
            import docx

            d = docx.Document()
            d.add_paragraph(f"This is {token}.")
            d.save(path)
        else:
            documents.write(path, f"This is {token}.")
        if stamp and ctx.rng.random() < 0.7:
            os.utime(path, ns=stamp)
        at = os.stat(path)
        stamp = stamp or (at.st_atime_ns, at.st_mtime_ns)
        if ctx.rng.random() < 0.2:
            p = (OfficeParser if office else TextParser)({})
            p.initialize()
        out = p.parse(path)
        ctx.event("rewritten", office, i)
        ctx.check(out["text"].strip() == f"This is {token}.", "parser: the text is not that of the file", got=out["text"],
                  want=token)


def refused(ctx, parser, path, what):
    from valori.exceptions import ParsingError

    parser.initialize()
    ctx.count("refused")
    ctx.raises(ParsingError, lambda: parser.parse(path), what)


def damaged(ctx):
    from valori.exceptions import ParsingError
    from valori.parsers import OfficeParser, PDFParser, TextParser

    folder = ctx.scratch()
    cls, suffix = ctx.rng.choice([(OfficeParser, ".docx"), (OfficeParser, ".xlsx"), (OfficeParser, ".pptx"),
                                  (PDFParser, ".pdf"), (TextParser, ".txt")])
    p = cls({})
    good = os.path.join(folder, "good" + suffix)
    if suffix == ".txt":
        documents.write(good, "hello")
    else:
        getattr(documents, suffix[1:])(ctx, good)
    with open(good, "rb") as f:
        data = f.read()
    ctx.raises(ParsingError, lambda: cls({}).parse(good), f"{suffix}: a parser that was not initialized")
    p.initialize()
    ctx.check(p.get_stats()["initialized"] is True, f"{suffix}: stats of an initialized parser")
    refused(ctx, p, os.path.join(folder, "missing" + suffix), f"{suffix}: a missing file")
    other = os.path.join(folder, "other" + ctx.rng.choice([".exe", ".pdf" if suffix != ".pdf" else ".txt", "", ".docx2"]))
    documents.write(other, data)
    ctx.check(not p.can_parse(other), f"{suffix}: a foreign file is accepted", other=other)
    refused(ctx, p, other, f"{suffix}: a foreign file")
    refused(ctx, cls({"max_file_size": len(data) - 1}), good, f"{suffix}: a file that is too large")
    if suffix != ".txt":
        bad = os.path.join(folder, "bad" + suffix)
        documents.write(bad, data[:ctx.rng.randint(0, len(data) // 3)] if ctx.rng.random() < 0.5 else b"not a document" * 10)
        refused(ctx, p, bad, f"{suffix}: a damaged file")
    ctx.event("damaged", suffix)
    p.parse(good)  # and the parser still works
    p.close()
    ctx.raises(ParsingError, lambda: p.parse(good), f"{suffix}: a closed parser")


def office(ctx, kind):
    from valori.parsers import OfficeParser

    config, size, overlap = settings(ctx)
    path = os.path.join(ctx.scratch(), "file." + kind)
    want = getattr(documents, kind)(ctx, path)
    p = OfficeParser(config)
    p.initialize()
    out = p.parse(path)
    judge_file(ctx, out, path, kind, kind)
    ctx.check(out["text"] == want["text"], f"{kind}: the text is not that of the document", got=out["text"], want=want["text"])
    judge_chunks(ctx, out["text"], out["chunks"], size, overlap, kind, True)
    m, s = out["metadata"], out["structure"]
    if kind == "docx":
        ctx.check([x["text_length"] for x in m["paragraphs_info"]] == [len(t) for t in want["paragraphs"]],
                  "docx: what is said of the paragraphs is wrong", got=m["paragraphs_info"], want=want["paragraphs"])
        ctx.check([(x["paragraph_number"], x["style"]) for x in m["paragraphs_info"]] == want["infos"],
                  "docx: the number or style of a paragraph is wrong", got=m["paragraphs_info"], want=want["infos"])
        ctx.check(m["num_paragraphs"] == len(want["paragraphs"]) == s["paragraphs"], "docx: paragraphs are miscounted", got=m)
        ctx.check([t["data"] for t in m["tables_info"]] == want["tables"], "docx: the tables are not those of the document",
                  got=m["tables_info"], want=want["tables"])
        ctx.check([(t["rows"], t["columns"]) for t in m["tables_info"]] == [(len(t), len(t[0])) for t in want["tables"]],
                  "docx: the size of a table is wrong", got=m["tables_info"])
        q = OfficeParser({**config, "extract_tables": False})
        q.initialize()
        ctx.check(q.parse(path)["metadata"]["tables_info"] == [], "docx: tables are extracted though switched off")
    elif kind == "xlsx":
        ctx.check([(x["sheet_name"], x["text_length"], x["max_row"], x["max_column"]) for x in m["sheets_info"]] == want["infos"]
                  and s["total_cells"] == sum(r * c for _, _, r, c in want["infos"]), "xlsx: what is said of the sheets is wrong",
                  got=(m, s), want=want["infos"])
        ctx.check(s["sheets"] == len(want["sheets"]), "xlsx: the structure is wrong", got=s)
        ctx.check(m["sheet_names"] == want["sheets"] and m["num_sheets"] == len(want["sheets"]), "xlsx: the sheets are wrong",
                  got=m, want=want["sheets"])
    else:
        ctx.check([(x["slide_number"], x["text_length"], x["shapes_with_text"]) for x in m["slides_info"]] == want["infos"],
                  "pptx: what is said of the slides is wrong", got=m, want=want["infos"])
        ctx.check(m["num_slides"] == want["slides"] == s["slides"], "pptx: slides are miscounted", got=m)


def pdf(ctx):
    from valori.parsers import PDFParser

    config, size, overlap = settings(ctx)
    path = os.path.join(ctx.scratch(), ctx.rng.choice(["file.pdf", "FILE.PDF"]))
    want = documents.pdf(ctx, path)
    p = PDFParser(config)
    p.initialize()
    out = p.parse(path)
    judge_file(ctx, out, path, "pdf", "pdf")
    words = [w for lines in want["pages"] for x in lines for w in x.split()]
    ctx.check(out["text"].split() == words, "pdf: the text is not that of the document", got=out["text"], want=words)
    m = out["metadata"]
    with_text = [n + 1 for n, lines in enumerate(want["pages"]) if any(x.strip() for x in lines)]
    ctx.check(m["num_pages"] == len(want["pages"]) and m["num_pages_with_text"] == len(with_text), "pdf: pages are miscounted",
              got=m, want=with_text)
    ctx.check([x["page_number"] for x in m["page_metadata"]] == with_text, "pdf: the pages with text are wrong", got=m)
    for field, key in (("title", "Title"), ("author", "Author"), ("subject", "Subject"), ("creator", "Creator"),
                       ("producer", "Producer"), ("creation_date", "CreationDate"), ("modification_date", "ModDate")):
        ctx.check(m[field] == want["info"].get(key, ""), f"pdf: the {field} is wrong", got=repr(m[field]),
                  want=want["info"].get(key))
    ctx.check([x["has_images"] for x in m["page_metadata"]] == [want["images"][n - 1] for n in with_text],
              "pdf: pages with images are not told from those without", got=m["page_metadata"], want=want["images"])
    ctx.check(out["structure"]["pages"] == len(want["pages"]) and out["structure"]["pages_with_text"] == len(with_text),
              "pdf: the structure is wrong", got=out["structure"])
    judge_chunks(ctx, out["text"], out["chunks"], size, overlap, "pdf", False, ("\n\n",))
    # each chunk names the page it starts on: count the words before it
    per_page = [(n + 1, len(" ".join(lines).split())) for n, lines in enumerate(want["pages"])]
    for c in out["chunks"]:
        start = c["start_pos"]
        lead = out["text"][start:]
        start += len(lead) - len(lead.lstrip())
        before = len(out["text"][:start].split())
        if start and not out["text"][start - 1].isspace():
            before -= 1  # it starts within a word
        page = next(n for n, upto in running(per_page) if before < upto)
        raw = page_at(out["text"], c["start_pos"], per_page)
        ctx.check(c["page_number"] in (page, raw) and c["metadata"]["source_page"] == c["page_number"],
                  "pdf: a chunk does not name the page it starts on", chunk=c, page=page)


def running(per_page):
    total = 0
    for n, words in per_page:
        total += words
        yield n, total


def page_at(text, start, per_page):
    """A chunk that starts at blanks between two pages may name the earlier one."""
    before = len(text[:start].split())
    for n, upto in running(per_page):
        if before <= upto and upto:
            return n
    return None


def docling(ctx):
    from valori.parsers import DoclingParser

    elements = []
    for i in range(ctx.rng.choice([0, 1, 4, 15])):
        r = ctx.rng.random()
        if r < 0.6:
            t = documents.line(ctx)
            elements.append(types.SimpleNamespace(text=ctx.rng.choice(["", " "]) + t, label="text"))
        elif r < 0.7:
            elements.append(types.SimpleNamespace(text="  "))
        elif r < 0.85:
            elements.append(types.SimpleNamespace(label="Table", id=f"t{i}", rows=2, columns=1, data=[["a"], [i]]))
        else:
            elements.append(types.SimpleNamespace(label="figure", id=f"f{i}", caption=f"cap {i}", type="photo"))
    config, size, overlap = settings(ctx)
    off = ctx.rng.random() < 0.2
    if off:
        config.update(extract_tables=False, extract_figures=False)
    path = os.path.join(ctx.scratch(), "d" + ctx.rng.choice([".pdf", ".docx", ".html", ".txt", ".xml", ".pptx"]))
    documents.write(path, "x" * ctx.rng.randint(0, 50))
    with documents.docling(lambda p: elements):
        p = DoclingParser(config)
        p.initialize()
        out = p.parse(path)
        limit = os.path.getsize(path)
        if limit:
            refused(ctx, DoclingParser({"max_file_size": limit - 1}), path, "docling: a file that is too large")
            p = DoclingParser({**config, "max_file_size": limit})
            p.initialize()
            ctx.check(p.parse(path) == out, "docling: a file of the largest size is not read as any other")
    judge_file(ctx, out, path, "docling", "docling")
    parts = [e.text.strip() for e in elements if hasattr(e, "text") and e.text.strip()]
    ctx.check(out["text"] == "\n".join(parts), "docling: the text is not that of the document", got=out["text"], want=parts)
    m = out["metadata"]
    tables = [] if off else [{"table_id": e.id, "rows": e.rows, "columns": e.columns, "data": e.data}
                             for e in elements if getattr(e, "label", "") == "Table"]
    figures = [] if off else [{"figure_id": e.id, "caption": e.caption, "type": e.type}
                              for e in elements if getattr(e, "label", "") == "figure"]
    ctx.check(m["tables"] == tables and m["num_tables"] == len(tables), "docling: the tables are wrong", got=m)
    ctx.check(m["figures"] == figures and m["num_figures"] == len(figures), "docling: the figures are wrong", got=m)
    s = out["structure"]
    ctx.check((s["text_elements"], s["tables"], s["figures"]) == (len(parts), len(tables), len(figures)),
              "docling: the structure is wrong", got=s)
    ctx.check(m["num_text_elements"] == len(parts), "docling: text elements are miscounted", got=m)
    at = 0
    for n, c in enumerate(out["chunks"]):
        ctx.count("chunks")
        ctx.check(c["id"] == n and c["start_element"] == at and at <= c["end_element"] < len(parts),
                  "docling: the chunks do not follow one another", chunk=c, at=at)
        ctx.check(c["text"] == "\n".join(parts[at:c["end_element"] + 1]).strip(), "docling: a chunk is not its elements", chunk=c)
        inner = "\n".join(parts[at:c["end_element"]]) + "\n"
        ctx.check(len(inner) < size or at == c["end_element"], "docling: a chunk goes on beyond the chunk size", chunk=c)
        if n < len(out["chunks"]) - 1:
            ctx.check(len(c["text"]) + 1 >= size, "docling: a chunk ends before the chunk size", chunk=c, size=size)
        at = c["end_element"] + 1
    ctx.check(at == len(parts), "docling: the last elements are in no chunk", chunks=out["chunks"], parts=len(parts))


def unreadable(ctx):
    """A document whose n-th access the system refuses is refused, or parsed as it would have been."""
    from valori.exceptions import ParsingError
    from valori.parsers import OfficeParser, ParserRegistry, PDFParser, TextParser

    folder = ctx.scratch()
    name, cls, suffix = ctx.rng.choice([("office", OfficeParser, ".docx"), ("office", OfficeParser, ".xlsx"),
                                        ("office", OfficeParser, ".pptx"), ("pdf", PDFParser, ".pdf"), ("text", TextParser, ".txt")])
    path = os.path.join(folder, "file" + suffix)
    if suffix == ".txt":
        documents.write(path, texts.text(ctx).encode(ctx.rng.choice(["utf-8", "utf-16"])))
    else:
        getattr(documents, suffix[1:])(ctx, path)
    config = settings(ctx)[0]
    p = cls(config)
    p.initialize()
    if ctx.rng.random() < 0.4:
        registry = ParserRegistry({"parsers": {name: config}})
        registry.initialize()
        p = types.SimpleNamespace(parse=registry.parse_document)
    try:
        want = p.parse(path)
    except ParsingError:  # a text too short to tell its encoding from
        return
    for point in range(20):
        with faults.hampered(folder, point) as plan:
            try:
                out = p.parse(path)
            except ParsingError:
                ctx.count("unreadable_refused")
                out = want
            else:
                ctx.count("unreadable_parsed")
        ctx.check(all(out[x] == want[x] for x in ("text", "chunks", "structure")),
                  f"{suffix}: an access was refused, and something else than the document is handed out", got=out, want=want, access=point)
        again = p.parse(path)
        ctx.check(again["text"] == want["text"] and again["chunks"] == want["chunks"],
                  f"{suffix}: after a refused access the document is not parsed as before", got=again, want=want, access=point)
        if not plan["struck"]:
            break
    ctx.event("unreadable", suffix, point, want["text"][:100])


SCENARIOS = {
    "unreadable": (unreadable, 80, 800),
    "text": (text_file, 160, 3000),
    "docx": (lambda c: office(c, "docx"), 50, 300),
    "xlsx": (lambda c: office(c, "xlsx"), 50, 400),
    "pptx": (lambda c: office(c, "pptx"), 40, 200),
    "pdf": (pdf, 60, 600),
    "docling": (docling, 60, 800),
    "large": (large, 40, 400),
    "rewritten": (rewritten, 60, 600),
    "damaged": (damaged, 60, 400),
}

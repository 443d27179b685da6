"""Documents of known content, written in the formats the parsers read."""

import contextlib
import datetime
import os
import sys
import types
import zipfile

from . import texts


def universal(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


def xml_safe(text):
    return "".join(c for c in text if c in "\n\t" or ord(c) >= 32 and c not in "\ufffe\uffff")


def line(ctx, n=None):
    t = texts.prose(ctx, n or ctx.rng.choice([1, 3, 12, 40])).replace("\n", " ")
    return " ".join(t.split())


def twice(ctx, said, n=None):
    """A line, now and then one that was there before."""
    if said and ctx.rng.random() < 0.2:
        return ctx.rng.choice(said)
    said.append(line(ctx, n))
    return said[-1]


def docx(ctx, path):
    import docx

    d = docx.Document()
    want, tables, said, infos = [], [], [], []
    for _ in range(ctx.rng.choice([0, 1, 5, 25])):
        while len(infos) < len(want):  # a paragraph's place among all, blank ones too, and its style
            infos.append((len(d.paragraphs), d.paragraphs[-1].style.name))
        r = ctx.rng.random()
        if r < 0.15:
            d.add_paragraph(ctx.rng.choice(["", "  ", "\t"]))
        elif r < 0.3:
            t = line(ctx, 3)
            d.add_heading(t, level=ctx.rng.randint(1, 3))
            want.append(t)
        elif r < 0.4:
            rows, cols = ctx.rng.randint(1, 3), ctx.rng.randint(1, 3)
            table = d.add_table(rows=rows, cols=cols)
            data = [[twice(ctx, said, 1) for _ in range(cols)] for _ in range(rows)]
            for i, row in enumerate(data):
                for j, cell in enumerate(row):
                    table.cell(i, j).text = cell
            tables.append(data)
        elif r < 0.5:
            # lines and tabs within a paragraph, and links
            t = ctx.rng.choice(["\n", "\t"]).join(line(ctx, 3) for _ in range(ctx.rng.randint(1, 4)))
            p = d.add_paragraph(t)
            if ctx.rng.random() < 0.6:
                shown = line(ctx, 2)
                link = docx.oxml.OxmlElement("w:hyperlink")
                link.set(docx.oxml.ns.qn("r:id"), p.part.relate_to("http://a/b", docx.opc.constants.RELATIONSHIP_TYPE.HYPERLINK,
                                                                   is_external=True))
                run = p.add_run(shown)
                link.append(run._r)
                p._p.append(link)
                t += shown
                if ctx.rng.random() < 0.5:
                    t += " end."
                    p.add_run(" end.")
            want.append(t)
        else:
            t = twice(ctx, said)
            if ctx.rng.random() < 0.3:
                p = d.add_paragraph("", style=ctx.rng.choice([None, "List Bullet", "Quote"]))
                cuts = sorted(ctx.rng.randint(0, len(t)) for _ in range(3))
                for i, j in zip([0] + cuts, cuts + [len(t)]):
                    run = p.add_run(t[i:j])
                    run.bold = ctx.rng.choice([None, True])
                    run.font.hidden = ctx.rng.random() < 0.1 or None
            else:
                d.add_paragraph("  " + t + " " if ctx.rng.random() < 0.2 else t)
            want.append(t)
    if len(infos) < len(want):
        infos.append((len(d.paragraphs), d.paragraphs[-1].style.name))
    d.save(path)
    return {"text": "\n".join(want), "paragraphs": want, "tables": tables, "infos": infos}


def value(ctx):
    """A number of many digits, a date or a text that looks like one."""
    return ctx.rng.choice([
        ctx.rng.randint(10 ** 9, 10 ** 14), -ctx.rng.randint(1, 10 ** 9), ctx.rng.randint(1, 10 ** 9) + 0.25,
        ctx.rng.choice([0.1, 1e-7, -0.5, 1234567.875, 3.14159265358979]), round(ctx.rng.uniform(-1000, 1000), 9),
        datetime.datetime(2024, ctx.rng.randint(1, 12), 6, 7, 8, 9), datetime.datetime(1999, 12, 31),
        "007", "1e3", "2024-01-01", "True", "None", "=", "n/a", "x|y"])


def xlsx(ctx, path):
    import openpyxl
    import openpyxl.chart

    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    parts, names, infos, seen, made = [], [], [], [], set()
    for s in range(ctx.rng.randint(1, 4)):
        name = ctx.rng.choice(["Sheet", "Data", "Лист", "a b"]) + str(s)
        names.append(name)
        if len(names) > 1 and ctx.rng.random() < 0.15:
            wb.create_chartsheet(name).add_chart(openpyxl.chart.BarChart())
            continue
        ws = wb.create_sheet(name)
        lines, said = [], []
        r = c = -1
        for _ in range(ctx.rng.choice([0, 1, 4, 20])):
            r += ctx.rng.choice([1] * 9 + [2, ctx.rng.choice([15, 60, 250, 1100])])
            row = []
            c = ctx.rng.choice([-1] * 9 + [0, ctx.rng.choice([10, 40])])
            for _ in range(ctx.rng.randint(0, 4)):
                c += ctx.rng.choice([1] * 20 + [ctx.rng.choice([2, 30])])
                if ctx.rng.random() < 0.05:
                    # A formula shows the value it was last seen to have, if it was
                    n = 10 * ctx.rng.randint(2, 10 ** 6) + len(seen) % 10
                    while n in made:
                        n += 1
                    made.add(n)
                    ws.cell(row=r + 1, column=c + 1, value=f"=SUM({n},1)")
                    if ctx.rng.random() < 0.7:
                        seen.append(n)
                        row.append(str(n + 1))
                    continue
                v = ctx.rng.choice([None, twice(ctx, said, 2), ctx.rng.randint(-5, 10 ** 6), 0, 2.5, True, False, "0", value(ctx)])
                if v is not None:
                    cell = ws.cell(row=r + 1, column=c + 1, value=v)
                    if type(v) in (int, float) and ctx.rng.random() < 0.3:
                        cell.number_format = ctx.rng.choice(["0.00", "0%", "#,##0", "0.00E+00"])
                    if ctx.rng.random() < 0.1:
                        ws.row_dimensions[r + 1].hidden = True
                    row.append(str(v))
            if row:
                lines.append(" | ".join(row))
        if ctx.rng.random() < 0.15:
            ws.merge_cells(start_row=ws.max_row + 2, end_row=ws.max_row + 3, start_column=1, end_column=2)
        if s and ctx.rng.random() < 0.15 and wb.worksheets[0] is not ws:
            ws.sheet_state = ctx.rng.choice(["hidden", "veryHidden"])
        if lines:
            parts.append(f"Sheet: {name}\n" + "\n".join(lines))
            infos.append((name, len("\n".join(lines)), ws.max_row, ws.max_column))
    wb.save(path)
    if seen:
        with zipfile.ZipFile(path) as z:
            content = [(i, z.read(i)) for i in z.infolist()]
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
            for i, data in content:
                for n in seen if "worksheets/sheet" in i.filename else []:
                    for empty in (b"<v />", b"<v/>", b"<v></v>"):
                        data = data.replace(b"<f>SUM(%d,1)</f>%s" % (n, empty), b"<f>SUM(%d,1)</f><v>%d</v>" % (n, n + 1))
                z.writestr(i, data)
    return {"text": "\n\n".join(parts), "sheets": names, "infos": infos}


def pptx(ctx, path):
    import pptx
    from pptx.enum.shapes import MSO_SHAPE
    from pptx.util import Inches

    p = pptx.Presentation()
    parts, infos, said = [], [], []
    n = ctx.rng.choice([0, 1, 3, 10])
    for i in range(n):
        titled = ctx.rng.random() < 0.3
        slide = p.slides.add_slide(p.slide_layouts[5 if titled else 6])
        shapes = []
        if titled:
            t = ctx.rng.choice(["", line(ctx, 3), line(ctx, 3)])
            slide.shapes.title.text = t
            shapes += [t] if t else []
        if ctx.rng.random() < 0.2:
            slide.notes_slide.notes_text_frame.text = "a note, no part of the slide"
        for _ in range(ctx.rng.choice([0, 1, 2, 3, 7])):
            r = ctx.rng.random()
            if r < 0.1:
                slide.shapes.add_table(1, 1, Inches(1), Inches(1), Inches(1), Inches(1))
            if r < 0.3:
                box = slide.shapes.add_shape(MSO_SHAPE.OVAL, Inches(1), Inches(1), Inches(1), Inches(1))
            else:
                box = slide.shapes.add_textbox(Inches(1), Inches(1), Inches(1), Inches(1))
            t = twice(ctx, said) if ctx.rng.random() < 0.8 else ctx.rng.choice(["", "  "])
            if t.strip() and ctx.rng.random() < 0.3:
                t = "\n".join([t] + [line(ctx, 3) for _ in range(ctx.rng.randint(1, 3))])
            box.text_frame.text = t
            if t.strip():
                shapes.append(t)
        if shapes:
            parts.append(f"Slide {i + 1}: " + "\n".join(shapes))
            infos.append((i + 1, len("\n".join(shapes)), len(shapes)))
    p.save(path)
    return {"text": "\n\n".join(parts), "slides": n, "infos": infos}


def pdf(ctx, path):
    """A PDF of one line per page or more, in plain ASCII."""
    pages = []
    for _ in range(ctx.rng.choice([1, 2, 5, 12])):
        lines = [line(ctx, ctx.rng.randint(1, 30)).encode("ascii", "ignore").decode() for _ in range(ctx.rng.randint(0, 6))]
        if pages and ctx.rng.random() < 0.15:
            pages.append(ctx.rng.choice(pages))  # the same page again
            continue
        pages.append([" ".join(x.replace("(", "").replace(")", "").replace("\\", "").split()) for x in lines])
    info_values = {}
    if ctx.rng.random() < 0.7:
        for key in ("Title", "Author", "Subject", "Creator", "Producer", "CreationDate", "ModDate"):
            if ctx.rng.random() < 0.7:
                info_values[key] = "D:20240102030405Z" if "Date" in key else f"The {key} of {ctx.rng.randint(1, 99)}"
    objects = []
    images = []

    def add(body):
        objects.append(body)
        return len(objects)

    font = add(b"<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>")
    kids = []
    tree = len(objects) + 1
    add(b"")  # the page tree, filled in below
    for lines in pages:
        ops = ["BT /F1 12 Tf 14 TL 50 750 Td"] + [f"({x}) Tj T*" for x in lines if x] + ["ET"]
        stream = "\n".join(ops).encode()
        images.append(ctx.rng.random() < 0.3)
        xobject = b""
        if images[-1]:
            pixels = bytes(ctx.rng.randint(0, 255) for _ in range(12))
            xobject = b"/XObject << /Im1 %d 0 R >> " % add(
                b"<< /Type /XObject /Subtype /Image /Width 2 /Height 2 /ColorSpace /DeviceRGB /BitsPerComponent 8 "
                b"/Length 12 >>\nstream\n%s\nendstream" % pixels)
        content = add(b"<< /Length %d >>\nstream\n%s\nendstream" % (len(stream), stream))
        kids.append(add(b"<< /Type /Page /Parent %d 0 R /MediaBox [0 0 612 792] /Contents %d 0 R /Resources "
                        b"<< %s/Font << /F1 %d 0 R >> >> >>" % (tree, content, xobject, font)))
    objects[tree - 1] = b"<< /Type /Pages /Count %d /Kids [%s] >>" % (
        len(kids), b" ".join(b"%d 0 R" % k for k in kids))
    root = add(b"<< /Type /Catalog /Pages %d 0 R >>" % tree)
    info = None
    if info_values:
        entries = []
        for key, value in info_values.items():
            text = b"(%s)" % value.encode()
            entries.append(b"/%s %s" % (key.encode(), b"%d 0 R" % add(text) if ctx.rng.random() < 0.2 else text))
        info = add(b"<< %s >>" % b" ".join(entries))
    out = bytearray(b"%PDF-1.4\n")
    offsets = []
    for i, body in enumerate(objects):
        offsets.append(len(out))
        out += b"%d 0 obj\n%s\nendobj\n" % (i + 1, body)
    xref = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objects) + 1)
    for o in offsets:
        out += b"%010d 00000 n \n" % o
    out += b"trailer\n<< /Size %d /Root %d 0 R %s >>\nstartxref\n%d\n%%%%EOF\n" % (
        len(objects) + 1, root, b"/Info %d 0 R" % info if info else b"", xref)
    with open(path, "wb") as f:
        f.write(out)
    return {"pages": [[x for x in lines if x] for lines in pages], "info": info_values, "images": images}


@contextlib.contextmanager
def docling(elements_of):
    """A stand-in for docling: elements_of(path) gives the elements of a document."""

    class Converter:
        def convert(self, path):
            elements = elements_of(path)
            return types.SimpleNamespace(iterate_items=lambda: iter(elements))

    modules = {n: types.ModuleType(n) for n in (
        "docling", "docling.datamodel", "docling.datamodel.base_models", "docling.document_converter")}
    modules["docling.datamodel.base_models"].InputFormat = object
    modules["docling.document_converter"].DocumentConverter = Converter
    saved = {m: sys.modules.get(m) for m in modules}
    sys.modules.update(modules)
    try:
        yield
    finally:
        for m, old in saved.items():
            if old is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = old


def write(path, data, **kw):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb" if isinstance(data, bytes) else "w", **kw) as f:
        f.write(data)

"""Text workloads, and the judge of chunks."""

import string

WORDS = ("the quick brown fox jumps over lazy dog and of with vector search index node data naïve café "
         "Zürich résumé 日本語 テスト ключ привет 😀 3.14 e.g. U.S.A. x86-64 a I it's — “quoted”").split()


def prose(ctx, n_words, separators=(" ",)):
    out = []
    for _ in range(n_words):
        out.append(ctx.rng.choice(WORDS))
        r = ctx.rng.random()
        if r < 0.1:
            out.append(ctx.rng.choice([". ", "! ", "? ", ".\n"]))
        elif r < 0.15:
            out.append("\n\n")
        elif r < 0.2:
            out.append("\n")
        else:
            out.append(ctx.rng.choice(separators))
    return "".join(out)


def text(ctx, size=None, style=None):
    style = style or ctx.rng.choice(["prose", "prose", "prose", "paragraphs", "unbroken", "blank", "mixed", "short", "lines"])
    n = size or ctx.rng.choice([1, 3, 20, 80, 250])
    if style == "prose":
        return prose(ctx, n)
    if style == "paragraphs":
        parts = [prose(ctx, ctx.rng.randint(1, 1 + n // 3)).replace("\n", " ") for _ in range(ctx.rng.randint(1, 8))]
        return ctx.rng.choice(["\n\n", "\n\n\n", "\n \n\n"]).join(parts)
    if style == "unbroken":
        return "".join(ctx.rng.choice(string.ascii_letters) for _ in range(n * 4))
    if style == "blank":
        return "".join(ctx.rng.choice([" ", "\n", "\t", "  ", "\n\n", "x", "word "]) for _ in range(n))
    if style == "mixed":
        return "".join(ctx.rng.choice([" ", "\n\n", ". ", "." * 5, "é", "word", "x" * 30, "\u3000", "日本", "\r\n", "\x0b"])
                       for _ in range(n))
    if style == "short":
        return ctx.rng.choice(["", " ", "\n\n", "a", "ab", ".", "word", "\n\na\n\n", "a b"])
    return "\n".join(prose(ctx, ctx.rng.randint(0, 12)).replace("\n", " ") for _ in range(1 + n // 6))


def sparse(ctx, size=None):
    """A long text in which separators of each rank are rare, and far apart."""
    n = size or ctx.rng.choice([1500, 4000, 9000, 20000])
    out, length, rare = [], 0, ctx.rng.choice([0.01, 0.003, 0.001])
    fill = ctx.rng.choice(["words", "unbroken", "both"])
    while length < n:
        r = ctx.rng.random()
        if r < rare:
            piece = ctx.rng.choice(["\n\n", "\n", ". ", "! ", "? ", " "])
        elif fill == "words" or fill == "both" and (length // 700) % 2:
            piece = ctx.rng.choice(WORDS) + " "
        else:
            piece = ctx.rng.choice(["xyz", "w" * 7, "日本語", "é"])
        out.append(piece)
        length += len(piece)
    return "".join(out)


def spans(ctx, text, chunks, where, ordered=True):
    """Every chunk is the span of the text it claims to be."""
    for c in chunks:
        s, e = c["start_pos"], c["end_pos"]
        ctx.count("chunks")
        ctx.check(isinstance(s, int) and isinstance(e, int) and 0 <= s < e <= len(text),
                  f"{where}: a chunk lies outside the text", chunk=c, length=len(text))
        ctx.check(c["text"] == text[s:e].strip() and c["text"], f"{where}: a chunk is not the text at its position",
                  chunk=c, there=text[s:e])
    ids = [c["id"] for c in chunks]
    ctx.check(all(a < b for a, b in zip(ids, ids[1:])), f"{where}: chunk ids repeat or go back", ids=ids)
    starts = [c["start_pos"] for c in chunks]
    ends = [c["end_pos"] for c in chunks]
    # pieces of windows that overlap interleave
    ctx.check(not ordered or starts == sorted(starts) and ends == sorted(ends), f"{where}: chunks are not in the order of the text",
              starts=starts, ends=ends)


def uncovered(text, chunks):
    """The stripped runs of text that no chunk covers."""
    mark = bytearray(len(text))
    for c in chunks:
        mark[c["start_pos"]:c["end_pos"]] = b"\x01" * (c["end_pos"] - c["start_pos"])
    out, at = [], None
    for i in range(len(text) + 1):
        if i < len(text) and not mark[i]:
            at = i if at is None else at
        elif at is not None:
            run = text[at:i].strip()
            if run:
                out.append(run)
            at = None
    return out

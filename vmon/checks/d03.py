"""D03: cleaning changes what it is told to change, and nothing else."""

import copy
import sys
import types
import unicodedata

from vmon import texts

LEVEL = "exploration"
QUICK = 16
RULE = (
    "texts put together from known words, tags, entities, blanks, punctuation and accents, so that the expected result is "
    "known for each of the 128 combinations of options; the result is compared with an oracle that works character by "
    "character; chunks, statistics, the caller's data and cleaning twice are judged too; distinct by event hash"
)
REQUIRED = {"cleaned": 800, "chunks": 400, "twice": 200, "stopwords": 100, "twin": 1000, "long": 15}

STOP = ["a", "an", "and", "are", "as", "at", "be", "by", "for", "from", "has", "he", "in", "is", "it", "its", "of", "on",
        "that", "the", "to", "was", "will", "with"]
TAGS = ["<b>", "</b>", "<p class='x'>", "<br/>", "<a href=\"http://e.x/?a=1\">", "</div>", "<!-- note -->", "<h1\nid=2>"]
ENTITIES = {"&amp;": "&", "&eacute;": "é", "&#233;": "é", "&quot;": '"', "&copy;": "©", "&nbsp;": "\u00a0", "&#x41;": "A"}
PUNCT = [".", ",", "!", "?", ";", ":", "-", "$", "%", "(", ")", "*", "@", "#", "'", "“", "…", "_", "/", "€"]
WORDS = ["The", "quick", "Brown", "fox", "THE", "and", "of", "naïve", "Café", "ÅNGSTRÖM", "日本語", "ключ", "ﬁne", "x²",
         "straße", "3.14", "a", "I", "It", "w" * 49, "w" * 50, "w" * 51, "Will", "résumé", "Ⅷ", "e\u0301te"]
BLANKS = [" ", " ", " ", "  ", "\n", "\n\n", "\t", " \n ", "\u00a0", "\r\n", "\u2003", "   "]

OPTIONS = ["remove_html", "normalize_whitespace", "remove_special_chars", "normalize_unicode", "remove_extra_spaces",
           "lowercase", "remove_stopwords"]


def document(ctx, n=None):
    """Parts of a text: (text, what is left of it without HTML)."""
    parts = []
    for _ in range(n or ctx.rng.choice([0, 1, 3, 10, 40])):
        r = ctx.rng.random()
        if r < 0.45:
            w = ctx.rng.choice(WORDS)
            parts.append((w, w))
        elif r < 0.75:
            b = ctx.rng.choice(BLANKS)
            parts.append((b, b))
        elif r < 0.85:
            parts.append((ctx.rng.choice(TAGS), ""))
        elif r < 0.92:
            e = ctx.rng.choice(sorted(ENTITIES))
            parts.append((e, ENTITIES[e]))
        else:
            p = ctx.rng.choice(PUNCT)
            parts.append((p, p))
    return parts


PATTERNS = {  # what is special, and what is left alone
    None: lambda c: c.isalnum() or c == "_" or c.isspace() or c in "-.,!?;:",
    r"[^\w\s]": lambda c: c.isalnum() or c == "_" or c.isspace(),
    r"[^\w\s#@]": lambda c: c.isalnum() or c == "_" or c.isspace() or c in "#@",
    r"[.,]": lambda c: c not in ".,",
    r"[^a-z ]": lambda c: c in "abcdefghijklmnopqrstuvwxyz ",
    r"e": lambda c: c != "e",
}


def expected(parts, options, stop=STOP, least=1, most=50, pattern=None):
    text = "".join(p[0] for p in parts)
    if not text:
        return text
    if options["remove_html"]:
        text = "".join(p[1] for p in parts)
    if options["normalize_unicode"]:
        text = unicodedata.normalize("NFKD", text)
    if options["remove_special_chars"]:
        out = []
        for c in text:
            if options["normalize_unicode"] and unicodedata.combining(c):
                continue
            out.append(c if PATTERNS[pattern](c) else " ")
        text = "".join(out)
    if options["normalize_whitespace"]:
        text = " ".join(text.split())
    if options["remove_extra_spaces"]:
        while "  " in text:
            text = text.replace("  ", " ")
    if options["lowercase"]:
        text = text.lower()
    if options["remove_stopwords"]:
        text = " ".join(w for w in text.split() if w.lower() not in stop and least <= len(w) <= most)
    return text


def made(config):
    from valori.processors import CleaningProcessor

    p = CleaningProcessor(config)
    p.initialize()
    return p


def combination(ctx):
    options = {o: ctx.rng.random() < 0.5 for o in OPTIONS}
    if ctx.rng.random() < 0.15:
        options = {o: o in ("remove_html", "normalize_whitespace", "normalize_unicode", "remove_extra_spaces")
                   for o in OPTIONS}
        return options, {}  # the defaults
    return options, dict(options)


def run(ctx):
    options, config = combination(ctx)
    least, most = 1, 50
    if ctx.rng.random() < 0.3:
        least, most = ctx.rng.choice([(2, 10), (1, 49), (3, 50), (1, 51)])
        config["min_word_length"], config["max_word_length"] = least, most
    pattern = None
    if ctx.rng.random() < 0.25:
        pattern = config["special_chars_pattern"] = ctx.rng.choice([x for x in PATTERNS if x])
    p = made(config)
    before = after = documents = 0
    for _ in range(ctx.rng.randint(1, 4)):
        parts = document(ctx)
        if ctx.rng.random() < 0.04:  # tags and entities anywhere in a long text
            ctx.count("long")
            parts = document(ctx, ctx.rng.choice([500, 2500, 8000]))
        chunks = [document(ctx) for _ in range(ctx.rng.randint(0, 3))]
        data = {"text": "".join(a for a, _ in parts), "metadata": {"n": [1]}}
        if chunks or ctx.rng.random() < 0.3:
            data["chunks"] = [{"id": i, "text": "".join(a for a, _ in c), "extra": {"k": i}} for i, c in enumerate(chunks)]
            if ctx.rng.random() < 0.3:
                data["chunks"].append({"id": -1, "note": "a picture"})  # nothing to clean
        if ctx.rng.random() < 0.1:
            del data["text"]
        keep = copy.deepcopy(data)
        out = p.process(data)
        documents += 1
        ctx.event("cleaned", sorted(k for k, v in options.items() if v), data.get("text", "")[:80])
        ctx.check(data == keep, "cleaning: the caller's data were altered", data=data, before=keep)
        ctx.check(out.keys() == keep.keys() and out["metadata"] == keep["metadata"], "cleaning: other fields were altered")
        if "text" in data:
            want = expected(parts, options, STOP, least, most, pattern)
            ctx.check(out["text"] == want, "cleaning: the text is not cleaned as configured", options=options,
                      text=data["text"], got=out["text"], want=want)
            before += len(data["text"])
            after += len(want)
            ctx.state(*sorted(k for k, v in options.items() if v))
            if options["remove_stopwords"]:
                ctx.count("stopwords")
            # cleaning twice changes nothing more (unless what is left looks like HTML again)
            if pattern is None and not any(c in out["text"] for c in "&<>"):
                again = p.process({"text": out["text"]})
                documents += 1
                before += len(out["text"])
                after += len(again["text"])
                ctx.count("twice")
                ctx.check(again["text"] == out["text"], "cleaning: cleaning twice changes the text again", options=options,
                          once=out["text"], twice=again["text"])
        for i, c in enumerate(chunks):
            got = out["chunks"][i]
            want = expected(c, options, STOP, least, most, pattern)
            ctx.count("chunks")
            ctx.check(got == {"id": i, "text": want, "extra": {"k": i}}, "cleaning: a chunk is not cleaned as its text would be",
                      got=got, want=want, options=options)
        if "chunks" in data:
            ctx.check(len(out["chunks"]) == len(keep["chunks"]), "cleaning: chunks were lost or added")
            ctx.check(out["chunks"][len(chunks):] == keep["chunks"][len(chunks):], "cleaning: a chunk without text was altered")
    stats = p.get_stats()
    ctx.check(stats["documents_processed"] == documents and stats["total_characters_before"] == before
              and stats["total_characters_after"] == after and stats["characters_removed"] == before - after,
              "cleaning: the statistics are wrong", stats=stats, documents=documents, before=before, after=after)


def twins(ctx):
    """Processors that differ in one setting only, given the same documents in turn: each goes by its own."""
    options, config = combination(ctx)
    config = dict(options)
    own = {"least": 1, "most": 50, "pattern": None}
    settings = [(config, options, own)]
    for o in OPTIONS:
        changed = {**options, o: not options[o]}
        settings.append((dict(changed), changed, own))
    if options["remove_special_chars"]:
        for pattern in ctx.rng.sample([x for x in PATTERNS if x], 2):
            settings.append(({**config, "special_chars_pattern": pattern}, options, {**own, "pattern": pattern}))
    if options["remove_stopwords"]:
        settings.append(({**config, "min_word_length": 3}, options, {**own, "least": 3}))
        settings.append(({**config, "max_word_length": 5}, options, {**own, "most": 5}))
    ctx.rng.shuffle(settings)
    cleaners = [(made(c), o, w) for c, o, w in settings]
    documents = [document(ctx) for _ in range(2)]
    for parts in documents:
        text = "".join(a for a, _ in parts)
        for p, o, w in cleaners:
            data = {"text": text, "chunks": [{"id": 0, "text": text}]}
            out = p.process(data)
            want = expected(parts, o, STOP, **w)
            ctx.event("twin", text[:40])
            ctx.check(out["text"] == want and out["chunks"][0]["text"] == want,
                      "cleaning: a text is not cleaned as this processor is configured", options=o, settings=w, text=text,
                      got=out, want=want)
            out["chunks"][0]["text"] = "scribbled over"


def arbitrary(ctx):
    """Any text: what must hold of the result whatever went in."""
    options, config = combination(ctx)
    p = made(config)
    text = texts.text(ctx)
    if ctx.rng.random() < 0.4:
        text = "".join(ctx.rng.choice(["<", ">", "&", ";", "amp", "&lt;", "a<b", "x > y", "&#0;", "&#xD800;", "\x00", "1 < 2",
                                       " ", "\u0301", "İ", "ǅ", "½", "\ufeff", "\u200b", "<<b>>"]) for _ in range(30))
    out = p.process({"text": text})["text"]
    ctx.event("cleaned", sorted(k for k, v in options.items() if v), text[:80])
    if not any(options.values()):
        ctx.check(out == text, "cleaning: everything is switched off, but the text changes", text=text, out=out)
    if options["normalize_whitespace"] and text:
        ctx.check(out == " ".join(out.split()), "cleaning: blanks are left over", out=out)
    if options["remove_extra_spaces"]:
        ctx.check("  " not in out, "cleaning: double spaces are left over", out=out)
    if options["lowercase"]:
        ctx.check(out == out.lower(), "cleaning: upper case is left over", out=out)
    if options["remove_stopwords"]:
        ctx.check(not any(w.lower() in STOP for w in out.split()), "cleaning: a stopword is left over", out=out)
    if options["remove_special_chars"]:
        extra = [c for c in out if not (c.isalnum() or c in "_-.,!?;:" or c.isspace())]
        # lower-casing may split a letter into a letter and an accent
        ctx.check(not [c for c in extra if not (options["lowercase"] and unicodedata.combining(c))],
                  "cleaning: special characters are left over", out=out, extra=extra)
    if not options["remove_html"] and not options["remove_special_chars"] and not options["remove_stopwords"]:
        form = unicodedata.normalize("NFKD", text) if options["normalize_unicode"] else text
        want = form.lower().split() if options["lowercase"] else form.split()
        ctx.check(out.split() == want, "cleaning: words were changed or lost", got=out, want=want)
    if "<" not in text and "&" not in text and options["remove_html"]:
        plain = made({**options, "remove_html": False}).process({"text": text})["text"]
        ctx.check(plain == out, "cleaning: removing HTML changes a text without any", text=text, out=out)


def language(ctx):
    """Stopwords come from the lists of the configured language when they are installed."""
    lists = {"english": ["the", "and"], "german": ["der", "und"], "french": ["le", "et"]}

    def words(name):
        if name not in lists:
            raise LookupError(name)
        return lists[name]

    have = ctx.rng.random() < 0.7
    nltk, corpus = types.ModuleType("nltk"), types.ModuleType("nltk.corpus")
    corpus.stopwords = types.SimpleNamespace(words=words)
    nltk.corpus = corpus
    name = ctx.rng.choice(["english", "german", "french", "klingon"])
    saved = {m: sys.modules.get(m) for m in ("nltk", "nltk.corpus")}
    try:
        if have:
            sys.modules.update({"nltk": nltk, "nltk.corpus": corpus})
        else:
            sys.modules.update({"nltk": None, "nltk.corpus": None})
        p = made({"remove_stopwords": True, "stopwords_language": name})
    finally:
        for m, old in saved.items():
            if old is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = old
    stop = lists[name] if have and name in lists else STOP
    words = [ctx.rng.choice(["the", "Der", "und", "Le", "et", "of", "haus", "tree", "AND"]) for _ in range(20)]
    out = p.process({"text": " ".join(words)})["text"]
    ctx.event("cleaned", name, have, words)
    ctx.count("stopwords")
    ctx.check(out.split() == [w for w in words if w.lower() not in stop], "cleaning: not the stopwords of the language are removed",
              words=words, out=out, stop=stop)


SCENARIOS = {"composed": (run, 400, 6000), "twins": (twins, 100, 1500), "arbitrary": (arbitrary, 400, 6000), "language": (language, 60, 300)}

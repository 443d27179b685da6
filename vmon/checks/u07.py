"""U07: what is logged is written once, to every destination that was set up, at the level that was set up."""

import contextlib
import io
import logging
import os
import re


LEVEL = "exploration"
QUICK = 8
RULE = (
    "random histories of setting logging up (levels, formats, files with rotation; again with other settings), of getting "
    "loggers before and after, and of logging through them and through every log_* function; every message carries a "
    "unique token, and often what a format, a codec or a line could stumble over, that is looked for in what arrived on the console and in the files: exactly once where the level "
    "allows it, nowhere else, in order, with its values; distinct by event hash"
)
REQUIRED = {"written": 4000, "silent": 1500, "setup": 500, "rotated": 60, "file": 800, "again": 500, "spiced": 2000}

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]


@contextlib.contextmanager
def isolated():
    """The process's logging as it is at a start, put back afterwards; what is printed is kept."""
    root = logging.getLogger()
    kept = root.handlers[:], root.level
    root.handlers[:], root.level = [], logging.WARNING
    known = set(logging.Logger.manager.loggerDict)
    for name in known:
        if name.startswith("valori"):
            one = logging.getLogger(name)
            one.handlers[:] = []
            one.setLevel(logging.NOTSET)
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        for name in list(logging.Logger.manager.loggerDict):
            if name.startswith(("valori", "vm-")):
                one = logging.getLogger(name)
                for h in one.handlers[:]:
                    one.removeHandler(h)
                    h.close()
                one.setLevel(logging.NOTSET)
        for h in root.handlers[:]:
            h.close()
        root.handlers[:] = kept[0]
        root.setLevel(kept[1])


def new(stream, seen):
    text = stream.getvalue()
    fresh = text[seen[0]:]
    seen[0] = len(text)
    return fresh


# What messages may hold besides their token; none of it looks different in the repr of a string
SPICES = ["", "", " 100% done", " %s and %d", " %(name)s", " {} {0}", " caf\u00e9 \u00df", " \u6f22\u5b57 \U0001f600",
          " \u0442\u0435\u043a\u0441\u0442", " <b>&amp;</b>", " " + "long " * 60 + "end"]


def emit(ctx, token, own):
    """Log one message in some way: (name of the logger, level, what must be in it)."""
    spice = ctx.rng.choice(SPICES)
    name, level, parts, spiced = emitted(ctx, token, token + spice, own)
    if spice and spiced:
        ctx.count("spiced")
        return name, level, [spice] + parts, spice
    return name, level, parts, ""


def emitted(ctx, token, text, own):
    from valori.utils import logging as vl

    n, d, t = ctx.rng.randint(0, 10 ** 6), ctx.rng.randint(1, 999), ctx.rng.uniform(0, 9)
    how = ctx.rng.choice(["logger"] * (5 if own else 0) + [
        "performance", "memory", "operation", "index", "search", "error", "warning", "info", "debug"])
    extra = {"extra": text} if ctx.rng.random() < 0.7 else {}
    if how == "logger":
        name = ctx.rng.choice(own)
        level = ctx.rng.choice(LEVELS)
        logging.getLogger(name).log(getattr(logging, level), text)
        return name, level, [], True
    if how == "performance":
        vl.log_performance(text if not extra else "f", t, **extra)
        return "valori.performance", "INFO", [repr(t)], True
    if how == "memory":
        a, b = n * 1000, d * 12345
        vl.log_memory_usage(text, a, b)
        return "valori.memory", "INFO", [f"{(b - a) / 2 ** 20:.2f} MB"], True
    if how == "operation":
        vl.log_vector_operation(text if not extra else "op", n, d, **extra)
        return "valori.operations", "INFO", [f"'vector_count': {n}", f"'vector_dim': {d}"], True
    if how == "index":
        vl.log_index_stats(text if not extra else "flat", n, **extra)
        return "valori.index", "INFO", [f"'vector_count': {n}"], True
    if how == "search":
        # has no text of its own: the time is the token
        vl.log_search_query(d, n, 3, float(token[1:]))
        return "valori.search", "INFO", [f"'query_vector_dim': {d}", f"'k': {n}", "'results_count': 3"], False
    if how == "error":
        try:
            raise KeyError("what failed")
        except KeyError as e:
            vl.log_error(e, text)
        return "valori.error", "ERROR", ["KeyError", "what failed"], True
    f = {"warning": vl.log_warning, "info": vl.log_info, "debug": vl.log_debug}[how]
    spice = text[len(token):]
    if not extra:
        f(text)
    elif ctx.rng.random() < 0.5:
        f("message", extra=text)
    else:
        f("message" + spice, extra=token)
    return f"valori.{how}", how.upper(), [] if not extra else ["message"], True


def tokens():
    n = 0
    while True:
        n += 1
        yield f"T{100000 + n}.5"


def judge(ctx, where, text, token, expected, parts, detail):
    mark = token[1:] if token not in text and expected else token
    got = text.count(mark)
    ctx.count("written" if expected else "silent")
    ctx.check(got == (1 if expected else 0), f"{where}: a message is written {got} times instead of {int(expected)}",
              text=text, token=token, detail=detail)
    if expected:
        for part in parts:
            ctx.check(part in text, f"{where}: a message lacks one of its values", text=text, missing=part, detail=detail)


def shaped(form, name, level):
    """What a line in this format begins with."""
    if form == "%(message)s":
        return r"(?!\[|\d{4}-\d\d-\d\d )"
    if form:
        return re.escape(f"[{level}] {name}: ")
    return r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - " + re.escape(f"{name} - {level} - ")


def history(ctx):
    from valori.utils.logging import get_logger, setup_logging

    make = tokens()
    with isolated() as (out, err):
        seen = [0]
        levels = {}  # loggers that have been got on their own, while nothing is set up
        root = None
        shape = ""
        spices = {}  # what it has besides its token
        looks = {}  # what the line of a message begins with
        prefix = f"vm-{ctx.index}-{ctx.rng.randint(0, 10 ** 9)}"
        names = [f"{prefix}-a", f"{prefix}-b", f"{prefix}-c.d"]
        got_names = []
        folder = ctx.scratch()
        files = {}  # path: [tokens expected]
        current = None
        for step in range(ctx.rng.randint(8, 40)):
            r = ctx.rng.random()
            if r < 0.12:
                conf = {}
                if ctx.rng.random() < 0.8:
                    conf["level"] = ctx.rng.choice(LEVELS + ["debug", "Info", "none such"])
                if ctx.rng.random() < 0.3:
                    conf["format"] = ctx.rng.choice(["%(message)s", "[%(levelname)s] %(name)s: %(message)s"])
                if ctx.rng.random() < 0.5:
                    conf["log_to_file"] = True
                    conf["log_file"] = os.path.join(folder, ctx.rng.choice(["a.log", "deep/er/b.log"]))
                keep = dict(conf)
                given = conf if conf or ctx.rng.random() < 0.5 else None
                setup_logging(given)
                ctx.check(conf == keep, "setup_logging changed its configuration", got=conf, want=keep)
                name = conf.get("level", "INFO").upper()
                root = getattr(logging, name) if name in LEVELS else logging.INFO
                levels.clear()
                shape = conf.get("format", "")
                current = conf.get("log_file")
                files.setdefault(current, [])
                ctx.event("setup", sorted(conf.items(), key=str) if not current else [name, "file"])
            elif r < 0.3:
                name = ctx.rng.choice(names)
                level = ctx.rng.choice(LEVELS[:4])
                plain = ctx.rng.random() < 0.5
                logger = get_logger(name) if plain else get_logger(name, level)
                ctx.check(logger is logging.getLogger(name), "get_logger gives another logger")
                if root is None and name not in levels:
                    levels[name] = logging.INFO if plain else getattr(logging, level)
                elif root is not None and not plain:
                    got_names = [n for n in got_names if n != name]
                    names = [n for n in names if n != name] or [f"{prefix}-{step}"]
                    continue  # whether it keeps to the level of the set-up or its own is not said
                if name not in got_names:
                    got_names.append(name)
                ctx.event("get", name in levels)
            else:
                token = next(make)
                name, level, parts, spice = emit(ctx, token, got_names)
                text = new(out, seen)
                number = getattr(logging, level)
                if root is not None:
                    expected = number >= root
                elif name.startswith("valori"):
                    expected = number >= logging.INFO
                else:
                    expected = number >= levels.get(name, logging.INFO)
                ctx.event("log", name.split("-")[0], level, expected, root)
                judge(ctx, "console", text, token, expected, parts, (name, level, root, levels))
                if expected and root is not None:
                    ctx.count("shaped")
                    ctx.check(re.match(shaped(shape, name, level), text), "a message is not written in the format set up",
                              text=text, format=shape, name=name, level=level)
                if current and expected:
                    files[current].append(token)
                    looks[token[1:]] = shaped(shape, name, level)
                    spices[token[1:]] = spice
                ctx.check(err.getvalue() == "", "something is written to the standard error", text=err.getvalue())
        for path, wanted in files.items():
            if path:
                with open(path, encoding="utf-8", errors="replace") as f:
                    text = f.read()
                found = re.findall(r"(?<!\d)1\d{5}\.5(?!\d)", text)
                ctx.event("file", len(wanted))
                ctx.check(found == [t[1:] for t in wanted], "a log file does not have every message once, in order",
                          found=found, want=wanted)
                for line in text.splitlines():
                    for mark in re.findall(r"(?<!\d)1\d{5}\.5(?!\d)", line):
                        ctx.check(re.match(looks[mark], line), "a log file is not in the format set up",
                                  line=line, want=looks[mark])
                        ctx.check(spices[mark] in line, "a message in a log file lacks part of its text",
                                  line=line, missing=spices[mark])


def rotated(ctx):
    from valori.utils.logging import get_logger, setup_logging

    path = os.path.join(ctx.scratch(), "logs", "r.log")
    size = ctx.rng.choice([200, 1000, 4000])
    backups = ctx.rng.choice([1, 2, 5, 0])
    if ctx.rng.random() < 0.1:
        size = 0
    with isolated() as (out, _):
        wanted = []
        make = tokens()
        for _ in range(ctx.rng.randint(1, 3)):  # also continued by another set-up
            setup_logging({"log_to_file": True, "log_file": path, "max_file_size": size, "backup_count": backups})
            logger = get_logger("vm-rotated")
            for _ in range(ctx.rng.randint(1, 120)):
                token = next(make)
                logger.info(token + " " + "x" * ctx.rng.randint(0, 40))
                wanted.append(token[1:])
        ctx.event("rotated", size, backups, len(wanted))
        there = sorted(os.listdir(os.path.dirname(path)))
        ctx.check(len(there) <= backups + 1 and set(there) <= {"r.log"} | {f"r.log.{i + 1}" for i in range(backups)},
                  "rotation keeps other files than it is asked to", files=there, backups=backups)
        found = []
        for name in sorted(there, reverse=True):
            full = os.path.join(os.path.dirname(path), name)
            ctx.check(not size or not backups or os.path.getsize(full) <= size, "a log file grows beyond its limit", name=name, limit=size)
            with open(full, encoding="utf-8") as f:
                found += re.findall(r"(?<!\d)1\d{5}\.5(?!\d)", f.read())
        ctx.check(found == wanted[len(wanted) - len(found):], "the log files do not hold the latest messages once, in order",
                  found=found, want=wanted)
        ctx.check(len(found) == len(wanted) or size and backups and len(there) == backups + 1, "messages are gone although there is space",
                  found=len(found), want=len(wanted), files=there)
        ctx.check(re.findall(r"(?<!\d)1\d{5}\.5(?!\d)", out.getvalue()) == wanted, "the console does not have every message once")


def again(ctx):
    """The same set-up once more, after something else has changed: it counts from then on."""
    from valori.utils.debugging import setup_logging as setup_package
    from valori.utils.logging import get_logger, setup_logging

    folder = ctx.scratch()
    package = ctx.rng.random() < 0.4
    path = os.path.join(folder, "a.log") if package else os.path.join(folder, "logs", "a.log")
    conf = {"level": ctx.rng.choice(LEVELS[:3])}
    if ctx.rng.random() < 0.6:
        conf |= {"log_to_file": True, "log_file": path}
    with isolated() as (out, err):
        make = tokens()

        def prepare():
            if package:
                setup_package(conf["level"], conf.get("log_file"))
            else:
                setup_logging(dict(conf))

        top = logging.getLogger("valori") if package else logging.getLogger()
        logger = get_logger("valori.again") if ctx.rng.random() < 0.5 else logging.getLogger("valori.again")
        wanted = []
        for _ in range(ctx.rng.randint(2, 6)):
            prepare()
            stream = err if package else out
            at = len(stream.getvalue())
            fresh, mark = None, contextlib.nullcontext()
            change = ctx.rng.choice(["nothing", "stream", "file", "handlers", "level"])
            if change == "stream":
                fresh = io.StringIO()
                mark = (contextlib.redirect_stderr if package else contextlib.redirect_stdout)(fresh)
            elif change == "file" and os.path.exists(path):
                os.remove(path)
                wanted = []
            elif change == "handlers":
                for h in top.handlers[:]:
                    top.removeHandler(h)
                    h.close()
                top.addHandler(logging.NullHandler())
            elif change == "level":
                top.setLevel(logging.CRITICAL + 1)
            with mark:
                prepare()
                token = next(make)
                level = ctx.rng.choice(LEVELS)
                logger.log(getattr(logging, level), token)
            ctx.event("again", package, change, conf["level"], level)
            expected = getattr(logging, level) >= getattr(logging, conf["level"])
            judge(ctx, f"after '{change}' and the same set-up again", fresh.getvalue() if fresh else stream.getvalue()[at:], token,
                  expected, [], conf)
            if fresh:
                ctx.check(token not in stream.getvalue(), "a message goes where the output went before", token=token)
            if expected and "log_file" in conf:
                wanted.append(token[1:])
        if "log_file" in conf:
            text = ""
            if os.path.exists(path):
                with open(path, encoding="utf-8", errors="replace") as f:
                    text = f.read()
            found = re.findall(r"(?<!\d)1\d{5}\.5(?!\d)", text)
            ctx.check(found == wanted, "a log file does not have every message once, in order", found=found, want=wanted)
        if package:
            for h in top.handlers[:]:
                top.removeHandler(h)
                h.close()


def debugging(ctx):
    """The set-up for the package's own loggers: to the standard error and a file."""
    from valori.utils.debugging import setup_logging
    from valori.utils.logging import get_logger

    make = tokens()
    folder = ctx.scratch()
    with isolated() as (out, err):
        seen = [0]
        if ctx.rng.random() < 0.5:
            get_logger("valori.x")
        wanted = {}
        path = None
        for _ in range(ctx.rng.randint(1, 3)):
            level = ctx.rng.choice(LEVELS[:4] + ["info"])
            path = os.path.join(folder, ctx.rng.choice("ab")) if ctx.rng.random() < 0.6 else None
            logger = setup_logging(*([level] if path is None else [level, path]))
            ctx.check(logger.name == "valori", "another logger is set up", got=logger.name)
            ctx.event("setup", "valori", level, path is not None)
            wanted.setdefault(path, [])
            for _ in range(ctx.rng.randint(1, 8)):
                token = next(make)
                name = ctx.rng.choice(["valori", "valori.x", "valori.storage.disk"])
                at = ctx.rng.choice(LEVELS)
                (get_logger(name) if ctx.rng.random() < 0.5 else logging.getLogger(name)).log(getattr(logging, at), token)
                expected = getattr(logging, at) >= getattr(logging, level.upper())
                judge(ctx, "standard error", new(err, seen), token, expected, [], (name, at, level))
                if expected:
                    wanted[path].append(token[1:])
        ctx.check(out.getvalue() == "", "something is written to the standard output", text=out.getvalue())
        for p, tokens_ in wanted.items():
            if p:
                with open(p, encoding="utf-8") as f:
                    found = re.findall(r"(?<!\d)1\d{5}\.5(?!\d)", f.read())
                ctx.event("file", len(found))
                ctx.check(found == tokens_, "a log file does not have every message once, in order", found=found, want=tokens_)


SCENARIOS = {"history": (history, 200, 3000), "rotated": (rotated, 40, 400), "again": (again, 60, 600), "debugging": (debugging, 60, 600)}

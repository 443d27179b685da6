"""P01: what is saved is what is loaded."""

import os

from vmon import gen, persist

LEVEL = "exploration"
QUICK = 2
RULE = (
    "random histories of saving, altering the caller's copy, overwriting, loading and reopening with both persistence "
    "managers, over names with folders, suffixes and odd characters, vectors of nine dtypes and nested states; every load "
    "is compared bit for bit with the last save of that name; distinct by event hash"
)
REQUIRED = {"save": 1000, "load": 800, "missing": 150, "reopen": 100, "stats": 100, "large": 60}


def resaved(ctx, kind, p, model, name, what):
    """One object saved twice, with a change deep inside it in between."""
    n = ctx.rng.choice([5, 200, 2000])
    content = {"rows": ctx.np.normal(size=n), "list": list(range(n)), "deep": {"er": [{"x": 1}, {"y": b"z"}]}}
    persist.save(p, what, name, content)
    part = ctx.rng.choice(["rows", "list", "deep"])
    if part == "deep":
        content["deep"]["er"][1]["y"] = b"w"
    else:
        content[part][n // 2] = -1
    keep = gen.snapshot(content)
    ctx.event("resave", kind, what, name, part, n)
    persist.save(p, what, name, content)
    model[persist.slot(kind, what, name)] = (what, keep)


def history(ctx, kind):
    folder = os.path.join(ctx.scratch(), "deep", "data")
    pool = persist.names(ctx, ctx.rng.randint(1, 6))
    # a name serves one purpose: state, index and vectors share the folder
    purpose = {n: ctx.rng.choice(persist.WHAT) for n in pool}
    taken = {}
    for n in pool:  # "v" and "v.npz" hold the same vectors
        taken.setdefault(persist.slot(kind, purpose[n], n)[1], purpose[n])
    purpose = {n: w for n, w in purpose.items() if taken.get(n, w) == w}
    model = {}
    p = persist.opened(kind, folder, **persist.config(ctx, kind))
    saves = loads = 0
    for step in range(ctx.rng.randint(10, 30)):
        r = ctx.rng.random()
        if r < 0.5:
            name = ctx.rng.choice(sorted(purpose))
            what = purpose[name]
            content = persist.value(ctx, what, step + 1)
            if what != "vectors" and ctx.rng.random() < 0.06:
                ctx.count("large")
                content["large"] = ctx.np.normal(size=ctx.rng.choice([2000, 9000, 20000]))
                if ctx.rng.random() < 0.5:
                    content["deep"] = [{"er": content.pop("large")}, "x" * 20000]
            keep = gen.snapshot(content)
            ctx.event("save", kind, what, name)
            ctx.check(persist.save(p, what, name, content) is True, f"{kind}: saving a {what} did not report success",
                      name=name)
            ctx.check(persist.equal(what, content, keep), f"{kind}: saving altered the caller's {what}", name=name)
            for part in content if isinstance(content, tuple) else [content]:
                if not isinstance(part, list):
                    gen.scribble(ctx, part)
            saves += 1
            model[persist.slot(kind, what, name)] = (what, keep)
        elif r < 0.85:
            name = ctx.rng.choice(sorted(purpose))
            what = purpose[name]
            want = model.get(persist.slot(kind, what, name), (what, None))[1]
            got = persist.load(p, what, name)
            ctx.event("load" if want is not None else "missing", kind, what, name)
            ctx.check(persist.equal(what, got, want), f"{kind}: a {what} is not loaded as it was saved", name=name,
                      got=got, want=want)
            loads += want is not None
            if got is not None and what != "vectors":
                gen.scribble(ctx, got)  # a loaded one is the caller's own
        elif r < 0.88 and any(w != "vectors" for w in purpose.values()):
            resaved(ctx, kind, p, model, *ctx.rng.choice([(n, w) for n, w in sorted(purpose.items()) if w != "vectors"]))
            saves += 2
        elif r < 0.93:
            ctx.event("stats")
            stats = p.get_stats()
            files = [os.path.join(d, f) for d, _, fs in os.walk(folder) for f in fs]
            size = sum(os.path.getsize(f) for f in files)
            ctx.check(stats["disk_usage_bytes"] == size, f"{kind}: the disk usage is wrong", stats=stats, size=size)
            if kind == "tensor":
                ctx.check(stats["file_count"] == len(files) == len(model), "tensor: the number of files is wrong",
                          stats=stats, files=files, saved=list(model))
                ctx.check(stats["save_count"] == saves and stats["load_count"] == loads,
                          "tensor: the counts of saves and loads are wrong", stats=stats, saves=saves, loads=loads)
        else:
            how = ctx.rng.choice(["close", "abandon", "again"])
            if how == "close":
                p.close()
            if how == "again":
                p.initialize()
            else:
                p = persist.opened(kind, folder, **persist.config(ctx, kind))
                saves = loads = 0
            ctx.event("reopen", how)
    p = persist.opened(kind, folder)
    for (_, name), (what, want) in model.items():
        ctx.event("load", what, name)
        ctx.check(persist.equal(what, persist.load(p, what, name or "any"), want),
                  f"{kind}: a {what} is not loaded as it was saved", name=name)


SCENARIOS = {
    "tensor": (lambda c: history(c, "tensor"), 600, 4000),
    "incremental": (lambda c: history(c, "incremental"), 600, 4000),
}

"""P05: damaged files are refused, and harm nothing but what they hold."""

import os

import numpy as np

from vmon import faults, gen, indexes, persist, stores, workload

LEVEL = "fault_enumeration"
QUICK = 4
RULE = (
    "records, states, vectors, index data and Annoy indexes are written, then one file is cut at a random length, emptied, "
    "overwritten, exchanged for another or replaced by a directory; reading what it held must give exactly what was written "
    "or the package's error, everything else must read as before, and writing anew must make it whole; distinct by event hash"
)
REQUIRED = {"storage": 200, "persistence": 300, "helpers": 150, "annoy": 150, "refused": 400, "intact": 1500, "rewritten": 400,
            "unreadable_refused": 500, "unreadable_loaded": 1000}
ASSUMPTIONS = ["damage that leaves a well-formed file (a flipped bit in a number) cannot be told from content and is not made"]


def damage(ctx, path, others=()):
    """Damages a file; says how."""
    size = os.path.getsize(path)
    how = ctx.rng.choice(["cut", "cut", "cut", "cut-1", "emptied", "garbage", "tail", "directory"])
    if how == "cut":
        os.truncate(path, ctx.rng.randint(0, size - 1))
    elif how == "cut-1":
        os.truncate(path, size - 1)
    elif how == "emptied":
        os.truncate(path, 0)
    elif how == "garbage":
        with open(path, "wb") as f:
            f.write(ctx.rng.choice([b"\x01garbage", b"\x00" * 100, b"<html></html>", b"\x80\x05", b"PK\x03\x04", b"{", b"[1, 2"]))
    elif how == "tail":
        with open(path, "r+b") as f:
            f.seek(0)
            f.write(b"\xff" * min(size, ctx.rng.choice([1, 6, 40])))
    else:
        os.remove(path)
        os.mkdir(path)
    return how


def restored(path):
    if os.path.isdir(path):
        os.rmdir(path)


def storage(ctx):
    from valori.exceptions import StorageError

    kind = ctx.rng.choice(["disk", "hybrid"])
    folder = ctx.scratch()
    s = stores.opened(ctx, kind, folder, ctx.rng.choice([0, 1]))
    model = {}
    for n, i in enumerate(gen.ids(ctx, ctx.rng.randint(2, 6))):
        v, m = stores.value(ctx, n)
        s.store_vector(i, v, m)
        model[i] = (v, m)
    s.close()
    victim = ctx.rng.choice(sorted(model))
    # the file is told by what changes when the record is stored again
    def files():
        return {os.path.join(d, f) for d, _, fs in os.walk(folder) for f in fs}

    probe = stores.opened(ctx, kind, folder, 0)
    before = files()
    probe.delete_vector(victim)
    lost = sorted(before - files())
    probe.store_vector(victim, *model[victim])
    probe.close()
    ctx.check(len(lost) >= 1, f"{kind}: a record has no file of its own", lost=lost)
    path = ctx.rng.choice(lost)
    how = damage(ctx, path)
    ctx.event("damaged", kind, os.path.basename(os.path.dirname(path)), how)
    ctx.count("storage")
    s = stores.opened(ctx, kind, folder, ctx.rng.choice([0, 1]))
    for i in ctx.rng.sample(sorted(model), len(model)):
        try:
            got = s.retrieve_vector(i)
        except StorageError:
            ctx.check(i == victim, f"{kind}: a damaged file of one record keeps another from being read", how=how)
            ctx.count("refused")
        else:
            if i != victim:
                ctx.count("intact")
                stores.compare(ctx, got, model[i], f"{kind}: beside a damaged record", id=i)
            else:
                same = got is not None and gen.same_vector(got[0], model[i][0]) and gen.same(got[1], model[i][1])
                ctx.check(same, f"{kind}: a damaged record is passed off as sound", how=how, path=os.path.basename(path), got=got)
    if how == "directory":
        restored(path)
        return
    if ctx.rng.random() < 0.5:
        v, m = stores.value(ctx, 99)
        ctx.check(s.store_vector(victim, v, m) is True, f"{kind}: a damaged record cannot be overwritten")
        model[victim] = (v, m)
    else:
        ctx.check(s.delete_vector(victim) is True, f"{kind}: a damaged record cannot be deleted", how=how)
        model.pop(victim)
    ctx.count("rewritten")
    stores.compare_all(ctx, s, model, f"{kind}: after a damaged record was replaced")
    s.close()


def persistence(ctx):
    from valori.exceptions import PersistenceError

    kind = ctx.rng.choice(persist.KINDS)
    folder = ctx.scratch()
    settings = persist.config(ctx, kind)
    p = persist.opened(kind, folder, **settings)
    model, where = {}, {}

    def files():
        return {os.path.join(d, f): os.stat(os.path.join(d, f)).st_mtime_ns for d, _, fs in os.walk(folder) for f in fs}

    for n, name in enumerate(persist.names(ctx, ctx.rng.randint(2, 5))):
        what = ctx.rng.choice(persist.WHAT)
        slot = persist.slot(kind, what, name)
        if slot in model:
            continue
        content = persist.value(ctx, what, n)
        before = files()
        persist.save(p, what, name, content)
        new = [f for f in files() if f not in before and os.path.basename(f) not in ("operations.log", "checkpoint.json")]
        model[slot] = (what, name, content)
        where[slot] = new
    p.close()
    slots = [s for s in model if len(where[s]) == 1]
    if not slots:
        return
    victim = ctx.rng.choice(slots)
    path = where[victim][0]
    how = damage(ctx, path)
    ctx.event("damaged", kind, victim[0], how)
    ctx.count("persistence")
    p = persist.opened(kind, folder, **settings)
    for slot in ctx.rng.sample(list(model), len(model)):
        what, name, content = model[slot]
        try:
            got = persist.load(p, what, name)
        except PersistenceError:
            ctx.check(slot == victim, f"{kind}: a damaged file keeps another from being loaded", how=how, damaged=victim, other=slot)
            ctx.count("refused")
        else:
            if slot != victim:
                ctx.count("intact")
            ctx.check(persist.equal(what, got, content),
                      f"{kind}: " + ("damaged content is passed off as sound" if slot == victim else "other content is not as saved"),
                      how=how, damaged=victim, slot=slot, got=got, want=content)
    if how == "directory":
        restored(path)
    what, name, _ = model[victim]
    content = persist.value(ctx, what, 77)
    ctx.check(persist.save(p, what, name, content) is True, f"{kind}: damaged content cannot be saved anew", how=how)
    model[victim] = (what, name, content)
    ctx.count("rewritten")
    for _ in range(2):
        for what, name, content in model.values():
            ctx.check(persist.equal(what, persist.load(p, what, name), content), f"{kind}: not whole after saving anew", how=how, name=name)
        p.close()
        p = persist.opened(kind, folder, **settings)


def states(ctx):
    """Of several states saved one after the other, none but the last is ever loaded, whatever happens to its file."""
    from valori.exceptions import PersistenceError

    kind = ctx.rng.choice(["incremental", "incremental", "tensor"])
    folder = ctx.scratch()
    settings = persist.config(ctx, kind)
    p = persist.opened(kind, folder, **settings)

    def files():
        out = {}
        for d, _, fs in os.walk(folder):
            for f in fs:
                with open(os.path.join(d, f), "rb") as file:
                    out[os.path.join(d, f)] = file.read()
        return out

    for n in range(ctx.rng.randint(2, 14)):
        content = {"n": n, "of": persist.value(ctx, "state", n)}
        before = files()
        p.save_state(content, "s")
        new = [f for f, data in files().items() if before.get(f) != data
               and os.path.basename(f) not in ("operations.log", "checkpoint.json")]
        if ctx.rng.random() < 0.3:
            p.save_index({"n": n}, "i")
    if len(new) != 1:
        return
    how = damage(ctx, new[0])
    ctx.event("damaged", kind, "newest of several states", how)
    ctx.count("persistence")
    for _ in range(2):
        try:
            got = p.load_state("s")
        except PersistenceError:
            ctx.count("refused")
        else:
            ctx.count("intact")
            ctx.check(gen.same(got, content), f"{kind}: an older state is passed off as the last one, whose file is damaged",
                      how=how, got=got)
        p.close()
        p = persist.opened(kind, folder, **settings)
    if how == "directory":
        restored(new[0])
    p.save_state({"n": -1}, "s")
    ctx.count("rewritten")
    ctx.check(p.load_state("s") == {"n": -1}, f"{kind}: not whole after a state is saved anew", how=how)


def info(ctx):
    """Damage to what incremental persistence keeps about itself costs no saved content."""
    folder = ctx.scratch()
    settings = persist.config(ctx, "incremental")
    p = persist.opened("incremental", folder, **settings)
    number = 0
    for _ in range(ctx.rng.randint(1, 12)):
        number += 1
        p.save_state({"n": number}, "s")
        if ctx.rng.random() < 0.4:
            p.save_index({"n": number}, "i")
    p.save_index({"n": -1}, "i")
    p.close()
    for name in ctx.rng.choice([["checkpoint.json"], ["operations.log"], ["checkpoint.json", "operations.log"]]):
        path = os.path.join(folder, name)
        if not os.path.exists(path):
            continue
        if ctx.rng.random() < 0.2:
            os.remove(path)
            how = "removed"
        else:
            how = damage(ctx, path)
            if how == "directory":
                restored(path)
        ctx.event("damaged", name, how)
    ctx.count("persistence")
    p = persist.opened("incremental", folder, **settings)
    for step in range(3):
        ctx.count("intact")
        ctx.check(p.load_state("s") == {"n": number}, "incremental: damage to its own files loses the state",
                  got=p.load_state("s"), want=number, step=step)
        ctx.check(p.load_index("i") == {"n": -1}, "incremental: damage to its own files loses an index")
        number += 1
        p.save_state({"n": number}, "s")
        ctx.count("rewritten")
        ctx.check(p.load_state("s") == {"n": number}, "incremental: a state saved after damage to its own files is not the one loaded",
                  got=p.load_state("s"), want=number)
        if ctx.rng.random() < 0.5:
            p = persist.opened("incremental", folder, **settings)


def helpers(ctx):
    from valori.utils.helpers import load_vectors_from_file, save_vectors_to_file

    folder = ctx.scratch()
    fmt, suffix = ctx.rng.choice([("npz", ".npz"), ("pickle", ".pkl"), ("json", ".json")])
    path, other = os.path.join(folder, "a" + suffix), os.path.join(folder, "b" + suffix)
    v = gen.vectors(ctx, ctx.rng.randint(1, 9), gen.dim(ctx, 1, 6), "normal", "float64")
    m = [gen.metadata(ctx, j, allow_none=False) for j in range(len(v))]
    save_vectors_to_file(v, m, path, format=fmt)
    save_vectors_to_file(v + 1, m, other, format=fmt)
    how = damage(ctx, path)
    ctx.event("damaged", fmt, how)
    ctx.count("helpers")
    try:
        gv, gm = load_vectors_from_file(path)
    except Exception:
        ctx.count("refused")
    else:
        ctx.check(np.array_equal(gv, v) and gen.same(gm, m), f"{fmt}: a damaged file is passed off as sound", how=how, got=gv, want=v)
    ctx.count("intact")
    gv, gm = load_vectors_from_file(other)
    ctx.check(np.array_equal(gv, v + 1) and gen.same(gm, m), f"{fmt}: another file is not as written")
    restored(path)
    save_vectors_to_file(v + 2, m, path, format=fmt)
    gv, gm = load_vectors_from_file(path)
    ctx.count("rewritten")
    ctx.check(np.array_equal(gv, v + 2) and gen.same(gm, m), f"{fmt}: a damaged file written anew is not whole")


def annoy(ctx):
    from valori.exceptions import ValoriIndexError

    d = ctx.rng.randint(2, 8)
    folder = ctx.scratch()
    config = indexes.config(ctx, "annoy", metric=ctx.rng.choice(["angular", "euclidean", "manhattan"]))
    u = indexes.Under(ctx, "annoy", d, config)
    n = ctx.rng.choice([2, 10, 60, 200])
    u.insert(gen.vectors(ctx, n, d, "normal", "float64"), [{"n": j} for j in range(n)])
    u.index.build()
    path = os.path.join(folder, "saved")
    u.index.save(path)
    u.index.save(os.path.join(folder, "kept"))  # Annoy goes on with the file it saved last
    queries = [workload.query(ctx, u, "normal", "float64") for _ in range(4)]
    target = path + ctx.rng.choice(["", "", ".meta", ".data"])
    keep = open(target, "rb").read()
    how = "nodes"
    if target == path and ctx.rng.random() < 0.7:
        # Annoy knows nothing but nodes: a cut between two of them looks like an index. Its nodes have a fixed size
        sizes = [s for s in range(8, 200, 4) if len(keep) % s == 0]
        size = ctx.rng.choice(sizes) if sizes else 4
        os.truncate(target, size * ctx.rng.randint(0, len(keep) // size - 1))
    elif target == path and ctx.rng.random() < 0.5:
        how = "overwritten"
        at = ctx.rng.randrange(len(keep))
        with open(target, "r+b") as f:
            f.seek(at)
            f.write(bytes(255 - b for b in keep[at:at + ctx.rng.choice([1, 4, 100])]))
    else:
        how = damage(ctx, target)
    ctx.event("damaged", "annoy", target[len(path):], how, n)
    ctx.count("annoy")
    v = indexes.Under(ctx, "annoy", d, config)
    try:
        v.index.load(path)
    except ValoriIndexError:
        ctx.count("refused")
    else:
        v.model, v.built = u.model, True
        for q in queries:
            results = v.index.search(q, ctx.rng.choice([1, 5]))
            v.sound(q, results, 5, f"annoy: loaded from a damaged file ({how})")
            ctx.check(bool(results), "annoy: an index loaded from a damaged file finds nothing")
    ctx.count("intact")
    for q in queries:
        results = u.index.search(q, 3)
        u.sound(q, results, 3, "annoy: the index that was saved")
    restored(target)
    u.index.save(path)
    w = indexes.Under(ctx, "annoy", d, config)
    w.index.load(path)
    ctx.count("rewritten")
    for q in queries:
        ctx.check([r["id"] for r in w.index.search(q, 5)] == [r["id"] for r in u.index.search(q, 5)],
                  "annoy: saved anew over damaged files, the index loaded is another")


def unreadable(ctx):
    """The system refuses one access, at each point in turn, while what was written is read by a fresh object."""
    from valori.exceptions import PersistenceError

    kind = ctx.rng.choice(persist.KINDS)
    folder = ctx.scratch()
    settings = persist.config(ctx, kind)
    p = persist.opened(kind, folder, **settings)
    model = {}
    for n, name in enumerate(persist.names(ctx, ctx.rng.randint(2, 4))):
        what = ctx.rng.choice(persist.WHAT)
        model[persist.slot(kind, what, name)] = (what, name, persist.value(ctx, what, n))
        persist.save(p, what, name, model[persist.slot(kind, what, name)][2])
    p.close()

    def read(p, where, point):
        for slot in ctx.rng.sample(list(model), len(model)):
            what, name, content = model[slot]
            try:
                got = persist.load(p, what, name)
            except PersistenceError:
                ctx.check(where == "hampered", f"{kind}: content cannot be loaded after an access was refused", access=point)
                ctx.count("unreadable_refused")
            else:
                ctx.count("unreadable_loaded")
                ctx.check(persist.equal(what, got, content),
                          f"{kind}: an access was refused, and something else than what was saved is loaded ({where})",
                          access=point, slot=slot, got=got, want=content)

    for point in range(60):
        p = None
        with faults.hampered(folder, point) as plan:
            try:
                if ctx.rng.random() < 0.5:
                    p = persist.opened(kind, folder, **settings)
                    read(p, "hampered", point)
            except PersistenceError:
                ctx.count("unreadable_refused")
            if p is None:
                try:
                    p = persist.opened(kind, folder, **settings)
                except PersistenceError:
                    ctx.count("unreadable_refused")
                else:
                    read(p, "hampered", point)
        if p is not None and ctx.rng.random() < 0.5:
            read(p, "afterwards", point)
        p = persist.opened(kind, folder, **settings)
        read(p, "reopened", point)
        if not plan["struck"]:
            break
    ctx.event("unreadable", kind, point, sorted(map(repr, model)), len(repr(model)))


def unreadable_files(ctx):
    """The same for the vector file helpers and for loading an Annoy index."""
    from valori.exceptions import ValoriIndexError
    from valori.utils.helpers import load_vectors_from_file, save_vectors_to_file

    folder = ctx.scratch()
    suffix, fmt = ctx.rng.choice([(".npz", "npz"), (".pkl", "pickle"), (".json", "json")])
    path = os.path.join(folder, "a" + suffix)
    v = gen.vectors(ctx, ctx.rng.randint(1, 9), gen.dim(ctx, 1, 6), "normal", "float64")
    m = [gen.metadata(ctx, j, allow_none=False) for j in range(len(v))]
    save_vectors_to_file(v, m, path, format=fmt)
    for point in range(12):
        with faults.hampered(folder, point) as plan:
            try:
                gv, gm = load_vectors_from_file(path)
            except Exception:
                ctx.count("unreadable_refused")
            else:
                ctx.count("unreadable_loaded")
                ctx.check(np.array_equal(gv, v) and gen.same(gm, m), f"{fmt}: an access was refused, and something else is read", got=gv)
        if ctx.rng.random() < 0.5:
            w = v + point
            with faults.hampered(folder, point) as plan:
                try:
                    save_vectors_to_file(w, m, path, format=fmt)
                except Exception:
                    ctx.count("unreadable_refused")
                else:
                    v = w
            gv, gm = load_vectors_from_file(path)
            if np.array_equal(gv, w):
                v = w
            ctx.check(np.array_equal(gv, v) and gen.same(gm, m),
                      f"{fmt}: a writing whose access was refused left something else than the old or the new content", got=gv, struck=plan["struck"])
    d = ctx.rng.randint(2, 8)
    config = indexes.config(ctx, "annoy")
    u = indexes.Under(ctx, "annoy", d, config)
    u.insert(gen.vectors(ctx, ctx.rng.choice([2, 10, 60]), d, "normal", "float64"), None)
    u.index.build()
    path = os.path.join(folder, "index")
    u.index.save(path)
    queries = [workload.query(ctx, u, "normal", "float64") for _ in range(3)]
    for point in range(20):
        w = indexes.Under(ctx, "annoy", d, config)
        with faults.hampered(folder, point) as plan:
            try:
                w.index.load(path)
            except ValoriIndexError:
                ctx.count("unreadable_refused")
                ctx.check(not w.index.get_stats().get("num_vectors"), "annoy: a load that was refused left vectors behind",
                          stats=w.index.get_stats())
                continue
        ctx.count("unreadable_loaded")
        w.model, w.built = u.model, True
        for q in queries:
            w.sound(q, w.index.search(q, 5), 5, "annoy: loaded while an access was refused")
        ctx.check(w.index.get_stats()["num_vectors"] == len(u.model), "annoy: an access was refused, and only a part is loaded")
        if not plan["struck"]:
            break
    ctx.event("unreadable", fmt, point, v.tolist(), repr(m), repr(config))


SCENARIOS = {"unreadable": (unreadable, 60, 800), "unreadable-files": (unreadable_files, 40, 600), "storage": (storage, 120, 3000), "persistence": (persistence, 120, 3000), "info": (info, 60, 1500), "states": (states, 60, 1500),
             "helpers": (helpers, 80, 2000), "annoy": (annoy, 80, 1500)}

"""F01: every ready-made configuration, template and factory gives a database that works."""

import contextlib
import io
import os
import sys
import types

import numpy as np

from vmon import gen, indexes, models, oracle, stores

LEVEL = "exploration"
QUICK = 2
RULE = (
    "every configuration that is listed, every template, every recommendation over sizes around the boundaries, and the "
    "factories for documents, texts, mixed documents and images (with recording stand-in models and libraries) are made "
    "with random settings and used: inserted vectors must be found, with their metadata, and deleted ones not; returned "
    "configurations are altered and asked for again; unknown names are refused; distinct by event hash"
)
REQUIRED = {"database": 250, "found": 1500, "config": 300, "pipeline": 6, "corpus": 60, "repeated": 15, "refused": 100}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def use(ctx, db, where, d=None, n=None):
    """Insert, find, delete through a database just made."""
    d = d or ctx.rng.randint(2, 12)
    n = n or ctx.rng.randint(1, 25)
    vectors = ctx.np.normal(size=(n, d))
    meta = [{"uid": i} for i in range(n)]
    ids = db.insert(vectors, meta)
    ctx.count("database")
    ctx.check(len(ids) == n == len(set(ids)), f"{where}: not one id per vector", ids=ids)
    annoy = hasattr(db.index, "build")
    if annoy:
        quiet(db.index.build)
    found = 0
    for i in range(n):
        results = db.search(vectors[i], k=1 if annoy else n)
        ctx.check(bool(results), f"{where}: a search finds nothing", k=1 if annoy else n)
        top = results[0]
        if annoy and top["metadata"]["uid"] != i:
            # single precision: nearly parallel vectors are equally good
            j = top["metadata"]["uid"]
            ctx.check(str(top["id"]) == ids[j] and oracle.distances("cosine", vectors[i], vectors[j:j + 1])[0] < 1e-6,
                      f"{where}: a vector is not the nearest to itself", id=ids[i], got=results[:2])
            continue
        ctx.check(str(top["id"]) == ids[i] and top["metadata"]["uid"] == i,
                  f"{where}: a vector is not the nearest to itself", id=ids[i], got=results[:2])
        found += 1
    ctx.count("found", found)
    gone = ctx.rng.sample(range(n), ctx.rng.randint(1, n))
    ctx.check(bool(db.delete([ids[i] for i in gone])), f"{where}: deletion failed")
    if annoy and len(gone) < n:
        quiet(db.index.build)
    if not annoy or len(gone) < n:
        for i in range(n):
            got = {str(r["id"]) for r in db.search(vectors[i], k=n)}
            ctx.check(not got & {ids[j] for j in gone}, f"{where}: a deleted vector is found", got=got)
            ctx.check(i in gone or ids[i] in got, f"{where}: a vector is lost after others are deleted", id=ids[i], got=got)
    stats = db.get_stats()
    ctx.check(set(stats) == {"storage", "index"}, f"{where}: the statistics lack a part", stats=stats)


def place(ctx, storage_type):
    if storage_type == "disk":
        return {"data_dir": ctx.scratch()}
    if storage_type == "hybrid":
        return {"memory": {}, "disk": {"data_dir": ctx.scratch()}, "memory_limit": ctx.rng.choice([0, 1, 100])}
    return {}


def kind_of(db):
    return next(k for k, c in indexes.classes().items() if type(db.index) is c)


def storage_of(db):
    from valori import storage

    names = {"memory": storage.MemoryStorage, "disk": storage.DiskStorage, "hybrid": storage.HybridStorage}
    return next(k for k, c in names.items() if type(db.storage_backend) is c)


def alike(ctx, index, kind, settings, where):
    """An index has the settings of one made directly with them."""
    plain = indexes.classes()[kind](dict(settings))
    from valori.storage import MemoryStorage

    empty = MemoryStorage({})
    empty.initialize()
    plain.initialize(empty)
    got, want = index.get_stats(), plain.get_stats()
    plain.close()
    ctx.check(got == want, "an index does not have the settings asked for", got=got, want=want, arguments=where)


def alike_storage(ctx, storage, settings, where):
    """A storage has the settings of one made directly with them."""
    plain = type(storage)(dict(settings))
    plain.initialize()
    got, want = storage.get_stats(), plain.get_stats()
    plain.close()
    ctx.check(got == want, "a storage does not have the settings asked for", got=got, want=want, arguments=where)


def created(ctx):
    from valori import create_vector_db

    stype = ctx.rng.choice(stores.KINDS)
    kw = {"storage_type": stype, "storage_config": place(ctx, stype)}
    if stype == "memory" and ctx.rng.random() < 0.5:
        kw = {}
    if ctx.rng.random() < 0.6:
        kind = kw["index_type"] = ctx.rng.choice(indexes.KINDS)
        if ctx.rng.random() < 0.6:
            conf = indexes.config(ctx, kind, metric=indexes.METRICS[kind][0])
            if kind == "lsh":
                conf["threshold"] = 0.0
            kw["index_config"] = conf
        if ctx.rng.random() < 0.5:  # the expected size does not matter to an index asked for by name
            kw["num_vectors"] = ctx.rng.choice([1, 5000, 500000, 10 ** 7])
            kw["dimension"] = ctx.rng.choice([8, 2000])
            kw["use_case"] = ctx.rng.choice(["speed", "accuracy", "memory", "balanced"])
        settings = kw.get("index_config", {})
    else:
        kw["num_vectors"] = n = ctx.rng.choice([None, 0, 999, 1000, 99999, 100000, 10 ** 7])
        kw["dimension"] = dim = ctx.rng.choice([None, 8, 1000, 1001])
        case = ctx.rng.choice([None, "speed", "accuracy", "memory", "balanced"])
        if case:
            kw["use_case"] = case
        n, dim = n or 0, dim or 0
        kind = ("flat" if n < 1000 else ("hnsw" if case == "accuracy" else "annoy") if n < 100000
                else "lsh" if dim > 1000 else "ivf")
        from valori.utils.helpers import get_recommended_index_config

        settings = get_recommended_index_config(n, dim, case or "balanced")["config"]
    keep = gen.snapshot(kw)
    db = create_vector_db(**kw)
    ctx.event("create", kind, kw)
    ctx.check(kind_of(db) == kind, "another index was made", got=kind_of(db), want=kind, arguments=kw)
    ctx.check(storage_of(db) == kw.get("storage_type", "memory"), "another storage was made", got=storage_of(db), arguments=kw)
    ctx.check(gen.same(kw, keep), "the caller's settings were altered", before=keep, after=kw)
    alike(ctx, db.index, kind, settings, kw)
    alike_storage(ctx, db.storage_backend, kw.get("storage_config", {}), kw)
    if "index_config" in kw:
        ctx.check(db.index.metric == kw["index_config"]["metric"], "the index does not have the metric asked for", arguments=kw)
    use(ctx, db, f"{kind} over {kw.get('storage_type', 'memory')}")
    db.close()


def templates(ctx):
    from valori import create_from_template
    from valori.factory import TEMPLATES

    names = sorted(TEMPLATES)
    name = names[ctx.index % len(names)]
    keep = gen.snapshot(TEMPLATES)
    over = {}
    if ctx.rng.random() < 0.5 or TEMPLATES[name]["storage_type"] != "memory":
        over["storage_type"] = ctx.rng.choice(stores.KINDS)
        over["storage_config"] = place(ctx, over["storage_type"])
    if ctx.rng.random() < 0.3:
        over["index_type"] = ctx.rng.choice(["flat", "hnsw"])
        over["index_config"] = {"metric": "cosine"}
    db = create_from_template(name, **over)
    ctx.event("template", name, over)
    want = {**TEMPLATES[name], **over}
    ctx.check(kind_of(db) == want["index_type"] and storage_of(db) == want["storage_type"],
              f"template {name}: another index or storage was made", got=(kind_of(db), storage_of(db)), want=want)
    for key in ("metric", "num_trees", "n_clusters", "n_probes", "num_hash_tables", "hash_size", "threshold", "ef_search"):
        value = want.get("index_config", {}).get(key)
        if value is not None:
            ctx.check(getattr(db.index, key, value) == value, f"template {name}: {key} is not what it says",
                      got=getattr(db.index, key), want=value)
    alike(ctx, db.index, want["index_type"], want.get("index_config", {}), name)
    if "storage_config" in over:
        alike_storage(ctx, db.storage_backend, over["storage_config"], name)
    use(ctx, db, f"template {name}")
    # what one database changes is not in the next
    db.index.config["metric"] = "broken"
    ctx.check(gen.same(TEMPLATES, keep), f"template {name}: using it changed the template")
    db.close()
    ctx.raises(ValueError, lambda: create_from_template(ctx.rng.choice(["", "x", name.upper()])), "an unknown template is taken")
    ctx.count("refused")


def listed():
    from valori.configs import list_configs

    out = []
    for category, names in list_configs().items():
        if category == "index":
            out += [(category, n) for group in names.values() for n in group]
        else:
            out += [(category, n) for n in names]
    return out


def configurations(ctx):
    from valori import configs, create_vector_db

    every = listed()
    for category in ("index", "storage", "document", "embedding", "application", "performance"):
        one = configs.list_configs(category)
        flat = [n for group in one.values() for n in group]
        ctx.check(flat == [n for c, n in every if c == category] and flat, "the lists of configurations differ",
                  category=category, got=one)
    first = {key: configs.get_config(*key) for key in every}
    keep = gen.snapshot(first)
    for key in every:
        ctx.count("config")
        gen.scribble(ctx, first[key])
        ctx.check(gen.same(configs.get_config(*key), keep[key]), "altering a returned configuration alters the original",
                  name=key, got=configs.get_config(*key), want=keep[key])
    category, name = every[ctx.index % len(every)]
    conf = configs.get_config(category, name)
    ctx.event("config", category, name, conf)
    if category == "index":
        kind = name.split("_")[0]
        db = create_vector_db(index_type=kind, index_config=conf)
        alike(ctx, db.index, kind, conf, name)
        use(ctx, db, f"configuration {name}")
    elif category == "storage":
        settings = dict(conf["config"])
        if conf["type"] != "memory":
            settings = place(ctx, conf["type"])
        use(ctx, create_vector_db(storage_type=conf["type"], storage_config=settings), f"configuration {name}")
    elif category == "document":
        pipeline(ctx, conf, f"configuration {name}")
    for bad in [("index", "none"), ("storage", "memory"), ("none", "flat"), ("embedding", ""), ("", "")]:
        ctx.raises(ValueError, lambda: configs.get_config(*bad), "an unknown configuration is found", name=bad)
        ctx.count("refused")
    ctx.raises(ValueError, lambda: configs.list_configs("none"), "an unknown category is listed")


def pipeline(ctx, conf, where):
    from valori.processors import ProcessingPipeline

    model = models.Model(5)
    folder = ctx.scratch()
    path = os.path.join(folder, "a.txt")
    text = "Vector search finds what is near. " * ctx.rng.randint(8, 120)
    with open(path, "w") as f:
        f.write(text)
    with models.installed("sentence_transformers", model):
        p = ProcessingPipeline(conf)
        p.initialize()
        out = p.process_text(text)
        ctx.count("pipeline")
        ctx.check(len(out["embedding"]) == model.d and out["chunks"]
                  and [len(e) for e in out["chunk_embeddings"]] == [model.d] * len(out["chunks"]),
                  f"{where}: a processed text has no chunks or embeddings", out=out)
        model_name = conf["processors"]["embedding"]["model_name"]
        ctx.check(model.name == model_name, f"{where}: another model is used", got=model.name, want=model_name)
        p.close()
    return out


def recommended(ctx):
    from valori import create_vector_db
    from valori.configs import get_recommended_config
    from valori.utils.helpers import get_recommended_index_config

    n = ctx.rng.choice([0, 1, 999, 1000, 1001, 50000, 99999, 100000, 10 ** 6, ctx.rng.randint(0, 10 ** 6)])
    d = ctx.rng.choice([1, 128, 384, 385, 768, 769, 1000, 1001, 4096])
    case = ctx.rng.choice(["speed", "accuracy", "memory", "balanced"])
    stype = ctx.rng.choice(stores.KINDS)
    conf = get_recommended_config(n, d, case, stype)
    ctx.event("recommended", n, d, case, stype)
    ctx.check(set(conf) >= {"index", "storage", "embedding", "metadata"}, "a part of the recommendation is missing", got=conf)
    ctx.check(conf["storage"]["type"] == stype, "another storage is recommended than asked for", got=conf["storage"], want=stype)
    meta = conf["metadata"]
    ctx.check((meta["num_vectors"], meta["dimension"], meta["use_case"], meta["storage_type"]) == (n, d, case, stype),
              "the recommendation is for something else", got=meta)
    if n < 1000:
        ctx.check(conf["index"]["type"] == "flat", "small sets are not searched exactly", got=conf["index"])
    gen.scribble(ctx, conf)
    conf = get_recommended_config(n, d, case, stype)
    for c in (conf["index"], get_recommended_index_config(n, d, case)):
        ctx.check(n >= 1000 or c["type"] == "flat", "small sets are not searched exactly", got=c)
        db = create_vector_db(index_type=c["type"], index_config=c["config"], storage_type=stype, storage_config=place(ctx, stype))
        use(ctx, db, f"recommended {c['type']}", n=ctx.rng.randint(1, 8))
        db.close()


def corpora(ctx):
    from valori import create_document_db, create_hybrid_search_db, create_semantic_search_db

    model = models.Model(ctx.rng.randint(3, 10))
    n = ctx.rng.randint(1, 12)
    texts = [f"text {i} {ctx.rng.choice(['of search', 'naïve 日本', 'x' * 50])}" for i in range(n)]
    if n > 1 and ctx.rng.random() < 0.4:
        # the same text again, with other data beside it
        texts[ctx.rng.randrange(n)] = ctx.rng.choice(texts)
        ctx.count("repeated")
    name = ctx.rng.choice(["m1", "org/m2"])
    which = ctx.rng.choice(["semantic", "hybrid", "document"])
    stype = ctx.rng.choice(stores.KINDS)
    kw = {"storage_type": stype, "storage_config": place(ctx, stype)} if ctx.rng.random() < 0.5 else {}
    ctx.event(which, texts, kw.get("storage_type"))
    ctx.count("corpus")
    with models.installed("sentence_transformers", model):
        if which == "document":
            size = ctx.rng.choice([50, 200, 1000])
            kind = ctx.rng.choice(["annoy", "hnsw", "flat", "ivf"])
            if ctx.rng.random() < 0.3 and kind != "annoy":
                kw["index_config"] = {"metric": "euclidean"}
            db, p = create_document_db(name, size, ctx.rng.choice([0, size // 10]), kind, **kw)
            ctx.check(kind_of(db) == kind, "another index was made", got=kind_of(db), want=kind)
            if "storage_type" in kw:
                # where the records go is nothing to the index
                plain, q = create_document_db(name, size, 0, kind, **{k: v for k, v in kw.items() if k == "index_config"})
                ctx.check(db.index.get_stats() == plain.index.get_stats(), "the index has other settings over another storage",
                          got=db.index.get_stats(), want=plain.index.get_stats(), arguments=kw)
                ctx.count("beside")
                plain.close()
                q.close()
            if "index_config" in kw:
                ctx.check(db.index.metric == "euclidean", "the index configuration given is not used")
            out = p.process_text(" ".join(texts) * 12)
            ctx.check(all(len(c["text"]) <= max(size, 2000) for c in out["chunks"]), "chunks are larger than asked for")
            vectors = np.array(out["chunk_embeddings"])
            ids = db.insert(vectors, [{"text": c["text"]} for c in out["chunks"]])
            if kind == "annoy":
                db.index.build()
            for c, e in zip(out["chunks"], vectors):
                got = db.search(e, k=1)
                ctx.check(bool(got) and got[0]["metadata"]["text"] == c["text"], "a chunk is not found by its embedding",
                          chunk=c["text"], got=got)
                ctx.count("found")
            p.close()
        else:
            if which == "semantic":
                kind = ctx.rng.choice(["annoy", "hnsw", "flat", "ivf"])
                given = list(texts)
                db = quiet(create_semantic_search_db, texts, name, kind, **kw)
                extra = [{} for _ in texts]
                ctx.check(texts == given and kind_of(db) == kind, "another index was made, or the texts were altered")
            else:
                docs = [{"text": t, "lang": ctx.rng.choice(["en", "de"]), "n": i} for i, t in enumerate(texts)]
                given = gen.snapshot(docs)
                db = quiet(create_hybrid_search_db, docs, name, **kw)
                ctx.check(docs == given, "the caller's documents were altered")
                extra = [{"lang": x["lang"], "n": x["n"], "doc_id": i} for i, x in enumerate(given)]
            ctx.check(model.name == name, "another model is used", got=model.name)
            for t, e in zip(texts, extra):
                got = db.search(model.of(t).astype(np.float32), k=1)
                ctx.check(bool(got) and got[0]["metadata"]["text"] == t and
                          (texts.count(t) > 1 or gen.same({**got[0]["metadata"], **e}, got[0]["metadata"])),
                          f"{which}: a text is not the best match for itself", text=t, got=got, want=e)
                ctx.count("found")
            everything = [r["metadata"] for r in db.search(model.of(texts[0]), k=n + 5)]
            ctx.check(len(everything) == n, f"{which}: not every text is in the database")
            ctx.check(sorted([m["text"], *(m[x] for x in sorted(e))] for m in everything) ==
                      sorted([t, *(e[x] for x in sorted(e))] for t, e in zip(texts, extra)),
                      f"{which}: the texts and what was said of them are not in the database, each once", got=everything, want=(texts, extra))
        db.close()


@contextlib.contextmanager
def vision(d):
    """Stand-ins for the image libraries: an image is the text in its file."""
    def of(content):
        return models.Model(d).of(content)

    class Features:
        def __init__(self, a):
            self.a = np.asarray(a, dtype=np.float32)

        def norm(self, dim=-1, keepdim=True):
            return np.linalg.norm(self.a, axis=-1, keepdims=True)

        def __truediv__(self, n):
            return Features(self.a / n)

        def cpu(self):
            return self

        def numpy(self):
            return self.a

    class Input:
        def __init__(self, content):
            self.content = content

        def unsqueeze(self, n):
            return self

        def to(self, device):
            return self

    torch = types.ModuleType("torch")
    torch.cuda = types.SimpleNamespace(is_available=lambda: False)
    torch.no_grad = contextlib.nullcontext
    clip = types.ModuleType("clip")
    clip.load = lambda name, device=None: (
        types.SimpleNamespace(encode_image=lambda i: Features(of(i.content)[None])), lambda image: Input(image))
    pil = types.ModuleType("PIL")
    image = types.ModuleType("PIL.Image")

    def read(path):
        with open(path) as f:
            content = f.read()
        if not content:
            raise OSError("cannot identify image file")
        return content

    image.open = read
    pil.Image = image
    names = {"torch": torch, "clip": clip, "PIL": pil, "PIL.Image": image}
    saved = {k: sys.modules.get(k) for k in names}
    sys.modules.update(names)
    try:
        yield of
    finally:
        for k, old in saved.items():
            if old is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = old


def images(ctx):
    from valori import create_image_search_db

    folder = ctx.scratch()
    paths, good = [], []
    for i in range(ctx.rng.randint(1, 9)):
        p = os.path.join(folder, f"{i}.png")
        r = ctx.rng.random() if i else 1.0
        if r > 0.1:
            with open(p, "w") as f:
                f.write(f"image {i}" if r > 0.25 else "")
        if r > 0.25:
            good.append((i, p))
        paths.append(p)
    kind = ctx.rng.choice(["hnsw", "flat", "annoy"])
    ctx.count("corpus")
    ctx.event("images", len(paths), [i for i, _ in good], kind)
    with vision(ctx.rng.randint(3, 8)) as of:
        db = quiet(create_image_search_db, paths, "clip", kind)
        for i, p in good:
            got = db.search(models.unit(of(f"image {i}"), True), k=1)
            ctx.check(bool(got) and got[0]["metadata"] == {"image_path": p, "image_id": i, "extractor": "clip"},
                      "an image is not found by its features", path=p, got=got)
            ctx.count("found")
        ctx.check(len(db.search(models.unit(of("image 0"), True), k=50)) == len(good), "not every readable image is in the database")
        ctx.raises(ValueError, lambda: create_image_search_db(paths, "resnet50"), "an unknown feature extractor is taken")


def unknown(ctx):
    from valori import create_vector_db

    for kw in [{"index_type": "x"}, {"index_type": "Flat"}, {"storage_type": "x"}, {"storage_type": ""},
               {"index_type": "flat", "storage_type": "ram"}]:
        ctx.raises(ValueError, lambda: create_vector_db(**kw), "an unknown kind is taken", arguments=kw)
        ctx.count("refused")
    ctx.event("unknown")


SCENARIOS = {"create": (created, 120, 1500), "template": (templates, 60, 400), "config": (configurations, 60, 300),
             "recommended": (recommended, 60, 600), "corpora": (corpora, 80, 800), "images": (images, 30, 200),
             "unknown": (unknown, 4, 10)}

"""L01: a component works only between its initialization and its end, and refuses everything else."""

import os

import numpy as np

from vmon import documents, faults, gen, indexes, models, persist, stores

LEVEL = "exploration"
QUICK = 3
RULE = (
    "random lives of every component (three storages, five indexes, three quantizers, two persistence managers, parsers, "
    "registry, processors, pipeline, client): initializations (repeated, failing, refused at the n-th access, and repaired ones), closings (repeated "
    "ones too) and every operation with usable arguments in between; an operation must work when the model says the "
    "component is open, and raise the package's error of that component, changing nothing, when it is not; distinct by "
    "event hash"
)
REQUIRED = {"refused": 3000, "worked": 3000, "open": 600, "close": 600, "failed_open": 100, "unopened_stats": 200, "failed_again": 50,
            "hampered_open": 40}


class Component:
    """One component: `make()`, its error class, and operations {name: function(object)}."""

    def __init__(self, name, made, error, ops, open=None, silent=False, fails=None):
        self.name, self.made, self.error, self.ops = name, made, error, ops
        self.open = open or (lambda o: o.initialize())
        self.silent = silent  # has statistics that say so when it is not open
        self.fails = fails  # (break, repair) of what initialization needs
        self.folder = None


def storage(ctx, E):
    kind = ctx.rng.choice(stores.KINDS)
    folder = os.path.join(ctx.scratch(), "data")
    v = np.arange(4.0)

    fails = None
    if kind != "memory":
        fails = (lambda: _block(folder), lambda: _unblock(folder))
    return _in(folder, Component(kind, stores.make(kind, folder, ctx.rng.choice([None, 0, 1, 5])), E.StorageError, {
        "store_vector": lambda s: s.store_vector(ctx.rng.choice("ab"), v, {"n": 1}),
        "retrieve_vector": lambda s: s.retrieve_vector(ctx.rng.choice("ab")),
        "update_vector": lambda s: s.update_vector(ctx.rng.choice("ab"), v, None),
        "delete_vector": lambda s: s.delete_vector(ctx.rng.choice("ab")),
        "list_vectors": lambda s: s.list_vectors(ctx.rng.choice([None, 0, 3])),
    }, silent=True, fails=fails))


def _files(folder):
    out = {}
    if folder:
        for at, _, names in os.walk(folder):
            for n in names:
                with open(os.path.join(at, n), "rb") as f:
                    out[os.path.join(at, n)] = f.read()
    return out


def _in(folder, component):
    component.folder = folder
    return component


def _block(folder):
    """Put a file where the folder should be."""
    if os.path.isdir(folder):
        os.rename(folder, folder + ".away")
    with open(folder, "w") as f:
        f.write("in the way")


def _unblock(folder):
    os.remove(folder)
    if os.path.isdir(folder + ".away"):
        os.rename(folder + ".away", folder)


def index(ctx, E):
    kind = ctx.rng.choice(indexes.KINDS)
    backing = stores.opened(ctx, "memory")
    ids = []

    def insert(x):
        n = ctx.rng.choice([1, 3])
        got = x.insert(ctx.np.normal(size=(n, 3)), [{"n": j} for j in range(n)])
        ids.extend(got)

    def search(x):
        if kind == "annoy" and x.is_initialized() and ids:
            x.build()
        elif kind == "annoy" and x.is_initialized():
            insert(x)
            x.build()
        return x.search(np.ones(3), ctx.rng.choice([1, 5]))

    def update(x):
        if not x.is_initialized() or not ids:
            if kind == "annoy" and x.is_initialized():
                return None
            return x.update("0", np.ones(3), {"u": 1})
        return x.update(ctx.rng.choice(ids), np.ones(3), {"u": 1})

    def delete(x):
        if x.is_initialized() and ids:
            return x.delete([ids.pop()])
        return x.delete(["0"])

    ops = {"insert": insert, "search": search, "update": update, "delete": delete}
    if kind in ("lsh", "annoy"):
        ops["add"] = lambda x: ids.extend(str(i) for i in x.add(ctx.np.normal(size=(2, 3)), [{}, {}]))
        # an unopened one has nothing to remove: the model asks only for the refusal
        ops["remove"] = lambda x: x.remove([]) if x.is_initialized() else x.remove([0])
    if kind == "annoy":
        ops["save"] = lambda x: _save(ctx, x, insert)
    cfg = indexes.config(ctx, kind)

    def opened(x):
        x.initialize(backing)
        ids[:] = []
        if kind not in ("lsh", "annoy"):
            ids.extend(backing.list_vectors())
        elif kind == "lsh":
            ids.clear()
            x.clear()
        else:
            x.clear()

    fails = None
    if kind in indexes.BACKED:
        # a storage that is not open, or that breaks off in the middle
        broken = ctx.rng.choice(["closed", "list", "retrieve"])
        if broken == "closed":
            fails = (backing.close, backing.initialize)
        elif broken == "list" or kind != "hnsw":
            fails = _breaking(backing, "list_vectors")
        else:
            def stop():
                backing.store_vector("there", np.ones(3), {})
                setattr(backing, "retrieve_vector", _broken)

            fails = (stop, lambda: delattr(backing, "retrieve_vector"))
    return Component(kind, indexes.classes()[kind](cfg), E.ValoriIndexError, ops, open=opened,
                     silent=kind not in ("lsh", "annoy"), fails=fails)


def _broken(*_, **__):
    raise OSError(5, "Input/output error")


def _breaking(thing, name):
    return lambda: setattr(thing, name, _broken), lambda: delattr(thing, name)


def _save(ctx, x, insert):
    path = os.path.join(ctx.scratch(), "saved")
    if x.is_initialized():
        insert(x)
        x.build()
    x.save(path)


def quantizer(ctx, E):
    from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer

    kind = ctx.rng.choice(["scalar", "product", "saq"])
    cls, cfg = {"scalar": (ScalarQuantizer, {"bits": 8}), "product": (ProductQuantizer, {"m": 2, "k": 4}),
                "saq": (SAQQuantizer, {"total_bits": 8, "n_segments": 2})}[kind]
    trained = {"on": False}
    data = ctx.np.normal(size=(12, 4))

    def train(q):
        q.train(data)
        trained["on"] = True

    def need(q):
        if not trained["on"] and q.get_stats().get("status") != "not_initialized":
            train(q)

    def opened(q):
        q.initialize()
        trained["on"] = False

    def dequantize(q):
        need(q)
        codes = q.quantize(data[:2]) if trained["on"] else np.zeros((2, 4), dtype=np.uint8)
        return q.dequantize(codes)

    def quantize(q):
        need(q)
        return q.quantize(data[:3])

    def distance(q):
        need(q)
        codes = q.quantize(data[:1])[0] if trained["on"] else np.zeros(4, dtype=np.uint8)
        return q.compute_distance(data[0], codes)

    c = Component(kind, cls(cfg), E.QuantizationError, {
        "train": train, "quantize": quantize, "dequantize": dequantize, "compute_distance": distance,
    }, open=opened, silent=True)
    c.closed = lambda: trained.update(on=False)
    return c


def persistence(ctx, E):
    kind = ctx.rng.choice(persist.KINDS)
    folder = os.path.join(ctx.scratch(), "data")
    from valori.persistence import IncrementalPersistence, TensorPersistence

    cls = {"tensor": TensorPersistence, "incremental": IncrementalPersistence}[kind]
    v = np.arange(6.0).reshape(3, 2)
    return _in(folder, Component(kind, cls({"data_dir": folder, **persist.config(ctx, kind)}), E.PersistenceError, {
        "save_state": lambda p: p.save_state({"a": 1}, "s"),
        "load_state": lambda p: p.load_state(ctx.rng.choice(["s", "none"])),
        "save_vectors": lambda p: p.save_vectors(v, ["a", "b", "c"], "v"),
        "load_vectors": lambda p: p.load_vectors(ctx.rng.choice(["v", "none"])),
        "save_index": lambda p: p.save_index({"i": 2}, "i"),
        "load_index": lambda p: p.load_index(ctx.rng.choice(["i", "none"])),
    }, silent=True, fails=(lambda: _block(folder), lambda: _unblock(folder))))


def parser(ctx, E):
    from valori.parsers import OfficeParser, PDFParser, TextParser

    kind = ctx.rng.choice(["text", "office", "pdf"])
    path = os.path.join(ctx.scratch(), {"text": "a.txt", "office": "a.docx", "pdf": "a.pdf"}[kind])
    if kind == "text":
        with open(path, "w") as f:
            f.write("some words in a file")
    elif kind == "office":
        documents.docx(ctx, path)
    else:
        documents.pdf(ctx, path)
    cls = {"text": TextParser, "office": OfficeParser, "pdf": PDFParser}[kind]
    return Component(kind + " parser", cls({}), E.ParsingError, {"parse": lambda p: p.parse(path)})


def registry(ctx, E):
    from valori.parsers import ParserRegistry

    path = os.path.join(ctx.scratch(), "a.txt")
    with open(path, "w") as f:
        f.write("some words in a file")
    return Component("registry", ParserRegistry({"parsers": {"text": {}}}), E.ParsingError, {
        "get_parser": lambda r: r.get_parser(path),
        "get_parser by name": lambda r: r.get_parser(path, "text"),
        "parse_document": lambda r: r.parse_document(path),
    })


def processor(ctx, E):
    from valori.processors import CleaningProcessor, ChunkingProcessor, EmbeddingProcessor

    kind = ctx.rng.choice(["cleaning", "chunking", "embedding"])
    cls, cfg = {"cleaning": (CleaningProcessor, {}), "chunking": (ChunkingProcessor, {"chunk_size": 20, "chunk_overlap": 2}),
                "embedding": (EmbeddingProcessor, {"model_type": "sentence_transformers", "model_name": "m"})}[kind]
    ops = {"process": lambda p: p.process({"text": "some words to process", "metadata": {}})}
    if kind == "embedding":
        ops["batch_process"] = lambda p: p.batch_process(["a", "b"])
    made = cls(dict(cfg))
    fails = None
    if kind == "chunking":
        name, bad = ctx.rng.choice([("chunk_size", 0), ("chunk_size", -3), ("chunk_overlap", -1), ("chunk_overlap", 20),
                                    ("chunk_overlap", 50)])
        fails = _setting(made, name, bad)
        if ctx.rng.random() < 0.3:
            cfg["strategy"] = ctx.rng.choice(["semantic", "sliding_window"])
    elif kind == "embedding":
        fails = _setting(made, "model_type", "none such")
    return Component(kind, made, E.ProcessingError, ops, fails=fails)


def _setting(thing, name, bad):
    good = getattr(thing, name)
    return lambda: setattr(thing, name, bad), lambda: setattr(thing, name, good)


def pipeline(ctx, E):
    from valori.processors import ProcessingPipeline

    path = os.path.join(ctx.scratch(), "a.txt")
    with open(path, "w") as f:
        f.write("some words in a file")
    made = ProcessingPipeline({"parsers": {"text": {}}, "processors": {
        "cleaning": {"enabled": True}, "chunking": {"enabled": ctx.rng.random() < 0.5, "chunk_size": 30, "chunk_overlap": 5}}})
    bad = ctx.rng.choice([("chunking", {"chunk_size": 5, "chunk_overlap": 5}), ("embedding", {"model_type": "none such"})])
    kept = dict(made.config["processors"])

    def broken():
        made.config["processors"][bad[0]] = bad[1]

    def repaired():
        made.config["processors"] = dict(kept)

    def whole(name, result):
        for one in result if isinstance(result, list) else [result]:
            ctx.check("error" in one or one["pipeline_metadata"]["processors_used"] == ["CleaningProcessor", "ChunkingProcessor"]
                      and "chunks" in one, "pipeline: after a failed initialization it works with some of its processors",
                      result=one)

    c = Component("pipeline", made, E.ProcessingError, {
        "process_document": lambda p: p.process_document(path),
        "process_text": lambda p: p.process_text("some words"),
        "batch_process_documents": lambda p: p.batch_process_documents([path]),
    }, fails=(broken, repaired))
    c.whole = whole
    return c


def client(ctx, E):
    from valori import VectorDBClient
    from valori.persistence import TensorPersistence
    from valori.quantization import ScalarQuantizer

    kind = ctx.rng.choice(indexes.KINDS)
    folder = os.path.join(ctx.scratch(), "data")
    home = stores.make(ctx.rng.choice(["disk", "hybrid"]), folder)
    c = VectorDBClient(home, indexes.classes()[kind](indexes.config(ctx, kind)),
                       ScalarQuantizer({"bits": 8}) if ctx.rng.random() < 0.5 else None,
                       TensorPersistence({"data_dir": os.path.join(ctx.scratch(), "p")}) if ctx.rng.random() < 0.5 else None)
    ids = []

    def search(x):
        if kind == "annoy":
            try:
                x.index.insert(np.ones((1, 3)), [{}])
                x.index.build()
            except E.ValoriIndexError:
                pass
        return x.search(np.ones(3), 2)

    def update(x):
        if ids:
            return x.update(ctx.rng.choice(ids), np.zeros(3) + 2, {})
        return None if kind == "annoy" and opened["on"] else x.update("0", np.ones(3))

    opened = {"on": False}

    def start(x):
        x.initialize()
        opened["on"] = True
        ids[:] = []
        if kind in ("lsh", "annoy"):
            x.index.clear()

    comp = Component(f"client over {kind}", c, E.ValoriError, {
        "insert": lambda x: ids.extend(x.insert(np.ones((1, 3)), [{}])),
        "search": search,
        "update": update,
        "delete": lambda x: x.delete([ids.pop() if ids else "0"]),
        "get_stats": lambda x: x.get_stats(),
    }, open=start, fails=ctx.rng.choice(
        [(lambda: _block(folder), lambda: _unblock(folder))]
        # or a later part, when those before it are open already
        + [_breaking(part, "initialize") for part in (c.index, c.quantizer, c.persistence_manager) if part]))

    def closed():
        opened["on"] = False
        if c.quantizer:
            ctx.raises(E.QuantizationError, lambda: c.quantizer.train(np.ones((4, 3))),
                       "client: the quantizer of a closed client still works")
        if c.persistence_manager:
            ctx.raises(E.PersistenceError, lambda: c.persistence_manager.load_state("a"),
                       "client: the persistence of a closed client still works")
        # the parts of a closed client are closed as well
        ctx.raises(E.StorageError, lambda: home.list_vectors(), "client: the storage of a closed client still works")
        ctx.raises(E.ValoriIndexError, lambda: c.index.search(np.ones(3), 1), "client: the index of a closed client still works")

    comp.closed = closed
    return _in(folder, comp)


def life(ctx, make):
    from valori import exceptions as E

    with models.installed("sentence_transformers", models.Model(4)):
        c = make(ctx, E)
        _life(ctx, c, E)


def _life(ctx, c, E):
    is_open = False
    o = c.made
    for step in range(ctx.rng.randint(6, 22)):
        r = ctx.rng.random()
        where = f"{c.name}: {'open' if is_open else 'not open'}"
        if r < 0.12:
            c.open(o)
            is_open = True
            ctx.event("open", c.name)
        elif r < 0.24:
            o.close()
            if is_open and hasattr(c, "closed"):
                c.closed()
            is_open = False
            ctx.event("close", c.name)
        elif r < 0.27 and c.fails and is_open:
            # It may stay as it was or count as not initialized: nothing in between
            c.fails[0]()
            ctx.raises(c.error, lambda: c.open(o), f"{c.name}: initialization again that cannot succeed")
            c.fails[1]()
            for name in ctx.rng.sample(sorted(c.ops), 2 if len(c.ops) > 1 else 1):
                try:
                    result = c.ops[name](o)
                except c.error:
                    continue
                if hasattr(c, "whole"):
                    c.whole(name, result)
            o.close()
            if hasattr(c, "closed"):
                c.closed()
            is_open = False
            ctx.event("failed_again", c.name)
        elif r < 0.3 and c.fails and not is_open:
            c.fails[0]()
            ctx.raises(c.error, lambda: c.open(o), f"{c.name}: initialization that cannot succeed")
            name = ctx.rng.choice(list(c.ops))
            ctx.raises(c.error, lambda: c.ops[name](o), f"{c.name}: {name} after a failed initialization")
            if ctx.rng.random() < 0.5:
                o.close()
                if hasattr(c, "closed"):
                    c.closed()
            c.fails[1]()
            if ctx.rng.random() < 0.5:
                ctx.raises(c.error, lambda: c.ops[name](o), f"{c.name}: {name} after a failed initialization, the cause repaired")
            ctx.event("failed_open", c.name)
        elif r < 0.34 and c.folder:
            # the n-th access to its files fails while it is initialized
            was = is_open
            with faults.hampered(c.folder, ctx.rng.randrange(6)) as plan:
                try:
                    c.open(o)
                    is_open = True
                except c.error:
                    is_open = False
            ctx.event("hampered", c.name, plan["struck"], is_open)
            if is_open:
                continue
            ctx.count("hampered_open")
            name = ctx.rng.choice(list(c.ops))
            if was:
                try:
                    c.ops[name](o)
                except c.error:
                    pass
                o.close()
                if hasattr(c, "closed"):
                    c.closed()
            else:
                ctx.raises(c.error, lambda: c.ops[name](o), f"{c.name}: {name} after an initialization that failed half-way")
        elif r < 0.36 and c.silent:
            stats = o.get_stats()
            if is_open:
                ctx.check(stats.get("status") != "not_initialized", f"{where}: statistics say it is not initialized",
                          stats=stats)
            else:
                ctx.check(stats == {"status": "not_initialized"}, f"{where}: statistics do not say so", stats=stats)
                ctx.event("unopened_stats", c.name)
        else:
            name = ctx.rng.choice(list(c.ops))
            if is_open:
                try:
                    c.ops[name](o)
                except c.error as e:
                    ctx.check("nitialized" not in str(e), f"{where}: {name} is refused as not initialized", error=e)
                    raise
                ctx.event("worked", c.name, name)
            else:
                before = _files(c.folder)
                ctx.raises(c.error, lambda: c.ops[name](o), f"{where}: {name}")
                ctx.check(_files(c.folder) == before, f"{where}: {name} was refused but changed files")
                ctx.event("refused", c.name, name)
        ctx.state(c.name, is_open)


def some(*makers):
    return lambda ctx: life(ctx, ctx.rng.choice(makers))


SCENARIOS = {
    "storage": (some(storage), 250, 2500),
    "index": (some(index), 400, 4000),
    "quantizer": (some(quantizer), 200, 2000),
    "persistence": (some(persistence), 200, 2000),
    "documents": (some(parser, registry, processor, pipeline), 300, 3000),
    "client": (some(client), 250, 2500),
}

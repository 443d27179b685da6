"""U03: the validators accept exactly what they describe, and raise nothing but their own error."""

import json

import numpy as np

from vmon import gen

LEVEL = "exploration"
QUICK = 12
RULE = (
    "values and constraints are built together so that the oracle knows whether they fit: vectors and batches of every "
    "kind of dtype, shape and special value, configurations against required and allowed keys, types and ranges, "
    "metrics, k, ids, lists of ids and metadata; the validator must answer True or raise ValidationError accordingly, "
    "and leave its arguments alone; distinct by event hash"
)
REQUIRED = {"accepted": 3000, "rejected": 3000}
METRICS = ["cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"]


def judge(ctx, name, args, kw, ok):
    from valori.exceptions import ValidationError
    from valori.utils import validation

    f = getattr(validation, name)
    before = gen.snapshot((args, kw))
    ctx.event(name, ok, args, kw)
    if ok:
        ctx.count("accepted")
        try:
            got = f(*args, **kw)
        except ValidationError as e:
            ctx.check(False, f"{name} rejects what fits", args=args, constraints=kw, error=e)
        ctx.check(got is True, f"{name} does not answer True", got=got)
    else:
        ctx.count("rejected")
        ctx.raises(ValidationError, lambda: f(*args, **kw), f"{name} takes what does not fit", args=args, constraints=kw)
    if not any(isinstance(x, set) for x in args):
        ctx.check(repr(before) == repr((args, kw)), f"{name} altered its arguments", before=before, after=(args, kw))


def constraints(ctx, d, dtype):
    kw, ok = {}, True
    r = ctx.rng.random
    if r() < 0.3:
        kw["min_dim"] = max(0, d + ctx.rng.choice([-1, 0, 0, 1]))
        ok &= d >= kw["min_dim"]
    if r() < 0.3:
        kw["max_dim"] = max(0, d + ctx.rng.choice([-1, 0, 0, 1]))
        ok &= d <= kw["max_dim"]
    if r() < 0.3:
        want = np.dtype(ctx.rng.choice([dtype, dtype, "float32", "float64"]))
        if ctx.rng.random() < 0.2:
            want = want.newbyteorder()
        ok &= np.dtype(dtype) == want
        kw["dtype"] = ctx.rng.choice([want, want, want.str] + ([want.type] if want.isnative else []))
    return kw, ok


def vectors(ctx):
    for _ in range(10):
        batch = ctx.rng.random() < 0.5
        name = "validate_vectors" if batch else "validate_vector"
        d, n = gen.dim(ctx, 1, 12), ctx.rng.randint(1, 6)
        dtype = ctx.rng.choice(gen.DTYPES + ["bool", "complex128"])
        v = gen.vectors(ctx, n, d, "normal", "float64" if dtype in ("bool", "complex128") else dtype).astype(dtype)
        if v.dtype.kind in "fc" and ctx.rng.random() < 0.15:
            # as large as this type can hold: finite, though nothing can be added to it
            v[...] = np.finfo(v.dtype).max * ctx.rng.choice([1, -1, 0.9])
        elif v.dtype.kind in "fc" and ctx.rng.random() < 0.1:
            # so small that nothing is left of its square: not zero all the same
            v[...] = np.finfo(v.dtype).tiny * ctx.rng.choice([1, -1, 8])
        kw, ok = constraints(ctx, d, dtype)
        if ctx.rng.random() < 0.3:
            kw["allow_zero"] = ctx.rng.random() < 0.3
            if ctx.rng.random() < 0.5:
                v[ctx.rng.randrange(n)] = 0
        row = v if batch else v[0]
        if not kw.get("allow_zero", True):
            ok &= bool(np.all(np.any(row != 0, axis=-1)))
        r = ctx.rng.random()
        if r < 0.12 and row.dtype.kind in "fc":
            where = tuple(ctx.rng.randrange(s) for s in row.shape)
            row[where] = ctx.rng.choice([np.nan, np.inf, -np.inf])
            ok = False
        elif r < 0.2:
            row, ok = row.tolist(), False
        elif r < 0.25:
            row, ok = row.astype(str), False
        elif r < 0.3:
            row, ok = row.astype(object), False
        elif r < 0.36:
            row, ok = row[None], False
        elif r < 0.42:
            row, ok = (row[0] if batch else row[:1].reshape(())), False
        elif r < 0.48:
            row, ok = row[:0], False
        elif r < 0.52 and batch:
            row, ok = row[:, :0], False
        elif r < 0.55:
            row, ok = ctx.rng.choice([None, 5, "vector", {}]), False
        ctx.state(name, ok, sorted(kw))
        judge(ctx, name, (row,), kw, bool(ok))


def configs(ctx):
    for _ in range(10):
        keys = ["a", "b", "c", "d"]
        conf = {k: ctx.rng.choice([0, 1, 5, -3, 2.5, float("nan"), float("inf"), np.float32(2.5), np.float64(-3),
                                     np.int64(5), "x", "", None, True, [1], {"y": 1}])
                for k in keys if ctx.rng.random() < 0.6}
        kw, ok = {}, True
        if ctx.rng.random() < 0.5:
            kw["required_keys"] = ctx.rng.sample(keys, ctx.rng.randint(0, 2))
            ok &= all(k in conf for k in kw["required_keys"])
        if ctx.rng.random() < 0.4:
            kw["allowed_keys"] = ctx.rng.choice([[], ctx.rng.sample(keys, 3), keys, list(conf)])
            ok &= all(k in kw["allowed_keys"] for k in conf)
        if ctx.rng.random() < 0.5:
            kw["value_types"] = {k: ctx.rng.choice([int, str, float, (int, float), list, object])
                                 for k in keys if ctx.rng.random() < 0.4}
            ok &= all(isinstance(conf[k], t) for k, t in kw["value_types"].items() if k in conf)
        if ctx.rng.random() < 0.5:
            kw["value_ranges"] = {}
            for k in keys:
                if ctx.rng.random() < 0.5:
                    low = ctx.rng.choice([-10, 0, 1, 2.5])
                    kw["value_ranges"][k] = (low, low + ctx.rng.choice([0, 4, 100]))
            for k, (low, high) in kw["value_ranges"].items():
                if isinstance(conf.get(k), (int, float, np.integer, np.floating)):
                    ok &= low <= conf[k] <= high
        value = conf
        if ctx.rng.random() < 0.05:
            value, ok = ctx.rng.choice([None, [], "a", list(conf)]), False
        judge(ctx, "validate_config", (value,), kw, bool(ok))


def scalars(ctx):
    for _ in range(10):
        which = ctx.rng.choice(["metric", "k", "id", "ids", "metadata"])
        kw = {}
        if which == "metric":
            m = ctx.rng.choice(METRICS + ["Cosine", "", "cosine ", "l2", "angular", None, 3, ["cosine"]])
            judge(ctx, "validate_metric", (m,), kw, isinstance(m, str) and m in METRICS)
        elif which == "k":
            k = ctx.rng.choice([1, 2, 10, 10 ** 9, 0, -1, -10, 1.0, "1", None, [1], float("nan")])
            if ctx.rng.random() < 0.5:
                kw["max_k"] = ctx.rng.choice([1, 2, 10, 11])
            judge(ctx, "validate_k", (k,), kw, isinstance(k, int) and k > 0 and k <= kw.get("max_k", k))
        elif which == "id":
            i = ctx.rng.choice(["a", "0", " a ", "ключ", 0, -5, 10 ** 30, "", " ", "\t\n", "\u3000", None, 1.5, ["a"], b"a", ()])
            judge(ctx, "validate_id", (i,), kw,
                  isinstance(i, int) or isinstance(i, str) and any(not c.isspace() for c in i))
        elif which == "ids":
            ids = [ctx.rng.choice(["a", "b", "c", 1, 2, 3, "1"]) for _ in range(ctx.rng.randint(0, 4))]
            ok = len(ids) > 0 and len(set(ids)) == len(ids)
            r = ctx.rng.random()
            if r < 0.2:
                ids.insert(ctx.rng.randint(0, len(ids)), ctx.rng.choice(["", " ", None, 1.5, ["a"]]))
                ok = False
            elif r < 0.3:
                ids, ok = ctx.rng.choice([tuple(ids), None, "ab", set(ids)]), False
            judge(ctx, "validate_ids", (ids,), kw, ok)
        else:
            m, ok = gen.metadata(ctx), True
            r = ctx.rng.random()
            if r < 0.4:
                m = m or {}
                bad = ctx.rng.choice([{1, 2}, b"x", object, np.float32(1), np.ones(2), 1j, [1, {2}], {"y": {"z": b""}}])
                m["bad"] = bad
                ok = False
            elif r < 0.5:
                m = {**(m or {}), ctx.rng.choice([1, None, 2.5, ("a",)]): 1}
                ok = False
            elif r < 0.55:
                m, ok = ctx.rng.choice([[], "a", 5, [("a", 1)]]), False
            elif r < 0.57:
                deep = []
                for _ in range(ctx.rng.choice([10, 5000, 20000])):
                    deep = [deep]
                judge_deep(ctx, deep)
                continue
            elif r < 0.6:
                m = m or {}
                m["self"] = m  # never ends
                judge_cycle(ctx, m)
                continue
            judge(ctx, "validate_metadata", (m,), kw, ok)


def judge_deep(ctx, deep):
    """Nested far too deeply to be written as JSON: refused, or accepted by an interpreter that can."""
    from valori.exceptions import ValidationError
    from valori.utils.validation import validate_metadata

    try:
        json.dumps(deep)
        ok = True
    except RecursionError:
        ok = False
    try:
        got = validate_metadata({"deep": deep})
    except ValidationError:
        got = False
    ctx.count("accepted" if got else "rejected")
    ctx.check(got is ok, "validate_metadata misjudges metadata nested deeply", got=got, want=ok)


def judge_cycle(ctx, m):
    from valori.exceptions import ValidationError
    from valori.utils.validation import validate_metadata

    ctx.count("rejected")
    ctx.raises(ValidationError, lambda: validate_metadata(m), "validate_metadata takes metadata that contains itself")


SCENARIOS = {"vectors": (vectors, 400, 5000), "configs": (configs, 250, 3000), "scalars": (scalars, 400, 4000)}

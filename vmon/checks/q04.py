"""Q04: rescored search is exact among its candidates; failed training leaves nothing half-done."""

import numpy as np

from vmon import gen, quant

LEVEL = "exploration"
QUICK = 2
RULE = (
    "searches with rescoring over the codes of the training set, with candidate lists shorter and longer than the set, "
    "against true float64 cosine distances; histories of successful and failing trainings, undone by initialize and "
    "close, on all three quantizers, with the codes of a fixed probe as the observation; distinct by event hash"
)
REQUIRED = {"searches": 300, "scribbled": 50, "complete": 60, "failed": 80, "kept-or-refused": 80, "untrained": 60}


def large(ctx):
    """As many codes as are looked at in several rounds."""
    rescoring(ctx, ctx.rng.choice([999, 1000, 1001, 1300, 2001, 2500]))


def rescoring(ctx, n=None):
    d = gen.dim(ctx, 1, 12)
    wide = n is not None
    n = n or ctx.rng.choice([1, 3, 10, 40, 60])
    candidates = ctx.rng.choice([1, 3, 10, 50, n, n + 5])
    q = quant.made("saq", total_bits=ctx.rng.choice([8, 16, 64]), n_segments=ctx.rng.choice([1, 2, 4]),
                   rescore_top_k=candidates)
    asked = [gen.vectors(ctx, 1, d)[0]]
    for _ in range(1 if wide else ctx.rng.choice([1, 1, 2])):
        train = quant.data(ctx, n, d, *(("float64", "normal") if wide else ()))
        if ctx.rng.random() < 0.2:
            q.initialize()
        given = train.copy()
        q.train(given)
        if ctx.rng.random() < 0.5:
            gen.scribble(ctx, given)  # the caller's own
            ctx.count("scribbled")
        searches(ctx, q, train, candidates, asked, 2 if wide else 5)


def searches(ctx, q, train, candidates, asked, times):
    """Some queries, among them ones asked before of other codes."""
    n, d = train.shape
    x = np.asarray(train, dtype=np.float64)
    codes = q.quantize(train)
    ctx.event("config", d, n, candidates)
    for i in range(times):
        query = (asked[-1] if i == 0 else ctx.rng.choice(asked) if ctx.rng.random() < 0.2 else
                 gen.vectors(ctx, 1, d)[0] if ctx.rng.random() < 0.5 else train[ctx.rng.randrange(n)].copy())
        asked.append(query)
        top = ctx.rng.choice([1, 2, 5, n, n + 3])
        keep = query.copy()
        indices, distances = q.search_with_rescoring(query, codes, top)
        indices = [int(i) for i in indices]
        ctx.count("searches")
        ctx.check(len(indices) == len(distances) == min(top, candidates, n), "rescoring: the number of results is wrong",
                  got=len(indices), top=top, candidates=candidates, n=n)
        ctx.check(len(set(indices)) == len(indices) and all(0 <= i < n for i in indices),
                  "rescoring: a result repeats or does not exist", indices=indices)
        want = [quant.cosine_distance(query, x[i]) for i in indices]
        ctx.check(all(abs(a - b) < 1e-4 for a, b in zip(distances, want)),
                  "rescoring: a distance is not that of the original vector", got=list(distances), want=want)
        ctx.check(all(a <= b + 1e-6 for a, b in zip(distances, distances[1:])), "rescoring: results are not in order",
                  got=list(distances))
        ctx.check(np.array_equal(query, keep), "rescoring: the query was altered")
        if candidates >= n:
            ctx.count("complete")
            best = sorted(quant.cosine_distance(query, v) for v in x)[:len(indices)]
            ctx.check(all(abs(a - b) < 1e-4 for a, b in zip(sorted(want), best)),
                      "rescoring: a nearer vector was left out", got=want, best=best)
        else:
            # the candidates are the ones nearest by code
            coarse = np.array([q.compute_distance(query, c) for c in codes])
            cut = np.sort(coarse)[min(candidates, n) - 1]
            ctx.check(all(coarse[i] <= cut + 1e-5 for i in indices), "rescoring: a result was not among the candidates",
                      indices=indices)
            inner = [i for i in range(n) if coarse[i] < cut - 1e-5]
            worst = max(want)
            ctx.check(len(indices) < min(top, n) or all(
                i in indices or quant.cosine_distance(query, x[i]) >= worst - 1e-4 for i in inner),
                "rescoring: a nearer candidate was left out", indices=indices)


CONFIGS = {"scalar": {"bits": 8}, "product": {"m": 2, "k": 4}, "saq": {"total_bits": 16, "n_segments": 2}}


def bad(ctx, kind):
    d = 4
    choices = ["nan", "inf", "flat", "empty"] + {"product": ["odd", "no columns", "complex"],
                                                 "saq": ["no columns", "complex", "huge"], "scalar": []}[kind]
    style = ctx.rng.choice(choices)
    v = ctx.np.normal(size=(6, d))
    if style == "nan":
        v[ctx.rng.randrange(6), ctx.rng.randrange(d)] = np.nan
    elif style == "inf":
        v[ctx.rng.randrange(6), ctx.rng.randrange(d)] = ctx.rng.choice([np.inf, -np.inf])
    elif style == "flat":
        v = v[0]
    elif style == "empty":
        v = v[:0]
    elif style == "no columns":
        v = v[:, :0]
    elif style == "complex":
        v = v + 1j
    elif style == "huge":
        v = v * 1e200
    else:
        v = v[:, :3]
    return style, v


def training(ctx):
    from valori.exceptions import QuantizationError

    kind = ctx.rng.choice(list(CONFIGS))
    q = quant.made(kind, **CONFIGS[kind])
    probe = ctx.np.normal(size=(5, 4))
    trained = None  # the codes and decoded values expected of the probe
    for step in range(ctx.rng.randint(4, 9)):
        action = ctx.rng.choice(["train", "fail", "fail", "initialize", "close"])
        if action == "train":
            train = ctx.np.normal(size=(ctx.rng.randint(2, 15), 4)) * ctx.rng.choice([0.01, 1, 100])
            q.train(train)
            fresh = quant.made(kind, **CONFIGS[kind])
            fresh.train(train)
            trained = (fresh.quantize(probe), fresh.dequantize(fresh.quantize(probe)))
            ctx.event("train", kind, len(train))
        elif action == "fail":
            style, v = bad(ctx, kind)
            ctx.event("failed", kind, style, trained is not None)
            ctx.raises(QuantizationError, lambda: q.train(v), f"{kind}: training on {style} vectors")
            ctx.count("kept-or-refused")
            try:
                codes = q.quantize(probe)
                back = q.dequantize(codes)
            except QuantizationError:
                trained = None
            else:
                ctx.check(trained is not None, f"{kind}: a failed training leaves a quantizer that answers", style=style)
                ctx.check(gen.same_vector(codes, trained[0]) and gen.same_vector(back, trained[1]),
                          f"{kind}: a failed training changed the trained quantizer", style=style)
        elif action == "initialize":
            q.initialize()
            trained = None
            ctx.event("initialize", kind)
        else:
            q.close()
            ctx.event("close", kind)
            ctx.raises(QuantizationError, lambda: q.train(probe), f"{kind}: training a closed quantizer")
            ctx.raises(QuantizationError, lambda: q.quantize(probe), f"{kind}: quantizing with a closed quantizer")
            ctx.check(q.get_stats() == {"status": "not_initialized"}, f"{kind}: stats of a closed quantizer",
                      stats=q.get_stats())
            q.initialize()
            trained = None
        ctx.check(q.get_stats()["trained"] is (trained is not None), f"{kind}: stats do not say whether it is trained",
                  stats=q.get_stats())
        if trained is None:
            ctx.count("untrained")
            ctx.raises(QuantizationError, lambda: q.quantize(probe), f"{kind}: quantizing untrained")
            ctx.raises(QuantizationError, lambda: q.dequantize(np.zeros((1, 4), dtype=np.int64)),
                       f"{kind}: dequantizing untrained")
            ctx.raises(QuantizationError, lambda: q.compute_distance(probe[0], np.zeros(4, dtype=np.int64)),
                       f"{kind}: a distance untrained")
        else:
            codes = q.quantize(probe)
            ctx.check(gen.same_vector(codes, trained[0]) and gen.same_vector(q.dequantize(codes), trained[1]),
                      f"{kind}: differs from a quantizer trained once on the same vectors", history=ctx.trace)


SCENARIOS = {"rescoring": (rescoring, 120, 1500), "large": (large, 8, 80),
             "training": (training, 120, 2000)}

"""P02: a save that fails or is cut short leaves the previous one loadable."""

import os
import shutil

from vmon import faults, persist

LEVEL = "fault_enumeration"
QUICK = 8
RULE = (
    "for a folder with saved state, vectors and index, and one save over or beside them, every file operation the save "
    "makes is a point: an error is injected or the process killed at each, and file-size limits cut writes in the middle; "
    "then everything is loaded in the same process and after a restart; distinct by the hash of the fault trails"
)
REQUIRED = {"fault-error": 150, "fault-crash": 150, "fault-limit-error": 60, "fault-limit-crash": 60, "cut": 300}
ASSUMPTIONS = ["a crash is the death of the process; what the operating system was given is kept"]


def enumerate_points(ctx, kind):
    base = ctx.scratch()
    source = os.path.join(base, "source")
    settings = persist.config(ctx, kind)
    saved = {}
    p = persist.opened(kind, source, **settings)
    things = {"state": "s.pkl", "vectors": "sub/v", "index": "i.bin"}
    for n, what in enumerate(things):
        if ctx.rng.random() < 0.85:
            content = persist.value(ctx, what, n + 1)
            persist.save(p, what, things[what], content)
            saved[what] = content
    p.close()
    target = ctx.rng.choice(persist.WHAT)
    new = persist.value(ctx, target, 99)
    run = os.path.join(base, "run")

    def wrong(p, outcome):
        """What a manager loads against what it may load."""
        out = []
        for what, name in things.items():
            try:
                got = persist.load(p, what, name)
            except Exception as e:
                out.append(f"{what}: {type(e).__name__}: {e}")
                continue
            allowed = [saved.get(what)]
            if what == target:
                allowed = [new] if outcome == "done" else allowed + [new]
            if not any(persist.equal(what, got, want) for want in allowed):
                out.append(f"{what}: is neither the old nor the new one" if got is not None else f"{what}: is gone")
        return out

    def once(plan):
        shutil.rmtree(run, ignore_errors=True)
        shutil.copytree(source, run)
        box = {}

        def before():
            box["p"] = persist.opened(kind, run, **settings)

        report = faults.child(base, plan, before, lambda: persist.save(box["p"], target, things[target], new),
                              lambda report: wrong(box["p"], report["outcome"]))
        where = f"{kind} {target} with {plan}"
        if plan.kind:
            ctx.event(f"fault-{plan.kind}", target, plan, report["outcome"], report["trail"])
            if report["outcome"] != "done":
                ctx.count("cut")
        ctx.state(kind, target, str(plan), report["outcome"])
        if report["outcome"] == "raised":
            ctx.check(report["error"] == "PersistenceError", f"{where}: the failure is not reported as a persistence error",
                      report=report)
        if report["outcome"] == "done":
            ctx.check(report["result"] is True, f"{where}: success is not reported", report=report)
        ctx.check(not report.get("after"), f"{where}: afterwards, in the same process", wrong=report.get("after"),
                  trail=report["trail"])
        p = persist.opened(kind, run, **settings)
        ctx.check(not wrong(p, report["outcome"]), f"{where}: after a restart", wrong=wrong(p, report["outcome"]),
                  trail=report["trail"])
        # the save can be made again
        ctx.check(persist.save(p, target, things[target], new) is True, f"{where}: the save cannot be made again")
        ctx.check(not wrong(p, "done"), f"{where}: after saving again", wrong=wrong(p, "done"))
        p = persist.opened(kind, run, **settings)
        ctx.check(not wrong(p, "done"), f"{where}: after saving again and a restart", wrong=wrong(p, "done"))
        return report

    clean = once(faults.Plan())
    ctx.check(clean["outcome"] == "done", "the save fails without any fault", report=clean)
    ctx.check(clean["points"] > 0, "the save touched no file", report=clean)
    for point in range(clean["points"]):
        once(faults.Plan("error", point=point))
        once(faults.Plan("crash", point=point))
    for limit in sorted({0, 1, ctx.rng.randint(2, 60), ctx.rng.randint(60, 400), ctx.rng.randint(100, 1500)}):
        once(faults.Plan("limit-error", limit=limit))
        once(faults.Plan("limit-crash", limit=limit))


def unserializable(ctx, kind):
    """A state that cannot be written is refused, and the earlier one stays."""
    from valori.exceptions import PersistenceError

    folder = ctx.scratch()
    p = persist.opened(kind, folder, **persist.config(ctx, kind))
    what = ctx.rng.choice(["state", "index"])
    old = persist.value(ctx, what, 1)
    first = ctx.rng.random() < 0.7
    if first:
        persist.save(p, what, "x", old)
    bad = persist.value(ctx, what, 2)
    bad["bad"] = ctx.rng.choice([lambda: 0, (i for i in range(3)), open(os.devnull)])
    ctx.event("unserializable", kind, what, first)
    ctx.raises(PersistenceError, lambda: persist.save(p, what, "x", bad), f"{kind}: saving what cannot be serialized")
    for q in (p, persist.opened(kind, folder)):
        ctx.check(persist.equal(what, persist.load(q, what, "x"), old if first else None),
                  f"{kind}: a refused save changed what is saved", what=what)


SCENARIOS = {
    "points-tensor": (lambda c: enumerate_points(c, "tensor"), 30, 300),
    "points-incremental": (lambda c: enumerate_points(c, "incremental"), 24, 240),
    "unserializable-tensor": (lambda c: unserializable(c, "tensor"), 20, 100),
    "unserializable-incremental": (lambda c: unserializable(c, "incremental"), 20, 100),
}

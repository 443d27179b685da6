"""P04: the operation log has every acknowledged operation once, numbered in order, across restarts and crashes."""

from vmon import faults, persist

LEVEL = "fault_enumeration"
QUICK = 3
RULE = (
    "histories of saves with incremental persistence, cut by restarts, injected errors, the death of the process and "
    "half-written lines; the log file is read by an offline checker: every acknowledged operation once and in order, at "
    "most one extra line per cut operation, numbers strictly increasing, the statistics in agreement; by event hash"
)
REQUIRED = {"entries": 2000, "crashed": 60, "raised": 60, "logs": 600, "torn": 50, "repeated": 80}
ASSUMPTIONS = ["a crash is the death of the process; what the operating system was given is kept"]


def judge(ctx, folder, p, history, where):
    """history: [(operation, path, acknowledged)]"""
    entries = persist.log(folder)
    torn = sum(1 for e in entries if e is None)
    entries = [e for e in entries if e is not None]
    ctx.count("logs")
    ctx.count("entries", len(entries))
    cut = sum(1 for _, _, done in history if not done)
    ctx.check(torn <= cut, f"{where}: the log has unreadable lines", torn=torn, cut=cut)
    # match the log against the history: an acknowledged operation has to be there, a cut one may be
    at = 0
    for operation, path, done in history:
        here = at < len(entries) and entries[at]["operation"] == operation and entries[at]["data"]["path"] == path
        if here:
            at += 1
        ctx.check(here or not done, f"{where}: an acknowledged operation is not in its place in the log",
                  operation=operation, path=path, log=entries, history=history)
    ctx.check(at == len(entries), f"{where}: the log has entries nobody asked for", extra=entries[at:], history=history)
    numbers = [e["operation_id"] for e in entries]
    ctx.check(all(a < b for a, b in zip(numbers, numbers[1:])), f"{where}: operation numbers repeat or go back",
              numbers=numbers)
    stats = p.get_stats()
    ctx.check(len(entries) <= stats["logged_operations"] <= len(entries) + torn,
              f"{where}: the statistics miscount the logged operations", stats=stats, log=len(entries))
    ctx.check(not numbers or stats["operation_count"] > numbers[-1],
              f"{where}: the next operation number is already taken", stats=stats, numbers=numbers)
    if not cut:
        ctx.check(stats["operation_count"] == len(entries), f"{where}: the statistics miscount the operations",
                  stats=stats, log=len(entries))
    states = sum(1 for operation, _, done in history if operation == "save_state" and done)
    cut_states = sum(1 for operation, _, done in history if operation == "save_state" and not done)
    ctx.check(states <= stats["checkpoint_count"] <= states + cut_states,
              f"{where}: the number of checkpoints is not the number of saved states", stats=stats, states=states)


def long(ctx):
    """Hundreds of operations, as a running database makes them."""
    folder = ctx.scratch()
    settings = {"checkpoint_interval": ctx.rng.choice([10, 50, 64, 100])}
    p = persist.opened("incremental", folder, **settings)
    history = []
    total = ctx.rng.choice([150, 260, 520, 1100])
    ctx.event("long", settings, total)
    for number in range(total):
        what = "save_index" if ctx.rng.random() < 0.9 else "save_state"
        name = f"p{number % 5}"
        (p.save_index if what == "save_index" else p.save_state)({"n": number}, name)
        history.append((what, name, True))
        if ctx.rng.random() < 0.005:
            p.close()
            p = persist.opened("incremental", folder, **settings)
            ctx.event("reopen", number)
    judge(ctx, folder, p, history, "incremental: long")
    p = persist.opened("incremental", folder, **settings)
    judge(ctx, folder, p, history, "incremental: long, reopened")


def run(ctx, faulty):
    folder = ctx.scratch()
    settings = persist.config(ctx, "incremental")
    history = []
    p = persist.opened("incremental", folder, **settings)
    number, last = 0, None
    for round_ in range(ctx.rng.randint(2, 6)):
        for _ in range(ctx.rng.randint(1, 12)):
            number += 1
            if history and history[-1][2] and last and ctx.rng.random() < 0.15:
                what, name, content = last  # the very same again
                ctx.count("repeated")
            else:
                what = ctx.rng.choice(persist.WHAT)
                name = f"p{number}"
                content = persist.value(ctx, what, number)
            last = (what, name, content)
            persist.save(p, what, name, content)
            history.append((f"save_{what}", name, True))
            ctx.event("save", what)
        judge(ctx, folder, p, history, "incremental")
        cut = ctx.rng.choice(["close", "abandon", "again"] + (["fault"] * 4 if faulty else []))
        if cut == "close":
            p.close()
        if cut == "again":
            p.initialize()
            judge(ctx, folder, p, history, "incremental: initialized again")
            continue
        if cut == "fault":
            number += 1
            last = None
            what = ctx.rng.choice(persist.WHAT)
            content = persist.value(ctx, what, number)
            kind = ctx.rng.choice(["error", "crash", "limit-error", "limit-crash"])
            plan = faults.Plan(kind, point=ctx.rng.randint(0, 6))
            if kind.startswith("limit"):
                # in the middle of the line that the log is about to get
                import os
                size = os.path.getsize(os.path.join(folder, "operations.log"))
                plan = faults.Plan(kind, limit=size + ctx.rng.randint(0, 120))
                ctx.count("torn")
            box = {}

            def before():
                box["p"] = persist.opened("incremental", folder, **settings)

            def after(report):
                more = []
                for i in range(extra):
                    box["p"].save_index({"i": i}, f"q{number}-{i}")
                    more.append(f"q{number}-{i}")
                return more

            extra = ctx.rng.randint(0, 3)
            report = faults.child(folder, plan, before, lambda: persist.save(box["p"], what, f"p{number}", content), after)
            ctx.event(report["outcome"], what, str(plan), report["trail"])
            history.append((f"save_{what}", f"p{number}", report["outcome"] == "done"))
            for name in report.get("after") or []:
                history.append(("save_index", name, True))
        p = persist.opened("incremental", folder, **settings)
        judge(ctx, folder, p, history, f"incremental: after '{cut}'")
        ctx.state(len(history), cut)


SCENARIOS = {"restarts": (lambda c: run(c, False), 80, 1000), "faults": (lambda c: run(c, True), 200, 2500),
             "long": (long, 8, 60)}

"""S04: a write that fails or is cut short harms no other record, and no acknowledged one."""

import os
import shutil

from vmon import faults, gen, stores

LEVEL = "fault_enumeration"
QUICK = 4
RULE = (
    "for a random set of stored records and one operation on disk or hybrid storage, every file operation it "
    "makes is a point: the operation is run once per point with an error injected there and once with the process "
    "killed there, and with file-size limits that cut a write in the middle (error or death); afterwards the "
    "directory is opened again and compared with what was acknowledged; distinct by the hash of the fault trails"
)
REQUIRED = {"fault-error": 150, "fault-crash": 150, "fault-limit-error": 30, "fault-limit-crash": 30,
            "cut": 200, "retried": 100}
ASSUMPTIONS = ["a crash is the death of the process; what the operating system was given is kept"]


def either(got, *records):
    return any(gen.same_vector(got[0], r[0]) and gen.same_meta(got[1], r[1]) for r in records)


def judge(ctx, kind, folder, limit, model, target, op, new, outcome, where, seen=None):
    """Open the directory anew; everything but an unacknowledged target is as the model says."""
    storage = stores.opened(ctx, kind, folder, limit)
    old = model.get(target)
    got = storage.retrieve_vector(target)
    after_done = None if op == "delete" else new
    if seen and seen["old"] != seen["new"]:  # the process that saw the error and this one agree
        stores.compare(ctx, got, old if seen["old"] else after_done,
                       f"{where}: what the running process read after the failure", id=target)
    if outcome == "done":
        stores.compare(ctx, got, after_done, f"{where}: the acknowledged operation", id=target)
    elif op == "delete":
        if got is not None:
            stores.compare(ctx, got, old, f"{where}: the record whose deletion was cut short", id=target)
    elif old is None:
        if got is not None:
            stores.compare(ctx, got, new, f"{where}: the record whose creation was cut short", id=target)
    else:
        ctx.check(got is not None, f"{where}: replacing a record that was cut short lost the record", id=target)
        ctx.check(either(got, old, new), f"{where}: the record is neither the old nor the new one",
                  got=got, old=old, new=new)
    now = dict(model)
    now.pop(target, None)
    present = got is not None
    for i, want in now.items():
        stores.compare(ctx, storage.retrieve_vector(i), want, f"{where}: another record", id=i)
    listed = sorted(storage.list_vectors())
    want = sorted(list(now) + ([target] if present else []))
    ctx.check(listed == want, f"{where}: the listing differs from what can be read", listed=listed, want=want)
    ctx.check(stores.count(storage) == len(want), f"{where}: the count differs from what can be read",
              count=stores.count(storage), want=len(want))
    # and the database goes on working: the operation can be made again
    if op == "delete":
        storage.delete_vector(target)
        now.pop(target, None)
    else:
        ctx.check(storage.store_vector(target, *new), f"{where}: the record cannot be stored again", id=target)
        now[target] = new
    stores.compare_all(ctx, storage, now, f"{where}: after making the operation again", [target])
    ctx.event("retried")
    storage.close()


def apply(storage, op, target, new):
    if op == "store":
        return bool(storage.store_vector(target, *new))
    if op == "update":
        return bool(storage.update_vector(target, *new))
    return bool(storage.delete_vector(target))


def enumerate_points(ctx, kind):
    base = ctx.scratch()
    limit = ctx.rng.choice([0, 1, 100])
    source = os.path.join(base, "source")
    pool = gen.ids(ctx, 5)
    model = {}
    storage = stores.opened(ctx, kind, source, limit)
    for i in pool[:4]:
        v, m = stores.value(ctx, i)
        storage.store_vector(i, v, m)
        model[i] = (v, m)
    if ctx.rng.random() < 0.3:  # a record whose metadata was taken away again
        storage.update_vector(pool[0], model[pool[0]][0], None)
        model[pool[0]] = (model[pool[0]][0], None)
    storage.close()
    op = ctx.rng.choice(["store", "store", "update", "delete"])
    target = ctx.rng.choice(pool)
    if op != "store":
        target = ctx.rng.choice(pool[:4])
    v, m = stores.value(ctx, "new")
    new = (v, m if ctx.rng.random() < 0.8 else None)

    def run(plan):
        folder = os.path.join(base, "run")
        shutil.rmtree(folder, ignore_errors=True)
        shutil.copytree(source, folder)
        box = {}

        def before():
            box["s"] = stores.opened(ctx, kind, folder, limit)
            if ctx.rng.random() < 0.5:
                box["s"].retrieve_vector(target)  # for hybrid: in memory

        def after(report):
            # in the same process: an operation that raised left the others readable, too
            s = box["s"]
            wrong = []
            views = [(sorted(s.list_vectors()), stores.count(s))]
            for i in pool:
                if i == target:
                    continue
                want = model.get(i)
                try:
                    got = s.retrieve_vector(i)
                except Exception as e:
                    wrong.append(f"{i}: {type(e).__name__}")
                    continue
                if (got is None) != (want is None) or got is not None and not (
                        gen.same_vector(got[0], want[0]) and gen.same_meta(got[1], want[1])):
                    wrong.append(i)
            try:
                got = s.retrieve_vector(target)
                readable = True
                as_old = got is None if target not in model else got is not None and gen.same_vector(
                    got[0], model[target][0]) and gen.same_meta(got[1], model[target][1])
                as_new = got is None if op == "delete" else got is not None and gen.same_vector(
                    got[0], new[0]) and gen.same_meta(got[1], new[1])
            except Exception:
                readable, as_old, as_new, got = False, False, False, None
            views.append((sorted(s.list_vectors()), stores.count(s)))
            there = sorted([i for i in model if i != target] + ([target] if got is not None else []))
            return {"views": [v == (there, len(there)) for v in views], "wrong": wrong, "readable": readable, "old": as_old, "new": as_new}

        report = faults.child(base, plan, before, lambda: apply(box["s"], op, target, new), after)
        where = f"{kind} {op} with {plan}"
        if plan.kind:
            ctx.event(f"fault-{plan.kind}", op, plan, report["outcome"], report["trail"])
            if report["outcome"] != "done":
                ctx.count("cut")
        if report["outcome"] == "raised":
            ctx.check(report["error"] == "StorageError",
                      f"{where}: the failure is not reported as a storage error", error=report)
        if report["outcome"] == "done":
            ctx.check(report["result"] is True, f"{where}: the operation did not report success", report=report)
        if "after" in report:
            a = report["after"]
            ctx.check(not a["wrong"], f"{where}: other records are damaged in the running process", ids=a["wrong"])
            ctx.check(a["readable"], f"{where}: the record cannot be read in the running process", id=target)
            ctx.check(all(a["views"]), f"{where}: listing and count differ from what can be read in the running process",
                      before_and_after_reading=a["views"])
            ctx.check(a["old"] or a["new"], f"{where}: the record is a mixture in the running process", id=target)
            if report["outcome"] == "done":
                ctx.check(a["new"], f"{where}: the acknowledged operation is not visible", id=target)
        judge(ctx, kind, folder, limit, model, target, op, new, report["outcome"], where, report.get("after"))
        ctx.state(kind, op, str(plan), report["outcome"])
        return report

    clean = run(faults.Plan())
    ctx.check(clean["outcome"] == "done", "the operation fails without any fault", report=clean)
    points = clean["points"]
    ctx.check(points > 0, "the operation touched no file", report=clean)
    for point in range(points):
        run(faults.Plan("error", point=point))
        run(faults.Plan("crash", point=point))
    if op != "delete":
        for size in sorted({0, ctx.rng.randint(1, 127), 128, ctx.rng.randint(1, 300)}):
            run(faults.Plan("limit-error", limit=size))
            run(faults.Plan("limit-crash", limit=size))


def sequence(ctx, kind):
    """Faults at random points of a longer history: nothing acknowledged is ever lost."""
    folder = ctx.scratch()
    limit = ctx.rng.choice([0, 1, 2, 100])
    pool = gen.ids(ctx, 4)
    model = {}
    for round_ in range(ctx.rng.randint(3, 6)):
        op = ctx.rng.choice(["store", "store", "store", "update", "delete"])
        target = ctx.rng.choice(pool)
        new = stores.value(ctx, round_)
        plan = faults.Plan(ctx.rng.choice(["error", "crash", None]), point=ctx.rng.randint(0, 8))
        box = {}

        def before():
            box["s"] = stores.opened(ctx, kind, folder, limit)

        report = faults.child(folder, plan, before, lambda: apply(box["s"], op, target, new))
        if plan.kind:
            ctx.event(f"fault-{plan.kind}", op, plan, report["outcome"], report["trail"])
        known = target in model
        if report["outcome"] == "done":
            ctx.check(report["result"] == (op == "store" or known), f"{kind}: wrong answer", report=report)
            if op == "delete":
                model.pop(target, None)
            elif report["result"]:
                model[target] = new
        else:
            ctx.count("cut")
            # what is there now is one of the allowed outcomes, and from now on it is the truth
            s = stores.opened(ctx, kind, folder, limit)
            got = s.retrieve_vector(target)
            s.close()
            old = model.get(target)
            allowed = got is None and (old is None or op == "delete")
            if got is not None:
                sides = [x for x in (old, None if op == "delete" else new) if x is not None]
                allowed = either(got, *sides)
            ctx.check(allowed, f"{kind}: a cut {op} left a record that is neither old nor new",
                      got=got, old=old, new=new, trail=report["trail"])
            if got is None:
                model.pop(target, None)
            else:
                model[target] = got
        s = stores.opened(ctx, kind, folder, limit)
        stores.compare_all(ctx, s, model, f"{kind}: after {plan} in {op}", [x for x in pool if x not in model])
        s.close()


SCENARIOS = {
    "points-disk": (lambda c: enumerate_points(c, "disk"), 24, 300),
    "points-hybrid": (lambda c: enumerate_points(c, "hybrid"), 16, 200),
    "sequence-disk": (lambda c: sequence(c, "disk"), 40, 500),
    "sequence-hybrid": (lambda c: sequence(c, "hybrid"), 30, 400),
}

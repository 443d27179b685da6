"""P03: incremental persistence recovers the latest acknowledged state after any restart or crash."""

import os

from vmon import faults, gen, persist

LEVEL = "fault_enumeration"
QUICK = 4
RULE = (
    "histories of up to 60 saves of states, vectors and indices with checkpoint intervals from 1 to 100, cut by "
    "restarts, by the death of the process at a random file operation, and by injected errors; after each cut the state "
    "that is loaded must be the last acknowledged one, or the one whose save was cut; openings and loads whose n-th access is refused "
    "must raise or load it; distinct by event hash"
)
REQUIRED = {"recovered": 400, "crashed": 60, "raised": 60, "states": 1000, "many-checkpoints": 20, "refused": 300}
ASSUMPTIONS = ["a crash is the death of the process; what the operating system was given is kept"]


def history(ctx, faulty):
    folder = ctx.scratch()
    settings = persist.config(ctx, "incremental")
    want = None
    p = persist.opened("incremental", folder, **settings)
    number = saved = 0
    for round_ in range(ctx.rng.randint(2, 7)):
        for _ in range(ctx.rng.randint(1, 9)):
            number += 1
            what = ctx.rng.choice(["state", "state", "index", "vectors"])
            content = persist.value(ctx, what, number)
            if ctx.rng.random() < 0.5:
                content = {"n": number} if what != "vectors" else content
            ctx.check(persist.save(p, what, "x." + what, content) is True, "incremental: a save did not report success")
            if what == "state":
                want = content
                saved += 1
                ctx.count("states")
            ctx.event("save", what)
            for _ in range(2 if ctx.rng.random() < 0.4 else 0):
                got = p.load_state("any")
                ctx.check(persist.equal("state", got, want), "incremental: not the latest state is loaded", want=want, got=got)
                gen.scribble(ctx, got)  # the caller's own
        cut = ctx.rng.choice(["close", "abandon", "again"] + (["fault", "fault"] if faulty else []))
        if cut == "close":
            p.close()
        if cut == "again":
            p.initialize()
        elif cut == "fault":
            number += 1
            content = {"n": number}
            plan = faults.Plan(ctx.rng.choice(["error", "crash"]), point=ctx.rng.randint(0, 6))
            box = {}

            def before():
                box["p"] = persist.opened("incremental", folder, **settings)

            def operation():
                return box["p"].save_state(content, "x")

            def after(report):
                # the process goes on: the next state it saves is the latest one
                if report["outcome"] == "raised" and go_on:
                    box["p"].save_state({"n": number + 1}, "x")
                    return True
                return False

            go_on = ctx.rng.random() < 0.5
            report = faults.child(folder, plan, before, operation, after)
            ctx.event(report["outcome"], str(plan), report["trail"])
            p = persist.opened("incremental", folder, **settings)
            got = p.load_state("any")
            if report["outcome"] == "done":
                ctx.check(persist.equal("state", got, content), "incremental: an acknowledged state is not recovered",
                          got=got, want=content, trail=report["trail"])
                want = content
            elif report.get("after"):
                number += 1
                want = {"n": number}
                ctx.check(persist.equal("state", got, want), "incremental: a state saved after a failed save is not recovered",
                          got=got, want=want, trail=report["trail"])
            else:
                ctx.check(any(persist.equal("state", got, x) for x in (want, content)),
                          "incremental: a save that was cut short loses the previous state",
                          got=got, want=want, trail=report["trail"])
                want = got
            saved += 1
        if cut != "again":
            p = persist.opened("incremental", folder, **settings)
        got = p.load_state("any")
        ctx.count("recovered")
        ctx.check(persist.equal("state", got, want), f"incremental: not the latest state is recovered after '{cut}'",
                  got=got, want=want, files=sorted(os.listdir(folder)))
        ctx.state(min(number, 30), saved, cut)
    if saved > 10:
        ctx.count("many-checkpoints")


def long(ctx):
    """Enough checkpoints for their numbers to gain digits."""
    folder = ctx.scratch()
    settings = persist.config(ctx, "incremental")
    p = persist.opened("incremental", folder, **settings)
    for n in range(ctx.rng.choice([12, 25, 105])):
        ctx.event("save", n)
        p.save_state({"n": n}, "s")
        ctx.count("states")
        if ctx.rng.random() < 0.2:
            p.save_index({}, "i")
        if ctx.rng.random() < 0.1:
            p = persist.opened("incremental", folder, **settings)
        ctx.check(p.load_state("s") == {"n": n}, "incremental: not the latest of many states is loaded",
                  got=p.load_state("s"), want=n)
    p = persist.opened("incremental", folder, **settings)
    ctx.count("many-checkpoints")
    ctx.check(p.load_state("s") == {"n": n}, "incremental: not the latest of many states is recovered",
              got=p.load_state("s"), want=n)


def refused_access(ctx):
    """The operating system refuses one access to the directory: what is asked fails, or is done."""
    from valori.exceptions import PersistenceError

    folder = ctx.scratch()
    settings = persist.config(ctx, "incremental")
    p = persist.opened("incremental", folder, **settings)
    want, number = [None], 0
    for point in range(25):
        for _ in range(ctx.rng.randint(0, 2)):
            number += 1
            p.save_state({"n": number}, "s")
            want = [{"n": number}]
        with faults.hampered(folder, point) as plan:
            try:
                if ctx.rng.random() < 0.7:
                    p = None
                    p = persist.opened("incremental", folder, **settings)
                got = p.load_state("s")
                ctx.check(any(persist.equal("state", got, x) for x in want),
                          "incremental: an access was refused, and another state than the latest is loaded",
                          got=got, want=want, access=point)
                if ctx.rng.random() < 0.5:
                    number += 1
                    want = want + [{"n": number}]
                    p.save_state({"n": number}, "s")
                    want = want[-1:]
                    got = p.load_state("s")
                    ctx.check(persist.equal("state", got, want[0]),
                              "incremental: an access was refused, and another state than the latest is loaded",
                              got=got, want=want, access=point)
            except PersistenceError:
                ctx.event("refused", point)
        if p is None or ctx.rng.random() < 0.5:
            p = persist.opened("incremental", folder, **settings)
        got = p.load_state("s")
        ctx.check(any(persist.equal("state", got, x) for x in want),
                  "incremental: not the latest state is loaded after an access was refused", got=got, want=want, access=point)
        want = [got]
        number += 1
        p.save_state({"n": number}, "s")
        want = [{"n": number}]
        if ctx.rng.random() < 0.5:
            p = persist.opened("incremental", folder, **settings)
        ctx.check(persist.equal("state", p.load_state("s"), want[0]),
                  "incremental: a state saved after a refused access is not the one loaded", want=want, access=point)
        if not plan["struck"] and point > 12:
            break


SCENARIOS = {
    "refused-access": (refused_access, 40, 400),
    "restarts": (lambda c: history(c, False), 100, 1200),
    "faults": (lambda c: history(c, True), 160, 2000),
    "long": (long, 30, 300),
}

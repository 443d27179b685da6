"""Runner of the runtime monitors: seeded cases in forked workers, three-valued verdict.

A check module (vmon/checks/<id>.py) defines

    LEVEL     the evidence level
    RULE      how cases are made, and what makes one non-trivial
    SCENARIOS {name: (function(ctx), quick cases, thorough cases)}
    QUICK     factor to the quick cases (default 1)
    REQUIRED  {counter: minimum} on the quick tier: fewer events means the deciding
              monitor was not reached, and the run is inconclusive (exit 2)
"""

import hashlib
import importlib
import itertools
import json
import os
import random
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
import uuid
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")
WORKERS = int(os.environ.get("VMON_WORKERS", "8"))
CASE_CPU_S = 90  # CPU seconds one case may use: two orders above what the slowest one does
WALL_BUDGET = {"quick": 420, "thorough": 3000}
STUCK_S = 45  # no message and no CPU use for this long: blocked for good


class Violation(Exception):
    """A monitor saw the property broken."""

    def __init__(self, message, detail=None, kind="monitor"):
        super().__init__(message)
        self.message = message
        self.detail = detail or {}
        self.kind = kind


class CaseTimeout(BaseException):
    pass


def brief(value, limit=400):
    try:
        text = repr(value)
    except Exception as e:  # a value that cannot be shown
        text = f"<{type(value).__name__}: {e}>"
    return text if len(text) <= limit else text[: limit - 3] + "..."


class Ctx:
    """One case: its random source, its scratch directory and what its monitors saw."""

    def __init__(self, prop, scenario, index, seed, tier):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.seed, self.tier = seed, tier
        key = f"{seed}:{prop}:{scenario}:{index}"
        self.rng = random.Random(key)
        self._np = None
        self.counts = Counter()
        self.states = set()
        self.trace = []
        self.known = {}
        self._hash = hashlib.blake2b(digest_size=8)
        self._dirs = []

    @property
    def np(self):
        if self._np is None:
            import numpy

            self._np = numpy.random.default_rng(self.rng.getrandbits(64))
        return self._np

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scratch(self):
        path = tempfile.mkdtemp(prefix="vmon-case-")
        self._dirs.append(path)
        return path

    def cleanup(self):
        for path in self._dirs:
            shutil.rmtree(path, ignore_errors=True)
        self._dirs = []

    def event(self, *parts):
        """Record one observed event: in the case's trace, hash and counters."""
        name = parts[0]
        self.counts[name] += 1
        text = brief(parts, 300)
        self._hash.update(text.encode("utf-8", "backslashreplace"))
        if len(self.trace) < 400:
            self.trace.append(text)

    def count(self, name, n=1):
        self.counts[name] += n

    def state(self, *parts):
        """Record that a (distinct) abstract state was seen."""
        if len(self.states) < 5000:
            h = hashlib.blake2b(repr(parts).encode("utf-8", "backslashreplace"), digest_size=6)
            self.states.add(h.digest())

    def check(self, ok, message, **detail):
        """One evaluation of the oracle."""
        self.counts["oracle_checks"] += 1
        if not ok:
            raise Violation(message, {k: brief(v, 1500) for k, v in detail.items()})

    def raises(self, errors, function, message, **detail):
        """The call has to raise one of these errors."""
        self.counts["oracle_checks"] += 1
        try:
            result = function()
        except errors:
            return
        except Exception as e:
            raise Violation(
                f"{message}: raised {type(e).__name__} instead",
                {**{k: brief(v) for k, v in detail.items()}, "error": brief(e)},
            )
        raise Violation(
            f"{message}: nothing was raised",
            {**{k: brief(v) for k, v in detail.items()}, "result": brief(result)},
        )

    def digest(self):
        return self._hash.hexdigest()


# ---------------------------------------------------------------- line monitor

LINES = {}


def start_line_monitor():
    """Note which lines of the package run, once per line."""
    root = os.path.join(REPO, "src", "valori") + os.sep
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "vmon")

    def on_line(code, line):
        name = code.co_filename
        if name.startswith(root):
            LINES.setdefault(name[len(root):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def setup_import():
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    import warnings

    warnings.filterwarnings("ignore")
    import valori

    if not os.path.abspath(valori.__file__).startswith(os.path.abspath(src)):
        raise RuntimeError(f"imported {valori.__file__}, not the tree in {src}")


# ---------------------------------------------------------------- one case


def _on_prof(signum, frame):
    raise CaseTimeout()


_uuid4 = uuid.uuid4


def _repeatable_uuids(seed):
    """Identifiers that repeat with the case, in the process of the case itself."""
    home, numbers = os.getpid(), itertools.count()

    def uuid4():
        if os.getpid() != home:
            return _uuid4()
        key = hashlib.sha256(f"{seed}:{next(numbers)}".encode()).digest()
        return uuid.UUID(bytes=key[:16], version=4)

    uuid.uuid4 = uuid4


def run_case(prop, module, scenario, index, seed, tier):
    ctx = Ctx(prop, scenario, index, seed, tier)
    random.seed(ctx.rng.getrandbits(32))
    import numpy

    numpy.random.seed(ctx.rng.getrandbits(32))
    _repeatable_uuids(ctx.rng.getrandbits(64))
    result = {"scenario": scenario, "index": index, "verdict": "held"}
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        try:
            module.SCENARIOS[scenario][0](ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except CaseTimeout:
        result.update(
            verdict="violation",
            message=f"the operation did not finish within {CASE_CPU_S} s of CPU time",
            kind="no-termination",
            where=traceback.format_exc()[-3000:],
        )
    except Violation as v:
        result.update(
            verdict="violation",
            message=v.message,
            detail=v.detail,
            kind=v.kind,
            where=traceback.format_exc()[-3000:],
        )
    except Exception as e:
        result.update(
            verdict="violation",
            message=f"unexpected {type(e).__name__}: {brief(e)}",
            kind="unexpected-exception",
            where=traceback.format_exc()[-4000:],
        )
    finally:
        ctx.cleanup()
    result["counts"] = dict(ctx.counts)
    result["states"] = [s.hex() for s in ctx.states]
    result["digest"] = ctx.digest()
    result["nontrivial"] = bool(ctx.counts.get("oracle_checks"))
    result["known"] = ctx.known
    if result["verdict"] == "violation" or index == 0:
        result["trace"] = ctx.trace
    return result


# ---------------------------------------------------------------- workers


def _worker(rfd, wfd, prop, module, seed, tier):
    """Take 'scenario index' lines from the parent, answer with one JSON line each."""
    os.environ["TMPDIR"] = tempfile.mkdtemp(prefix="vmon-worker-", dir=os.environ["VMON_TMP"])
    tempfile.tempdir = None
    os.chdir(os.environ["TMPDIR"])
    # what the code under test prints is not part of the verdict
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    if not os.environ.get("VMON_DEBUG"):
        os.dup2(null, 2)
    start_line_monitor()
    reader = os.fdopen(rfd, "r")
    sent = {}
    for line in reader:
        scenario, index = line.split()
        result = run_case(prop, module, scenario, int(index), seed, tier)
        new = {}
        for name, lines in LINES.items():
            fresh = lines - sent.get(name, set())
            if fresh:
                new[name] = sorted(fresh)
                sent.setdefault(name, set()).update(fresh)
        result["lines"] = new
        data = (json.dumps(result) + "\n").encode()
        while data:
            data = data[os.write(wfd, data):]
    os._exit(0)


class Worker:
    def __init__(self, *args):
        prd, cwr = os.pipe()
        crd, pwr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(prd)
                os.close(pwr)
                _worker(crd, cwr, *args)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(70)
        os.close(cwr)
        os.close(crd)
        self.rfd, self.wfd = prd, pwr
        self.buffer = b""
        self.job = None
        self.since = time.monotonic()
        self.cpu_seen = None
        os.set_blocking(self.rfd, False)

    def give(self, job):
        self.job = job
        self.since = time.monotonic()
        self.cpu_seen = None
        os.write(self.wfd, f"{job[0]} {job[1]}\n".encode())

    def cpu(self):
        """CPU seconds used by the worker and the children it waits for, or None."""
        total = 0.0
        try:
            for pid in os.listdir("/proc"):
                if pid.isdigit():
                    try:
                        with open(f"/proc/{pid}/stat") as f:
                            fields = f.read().rsplit(")", 1)[1].split()
                    except OSError:
                        continue
                    if int(fields[2]) == self.pid:  # its process group
                        total += sum(int(x) for x in fields[11:15])
            return total / os.sysconf("SC_CLK_TCK")
        except (OSError, ValueError, IndexError):
            return None

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for fd in (self.rfd, self.wfd):
            try:
                os.close(fd)
            except OSError:
                pass


def run_jobs(jobs, args, deadline, on_result, stop_after=4):
    """Run all jobs on forked workers. Returns (jobs not run, problem or None)."""
    jobs = list(jobs)
    jobs.reverse()
    workers = [Worker(*args) for _ in range(min(WORKERS, max(1, len(jobs))))]
    violations = 0
    problem = None
    try:
        while True:
            timed_out = time.monotonic() > deadline
            for w in workers:
                if w.job is None and jobs and not timed_out and violations < stop_after:
                    w.give(jobs.pop())
            busy = [w for w in workers if w.job is not None]
            if not busy:
                break
            if time.monotonic() > deadline + 150:
                problem = "a case did not end before the wall-clock watchdog"
                break
            ready, _, _ = select.select([w.rfd for w in busy], [], [], 1.0)
            for w in busy:
                if w.rfd not in ready:
                    idle = time.monotonic() - w.since
                    if idle > STUCK_S:
                        cpu = w.cpu()
                        if w.cpu_seen is None or cpu is None or cpu - w.cpu_seen[0] > 0.02:
                            w.cpu_seen = (cpu or 0.0, time.monotonic())
                        elif time.monotonic() - w.cpu_seen[1] > STUCK_S:
                            on_result(_synthetic(w.job, "no-progress",
                                      "the operation blocked for good: no CPU use and no answer"))
                            violations += 1
                            workers[workers.index(w)] = Worker(*args)
                            w.kill()
                    continue
                try:
                    chunk = os.read(w.rfd, 1 << 20)
                except BlockingIOError:
                    continue
                if not chunk:
                    on_result(_synthetic(w.job, "process-died",
                              "the process running the case died"))
                    violations += 1
                    workers[workers.index(w)] = Worker(*args)
                    w.kill()
                    continue
                w.buffer += chunk
                while b"\n" in w.buffer:
                    line, w.buffer = w.buffer.split(b"\n", 1)
                    result = json.loads(line)
                    w.job = None
                    if result["verdict"] == "violation":
                        violations += 1
                    on_result(result)
    finally:
        for w in workers:
            w.kill()
    return jobs, problem


def _synthetic(job, kind, message):
    return {
        "scenario": job[0], "index": job[1], "verdict": "violation", "message": message,
        "kind": kind, "counts": {}, "states": [], "digest": "", "nontrivial": False,
        "known": {}, "lines": {}, "trace": [],
    }


# ---------------------------------------------------------------- known findings


def load_known():
    """Lines 'KNOWN property=<id> key=<key> <what fails>'; 'fixed:' lines suppress nothing."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    known[(m[1], m[2])] = m[3]
    return known


# ---------------------------------------------------------------- the whole check


def run_check(prop, argv=()):
    started = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    argv = list(argv)
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--seed":
            seed = int(argv.pop(0))
        elif a == "--replay":
            replay = argv.pop(0)
        elif a == "--only":
            only = argv.pop(0)
    if tier not in WALL_BUDGET:
        tier = "quick"

    tmp = tempfile.mkdtemp(prefix=f"vmon-{prop}-")
    os.environ["VMON_TMP"] = tmp
    try:
        return _run_check(prop, seed, tier, replay, only, started)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _import_failure(prop, seed, tier, started, error):
    """The package under test does not import: nothing the property promises can hold."""
    path = write_replay(prop, 0, {
        "property": prop, "seed": seed, "tier": tier, "kind": "import",
        "message": f"the package does not import: {error}"})
    write_evidence(prop, seed, tier, "exploration", {
        "evaluations": 1, "distinct_nontrivial": 1,
        "rule": "import of the package under test", "samples": [error]}, [], started, 1)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def _run_check(prop, seed, tier, replay, only, started):
    try:
        setup_import()
        module = importlib.import_module(f"vmon.checks.{prop.lower()}")
    except Exception:
        error = traceback.format_exc()
        if "/vmon/" in error.rsplit("File", 1)[-1]:
            print(error, file=sys.stderr)
            return 2
        print(error, file=sys.stderr)
        return _import_failure(prop, seed, tier, started, error[-1500:])

    if replay:
        with open(replay) as f:
            r = json.load(f)
        os.environ["TMPDIR"] = os.environ["VMON_TMP"]
        result = run_case(prop, module, r["scenario"], r["index"], r["seed"], r["tier"])
        print(json.dumps(result, indent=1, default=str))
        if result["verdict"] == "violation":
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        return 0

    # Interleave the scenarios, so that a run cut short has seen some of each
    scenarios = {}
    for name, (function, quick, thorough) in module.SCENARIOS.items():
        if only in (None, name):
            scenarios[name] = min(quick * getattr(module, "QUICK", 1), thorough) if tier == "quick" else thorough
    jobs = []
    for name, n in scenarios.items():
        jobs += [((i + 0.5) / n, name, i) for i in range(n)]
    jobs = [(name, i) for _, name, i in sorted(jobs)]

    merged = Counter()
    per_scenario = {name: Counter() for name in scenarios}
    states, digests, lines = set(), set(), {}
    violations, samples, known_seen = [], [], {}

    def on_result(result):
        c = per_scenario[result["scenario"]]
        c["cases"] += 1
        merged.update(result["counts"])
        states.update(result["states"])
        if result["nontrivial"]:
            c["nontrivial"] += 1
            digests.add(result["scenario"] + result["digest"])
        for name, new in result["lines"].items():
            lines.setdefault(name, set()).update(new)
        for key, what in result["known"].items():
            known_seen[key] = what
        if result["index"] == 0 and len(samples) < 6:
            samples.append({"scenario": result["scenario"], "events": result.get("trace", [])[:12]})
        if result["verdict"] == "violation":
            violations.append(result)

    deadline = started + WALL_BUDGET[tier]
    left, problem = run_jobs(jobs, (prop, module, seed, tier), deadline, on_result)

    evaluated = sum(c["cases"] for c in per_scenario.values())
    coverage = {
        "evaluations": evaluated,
        "distinct_nontrivial": len(digests),
        "rule": module.RULE,
        "samples": samples or ["no case ran"],
        "events": dict(sorted(merged.items())),
        "distinct_states": len(states),
        "cases_per_scenario": {k: dict(v) for k, v in per_scenario.items()},
        "cases_not_run": len(left),
        "package_lines_executed": {k: len(v) for k, v in sorted(lines.items())},
    }
    listed = load_known()
    unlisted = [k for k in known_seen if (prop, k) not in listed]
    for k in unlisted:
        violations.append({
            "scenario": "known", "index": 0, "kind": "unlisted-finding",
            "message": f"{k}: {known_seen[k]}", "verdict": "violation"})
    write_evidence(prop, seed, tier, module.LEVEL, coverage,
                   getattr(module, "ASSUMPTIONS", []), started, len(violations))

    for k in sorted(known_seen):
        if (prop, k) in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[(prop, k)]}")
    if violations:
        for n, v in enumerate(violations[:5]):
            v = dict(v, property=prop, seed=seed, tier=tier)
            v.pop("states", None)
            v.pop("lines", None)
            path = write_replay(prop, n, v)
            print(f"  {v['scenario']}#{v['index']}: {v['message']}"[:500])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if problem:
        print(f"INCONCLUSIVE property={prop}: {problem}")
        return 2
    if only is None:
        share = (evaluated / max(1, len(jobs))) if left else 1.0
        for counter, minimum in getattr(module, "REQUIRED", {}).items():
            if merged[counter] < max(1, int(minimum * share * 0.5)):
                print(f"INCONCLUSIVE property={prop}: only {merged[counter]} '{counter}' events "
                      f"(at least {minimum} expected)")
                return 2
        for name, c in per_scenario.items():
            if not c["nontrivial"]:
                print(f"INCONCLUSIVE property={prop}: scenario {name} observed nothing")
                return 2
    print(f"HELD property={prop} on {evaluated} cases ({len(digests)} distinct), "
          f"{merged['oracle_checks']} oracle checks, {time.monotonic() - started:.1f} s")
    return 0


def write_replay(prop, n, data):
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"replay-{prop}-{n}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def write_evidence(prop, seed, tier, level, coverage, assumptions, started, violations):
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    data = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": list(assumptions), "wall_s": round(time.monotonic() - started, 2),
        "violations": violations,
    }
    with open(os.path.join(folder, f"{prop}.json"), "w") as f:
        json.dump(data, f, indent=1, default=str)

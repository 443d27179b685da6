"""Concurrent histories: recording them, provoking interleavings, judging them.

`linearizable` is a Wing-Gong-Lowe search with memoisation over one object's history.
"""

import os
import random
import sys
import threading
import time

from . import core


class Op:
    __slots__ = ("name", "args", "result", "start", "end", "thread")

    def __init__(self, name, args, thread):
        self.name, self.args, self.thread = name, args, thread
        self.start = self.end = self.result = None

    def __repr__(self):
        return f"[{self.start}-{self.end} t{self.thread} {self.name}{self.args} -> {self.result}]"


class Recorder:
    """Logical clock shared by the threads: every invocation and response gets a tick."""

    def __init__(self):
        self.lock = threading.Lock()
        self.tick = 0
        self.ops = []

    def now(self):
        with self.lock:
            self.tick += 1
            return self.tick

    def run(self, thread, name, args, function):
        op = Op(name, args, thread)
        op.start = self.now()
        try:
            op.result = function()
        finally:
            op.end = self.now()
            with self.lock:
                self.ops.append(op)
        return op.result


def linearizable(ops, initial, step):
    """Is there an order of ops, consistent with real time, that `step` accepts?

    step(state, op) gives the next state, or None when op's result does not fit.
    States must be hashable. Returns True, False, or None when the search was cut off.
    """
    ops = sorted(ops, key=lambda o: o.start)
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, initial)]
    budget = 400000
    while stack:
        done, state = stack.pop()
        if done == full:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        budget -= 1
        if budget < 0:
            return None
        # An op may come next if no other pending op ended before it started
        first_end = min(o.end for i, o in enumerate(ops) if not done >> i & 1)
        for i, o in enumerate(ops):
            if done >> i & 1:
                continue
            if o.start > first_end:
                break
            nxt = step(state, o)
            if nxt is not None:
                stack.append((done | 1 << i, nxt[0]))
    return False


def overlaps(ops):
    """Number of pairs of operations of different threads that ran at the same time."""
    ops = sorted(ops, key=lambda o: o.start)
    n = 0
    for i, a in enumerate(ops):
        for b in ops[i + 1:]:
            if b.start > a.end:
                break
            if a.thread != b.thread:
                n += 1
    return n


def run_threads(ctx, bodies, sleep_chance=0.02, timeout=120):
    """Run the bodies on threads that are delayed at random lines of the package.

    Returns the exceptions they raised. The schedule depends on the machine; the
    delays are seeded, and every run of a case draws new interleavings from them.
    """
    root = os.path.join(core.REPO, "src", "valori") + os.sep
    errors = []
    seeds = [ctx.rng.getrandbits(32) for _ in bodies]
    barrier = threading.Barrier(len(bodies))
    delays = [0]

    def runner(body, seed):
        rnd = random.Random(seed)

        def local(frame, event, arg):
            if event == "line" and rnd.random() < sleep_chance:
                delays[0] += 1
                time.sleep(rnd.choice([0, 0, 0.0002, 0.001]))
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None

        try:
            barrier.wait()
            if sleep_chance:
                sys.settrace(tracer)
            body()
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)

    threads = [threading.Thread(target=runner, args=a, daemon=True) for a in zip(bodies, seeds)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(ctx.rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
    try:
        for t in threads:
            t.start()
        end = time.monotonic() + timeout
        for t in threads:
            t.join(max(0.0, end - time.monotonic()))
            if t.is_alive():
                raise core.Violation("threads blocked each other: an operation did not end",
                                     kind="deadlock")
    finally:
        sys.setswitchinterval(old)
    ctx.count("injected_delays", delays[0])
    return errors


def preempted(first, second, at, wait=0.004):
    """Run `first`, held up at its at-th line of the package until `second` has ended or waits for it.

    Returns how many lines `first` has, and the exceptions raised.
    """
    root = os.path.join(core.REPO, "src", "valori") + os.sep
    errors, lines = [], [0]
    go, done = threading.Event(), threading.Event()

    def local(frame, event, arg):
        if event == "line":
            lines[0] += 1
            if lines[0] == at:
                go.set()
                done.wait(wait)
        return local

    def run(body, before, after):
        try:
            before()
            body()
        except BaseException as e:
            errors.append(e)
        finally:
            sys.settrace(None)
            after.set()

    threads = [
        threading.Thread(target=run, args=(first, lambda: sys.settrace(
            lambda frame, event, arg: local if frame.f_code.co_filename.startswith(root) else None), go), daemon=True),
        threading.Thread(target=run, args=(second, go.wait, done), daemon=True),
    ]
    for t in threads:
        t.start()
    for t in threads:
        t.join(60)
        if t.is_alive():
            raise core.Violation("threads blocked each other: an operation did not end", kind="deadlock")
    return lines[0], errors

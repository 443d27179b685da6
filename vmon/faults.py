"""Fault injection at file operations of a forked child.

Every mutation of the file system below `folder` (opening for writing, replacing,
removing, making a directory) is one point. At the chosen point the operation fails
with an OSError, or the process ends there and then. A file size limit, in bytes,
cuts a write short in the middle, with an error or with the death of the process.
"""

import contextlib
import errno
import json
import os
import resource
import signal
import sys
import time

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
MUTATIONS = {"os.rename": 0, "os.remove": 0, "os.mkdir": 0, "os.rmdir": 0, "os.truncate": 0,
             "os.link": 1, "os.symlink": 1, "shutil.move": 1, "shutil.copyfile": 1}


class Plan:
    """kind: None (count only), 'error', 'crash', 'limit-error', 'limit-crash'."""

    def __init__(self, kind=None, point=None, limit=None):
        self.kind, self.point, self.limit = kind, point, limit

    def __repr__(self):
        return f"{self.kind}@{self.point if self.point is not None else self.limit}"


def child(folder, plan, before, operation, after=None):
    """In a forked child: before(), arm, operation(), disarm, after(outcome).

    Returns {"outcome": 'done'|'raised'|'crashed', "result", "error", "points", "after"}.
    """
    folder = os.path.realpath(folder)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 71
        try:
            os.close(rfd)
            signal.setitimer(signal.ITIMER_PROF, 0)
            report = _in_child(folder, plan, before, operation, after, wfd)
            os.write(wfd, (json.dumps(report) + "\n").encode())
            code = 0
        except BaseException as e:
            try:
                os.write(wfd, (json.dumps({"broken": f"{type(e).__name__}: {e}"}) + "\n").encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wfd)
    data = b""
    while True:
        chunk = os.read(rfd, 65536)
        if not chunk:
            break
        data += chunk
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    lines = [json.loads(x) for x in data.decode().splitlines() if x]
    report = {"outcome": "crashed", "points": 0, "trail": []}
    for x in lines:
        report.update(x)
    if "broken" in report:
        raise RuntimeError("the child of the harness failed: " + report["broken"])
    report["status"] = status
    return report


def _in_child(folder, plan, before, operation, after, wfd):
    # the inherited line monitor stays on; its data is lost with the child
    before()
    state = {"armed": False, "points": 0, "trail": []}

    def hook(event, args):
        if not state["armed"]:
            return
        if event == "open":
            path, mode, flags = args
            if not (isinstance(flags, int) and flags & WRITE):
                return
        elif event in MUTATIONS:
            path = args[0]
        else:
            return
        try:
            path = os.fsdecode(path)
        except TypeError:
            return
        if not os.path.abspath(path).startswith(folder):
            return
        point = state["points"]
        state["points"] += 1
        state["trail"].append(f"{event} {os.path.relpath(path, folder)}")
        if point == plan.point:
            if plan.kind == "crash":
                os.write(wfd, (json.dumps({"points": point, "trail": state["trail"]}) + "\n").encode())
                os._exit(9)
            if plan.kind == "error":
                raise OSError(errno.ENOSPC, "injected: no space left on device", path)

    sys.addaudithook(hook)
    report = {}
    if plan.limit is not None:
        signal.signal(signal.SIGXFSZ,
                      signal.SIG_IGN if plan.kind == "limit-error" else signal.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (plan.limit, resource.RLIM_INFINITY))
    state["armed"] = True
    try:
        report["result"] = operation()
        report["outcome"] = "done"
    except Exception as e:
        report["outcome"] = "raised"
        report["error"] = type(e).__name__
        report["text"] = str(e)[:300]
    state["armed"] = False
    if plan.limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    report["points"] = state["points"]
    report["trail"] = state["trail"]
    if after is not None:
        report["after"] = after(report)
    return report


# In this process, rather than a child: what is armed, if the hook has been set already
_hampered = []


def _hamper(event, args):
    if not _hampered or event not in ACCESSES or not args:
        return
    plan = _hampered[0]
    try:
        path = os.path.realpath(os.fsdecode(args[0]))
    except (TypeError, ValueError):
        return
    if path == plan["folder"] or path.startswith(plan["folder"] + os.sep):
        plan["seen"] += 1
        if plan["seen"] > plan["point"] and not plan["struck"]:
            plan["struck"] = True
            raise OSError(errno.EIO, "Input/output error (injected)", path)


ACCESSES = {"open", "os.listdir", "os.scandir", "os.mkdir", "os.rename", "os.remove", "os.truncate"}


@contextlib.contextmanager
def hampered(folder, point):
    """The operating system refuses the access number `point` (counted from 0) to something in a folder, once."""
    if not hampered.set:
        hampered.set = True
        sys.addaudithook(_hamper)
    plan = {"folder": os.path.realpath(folder), "point": point, "seen": 0, "struck": False}
    _hampered.append(plan)
    try:
        yield plan
    finally:
        _hampered.remove(plan)


hampered.set = False

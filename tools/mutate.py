"""Mutation sweep: which small changes of the code does no check notice?

    mutate.py [--per-file N] [--seed S] [--jobs J] [--files a.py,b.py] OUT

Changes one place of a scratch copy of /repo at a time (a comparison, an operator, a constant, a deleted statement, a
dropped copy) and runs the quick checks of the properties anchored in that file until one reports a violation. What
survives is written to OUT, to be judged by hand: either nobody can tell the difference, or a check has a hole.
Nothing here is part of a check.
"""

import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/valori"
SKIP = {"exceptions.py", "__init__.py", "llama_parser.py", "base.py"}


def anchors():
    out = {}
    with open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8") as f:
        for line in f:
            p = json.loads(line)
            for name in p["anchors"]["files"]:
                out.setdefault(name, []).append((len(p["anchors"]["files"]), p["id"]))
    return {k: [i for _, i in sorted(v)] for k, v in out.items()}


COMPARE = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
           ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BINARY = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "+"}


def mutants(source):
    """[(line, description, new source)]"""
    tree = ast.parse(source)
    lines = source.split("\n")
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = source.encode()

    def at(node, end=False):
        return starts[(node.end_lineno if end else node.lineno) - 1] + (node.end_col_offset if end else node.col_offset)

    def text(node):
        return raw[at(node):at(node, True)].decode()

    out = []

    def put(node, new, what):
        changed = (raw[:at(node)] + new.encode() + raw[at(node, True):]).decode()
        try:
            ast.parse(changed)
        except SyntaxError:
            return
        out.append((node.lineno, what, changed))

    def between(left, right, new, what):
        a, b = at(left, True), at(right)
        op = raw[a:b].decode()
        changed = (raw[:a] + b" " + new.encode() + b" " + (b"(" if "(" in op else b"") + raw[b:]).decode()
        try:
            ast.parse(changed)
        except SyntaxError:
            return
        out.append((left.lineno, what, changed))

    def walk(node, quiet):
        if isinstance(node, ast.Raise) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            quiet = True
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "print":
            quiet = True
        if isinstance(node, (ast.Expr, ast.Call)) and "logger." in text(node)[:40]:
            quiet = True
        if not quiet:
            if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in COMPARE:
                new = COMPARE[type(node.ops[0])]
                between(node.left, node.comparators[0], new, f"{text(node)}: {new}")
            if isinstance(node, ast.BoolOp):
                new = "or" if isinstance(node.op, ast.And) else "and"
                between(node.values[0], node.values[1], new, f"{text(node)}: {new}")
            if isinstance(node, ast.BinOp) and type(node.op) in BINARY:
                new = BINARY[type(node.op)]
                between(node.left, node.right, new, f"{text(node)}: {new}")
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                put(node, str(node.value + 1), f"{node.value} -> {node.value + 1}")
            if isinstance(node, ast.Constant) and type(node.value) is bool:
                put(node, str(not node.value), f"{node.value} -> {not node.value}")
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                put(node, f"({text(node.operand)})", f"{text(node)}: without not")
            if isinstance(node, (ast.If, ast.While)):
                put(node.test, "False", f"if {text(node.test)}: never")
                if isinstance(node, ast.If):
                    put(node.test, "True", f"if {text(node.test)}: always")
            if isinstance(node, ast.IfExp):
                put(node, f"({text(node.body)})", f"{text(node)}: always")
                put(node, f"({text(node.orelse)})", f"{text(node)}: never")
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (
                    isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
                put(node, "pass", f"deleted: {text(node)}")
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                if node.func.attr == "copy" and not node.args:
                    put(node, text(node.func.value), f"no copy: {text(node)}")
                if node.func.attr == "deepcopy":
                    put(node, text(node.args[0]), f"no copy: {text(node)}")
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
                    "min", "max", "sorted", "set", "list", "abs", "reversed"):
                if len(node.args) == 1 and node.func.id not in ("min", "max"):
                    put(node, f"({text(node.args[0])})", f"without {node.func.id}: {text(node)}")
                elif len(node.args) == 2:
                    put(node, f"({text(node.args[0])})", f"first of {text(node)}")
                    put(node, f"({text(node.args[1])})", f"second of {text(node)}")
            if isinstance(node, ast.Slice):
                for side in (node.lower, node.upper):
                    if side is not None:
                        put(side, f"({text(side)}) + 1", f"slice {text(side)} + 1")
            if isinstance(node, ast.Raise):
                put(node, "pass", "deleted raise")
        if isinstance(node, ast.Raise):
            put(node, "pass", f"deleted: {text(node)[:80]}")
        for child in ast.iter_child_nodes(node):
            if isinstance(node, (ast.FunctionDef,)) and child in node.decorator_list:
                continue
            walk(child, quiet)

    walk(tree, False)
    return out


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--per-file", type=int, default=20)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--jobs", type=int, default=4)
    parser.add_argument("--files", default="")
    args = parser.parse_args()
    rng = random.Random(args.seed)
    by_file = anchors()
    work = []
    for name in sorted(by_file):
        if os.path.basename(name) in SKIP or not name.endswith(".py"):
            continue
        if args.files and not any(f in name for f in args.files.split(",")):
            continue
        with open(os.path.join("/repo", name), encoding="utf-8", newline="") as f:
            source = f.read()
        found = mutants(source)
        rng.shuffle(found)
        work += [(name, *m) for m in found[:args.per_file]]
    rng.shuffle(work)
    copies = []
    for j in range(args.jobs):
        place = f"/tmp/mut/repo{j}"
        shutil.rmtree(place, ignore_errors=True)
        shutil.copytree("/repo", place, symlinks=True)
        copies.append(place)
    shutil.rmtree("/tmp/mut/verif", ignore_errors=True)
    shutil.copytree(VERIF, "/tmp/mut/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
    lock = threading.Lock()
    free = list(copies)
    out = open(args.out, "a")

    def one(job):
        name, line, what, changed = job
        with lock:
            place = free.pop()
        target = os.path.join(place, name)
        try:
            with open(target, "w", encoding="utf-8", newline="") as f:
                f.write(changed)
            for check in by_file[name]:
                environment = dict(os.environ, VMON_REPO=place, VMON_WORKERS="2", VERIF_TIER="quick")
                try:
                    r = subprocess.run(["/opt/venv/bin/python", "check.py", check, "--seed", "1"], cwd="/tmp/mut/verif",
                                       env=environment, capture_output=True, timeout=240)
                except subprocess.TimeoutExpired:
                    return job, f"{check} timeout"
                if r.returncode:
                    return job, check
            return job, None
        finally:
            shutil.copyfile(os.path.join("/repo", name), target)
            with lock:
                free.append(place)

    killed = 0
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
        for n, (job, check) in enumerate(pool.map(one, work)):
            name, line, what, _ = job
            killed += check is not None
            out.write(f"{'SURVIVED' if check is None else check:9} {name}:{line} {' '.join(what.split())[:160]}\n")
            out.flush()
    out.write(f"{killed} of {len(work)} killed\n")
    for place in copies + ["/tmp/mut/verif"]:
        shutil.rmtree(place, ignore_errors=True)


if __name__ == "__main__":
    main()

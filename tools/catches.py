"""Which checks catch which planted changes: writes /verif/CATCHES.md.

    catches.py [--jobs N] [--all]

Applies each seeded patch to a scratch copy of /repo and runs the check of its property, and with --all also every check
anchored in a file it touches, in the quick tier (seed 1). Nothing here is part of a check.
"""

import argparse
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def anchors():
    out = {}
    with open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8") as f:
        for line in f:
            p = json.loads(line)
            out[p["id"]] = {os.path.basename(w) for w in re.findall(r"[\w/]+\.py", json.dumps(p))}
    return out


def one(folder, known, everything):
    with open(os.path.join(folder, "meta.json"), encoding="utf-8") as f:
        meta = json.load(f)
    with open(os.path.join(folder, "patch.diff"), encoding="utf-8") as f:
        touched = {os.path.basename(p) for p in re.findall(r"^\+\+\+ b/(\S+)", f.read(), re.M)}
    scratch = tempfile.mkdtemp(prefix="catches-")
    try:
        copy = os.path.join(scratch, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "apply", os.path.join(folder, "patch.diff")], check=True)
        ids = [meta["property"]]
        if everything:
            ids += sorted(i for i, files in known.items() if files & touched and i != meta["property"])
        caught = []
        for i in ids:
            work = os.path.join(scratch, "verif")
            if not os.path.isdir(work):
                shutil.copytree(VERIF, work, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "__pycache__"))
            env = dict(os.environ, VMON_REPO=copy, VMON_WORKERS="2", PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run(["/opt/venv/bin/python", "check.py", i, "--seed", "1"], cwd=work, env=env,
                               capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={i} " in r.stdout:
                caught.append(i)
        return os.path.basename(folder), meta, ids, caught
    finally:
        shutil.rmtree(scratch)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--jobs", type=int, default=4)
    parser.add_argument("--all", action="store_true")
    args = parser.parse_args()
    known = anchors()
    folders = sorted(glob.glob(os.path.join(VERIF, "seeded", "*")))
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
        rows = list(pool.map(lambda f: one(f, known, args.all), folders))
    with open(os.path.join(VERIF, "CATCHES.md"), "w", encoding="utf-8") as f:
        f.write("# Planted changes and the checks that catch them\n\n"
                "Written by `tools/catches.py` (quick tier, seed 1), which runs the check of the property"
                + (" and those anchored in a file the change touches" if args.all else "") + ".\n\n"
                "| change | property | caught by | asked, silent | what it breaks |\n|---|---|---|---|---|\n")
        for name, meta, ids, caught in rows:
            what = meta["what_it_breaks"].replace("|", "/").replace("\n", " ")
            f.write(f"| {name} | {meta['property']} | {', '.join(caught) or 'nothing'} | "
                    f"{', '.join(i for i in ids if i not in caught)} | {what} |\n")


if __name__ == "__main__":
    main()

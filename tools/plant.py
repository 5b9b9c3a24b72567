"""Plants the bugs described in tools/bugs.py in scratch copies of /repo and tries everything on them.

    python3 tools/plant.py ID...      write seeded/<ID>/ and try it (all: every one)
    python3 tools/plant.py -t ID...   only try the checks on what is in seeded/
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# Exits 0 if norfair in the current directory behaves, nonzero otherwise.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=300):
    try:
        return subprocess.run(
            cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True,
            text=True, timeout=timeout, check=False,
        )
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timed out")


def tree():
    folder = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    repo = os.path.join(folder, "repo")
    sh(["git", "-c", "advice.detachedHead=false", "clone", "-q", "--no-hardlinks", "/repo", repo], "/tmp")
    return folder, repo


def tests(repo):
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--disable-warnings", "tests"], repo,
           {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"})
    base = json.load(open("/opt/vp/BASELINE.json"))
    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
    return tail, base


def check(prop, repo, seed="1", workers="8"):
    r = sh(["./check", "run", prop, "quick"], HERE, {"DST_REPO": repo, "VERIF_SEED": seed, "DST_WORKERS": workers})
    line = [l for l in r.stdout.splitlines() if l.startswith("violation:")]
    run = re.search(r"run=(\d+) of", r.stdout)
    return r.returncode, (run.group(1) if run else "-"), (line[0][11:150] if line else r.stderr[-300:])


def one(bug, write=True):
    name = bug["id"]
    folder, repo = tree()
    out = os.path.join(HERE, "seeded", name)
    res = [name]
    try:
        if write:
            for path, old, new in bug["edits"]:
                full = os.path.join(repo, path)
                text = open(full).read()
                if text.count(old) != 1:
                    return f"{name}: edit of {path} matches {text.count(old)} times"
                open(full, "w").write(text.replace(old, new))
            os.makedirs(out, exist_ok=True)
            diff = sh(["git", "diff"], repo).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
            with open(os.path.join(out, "demo.sh"), "w") as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
        else:
            r = sh(["git", "apply", os.path.join(out, "patch.diff")], repo)
            if r.returncode:
                return f"{name}: patch does not apply: {r.stderr}"
        r = sh([PY, "-c", "import norfair, norfair.metrics, norfair.drawing, norfair.video; print(norfair.__file__)"], repo, {"PYTHONPATH": repo})
        assert repo in r.stdout, r
        res.append("tests: " + tests(repo)[0])
        d0 = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        d1 = sh(["bash", os.path.join(out, "demo.sh")], repo)
        res.append(f"demo clean={d0.returncode} bug={d1.returncode}"
                   + (" BAD-DEMO " + (d0.stderr + d0.stdout)[-300:] if d0.returncode or not d1.returncode else ""))
        prop = json.load(open(os.path.join(out, "meta.json")))["property"]
        code, run, msg = check(prop, repo, workers="4")
        res.append(f"{prop}: {'CAUGHT' if code == 1 else 'MISSED' if code == 0 else 'ERROR'} run {run} {msg}")
    finally:
        shutil.rmtree(folder)
    return " | ".join(res)


def main():
    args = sys.argv[1:]
    only = args and args[0] == "-t"
    if only:
        args = args[1:]
    sys.path.insert(0, os.path.join(HERE, "tools"))
    from bugs import BUGS
    bugs = {b["id"]: b for b in BUGS}
    if only and (not args or args == ["all"]):
        args = sorted(os.listdir(os.path.join(HERE, "seeded")))
    if args == ["all"] or not args:
        args = list(bugs)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for line in ex.map(lambda n: one(bugs.get(n, {"id": n}), not only), args):
            print(line, flush=True)


main()

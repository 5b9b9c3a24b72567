"""Undoes each fix: commit in a scratch copy of /repo and sees whether its check reports it again."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, check=False)


def one(entry):
    prop, commit, what = entry
    folder = tempfile.mkdtemp(prefix="revert_", dir="/tmp")
    repo = os.path.join(folder, "repo")
    try:
        sh(["git", "clone", "-q", "--no-hardlinks", "/repo", repo], "/tmp")
        r = sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", commit], repo)
        if r.returncode:
            return f"{prop} {commit} {what[:60]}: REVERT CONFLICT {r.stderr[:120]}"
        r = sh(["./check", "run", prop, "quick"], HERE, {"DST_REPO": repo, "DST_WORKERS": "4", "DST_FAST": "1"})
        line = [l for l in r.stdout.splitlines() if l.startswith("violation:")]
        return f"{prop} {commit} {what[:60]}: exit {r.returncode} {(line or [r.stderr[-200:]])[0][10:140]}"
    finally:
        shutil.rmtree(folder)


def main():
    data = json.load(open(os.path.join(HERE, "known_findings.json"), encoding="utf-8"))
    entries = []
    for f in data["fixed"]:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f if isinstance(f, str) else f["entry"])
        entries.append(m.groups())
    if sys.argv[1:]:
        entries = [e for e in entries if e[0] in sys.argv[1:] or e[1] in sys.argv[1:]]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for line in ex.map(one, entries):
            print(line, flush=True)


main()

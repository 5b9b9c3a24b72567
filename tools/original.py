"""Lists planted bugs whose change does not touch lines of the original repository."""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "e113bb7"


def blame(path):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", path], capture_output=True, text=True, check=True).stdout
    return [line.startswith("^" + BASE) for line in out.splitlines()]


for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    blamed, ok, edges, path, n = {}, False, [], None, 0
    for line in open(os.path.join(HERE, "seeded", name, "patch.diff")):
        if line.startswith("--- a/"):
            path = line[6:].strip()
            blamed.setdefault(path, blame(path))
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif path is None or line.startswith(("+++", "diff", "index")):
            continue
        elif line.startswith("-"):
            ok |= blamed[path][n - 1]
            n += 1
        elif line.startswith("+"):
            edges.append(any(blamed[path][i] for i in (n - 2, n - 1) if 0 <= i < len(blamed[path])))
        else:
            n += 1
    print(name, "ok" if ok else "pure addition at original lines" if any(edges) else "NOT ORIGINAL")

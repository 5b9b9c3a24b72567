"""Mutation testing of the checks: syntactic changes of norfair that the tests do not notice.

    python3 tools/mutate.py FILE.py[:FROM-TO] ... [--sample N] [--jobs J] [--seed S]

Appends one JSON line per mutant that survives the tests to /tmp/mut/results.jsonl, with the
check that notices it, or null. A way to find gaps; what it reports is judged by hand.
"""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
OUT = "/tmp/mut/results.jsonl"
ALL = [f"C{i:02d}" for i in range(1, 29)]
ORDER = {
    "tracker.py": ["C05", "C07", "C01", "C11", "C08", "C10", "C13", "C15", "C09", "C31", "C38", "C03", "C06", "C36", "C12"],
    "filter.py": ["C11", "C10", "C38", "C36", "C31"],
    "distances.py": ["C05", "C33", "C38", "C31", "C32", "C08"],
    "camera_motion.py": ["C23", "C24", "C35", "C36", "C28", "C09"],
    "video.py": ["C16", "C17", "C19", "C18", "C28"],
    "metrics.py": ["C20", "C21", "C37", "C22", "C18", "C28", "C19"],
    "utils.py": ["C25", "C21", "C19", "C20", "C22", "C16", "C28"],
    "drawing": ["C25", "C27", "C26", "C39", "C35", "C34"],
}


def order(path):
    if "drawing" in path:
        return ORDER["drawing"]
    return ORDER[os.path.basename(path)]


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Mod: "*", ast.FloorDiv: "*", ast.Pow: "*"}


def mutants(source):
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = source.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, what, a, b, new))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
            f = n.body[0]
            if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
                docs.add(id(f))
                docs.add(id(f.value))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.arg, ast.AnnAssign)) and n.annotation is not None:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip.update(id(x) for x in ast.walk(n.returns))
    infunc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            infunc.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in skip or id(n) not in infunc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            op = type(n.ops[0])
            put(n, f"({l} {CMP[op]} {r})", f"{text(n)} -> {CMP[op]}")
            if op in (ast.Lt, ast.GtE, ast.Gt, ast.LtE):
                flip = {ast.Lt: ">", ast.GtE: "<", ast.Gt: "<", ast.LtE: ">"}[op]
                put(n, f"({l} {flip} {r})", f"{text(n)} -> {flip}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            put(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", f"{text(n)} -> {BIN[type(n.op)]}")
            put(n, f"({text(n.left)})", f"{text(n)} -> left")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(f"({text(v)})" for v in n.values) + ")", f"{text(n)} ->{op}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({text(n.operand)})", f"{text(n)} -> without not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(n, f"({text(n.operand)})", f"{text(n)} -> positive")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), f"{v} -> {not v}")
            elif isinstance(v, int):
                put(n, str(v + 1), f"{v} -> {v + 1}")
                if v:
                    put(n, str(v - 1), f"{v} -> {v - 1}")
            elif isinstance(v, float):
                put(n, repr(v * 2 + 0.5), f"{v} -> {v * 2 + 0.5}")
        elif isinstance(n, ast.AugAssign):
            op = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/="}.get(type(n.op))
            if op:
                put(n, f"{text(n.target)} {op} {text(n.value)}", f"{text(n)} -> {op}")
            put(n, f"{text(n.target)} = {text(n.value)}", f"{text(n)} -> =")
            put(n, "pass", f"drop {text(n)}")
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            put(n, "pass", f"drop {text(n)}")
        elif isinstance(n, ast.Expr):
            put(n, "pass", f"drop {text(n)}")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "True", f"if {text(n.test)} -> True")
            put(n.test, "False", f"if {text(n.test)} -> False")
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", f"drop {text(n)}")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(n, text(n.func.value), f"{text(n)} -> no copy")
            for k in n.keywords:
                if k.arg and len(n.keywords) > 1:
                    pass
    res = []
    for lineno, what, a, b, new in out:
        res.append((lineno, what.replace("\n", " ")[:160], raw[:a].decode() + new + raw[b:].decode()))
    return res


def sh(cmd, cwd, env, timeout):
    try:
        return subprocess.run(cmd, cwd=cwd, env={**os.environ, **env}, capture_output=True, text=True,
                              timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def one(job):
    path, lineno, what, text = job
    try:
        compile(text, path, "exec")
    except SyntaxError:
        return None
    folder = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    repo = os.path.join(folder, "repo")
    try:
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "docs", "demos", "__pycache__"))
        with open(os.path.join(repo, "norfair", path), "w") as f:
            f.write(text)
        env = {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
               "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--disable-warnings", "tests"], repo, env, 60)
        if r.returncode != 0:
            return "killed"
        caught, errors = None, []
        for prop in order(path):
            r = sh(["./check", "run", prop, "quick"], HERE,
                   {"DST_REPO": repo, "DST_FAST": "1", "DST_WORKERS": "2", "VERIF_SEED": "1"}, 900)
            if r.returncode == 1:
                line = [l for l in r.stdout.splitlines() if l.startswith("violation:")]
                caught = (prop, (line or ["?"])[0][11:120])
                break
            if r.returncode != 0:
                errors.append((prop, r.returncode, (r.stderr or r.stdout)[-200:]))
        rec = {"file": path, "line": lineno, "what": what, "caught": caught, "errors": errors}
        with open(OUT, "a") as f:
            f.write(json.dumps(rec) + "\n")
        return "caught" if caught else "missed"
    finally:
        shutil.rmtree(folder)


def main():
    args = sys.argv[1:]
    opt = {"--sample": "0", "--jobs": "4", "--seed": "1"}
    files = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            files.append(a)
    done = set()
    if os.path.exists(OUT):
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(OUT))}
    jobs = []
    for spec in files:
        path, _, rng = spec.partition(":")
        lo, hi = map(int, rng.split("-")) if rng else (1, 10**9)
        jobs += [(path,) + m for m in mutants(open(os.path.join("/repo/norfair", path)).read()) if lo <= m[0] <= hi]
    jobs = [j for j in jobs if j[:3] not in done]
    random.Random(int(opt["--seed"])).shuffle(jobs)
    if int(opt["--sample"]):
        jobs = jobs[: int(opt["--sample"])]
    count = {}
    with concurrent.futures.ThreadPoolExecutor(int(opt["--jobs"])) as ex:
        for k, r in enumerate(ex.map(one, jobs)):
            count[r] = count.get(r, 0) + 1
            if k % 20 == 19 or k == len(jobs) - 1:
                print(k + 1, "of", len(jobs), count, flush=True)


main()

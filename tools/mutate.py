"""Small random changes to the library, one at a time, in clones: which ones do the
checks see, and which of the others do the tests of the repository see?

    mutate.py OUT.jsonl SEED COUNT PARALLEL [FILE...]

A change neither sees is either without effect or a gap.  Clones live in /tmp/mut.
"""

import ast
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get("MUT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "tracking_frame_buf.py": "S01 S02 S03 T01 S04 T02 O01 V02 P01",
    "track.py": "T02 T03 T07 T08 T06 T04",
    "tracking_run.py": "T02 T07 T04",
    "correspondences.py": "V02 V01",
    "find_candidate.py": "V02 V01",
    "orientation.py": "V03 C01 S07 C02",
    "sortgrid.py": "C02 C01 S07",
    "calibration.py": "S05 O01 S07",
    "parameters.py": "S06 O01 S07",
    "multimed.py": "G01 M01 V03",
    "ray_tracing.py": "G01 V03 V02",
    "imgcoord.py": "G01 C01",
    "trafo.py": "G01 V02 T02",
    "epi.py": "G01 V02",
    "segmentation.py": "D01 P01",
    "vec_utils.py": "G01 T07 V03 C01",
}
SKIP = {"peak_fit", "peak_fit_new", "check_touch", "__repr__", "__str__", "filter_3", "lowpass_3"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def sites(text):
    """[(line, start, end, old, new)] of single-line changes."""
    lines = text.split("\n")
    out = []

    def seg(n):
        return lines[n.lineno - 1][n.col_offset : n.end_col_offset]

    def add(line, a, b, new, what):
        out.append((line, a, b, new, what))

    def between(left, right):
        if left.end_lineno != right.lineno:
            return None
        return left.end_lineno, left.end_col_offset, right.col_offset

    def visit(node, fn):
        for n in ast.iter_child_nodes(node):
            name = n.name if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else fn
            if name in SKIP:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                b = between(n.left, n.comparators[0])
                for op in CMP[type(n.ops[0])] if b else []:
                    add(b[0], b[1], b[2], f" {op} ", f"{fn}: compare")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                b = between(n.left, n.right)
                if b and lines[b[0] - 1][b[1] : b[2]].strip() in "+-*/":
                    add(b[0], b[1], b[2], f" {BIN[type(n.op)]} ", f"{fn}: arithmetic")
            if isinstance(n, ast.BoolOp) and len(n.values) == 2:
                b = between(*n.values)
                if b:
                    t = lines[b[0] - 1][b[1] : b[2]]
                    new = t.replace("and", "or") if "and" in t else t.replace("or", "and")
                    add(*b, new, f"{fn}: bool")
            if isinstance(n, ast.Constant) and type(n.value) is int and n.lineno == n.end_lineno:
                for d in (1, -1):
                    add(n.lineno, n.col_offset, n.end_col_offset, str(n.value + d), f"{fn}: constant")
            if isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n.lineno, n.col_offset, n.end_col_offset, str(not n.value), f"{fn}: constant")
            if (
                isinstance(n, (ast.Assign, ast.AugAssign))
                or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)
                or isinstance(n, (ast.Continue, ast.Break))
            ) and n.lineno == n.end_lineno and fn:
                add(n.lineno, n.col_offset, n.end_col_offset, "pass", f"{fn}: dropped")
            if isinstance(n, ast.If) and n.test.lineno == n.test.end_lineno and fn:
                add(n.test.lineno, n.test.col_offset, n.test.end_col_offset, f"not ({seg(n.test)})", f"{fn}: negated")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and n.lineno == n.end_lineno:
                add(n.lineno, n.func.value.end_col_offset, n.end_col_offset, "", f"{fn}: no copy")
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and n.lineno == n.end_lineno and not isinstance(n.operand, ast.Constant):
                add(n.lineno, n.col_offset, n.operand.col_offset, "", f"{fn}: sign")
            visit(n, name)

    visit(ast.parse(text), "")
    return out


def clone(k):
    d = f"/tmp/mut/w{k}"
    if not os.path.isdir(d):
        os.makedirs("/tmp/mut", exist_ok=True)
        subprocess.run(["cp", "-a", SRC, d], check=True)
    return d


def check(d, name, workers):
    env = dict(os.environ, SIM_REPO=d)
    for pid in CHECKS[name].split():
        p = subprocess.run(
            [f"{HERE}/run", pid, "--no-evidence", "--no-shrink", "--workers", str(workers)],
            env=env, capture_output=True, text=True, timeout=900,
        )  # fmt: skip
        if p.returncode:
            for x in p.stdout.split("\n"):
                if "VIOLATION" in x or "ERROR" in x:
                    return pid + " " + x[:160]
            return pid + " exit " + str(p.returncode)
    return None


def tests(d):
    p = subprocess.run(
        ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; cd $0 && timeout 600 /opt/venv/bin/python -B -m pytest -q -x "
         "-p no:cacheprovider --deselect tests/test_orientation.py -q 2>&1 | tail -3; exit ${PIPESTATUS[0]}", d],
        capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=d, NUMBA_CACHE_DIR=d + "/.nc"),
    )  # fmt: skip
    return p.returncode == 0, p.stdout[-200:]


def main():
    out, seed, count, par = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    names = sys.argv[5:] or sorted(CHECKS)
    rng = random.Random(seed)
    jobs = []
    for n in names:
        text = open(f"{SRC}/openptv_python/{n}").read()
        jobs += [(n, *s) for s in sites(text)]
    rng.shuffle(jobs)
    free = list(range(par))

    def one(job):
        name, line, a, b, new, what = job
        k = free.pop()
        d = clone(k)
        path = f"{d}/openptv_python/{name}"
        text = open(f"{SRC}/openptv_python/{name}").read()
        lines = text.split("\n")
        old = lines[line - 1]
        lines[line - 1] = old[:a] + new + old[b:]
        try:
            ast.parse("\n".join(lines))
        except SyntaxError:
            free.append(k)
            return
        rec = {"file": name, "line": line, "what": what, "old": old.strip(), "new": lines[line - 1].strip()}
        try:
            open(path, "w").write("\n".join(lines))
            rec["caught"] = check(d, name, max(1, 8 // par))
        except subprocess.TimeoutExpired:
            rec["caught"] = "timeout"
        finally:
            open(path, "w").write(text)
            free.append(k)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")

    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, jobs[:count]))


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Mutation of the sources, to look for what no check sees (development tool, not a check).

mutate.py FILE[,FILE] [--n N] [--seed S] [--jobs J] [--lines A-B]: N random mutants of otpod/FILE.py,
each judged by the checks of the file until one reports a violation. Survivors are printed; they
are equivalent mutants, parts left aside, or weaknesses, to be read one by one."""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
CHECKS = {
    "_adaptive_hitmiss_pod": "C14 C18 C22 C09 C20 C19",
    "_adaptive_signal_pod": "C13 C18 C22 C21 C20 C09 C19 C04",
    "_kriging_pod": "C12 C21 C18 C04 C20 C09 C01 C19",
    "_kriging_tools": "C12 C21 C13 C18 C20 C15 C14",
    "_math_tools": "C01 C02 C05 C03 C04 C07 C08 C10 C21 C11 C12 C13 C20 C16 C15",
    "_pli": "C16 C20 C18",
    "_pli_pod": "C16 C18 C20",
    "_pod": "C09 C20 C01 C18 C04 C07",
    "_pod_summary": "C17 C18 C22 C19",
    "_polynomial_chaos_pod": "C11 C21 C18 C20 C09 C04 C01 C19",
    "_quantile_regression_pod": "C10 C21 C09 C20 C18 C04 C01 C19",
    "_sobol_indices": "C15 C18 C20",
    "_univariate_linear_model_analysis": "C02 C05 C06 C20 C03 C04 C01 C21 C17",
    "_univariate_linear_model_pod": "C07 C08 C03 C09 C20 C18 C04 C01 C21 C19",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}


def sites(src):
    """(start offset, end offset, replacement)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    start = [0]
    for l in lines:
        start.append(start[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def visit(n, stmt=None):
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.JoinedStr)):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        a = b = None
        if hasattr(n, "lineno"):
            a, b = span(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            out.append((a, b, "(%s) %s (%s)" % (text(l), CMP[type(n.ops[0])], text(r))))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            strs = [k for k in ast.walk(n) if isinstance(k, ast.Constant) and isinstance(k.value, str)]
            if not strs:
                out.append((a, b, "((%s) %s (%s))" % (text(n.left), OPS[type(n.op)], text(n.right))))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append((a, b, "(" + op.join("(%s)" % text(v) for v in n.values) + ")"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((a, b, "(%s)" % text(n.operand)))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None))):
            if isinstance(n.value, bool):
                out.append((a, b, repr(not n.value)))
            elif isinstance(n.value, int):
                out.append((a, b, repr(n.value + 1)))
            elif isinstance(n.value, float):
                out.append((a, b, repr(n.value * 1.1 + 0.01)))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((a, b, "pass"))
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            out.append((a, b, "pass"))
        elif isinstance(n, ast.AugAssign):
            out.append((a, b, "pass"))
        elif isinstance(n, ast.If):
            ta, tb = span(n.test)
            out.append((ta, tb, "(False and (%s))" % text(n.test)))
        for k in ast.iter_child_nodes(n):
            visit(k)
    visit(tree)
    return out


def judge(job):
    k, f, src, (a, b, new), checks, keep = job
    raw = src.encode()
    mut = (raw[:a] + new.encode() + raw[b:]).decode()
    line = raw[:a].decode().count("\n") + 1
    name = "%s:%d: %s -> %s" % (f, line, " ".join(raw[a:b].decode().split())[:110], " ".join(new.split())[:60])
    try:
        ast.parse(mut)
    except SyntaxError:
        return name, "syntax"
    d = "/tmp/mut/%s_%d" % (f, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo/otpod", d + "/otpod", ignore=shutil.ignore_patterns("__pycache__"))
    with open("%s/otpod/%s.py" % (d, f), "w") as g:
        g.write(mut)
    e = dict(os.environ, OTPOD_REPO=d, VERIF_SHRINK="0", VERIF_FIRST="1")
    e.pop("VERIF_CHILD", None)
    try:
        for c in checks:
            p = subprocess.run(["nice", "-n", "19", PY, os.path.join(ROOT, "run.py"), c], env=e,
                               capture_output=True, text=True)
            if p.returncode == 1:
                m = [l for l in p.stdout.splitlines() if l.startswith(c)]
                return name, "caught by %s (%s)" % (c, (m or ["?"])[0][:100])
            if p.returncode != 0:
                return name, "ERROR %s %s" % (c, (p.stdout + p.stderr)[-200:])
        return name, "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("files")
    p.add_argument("--n", type=int, default=20)
    p.add_argument("--seed", type=int, default=0)
    p.add_argument("--jobs", type=int, default=2)
    p.add_argument("--lines")
    p.add_argument("--list", action="store_true")
    a = p.parse_args()
    jobs = []
    for f in a.files.split(","):
        src = open("/repo/otpod/%s.py" % f).read()
        S = sites(src)
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            S = [s for s in S if lo <= src.encode()[:s[0]].count(b"\n") + 1 <= hi]
        R = random.Random("%s/%d" % (f, a.seed))
        R.shuffle(S)
        print("%s: %d sites" % (f, len(S)), flush=True)
        jobs += [(k, f, src, s, CHECKS[f].split(), False) for k, s in enumerate(S[:a.n])]
    if a.list:
        for j in jobs:
            print(j[1], j[3])
        return
    n = [0, 0]
    with ThreadPoolExecutor(a.jobs) as ex:
        for name, r in ex.map(judge, jobs):
            n[r == "SURVIVED"] += 1
            print(r[:9] if r.startswith("caught") else r, "|", name, "|", r, flush=True)
    print("caught %d, survived %d" % tuple(n))


if __name__ == "__main__":
    main()

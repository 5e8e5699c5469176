#!/usr/bin/env python3
"""Mutation testing of the checks. Development aid, no check uses it.

mutate.py list FILE...             counts of mutants
mutate.py run OUT FILE... [--scale F] [--sample N] [--seed S] [--workers W]

For every mutant of the source files (paths below /repo/src/pymt) that the repository's own tests do not notice, runs
the checks meant for the file until one reports a violation. OUT gets one JSON line per mutant.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CHECKS = {
    "mpt.py": "C02 C01 C05 C07 C08 C06 C09 C10 C04 C03 C29 C31 C36 C13 C30",
    "utils/node.py": "C21 C02 C09 C05 C30",
    "utils/nibble_path.py": "C20 C02 C21 C30",
    "empt.py": "C11 C13 C12 C14 C30 C10 C04 C31 C22 C29 C15 C36 C05 C07",
    "mt.py": "C16 C17 C18 C30 C29 C15 C37",
    "merkletools.py": "C37 C16 C17 C18 C30 C29",
    "proof.py": "C35 C19 C29 C30 C09",
    "keypairs.py": "C23 C24 C25 C34 C28 C29 C30 C26",
    "utils/utils.py": "C26 C27 C28 C32 C33 C34 C30 C25",
    "utils/hash.py": "C27 C02 C30",
    "base.py": "C16",
}

CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
CMPTEXT = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
           ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//"], ast.FloorDiv: ["*"], ast.Mod: ["//"], ast.Div: ["*"],
       ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&"], ast.BitXor: ["&"]}
BINTEXT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.Div: "/",
           ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = [0]
        for l in src.splitlines(keepends=True):
            self.lines.append(self.lines[-1] + len(l))
        self.out = []
        self.where = []

    def pos(self, node):
        return (self.lines[node.lineno - 1] + node.col_offset,
                self.lines[node.end_lineno - 1] + node.end_col_offset)

    def add(self, a, b, new, kind):
        if self.src[a:b] != new:
            self.out.append((a, b, new, kind, ".".join(self.where)))

    def visit_FunctionDef(self, node):
        self.where.append(node.name)
        body = node.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in node.args.defaults + node.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in body:
            self.visit(s)
        self.where.pop()

    def visit_ClassDef(self, node):
        self.where.append(node.name)
        for s in node.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.where.pop()

    def between(self, left, right, text, news, kind):
        a, b = self.pos(left)[1], self.pos(right)[0]
        i = self.src[a:b].find(text)
        if i >= 0:
            for n in news:
                self.add(a + i, a + i + len(text), n, kind)

    def visit_Compare(self, node):
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            self.between(left, right, CMPTEXT[type(op)], CMP[type(op)], "compare")
            left = right
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in BIN:
            self.between(node.left, node.right, BINTEXT[type(node.op)], BIN[type(node.op)], "arith")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        t = "and" if isinstance(node.op, ast.And) else "or"
        for l, r in zip(node.values, node.values[1:]):
            self.between(l, r, t, ["or" if t == "and" else "and"], "bool")
        for i, v in enumerate(node.values):
            a, b = self.pos(v)
            self.add(a, b, "True" if t == "and" else "False", "operand")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        a, b = self.pos(node)
        if isinstance(node.op, ast.Not):
            oa, ob = self.pos(node.operand)
            self.add(a, b, "(" + self.src[oa:ob] + ")", "not")
        self.generic_visit(node)

    def visit_Constant(self, node):
        a, b = self.pos(node)
        v = node.value
        if v is True or v is False:
            self.add(a, b, repr(not v), "constant")
        elif isinstance(v, int):
            self.add(a, b, str(v + 1), "constant")
            if v > 0:
                self.add(a, b, str(v - 1), "constant")
        elif isinstance(v, bytes) and len(v) < 40:
            self.add(a, b, repr(v + b"x"), "constant")
        elif isinstance(v, str) and len(v) < 24:
            self.add(a, b, repr(v + "x"), "constant")

    def visit_If(self, node):
        a, b = self.pos(node.test)
        self.add(a, b, "not (" + self.src[a:b] + ")", "if")
        self.add(a, b, "False", "if")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        a, b = self.pos(node.test)
        self.add(a, b, "not (" + self.src[a:b] + ")", "ifexp")
        self.generic_visit(node)

    def visit_Subscript(self, node):
        s = node.slice
        if isinstance(s, ast.Slice):
            for part in (s.lower, s.upper):
                if part is not None:
                    a, b = self.pos(part)
                    self.add(a, b, "(" + self.src[a:b] + ") + 1", "slice")
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            a, b = self.pos(node.value)
            self.add(a, b, "None", "return")
        self.generic_visit(node)

    def stmt(self, node):
        a, b = self.pos(node)
        self.add(a, b, "pass", "drop")
        self.generic_visit(node)

    visit_Assign = visit_AugAssign = visit_Expr = visit_Delete = stmt

    def visit_Raise(self, node):
        a, b = self.pos(node)
        self.add(a, b, "pass", "drop")

    visit_Assert = visit_Raise

    def visit_Continue(self, node):
        a, b = self.pos(node)
        self.add(a, b, "break", "loop")

    def visit_Break(self, node):
        a, b = self.pos(node)
        self.add(a, b, "continue", "loop")

    def visit_Call(self, node):
        # Exchange of the first two positional arguments.
        if len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args[:2]):
            (a, b), (c, d) = self.pos(node.args[0]), self.pos(node.args[1])
            self.add(a, d, self.src[c:d] + self.src[b:c] + self.src[a:b], "arguments")
        name = ast.unparse(node.func)
        if name in ("bytes", "int", "str", "list", "bytearray", "tuple") and len(node.args) == 1:
            a, b = self.pos(node)
            x, y = self.pos(node.args[0])
            self.add(a, b, "(" + self.src[x:y] + ")", "cast")
        for x in node.args:
            self.visit(x)
        for k in node.keywords:
            self.visit(k.value)
        self.visit(node.func)


def mutants(path):
    src = open(path, newline="", encoding="ascii").read()
    f = Finder(src)
    f.visit(ast.parse(src))
    out = []
    for a, b, new, kind, where in f.out:
        m = src[:a] + new + src[b:]
        try:
            compile(m, path, "exec")
        except (SyntaxError, ValueError):
            continue
        out.append({"a": a, "b": b, "new": new, "old": src[a:b], "kind": kind, "where": where,
                    "line": src.count("\n", 0, a) + 1})
    return src, out


def sh(cmd, cwd, timeout, **env):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env), start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, ""


def run(a):
    rng = random.Random(a.seed)
    todo = []
    for f in a.files:
        src, ms = mutants(os.path.join(REPO, "src/pymt", f))
        todo += [dict(m, file=f) for m in ms]
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(a.out))}
    rng.shuffle(todo)
    if a.sample:
        todo = todo[: a.sample]
    todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done]
    print(len(todo), "mutants", flush=True)
    trees = Queue()
    for i in range(a.workers):
        t = "/tmp/mut/w%d" % i
        shutil.rmtree(t, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", REPO, t], check=True)
        trees.put(t)
    out = open(a.out, "a")

    def one(m):
        t = trees.get()
        p = os.path.join(t, "src/pymt", m["file"])
        orig = open(p, newline="").read()
        try:
            assert orig[m["a"]:m["b"]] == m["old"]
            with open(p, "w", newline="") as f:
                f.write(orig[: m["a"]] + m["new"] + orig[m["b"]:])
            rc, o = sh([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "src/pymt"], t, 120,
                       PYTHONPATH=t + "/src")
            m["tests"] = rc
            m["checks"] = {}
            if rc == 0:
                for c in CHECKS[m["file"]].split():
                    rc, o = sh(["./check", c, "--scale", str(a.scale), "--jobs", "1"], VERIF, 600, PYMT_REPO=t,
                               PBT_REPLAYS=t + "/replays", PBT_EVIDENCE=t + "/evidence")
                    m["checks"][c] = rc
                    if rc != 0:
                        m["message"] = [l for l in o.splitlines() if not l.startswith("KNOWN")][-2:]
                    if rc == 1:
                        break
        finally:
            with open(p, "w", newline="") as f:
                f.write(orig)
            trees.put(t)
        out.write(json.dumps(m) + "\n")
        out.flush()

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, todo))


ap = argparse.ArgumentParser()
sub = ap.add_subparsers(dest="cmd", required=True)
l = sub.add_parser("list")
l.add_argument("files", nargs="+")
r = sub.add_parser("run")
r.add_argument("out")
r.add_argument("files", nargs="+")
r.add_argument("--scale", type=float, default=0.25)
r.add_argument("--sample", type=int)
r.add_argument("--seed", type=int, default=1)
r.add_argument("--workers", type=int, default=8)
a = ap.parse_args()
if a.cmd == "list":
    for f in a.files:
        print(f, len(mutants(os.path.join(REPO, "src/pymt", f))[1]))
else:
    run(a)

#!/usr/bin/env python3
"""Mutation campaign (development aid, no registered check uses it): apply small syntactic changes to one source file of a
scratch copy of the repository and report the ones no check of that file's properties notices.

usage: mutants.py FILE [--workers N] [--every K] [--offset O] [--props A,B]     (FILE relative to the repository)
Results are appended to /tmp/mutants/<file>.log
"""
import argparse
import ast
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

HERE = Path(__file__).resolve().parent.parent
BIN = {ast.BitAnd: "|", ast.BitOr: "&", ast.Add: "-", ast.Sub: "+", ast.LShift: ">>", ast.RShift: "<<", ast.BitXor: "|", ast.Mult: "+", ast.FloorDiv: "*"}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for line in self.lines:
            self.off.append(self.off[-1] + len(line.encode()))
        self.out = []           # (start, end, replacement, description)
        self.states = []
        self.fn = ""

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, rep, what):
        a, b = self.span(n)
        self.out.append((a, b, rep, f"line {n.lineno} [{self.fn}] {what}: {self.text(n)[:70]!r} -> {rep[:70]!r}"))

    def caps(self, widths):
        self.out = []
        for c in (k for k in ast.walk(ast.parse(self.src)) if isinstance(k, ast.ClassDef) and "Test" not in k.name):
            for fn in (k for k in c.body if isinstance(k, ast.FunctionDef) and k.name != "__init__"):
                self.fn = f"{c.name}.{fn.name}"
                for k in ast.walk(fn):
                    if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == "Signal" and k.args and not isinstance(k.args[0], ast.Starred):
                        if isinstance(k.args[0], ast.Constant) and k.args[0].value <= min(widths):
                            continue
                        for w in widths:
                            self.add(k.args[0], f"(lambda a_, s_: a_ if s_.width <= {w} else a_.__class__({w}) if isinstance(a_, int) else __import__('amaranth').Shape({w}, s_.signed))"
                                     f"({self.text(k.args[0])}, __import__('amaranth').Shape.cast({self.text(k.args[0])}))", f"cap {w}")

    def visit_ClassDef(self, n):
        if "Test" in n.name or any("TestCase" in ast.dump(b) for b in n.bases):
            return
        old, self.fn = self.fn, n.name
        self.generic_visit(n)
        self.fn = old

    def visit_FunctionDef(self, n):
        if n.name.startswith("test") or n.name in ("__repr__",):
            return
        old, self.fn = self.fn, self.fn.split(".")[0] + "." + n.name
        st = [k.args[0].value for k in ast.walk(n) if isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == "State" and k.args and isinstance(k.args[0], ast.Constant)]
        olds, self.states = self.states, st
        for s in n.body:
            self.visit(s)
        self.fn, self.states = old, olds

    def visit_Raise(self, n):
        return

    def visit_Assert(self, n):
        return

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if isinstance(n.value, ast.List):
            for e in n.value.elts:
                self.add(e, "Signal().eq(0)" if False else "[]", "delete element")
        elif isinstance(n.op, ast.Add) and "m.d" in self.text(n.target):
            self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.text(n.targets[0]) == "m.next" and isinstance(n.value, ast.Constant):
            self.add(n, "pass", "delete transition")
            for s in self.states:
                if s != n.value.value:
                    self.add(n.value, repr(s), "other state")
                    break
            return
        self.generic_visit(n)

    def visit_BinOp(self, n):
        op = BIN.get(type(n.op))
        if op:
            self.add(n, f"({self.text(n.left)}) {op} ({self.text(n.right)})", "operator")
        if isinstance(n.op, ast.BitAnd):
            self.add(n, self.text(n.left), "drop operand")
            self.add(n, self.text(n.right), "drop operand")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.add(n, f"{self.text(n.left)} {CMP[type(n.ops[0])]} {self.text(n.comparators[0])}", "comparison")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Invert, ast.Not)):
            self.add(n, self.text(n.operand), "drop negation")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "flip")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "constant")
            if n.value > 0:
                self.add(n, str(n.value - 1), "constant")

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("If", "Elif") and n.args:
            self.add(n.args[0], "1", "always")
            self.add(n.args[0], "0", "never")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.visit(n.value)
        s = n.slice
        if isinstance(s, ast.Constant) and not isinstance(s.value, int):
            return
        self.visit(s)

    def visit_JoinedStr(self, n):
        return


def props_of(path):
    sys.path.insert(0, str(HERE))
    import json
    out = []
    for line in open(HERE / "properties.jsonl"):
        p = json.loads(line)
        if path in json.dumps(p):
            out.append(p["id"])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--props")
    ap.add_argument("--lines", help="only mutants whose description names one of these lines, comma separated")
    ap.add_argument("--caps", help="instead: internal signals no wider than these numbers of bits, comma separated")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    src = open(f"/repo/{a.file}").read()
    f = Finder(src)
    f.visit(ast.parse(src))
    if a.caps:
        f.caps([int(x) for x in a.caps.split(",")])
    props = a.props.split(",") if a.props else props_of(a.file)
    seen, todo = set(), []
    for m in f.out:
        if m[:3] not in seen:
            seen.add(m[:3])
            todo.append(m)
    if a.lines:
        ls = set(a.lines.split(","))
        todo = [m for m in todo if m[3].split()[1] in ls]
    todo = todo[a.offset::a.every]
    print(a.file, props, len(todo), "mutants", flush=True)
    if a.list:
        for m in todo:
            print(m[3])
        return
    root = Path("/tmp/mutants")
    root.mkdir(exist_ok=True)
    tag = a.file.replace("/", "_")
    log = open(root / f"{tag}.log", "w")
    pool = Queue()
    for i in range(a.workers):
        w = root / f"{tag}.w{i}"
        shutil.rmtree(w, ignore_errors=True)
        w.mkdir()
        shutil.copytree("/repo/amlib", w / "repo" / "amlib", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(HERE, w / "verif", ignore=shutil.ignore_patterns(".git", "__pycache__", "seeded", "evidence"))
        (w / "verif" / "evidence").mkdir()
        pool.put(w)
    count = {}
    order = list(props)

    def one(m):
        s, e, rep, what = m
        b = src.encode()
        new = b[:s] + rep.encode() + b[e:]
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            return
        w = pool.get()
        try:
            (w / "repo" / a.file).write_bytes(new)
            res = "SURVIVED"
            bad = ""
            for p in list(order):
                t0 = time.time()
                r = subprocess.run(f"ulimit -v 60000000; exec timeout -k 5 150 {w}/verif/check {p} --jobs 3", shell=True, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=str(w / "repo"), TMPDIR=str(w)))
                if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                    res = f"caught {p}"
                    if order[0] != p:
                        order.remove(p)
                        order.insert(0, p)
                    break
                if r.returncode != 0:
                    bad += f" {p}:rc{r.returncode}({(r.stdout + r.stderr).strip()[-100:]!r})"
            if res == "SURVIVED" and bad:
                res = "NOANSWER" + bad
            (w / "repo" / a.file).write_text(src)
        finally:
            pool.put(w)
        count[res.split()[0]] = count.get(res.split()[0], 0) + 1
        log.write(f"{res}: {what}\n")
        log.flush()
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, todo))
    log.write(f"TOTAL {count}\n")
    print(a.file, count, flush=True)
    for i in range(a.workers):
        shutil.rmtree(root / f"{tag}.w{i}", ignore_errors=True)


main()

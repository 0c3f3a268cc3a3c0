#!/usr/bin/env python3
"""Development aid: mutants of /repo's Python source, judged by the checks that analyse the mutated function.

python3-vt tools/mutate.py OUT.jsonl [file-substring] [--max N] [--seed S] [--procs P] [--every K]
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def variants(node):
    """(description, replacement) for one AST node"""
    out = []
    if isinstance(node, ast.BinOp):
        flips = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.MatMult: [ast.Mult]}
        for o in flips.get(type(node.op), []):
            n = copy.copy(node)
            n.op = o()
            out.append((f"{type(node.op).__name__}->{o.__name__}", n))
        if isinstance(node.op, (ast.Sub, ast.Div)):
            n = copy.copy(node)
            n.left, n.right = node.right, node.left
            out.append(("swap", n))
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
            out.append(("left", node.left))
        if isinstance(node.op, (ast.Mult, ast.Div)):
            out.append(("left", node.left))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        flips = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn]}
        for o in flips.get(type(node.ops[0]), []):
            n = copy.copy(node)
            n.ops = [o()]
            out.append((f"{type(node.ops[0]).__name__}->{o.__name__}", n))
    if isinstance(node, ast.BoolOp):
        n = copy.copy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append(("and/or", n))
        for k in range(len(node.values)):
            rest = [v for j, v in enumerate(node.values) if j != k]
            out.append((f"drop{k}", rest[0] if len(rest) == 1 else ast.BoolOp(node.op, rest)))
    if isinstance(node, ast.UnaryOp):
        out.append(("drop-unary", node.operand))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            out.append(("negate", ast.Constant(not node.value)))
        elif isinstance(node.value, (int, float)):
            out.append(("+1", ast.Constant(node.value + 1)))
            if node.value != 0:
                out.append(("0", ast.Constant(type(node.value)(0))))
            if isinstance(node.value, float):
                out.append(("x1.5", ast.Constant(node.value * 1.5)))
        elif isinstance(node.value, str) and node.value.isidentifier():
            out.append(("str", ast.Constant(node.value + "x")))
    if isinstance(node, ast.Call):
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if nm in ("deepcopy", "copy", "array", "asarray", "sqrt", "exp", "square", "abs", "log", "atleast_1d", "atleast_2d", "squeeze", "reshape", "transpose") and len(node.args) >= 1:
            out.append((f"drop-{nm}", node.args[0]))
        if nm in ("copy", "T") and not node.args and isinstance(f, ast.Attribute):
            out.append((f"drop-{nm}", f.value))
        if len(node.args) >= 2:
            for k in range(len(node.args) - 1):
                n = copy.copy(node)
                n.args = list(node.args)
                n.args[k], n.args[k + 1] = n.args[k + 1], n.args[k]
                out.append((f"swapargs{k}", n))
        if len(node.args) + len(node.keywords) >= 2:
            if node.args:
                n = copy.copy(node)
                n.args = node.args[:-1]
                out.append(("droparg", n))
            for k in range(len(node.keywords)):
                n = copy.copy(node)
                n.keywords = [q for j, q in enumerate(node.keywords) if j != k]
                out.append((f"dropkw{k}", n))
        alt = {"maximum": "minimum", "minimum": "maximum", "max": "min", "min": "max", "argmin": "argmax", "ones": "zeros", "zeros": "ones", "floor": "ceil", "sum": "mean", "mean": "sum", "vstack": "hstack", "hstack": "vstack", "append": None, "extend": None, "exp": "cos"}
        if alt.get(nm) and isinstance(f, ast.Attribute):
            n = copy.copy(node)
            n.func = ast.Attribute(f.value, alt[nm], f.ctx)
            out.append((f"{nm}->{alt[nm]}", n))
    if isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load):
        s = node.slice
        if isinstance(s, ast.Slice):
            for part in ("lower", "upper"):
                if getattr(s, part) is not None:
                    n = copy.copy(node)
                    n.slice = copy.copy(s)
                    setattr(n.slice, part, None)
                    out.append((f"slice-no-{part}", n))
        if isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
            n = copy.copy(node)
            n.slice = ast.Constant(0)
            out.append(("[-1]->[0]", n))
        elif isinstance(s, ast.Constant) and s.value == 0:
            n = copy.copy(node)
            n.slice = ast.UnaryOp(ast.USub(), ast.Constant(1))
            out.append(("[0]->[-1]", n))
    if isinstance(node, ast.IfExp):
        out.append(("body", node.body))
        out.append(("orelse", node.orelse))
    if isinstance(node, (ast.If, ast.While)):
        n = copy.copy(node)
        n.test = ast.UnaryOp(ast.Not(), node.test)
        out.append(("negate-if", n))
        if isinstance(node, ast.If) and not node.orelse:
            n = copy.copy(node)
            n.test = ast.Constant(True)
            out.append(("if-true", n))
    if isinstance(node, (ast.Assign, ast.AugAssign)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        out.append(("delete", ast.Pass()))
    if isinstance(node, ast.AugAssign):
        n = ast.Assign([node.target], node.value)
        out.append(("aug->assign", n))
    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and node.attr == "T":
        out.append(("drop-T", node.value))
    return out


def skip(node, parents):
    """not interesting: printing, plotting, argument parsing"""
    for p in parents + [node]:
        if isinstance(p, ast.Expr) and isinstance(p.value, ast.Constant):
            return True
        if isinstance(p, ast.Call) and getattr(p.func, "id", "") == "print":
            return True
        if isinstance(p, ast.Raise):
            return True
        if isinstance(p, ast.FunctionDef) and ("plot" in p.name or p.name in ("main", "__str__", "set_style")):
            return True
    return False


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    sites = []

    def walk(node, parents, field):
        if skip(node, parents):
            return
        if parents and any(isinstance(p, ast.FunctionDef) for p in parents):
            for d, r in variants(node):
                fn = [p.name for p in parents if isinstance(p, (ast.FunctionDef, ast.ClassDef))]
                sites.append((parents[-1], field, node, d, r, ".".join(fn)))
        for name, val in ast.iter_fields(node):
            if isinstance(node, ast.FunctionDef) and name in ("args", "decorator_list", "returns"):
                if name == "args":
                    for k, x in enumerate(val.defaults):
                        walk(x, parents + [node, val], ("defaults", k))
                continue
            if isinstance(val, list):
                for k, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        walk(x, parents + [node], (name, k))
            elif isinstance(val, ast.AST):
                walk(val, parents + [node], (name, None))

    walk(tree, [], None)
    for parent, (name, k), node, d, r, fn in sites:
        seg = ast.get_source_segment(src, node)
        if not isinstance(r, ast.AST):
            continue
        new = ast.unparse(ast.fix_missing_locations(copy.deepcopy(r)))
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.If, ast.While)):
            a, b = node.lineno, node.end_lineno
            lines = src.split("\n")
            ind = lines[a - 1][:node.col_offset]
            text = "\n".join(lines[:a - 1] + [ind + new] + lines[b:])
        elif isinstance(node, (ast.If, ast.While)):
            t = ast.get_source_segment(src, node.test)
            off = offset(src, node.test.lineno, node.test.col_offset)
            nt = ast.unparse(ast.fix_missing_locations(copy.deepcopy(r.test)))
            text = src[:off] + "(" + nt + ")" + src[off + len(t):]
        else:
            off = offset(src, node.lineno, node.col_offset)
            if src[off:off + len(seg)] != seg:
                continue
            text = src[:off] + ("(" + new + ")" if isinstance(r, ast.expr) and not isinstance(r, (ast.Constant, ast.Name)) else new) + src[off + len(seg):]
        try:
            compile(text, path, "exec")
        except SyntaxError:
            continue
        yield dict(line=node.lineno, fn=fn, kind=d, old=seg[:120], new=new[:120], text=text)


def offset(src, line, col):
    lines = src.split("\n")
    return sum(len(x) + 1 for x in lines[:line - 1]) + len(lines[line - 1].encode()[:col].decode())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("sub", nargs="?", default="")
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--fn", default="")
    a = ap.parse_args()
    cover = {}
    wall = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "evidence"))):
        e = json.load(open(os.path.join(VERIF, "evidence", f)))
        wall[e["property"]] = e["wall_s"]
        for q in e["coverage"].get("functions", []):
            cover.setdefault(q.rsplit("(", 1)[0], set()).add(e["property"])
    jobs = []
    for root, _, files in os.walk(os.path.join(REPO, "dmpbbo")):
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith(".py") and a.sub in p:
                for m in mutants(p):
                    m["file"] = os.path.relpath(p, REPO)
                    if a.fn in m["fn"]:
                        jobs.append(m)
    random.Random(a.seed).shuffle(jobs)
    if a.max:
        jobs = jobs[:a.max]
    print(len(jobs), "mutants", flush=True)
    out = open(a.out, "a")

    def run(m):
        last = m["fn"].split(".")
        cs = [c for q, s in cover.items() if q.split(".")[-len(last):] == last for c in s]
        if not cs:
            cs = [c for q, s in cover.items() if q.split(".")[-1] == last[-1] for c in s]
        cs = sorted(set(cs), key=lambda c: wall[c])
        d = tempfile.mkdtemp(prefix="mut_")
        try:
            shutil.copytree(os.path.join(REPO, "dmpbbo"), os.path.join(d, "dmpbbo"), ignore=shutil.ignore_patterns("__pycache__"))
            with open(os.path.join(d, m["file"]), "w") as f:
                f.write(m["text"])
            m["killed"] = None
            m["und"] = []
            for c in cs:
                try:
                    r = subprocess.run(["python3-vt", "check.py", c, "quick", "--jobs", "1"], cwd=VERIF, env=dict(os.environ, DMPBBO_REPO=d, DMPBBO_EVIDENCE=d), capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    m["und"].append(c + ":timeout")
                    continue
                if r.returncode == 1:
                    m["killed"] = c
                    break
                if r.returncode != 0 or " 0 undecided" not in r.stdout:
                    m["und"].append(c)
            m["checks"] = cs
        finally:
            shutil.rmtree(d)
        m.pop("text")
        out.write(json.dumps(m) + "\n")
        out.flush()
        return m

    n = k = 0
    with ThreadPoolExecutor(a.procs) as ex:
        for m in ex.map(run, jobs):
            n += 1
            k += bool(m["killed"])
            if not m["killed"]:
                print(f"{m['file']}:{m['line']} {m['fn']} [{m['kind']}] {m['old']!r} -> {m['new']!r} und={m['und']} checks={len(m['checks'])}", flush=True)
    print(f"{k}/{n} killed")


main()

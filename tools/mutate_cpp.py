#!/usr/bin/env python3
"""Development aid: textual mutants of /repo's C++ source, judged by the given checks (first catch wins).

python3-vt tools/mutate_cpp.py OUT.jsonl FILE CHECK[,CHECK..] [--max N] [--seed S] [--procs P] [--from LINE]
"""
import argparse
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"/=", "*="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0\.5(?![\w.])", "0.6"), (r"(?<![\w.])1\.0(?![\w.])", "1.1"), (r"(?<![\w.])0\.0(?![\w.])", "0.1"),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])1(?![\w.])", "0"), (r"= -", "= "), (r"\(-", "("), (r"\btau\(\)", "1.0"), (r"\.transpose\(\)", ""), (r"\bif \(!", "if ("), (r"\bif \((?!!)", "if (!(1==1) && ("), (r"\brow\(", "col("), (r"head\(", "tail("), (r"\bsegment\((\w+),", r"segment(0 * \1,"),
         (r"y_init", "y_attr"), (r"yds?\b", "ys"), (r"\bn_dims\b", "1"), (r"\bdim_y\(\)", "dim()"), (r"\bdim\(\)", "dim_y()"), (r"max", "min"), (r"\bi_dim\b", "0")]


def mutants(text, lo):
    code, inc = [], False
    for k, l in enumerate(text.split("\n")):
        s = l.strip()
        if s.startswith("/*"):
            inc = True
        skip = inc or s.startswith(("//", "#", "*", "using", "namespace")) or "cerr" in s or "cout" in s or "<<" in s and '"' in s or "assert" in s or k + 1 < lo
        if "*/" in s:
            inc = False
        code.append(skip)
    lines = text.split("\n")
    for k, l in enumerate(lines):
        if code[k] or not l.strip():
            continue
        body = l.split("//")[0]
        for a, b in SWAPS:
            for m in re.finditer(a, body):
                x = m.expand(b) if "\\1" in b else b
                new = body[:m.start()] + x + body[m.end():]
                if "1==1" in b:
                    new = body[:m.start()] + "if (false && " + body[m.end():]
                yield k, l, new
        if re.match(r"\s+[^(){}]*[^{}]*;$", body) and not re.match(r"\s*(return|for|if|else|double|int|bool|Eigen|VectorXd|MatrixXd|auto|const|string|std::|break|virtual|void)\b", body.strip()) and body.count("(") == body.count(")"):
            yield k, l, "  ;"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--max", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--procs", type=int, default=3)
    ap.add_argument("--jobs", default="3")
    ap.add_argument("--from", dest="lo", type=int, default=0)
    a = ap.parse_args()
    text = open(os.path.join("/repo", a.file)).read()
    ms = list(mutants(text, a.lo))
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.max]

    def one(x):
        k, old, new = x
        d = tempfile.mkdtemp(prefix="mutc", dir="/tmp")
        try:
            shutil.copytree("/repo/src", d + "/r/src")
            shutil.copytree("/repo/dmpbbo", d + "/r/dmpbbo")
            ls = text.split("\n")
            ls[k] = new
            open(os.path.join(d, "r", a.file), "w").write("\n".join(ls))
            comp = a.file if a.file.endswith(".cpp") else None
            for f in ([comp] if comp else ["src/dmp/Trajectory.cpp", "src/dmp/Dmp.cpp", "src/dynamicalsystems/SpringDamperSystem.cpp", "src/dynamicalsystems/TimeSystem.cpp", "src/functionapproximators/FunctionApproximatorLWR.cpp"]):
                if subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I" + d + "/r/src", "-I/usr/include/eigen3", os.path.join(d, "r", f)], capture_output=True).returncode:
                    return None
            res = []
            for c in a.checks.split(","):
                p = subprocess.run(["python3-vt", os.path.join(VERIF, "check.py"), c, "quick", "--jobs", a.jobs], capture_output=True, text=True, env={**os.environ, "DMPBBO_REPO": d + "/r", "DMPBBO_EVIDENCE": d + "/e"})
                und = re.search(r"(\d+) undecided", p.stdout)
                res.append((c, p.returncode, int(und.group(1)) if und else -1))
                if p.returncode == 1:
                    break
            return dict(line=k + 1, old=old.strip(), new=new.strip(), res=res, caught=res[-1][1] == 1)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    n = c = 0
    with ThreadPoolExecutor(a.procs) as ex, open(a.out, "a") as f:
        for r in ex.map(one, ms):
            if r is None:
                continue
            n, c = n + 1, c + r["caught"]
            f.write(json.dumps({"file": a.file, **r}) + "\n")
            f.flush()
            if not r["caught"]:
                print(f"{a.file}:{r['line']}: {r['old']}   =>   {r['new']}   {r['res']}", flush=True)
    print(f"{c}/{n} caught in {a.file}")


main()

#!/usr/bin/env python3
"""Development aid: the analyser's reading of Python / NumPy idioms against NumPy itself.

python3-vt tools/selftest.py [substring] [-v]
Every snippet below is a function body over v (n), u (n), a (n x m), b (m x n), r (m), s, k=2 (n = 3, m = 2).
The analyser's value graph is evaluated on a random interpretation and compared with what NumPy returns.
"""
import os
import sys
import tempfile
import textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
d = tempfile.mkdtemp(prefix="selftest_")
from selftest_corpus import CORPUS          # noqa: E402

snips = [c.strip("\n") for c in CORPUS.split("\n---\n")]
os.makedirs(d + "/dmpbbo/dmps")
open(d + "/dmpbbo/__init__.py", "w").close()
open(d + "/dmpbbo/dmps/__init__.py", "w").close()
src = "import copy\nimport itertools\nimport functools\nimport math\nimport operator\nfrom collections import OrderedDict, defaultdict, namedtuple\nfrom dataclasses import dataclass\nimport numpy as np\n"
for i, c in enumerate(snips):
    b = textwrap.dedent(c)
    pre = ""
    if "\n###\n" in b:
        pre, b = b.split("\n###\n")
        pre = pre.replace("_N", f"_{i}")
        b = b.replace("_N", f"_{i}")
    if "return" not in b:
        b = "return " + b
    src += "\n\n" + pre + f"\n\ndef snip_{i}(v, u, a, b, r, s, k):\n" + textwrap.indent(b, "    ") + "\n"
open(d + "/dmpbbo/dmps/snip.py", "w").write(src)
os.environ["DMPBBO_REPO"] = d

import numpy as np                           # noqa: E402
from checks.common import *                  # noqa: E402
import warnings                              # noqa: E402
warnings.simplefilter("ignore")

g = {}
CODE = compile(src, "snip", "exec")


def conc(w, v, m):
    """Value -> nested Python / numpy value."""
    v = w.I.resolve(v, w.st) if hasattr(w.I, "resolve") else v
    t = type(v).__name__
    if t == "Tup":
        return [conc(w, x, m) for x in v.items]
    if t == "Lst" or t == "List":
        it = w.I.concrete_items(v, w.st)
        return [conc(w, x, m) for x in it]
    return num(m.ev(w.node(v)))


def num(x):
    if isinstance(x, (list, tuple)):
        return [num(y) for y in x]
    if isinstance(x, np.ndarray):
        return np.array([float(ri.values(y) if hasattr(y, "v") else y) for y in x.ravel()]).reshape(x.shape)
    if isinstance(x, (str, bool)) or x is None:
        return x
    return float(x)


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.astype(float) if x.dtype != object else [norm(y) for y in x]
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, (int, float, np.number, np.bool_)):
        return float(x)
    return x


def same(x, y):
    if isinstance(x, list) or isinstance(y, list):
        if isinstance(x, np.ndarray):
            x = list(x)
        if isinstance(y, np.ndarray):
            y = list(y)
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
        return x == y
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12, equal_nan=True)


def run(i, symbolic):
    w = World()
    g.clear()
    exec(CODE, g)
    n, mm = (size("n", 2), size("m", 2)) if symbolic else (3, 2)
    args = [w.arr("v", n), w.arr("u", n), w.arr("a", n, mm), w.arr("b", mm, n), w.arr("r", mm), S("s"), Sc(N.const(2))]
    M = ri.Model(77, sizes=dict(n=3, m=2))
    vals = [np.array([[float(x)] if 0 else float(x) for x in np.ravel(M.ev(w.node(x)))]).reshape(np.shape(M.ev(w.node(x)))) if j < 5 else None for j, x in enumerate(args)]
    vals[5], vals[6] = float(M.ev(args[5].node)), 2
    try:
        want = norm(g[f"snip_{i}"](*[x.copy() if isinstance(x, np.ndarray) else x for x in vals]))
        err = None
    except Exception as e:
        want, err = None, f"{type(e).__name__}: {e}"
    try:
        out = w.callf(f"dmpbbo.dmps.snip.snip_{i}", *args)
        got = conc(w, out, M)
    except Exception as e:
        nm = type(e).__name__
        if nm == "Dead" or "Abort" in nm or nm == "EvalError":
            return ("agree" if err else "DISAGREE"), f"analyser: raises {e}; python: {want if err is None else err}"
        return "unknown", f"{nm}: {e}"
    if err:
        return "DISAGREE", f"python raises {err}; analyser: {got}"
    if same(got, want):
        return "agree", ""
    return "DISAGREE", f"python {want} analyser {got}"


sub = [a for a in sys.argv[1:] if not a.startswith("-")]
tally = {}
for i, c in enumerate(snips):
    if sub and not any(x in c for x in sub):
        continue
    for symb in (False, True):
        k, why = run(i, symb)
        tally[(symb, k)] = tally.get((symb, k), 0) + 1
        if k == "DISAGREE" or k == "unknown" and ("-v" in sys.argv or not symb):
            print(f"{k}{' (symbolic sizes)' if symb else ''}: {c!r}\n      {why[:300]}")
print(tally)
import shutil                                # noqa: E402
shutil.rmtree(d)

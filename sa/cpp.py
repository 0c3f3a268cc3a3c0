"""C++ front end: clang's AST of /repo/src (never compiled or run) interpreted abstractly to the same value graph.

Shapes are concrete, doubles are terms (sa.nodes), integers, booleans and strings are concrete or - booleans - terms.
Matrices live in an explicit heap (numpy object arrays of terms; rows, columns, blocks, segments and Refs alias them).
A condition that is a term: both branches are interpreted and the doubles they write are merged into gated terms; where that
is impossible (integers, sizes or control flow differ) the interpretation is split into two traces guarded by the condition.
"""
import glob
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from fractions import Fraction

from . import nodes as N
from . import ri

FLAGS = ["-std=c++17", "-ferror-limit=0", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang"]
# instantiations of the reader and writer templates of src/eigenutils, as every C++ source gets them
JSON_TU = """#include "eigenutils/eigen_json.hpp"
namespace Eigen {
template void %s_json(%snlohmann::json&, %sMatrixBase<MatrixXd>&);
template void %s_json(%snlohmann::json&, %sMatrixBase<VectorXd>&);
}
"""
HEADERS = [("Eigen::from_json", JSON_TU % (("from", "const ", "") * 2), "src/eigenutils/eigen_json.tpp"),
           ("Eigen::to_json", JSON_TU % (("to", "", "const ") * 2), "src/eigenutils/eigen_json.hpp")]


class CppUnknown(ri.Unknown):
    """Construct that is not modelled: undecided."""


class CppAbort(Exception):
    """The program aborts or throws (failed assertion, index outside, missing key, null pointer) on this trace."""

    def __init__(self, msg, site=""):
        super().__init__(msg)
        self.site = site


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


# ------------------------------------------------------------------ program
def _docs(t):
    dec, i = json.JSONDecoder(), 0
    while True:
        while i < len(t) and t[i].isspace():
            i += 1
        if i >= len(t):
            return
        o, i = dec.raw_decode(t, i)
        yield o


class Func:
    __slots__ = ("name", "mangled", "node", "tu", "cls", "virtual", "pure", "kind", "type", "site", "params", "body", "static")

    def qual(self):
        return f"{self.cls}::{self.name}" if self.cls else self.name


class Closure:
    """A lambda together with its captured variables."""
    def __init__(self, r, cap):
        self.r, self.cap = r, cap


class CClass:
    def __init__(self, name):
        self.name, self.bases, self.fields, self.methods = name, [], [], {}


class CppProgram:
    def __init__(self, repo=None):
        self.repo = repo or os.environ.get("DMPBBO_REPO", "/repo")
        src = os.path.join(self.repo, "src")
        self.files = sorted(glob.glob(os.path.join(src, "**", "*.cpp"), recursive=True))
        if not self.files:
            raise CppUnknown("no C++ sources")
        self.funcs, self.classes, self.by_id, self.text = {}, {}, {}, {}
        self.errors, self.rejected = [], {}
        jobs = [(f, "DmpBbo", None) for f in self.files] + [(os.path.join(self.repo, f), flt, text) for flt, text, f in HEADERS]
        self.files = [j[0] for j in jobs]
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda j: self._dump(src, *j), jobs))
        for tu, (f, (out, err)) in enumerate(zip(self.files, outs)):
            bad = re.search(r"^(.*\berror: .*)$", err, re.M)
            if bad and jobs[tu][2] is None:
                self.rejected[f] = bad.group(1)
            if not out.strip():
                self.errors.append((f, err[:300]))
                continue
            for d in _docs(out):
                if jobs[tu][2] is not None:
                    if d.get("kind") in ("FunctionTemplateDecl", "FunctionDecl"):
                        self._walk(d, tu, None, f)
                elif d.get("kind") == "NamespaceDecl":
                    self._walk(d, tu, None, f)
        self._finish()

    def _dump(self, src, f, flt, text):
        cmd = ["clang++"] + FLAGS + ["-ast-dump-filter=" + flt, "-I" + src] + ([f] if text is None else ["-x", "c++", "-"])
        p = subprocess.run(cmd, input=text or "", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return p.stdout, p.stderr

    def _walk(self, n, tu, cls, f):
        k = n.get("kind")
        if k in ("CXXRecordDecl",) and n.get("name") and n.get("completeDefinition"):
            c = self.classes.get(n["name"])
            if c is None:
                c = self.classes[n["name"]] = CClass(n["name"])
            first = not c.fields and not c.bases
            if first:
                c.bases = [b["type"]["qualType"].split("::")[-1] for b in n.get("bases", [])]
            self.by_id[(tu, n["id"])] = ("class", n["name"])
            for x in n.get("inner", []):
                if x.get("kind") == "FieldDecl" and first:
                    c.fields.append((x["name"], x["type"], x, tu))
                self._walk(x, tu, n["name"], f)
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
            self._func(n, tu, cls, f)
            return
        if k == "VarDecl":
            self.by_id[(tu, n["id"])] = ("var", n)
            return
        if k in ("NamespaceDecl", "FriendDecl", "LinkageSpecDecl", "FunctionTemplateDecl", "ClassTemplateDecl", "CXXRecordDecl"):
            for x in n.get("inner", []):
                self._walk(x, tu, None if k == "FriendDecl" else cls, f)

    def _func(self, n, tu, cls, f):
        if not n.get("mangledName") and (tu, n["id"]) in self.by_id:
            return      # clang lists an instantiation again, without its body, at the redeclarations of its template
        m = n.get("mangledName") or f"{n.get('name')}@{n['id']}@{tu}"
        if n.get("kind") == "CXXMethodDecl" or n.get("kind") == "CXXConstructorDecl":
            if cls is None:
                r = self.by_id.get((tu, n.get("previousDecl")))
                cls = r[1].cls if r and r[0] == "func" else None
        r = self.funcs.get(m)
        if r is None:
            r = self.funcs[m] = Func()
            r.name, r.mangled, r.node, r.tu, r.cls, r.virtual, r.pure, r.kind = n.get("name"), m, n, tu, cls, False, False, n["kind"]
            r.type = n.get("type", {}).get("qualType", "")
            r.params, r.body, r.site, r.static = [], None, "", False
        if cls and not r.cls:
            r.cls = cls
        r.virtual |= bool(n.get("virtual"))
        r.pure |= bool(n.get("pure"))
        r.static |= n.get("storageClass") == "static"
        ps = [x for x in n.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        body = [x for x in n.get("inner", []) if x.get("kind") == "CompoundStmt"]
        defaults = [[y for y in p.get("inner", []) if not y.get("kind", "").endswith("Comment")] for p in ps]
        for i, p in enumerate(ps):
            while len(r.params) <= i:
                r.params.append([None, None, None])
            if defaults[i]:
                r.params[i][2] = (tu, defaults[i][0])
        if body and r.body is None or not r.body and n.get("explicitlyDefaulted"):
            r.node, r.tu, r.body = n, tu, (body[0] if body else {"kind": "CompoundStmt"})
            line = n.get("loc", {}).get("line") or n.get("loc", {}).get("expansionLoc", {}).get("line") or n.get("range", {}).get("begin", {}).get("line")
            r.site = f"{os.path.relpath(f, self.repo)}{':' + str(line) if line else ''} in {r.qual()}"
            for i, p in enumerate(ps):
                r.params[i][0], r.params[i][1] = p["id"], p["type"]
        elif r.body is None:
            for i, p in enumerate(ps):
                r.params[i][0], r.params[i][1] = p["id"], p["type"]
        self.by_id[(tu, n["id"])] = ("func", r)
        if n.get("kind") == "CXXMethodDecl" and r.cls:
            self.classes.setdefault(r.cls, CClass(r.cls)).methods.setdefault(r.name, {})[self.sig(r)] = r
        if n.get("kind") == "CXXConstructorDecl" and r.cls:
            self.classes.setdefault(r.cls, CClass(r.cls)).methods.setdefault("<ctor>", {})[m] = r

    def _finish(self):
        pass

    @staticmethod
    def sig(r):
        """mangled name without the class: equal for overriders."""
        return r.mangled.replace(f"{len(r.cls)}{r.cls}", "#", 1) if r.cls else r.mangled

    def mro(self, c):
        out = [c]
        for b in self.classes[c].bases if c in self.classes else []:
            out += self.mro(b)
        return out

    def overrider(self, dyn, r):
        for c in self.mro(dyn):
            k = self.classes.get(c)
            m = k.methods.get(r.name, {}).get(self.sig(r)) if k else None
            if m is not None and (m.body is not None):
                return m
        return r

    def source(self, tu):
        if tu not in self.text:
            self.text[tu] = open(self.files[tu], errors="replace").read()
        return self.text[tu]


_CPP = [None]


def cpp_program():
    if _CPP[0] is None:
        _CPP[0] = CppProgram()
    return _CPP[0]


# ------------------------------------------------------------------ values
def term(v):
    if isinstance(v, N.Node):
        return v
    if isinstance(v, bool):
        return N.const(int(v))
    if isinstance(v, (int, float)):
        return N.const(v)
    raise CppUnknown(f"number expected, got {type(v).__name__}")


def is_num(v):
    return isinstance(v, (int, float, N.Node)) or isinstance(v, bool)


class Box:
    """Scalar or pointer variable."""
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def put(self, v):
        self.v = v


class Elem:
    """One matrix element."""
    __slots__ = ("m", "i", "j")

    def __init__(self, m, i, j):
        self.m, self.i, self.j = m, i, j

    def get(self):
        return self.m.a[self.i, self.j]

    def put(self, v):
        self.m.a[self.i, self.j] = term(v)


class Item:
    __slots__ = ("c", "k")

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def put(self, v):
        self.c[self.k] = v


class Mat:
    """Matrix, vector, array or a view on one. kind: 'col', 'row', 'mat' for owners of that static shape, None for views/expressions."""
    __slots__ = ("a", "kind", "arr", "own")

    def __init__(self, a, kind=None, arr=False, own=False):
        self.a, self.kind, self.arr, self.own = a, kind, arr, own

    @property
    def rows(self):
        return self.a.shape[0]

    @property
    def cols(self):
        return self.a.shape[1]

    def isvec(self):
        return self.rows == 1 or self.cols == 1


class CObj:
    __slots__ = ("cls", "f")

    def __init__(self, cls):
        self.cls, self.f = cls, {}


class CVec:
    __slots__ = ("v", "et")

    def __init__(self, v=(), et=None):
        self.v, self.et = list(v), et


class JS:
    """nlohmann::json value (v: dict, list, number, str, bool, None)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Lazy:
    """noalias/rowwise/colwise/comma proxies."""
    __slots__ = ("kind", "m", "st")

    def __init__(self, kind, m, st=None):
        self.kind, self.m, self.st = kind, m, st


STREAM = object()


class Line:
    """A line of text: number tokens separated by white space (trail: white space after the last one)."""
    __slots__ = ("tok", "trail")

    def __init__(self, tok, trail=False):
        self.tok, self.trail = list(tok), trail


class Stream:
    """File or string stream. Reading: a list of lines; writing: lines appended to the file."""
    __slots__ = ("mode", "name", "lines", "row", "col", "eof", "bad", "fixed", "digits")

    def __init__(self, mode, lines=None, name=None):
        self.mode, self.lines, self.name = mode, lines, name
        self.row = self.col = 0
        self.eof = self.bad = self.fixed = False
        self.digits = 6


MANIPULATORS = ("fixed", "scientific", "endl", "flush", "boolalpha", "defaultfloat", "setprecision", "setw", "left", "right", "showpoint", "noshowpoint", "skipws")
UNINIT = [0]


def uninit():
    UNINIT[0] += 1
    return N.sym(f"cpp_uninitialised_{UNINIT[0]}", (), lo="11", hi="12")


def full(r, c, v=None):
    if r < 0 or c < 0:
        raise CppAbort(f"negative size {r}x{c}")
    a = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            a[i, j] = uninit() if v is None else v
    return a


def mat_kind(t):
    """Static shape of an Eigen type spelled in the AST, or None when it is not a plain matrix/array/Ref."""
    s = (t.get("desugaredQualType") or t["qualType"]) if isinstance(t, dict) else t
    q = t["qualType"] if isinstance(t, dict) else t
    for x in (q, s):
        y = x.replace("const ", "").replace("Eigen::", "").replace("&", "").strip()
        ref = False
        m = re.match(r"Ref<(?:const )?(.*?)(?:, 0.*)?>$", y)
        if m:
            y, ref = m.group(1).strip(), True
            y = y.replace("const ", "")
        tab = {"VectorXd": ("col", False), "RowVectorXd": ("row", False), "MatrixXd": ("mat", False), "ArrayXd": ("col", True), "ArrayXXd": ("mat", True),
               "Array<double, -1, 1>": ("col", True), "Array<double, -1, -1>": ("mat", True), "Array<double, 1, -1>": ("row", True),
               "Matrix<double, -1, 1>": ("col", False), "Matrix<double, 1, -1>": ("row", False), "Matrix<double, -1, -1>": ("mat", False),
               "Matrix<double, -1, 1, 0, -1, 1>": ("col", False), "Matrix<double, 1, -1, 1, 1, -1>": ("row", False), "Matrix<double, -1, -1, 0, -1, -1>": ("mat", False)}
        if y in tab:
            return tab[y] + (ref,)
        m = re.match(r"(Vector|RowVector|Matrix)(\d)d$", y)
        if m:
            k = int(m.group(2))
            return {"Vector": "col", "RowVector": "row", "Matrix": "mat"}[m.group(1)], False, ref
    return None


def type_args(t):
    """Template arguments spelled in t."""
    out, depth, cur = [], 0, ""
    for c in t[t.index("<") + 1:t.rindex(">")]:
        depth += (c == "<") - (c == ">")
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def static_shape(t):
    """(rows, columns) at compile time of an Eigen expression type (-1: dynamic), or None when the spelling is not understood."""
    t = re.sub(r"\b(const|Eigen::|internal::|class|struct) ?", "", t).replace("&", "").strip()
    m = re.match(r"(Row)?Vector(X|\d)d$", t)
    if m:
        n = -1 if m.group(2) == "X" else int(m.group(2))
        return (1, n) if m.group(1) else (n, 1)
    if t in ("MatrixXd", "ArrayXXd"):
        return -1, -1
    if t == "ArrayXd":
        return -1, 1
    if "<" not in t:
        return None
    head, a = t[:t.index("<")], type_args(t)
    try:
        if head in ("Matrix", "Array"):
            return int(a[1]), int(a[2])
        if head == "Block":
            x = (static_shape(a[0]) or (-1, -1)) if len(a) < 3 else None
            return int(a[1]) if len(a) > 1 else x[0], int(a[2]) if len(a) > 2 else x[1]
        if head == "VectorBlock":
            x = static_shape(a[0])
            n = int(a[1]) if len(a) > 1 else -1
            return x and ((1, n) if x[0] == 1 else (n, 1))
        if head == "Transpose":
            x = static_shape(a[0])
            return x and x[::-1]
        if head in ("Ref", "Map", "ArrayWrapper", "MatrixWrapper", "NoAlias"):
            return static_shape(a[0])
        if head in ("CwiseUnaryOp", "CwiseNullaryOp"):
            return static_shape(a[1])
        if head == "CwiseBinaryOp":
            x, y = static_shape(a[1]), static_shape(a[2])
            return x and y and tuple(max(p, q) for p, q in zip(x, y))
        if head == "Product":
            x, y = static_shape(a[0]), static_shape(a[1])
            return x and y and (x[0], y[1])
    except (ValueError, IndexError):
        pass
    return None


class Interp:
    """One abstract run (trace) of a scenario over the C++ program."""
    MAXLOOP = 4000

    def __init__(self, prog, decisions=None, limit=400000):
        self.files, self.dirs = {}, {"", ".", "/"}      # file system of this trace
        self.p = prog
        self.dec = dict(decisions or {})     # condition node -> bool (this trace)
        self.journal = []                    # stack of undo frames while a branch is interpreted speculatively
        self.fcount, self.callsites, self.steps, self.limit = {}, 0, 0, limit
        self.stack = []
        self.depth = 0
        self.asserts = []                    # (decisions, condition, required truth, site) of asserts on symbolic values
        self.fragile = []                    # (decisions, [values], site): compared to 1e-12
        self.heap = None                     # list of (decisions, what, site) while heap allocations are watched

    # -- heap writes
    def log_box(self, b):
        if self.journal:
            fr = self.journal[-1]
            k = ("b", id(b))
            if k not in fr:
                fr[k] = (b, b.get())

    def log_arr(self, a):
        if self.journal:
            base = a
            while base.base is not None and isinstance(base.base, np.ndarray):
                base = base.base
            fr = self.journal[-1]
            k = ("a", id(base))
            if k not in fr:
                fr[k] = (base, base.copy())

    def log_own(self, m):
        if self.journal:
            fr = self.journal[-1]
            k = ("m", id(m))
            if k not in fr:
                fr[k] = (m, m.a)

    def log_vec(self, v):
        if self.journal:
            fr = self.journal[-1]
            k = ("v", id(v))
            if k not in fr:
                fr[k] = (v, list(v.v))

    def put(self, loc, v):
        if isinstance(loc, Elem):
            self.log_arr(loc.m.a)
        elif isinstance(loc, Item):
            pass
        else:
            self.log_box(loc)
        loc.put(v)

    def snapshot(self, fr):
        out = {}
        for k, (o, old) in fr.items():
            out[k] = (o, o.get() if k[0] == "b" else o.copy() if k[0] == "a" else o.a if k[0] == "m" else list(o.v))
        return out

    def restore(self, fr):
        for k, (o, old) in fr.items():
            if k[0] == "b":
                o.put(old)
            elif k[0] == "a":
                o[...] = old
            elif k[0] == "m":
                o.a = old
            else:
                o.v = list(old)

    def branch(self, cond, f, g):
        """Interpret f and g under cond / not cond and merge what they write."""
        if cond in self.dec:
            return (f if self.dec[cond] else g)()
        nc = N.not_(cond)
        if nc in self.dec:
            return (g if self.dec[nc] else f)()
        outs = []
        for fn, pol in ((f, True), (g, False)):
            self.journal.append({})
            self.dec[cond] = pol
            try:
                r = fn()
            except CppAbort:
                fr = self.journal.pop()
                self.restore(fr)
                raise NeedSplit(cond)
            except BaseException:
                self.restore(self.journal.pop())
                raise
            finally:
                self.dec.pop(cond, None)
            fr = self.journal.pop()
            outs.append((r, fr, self.snapshot(fr)))
            self.restore(fr)
        (ra, fa, sa), (rb, fb, sb) = outs
        if ra is not rb:
            if is_num(ra) and is_num(rb) and not isinstance(ra, bool):
                r = N.phi(cond, term(ra), term(rb)) if not (isinstance(ra, int) and isinstance(rb, int) and ra == rb) else ra
                if isinstance(ra, int) and isinstance(rb, int) and ra != rb:
                    raise NeedSplit(cond)
            elif isinstance(ra, bool) and isinstance(rb, bool) and ra == rb:
                r = ra
            else:
                raise NeedSplit(cond)
        else:
            r = ra
        writes = []
        for k in list(fa) + [k for k in fb if k not in fa]:
            o, old = (fa.get(k) or fb.get(k))
            va = sa[k][1] if k in sa else old
            vb = sb[k][1] if k in sb else old
            if k[0] == "b":
                if va is vb or (not isinstance(va, N.Node) and not isinstance(vb, N.Node) and type(va) is type(vb) and isinstance(va, (int, str, bool, float)) and va == vb):
                    new = va
                elif isinstance(va, N.Node) and is_num(vb) and not isinstance(vb, bool) or isinstance(vb, N.Node) and is_num(va) and not isinstance(va, bool):
                    new = N.phi(cond, term(va), term(vb))
                else:
                    raise NeedSplit(cond)
            elif k[0] == "a":
                new = np.empty(o.shape, dtype=object)
                for ix in np.ndindex(o.shape):
                    new[ix] = va[ix] if va[ix] is vb[ix] else N.phi(cond, va[ix], vb[ix])
            elif k[0] == "m":
                if va is vb:
                    new = va
                elif va.shape == vb.shape:
                    new = np.empty(va.shape, dtype=object)
                    for ix in np.ndindex(va.shape):
                        x, y = va[ix], vb[ix]
                        new[ix] = x if x is y else N.phi(cond, x, y)
                else:
                    raise NeedSplit(cond)
            else:
                if len(va) != len(vb):
                    raise NeedSplit(cond)
                new = []
                for x, y in zip(va, vb):
                    if x is y:
                        new.append(x)
                    elif isinstance(x, N.Node) and isinstance(y, N.Node):
                        new.append(N.phi(cond, x, y))
                    else:
                        raise NeedSplit(cond)
            writes.append((k, o, new))
        for k, o, new in writes:
            if k[0] == "b":
                self.log_box(o)
                o.put(new)
            elif k[0] == "a":
                self.log_arr(o)
                o[...] = new
            elif k[0] == "m":
                self.log_own(o)
                o.a = new
            else:
                self.log_vec(o)
                o.v = new
        return r

    def truth(self, v):
        """Concrete truth of a condition, or the undecided node."""
        if isinstance(v, N.Node):
            if v.op == "bool":
                return v.attr
            if v.op == "const":
                return v.attr != 0
            if v in self.dec:
                return self.dec[v]
            nv = N.not_(v)
            if nv in self.dec:
                return not self.dec[nv]
            return v
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, Stream):
            return not v.bad
        if isinstance(v, (CObj, str)):
            return True
        raise CppUnknown(f"condition on {type(v).__name__}")

    # -- objects
    def construct(self, cls, r, args):
        o = CObj(cls)
        self.run_ctor(o, r, args)
        return o

    def field_default(self, t, x=None, tu=None):
        k = mat_kind(t)
        if k:
            return Mat(full(1 if k[0] == "row" else 0, 1 if k[0] == "col" else 0), k[0], k[1], True)
        q = (t.get("desugaredQualType") or t["qualType"]).replace("const ", "").strip()
        if q.endswith("*") or q in ("double", "float", "int", "bool", "unsigned int", "long", "unsigned long", "size_t"):
            return None
        if "basic_string" in q or q.endswith("string"):
            return ""
        m = re.match(r"(?:std::)?vector<(.*)>$", q)
        if m:
            return CVec((), m.group(1).split(",")[0].strip())
        if q.split("::")[-1] in self.p.classes:
            return self.default_object(q.split("::")[-1])
        if "json" in q:
            return JS(None)
        return None

    def default_object(self, cls):
        for r in self.p.classes[cls].methods.get("<ctor>", {}).values():
            if not r.params:
                return self.construct(cls, r, [])
        raise CppUnknown(f"default construction of {cls}")

    def run_ctor(self, o, r, args):
        """args: bound values, one per parameter given."""
        c = self.p.classes.get(r.cls)
        if r.body is None or c is None:
            raise CppUnknown(f"constructor of {r.cls} without a body")
        self.enter(r)
        env = self.bind(r, args)
        env["this"] = o
        o.cls = r.cls       # until a derived constructor takes over, the object is one of this class
        inits = [x for x in r.node.get("inner", []) if x.get("kind") == "CXXCtorInitializer"]
        for x in inits:
            if "delegatingInit" in x:
                self.ctor_expr_into(o, self.peel(x["inner"][0]), env)
        if not any("delegatingInit" in x for x in inits):
            for name, t, fx, ftu in c.fields:
                fi = [y for y in fx.get("inner", []) if not y.get("kind", "").endswith("Comment")]
                o.f[name] = self.own(self.field_default(t), t)
                if fi and fx.get("hasInClassInitializer"):
                    self.init_field(o, name, t, fi[-1], dict(env, tu=ftu))
            done = set()
            for x in inits:
                if "baseInit" in x:
                    b = x["baseInit"]["qualType"].split("::")[-1]
                    done.add(b)
                    self.ctor_expr_into(o, self.peel(x["inner"][0]), env)
                    o.cls = r.cls
                elif "anyInit" in x:
                    f = x["anyInit"]
                    if x.get("inner"):
                        self.init_field(o, f["name"], f["type"], x["inner"][0], env)
            for b in c.bases:
                if b not in done and b in self.p.classes:
                    for br in self.p.classes[b].methods.get("<ctor>", {}).values():
                        if not br.params and br.body is not None:
                            self.run_ctor(o, br, [])
                            break
            o.cls = r.cls
        self.block(r.body, env)
        o.cls = r.cls
        self.leave()

    def init_field(self, o, name, t, e, env):
        if e.get("kind") == "CXXDefaultInitExpr":
            return
        e2 = self.peel(e)
        if e2.get("kind") == "CXXConstructExpr" and not e2.get("inner"):
            return      # default constructed
        v = self.ev(e, env)
        o.f[name] = self.own(v, t)

    def ctor_expr_into(self, o, e, env):
        cls = e["type"]["qualType"].split("::")[-1].replace("const ", "")
        args = e.get("inner", [])
        r = self.find_ctor(cls, e, args)
        if r is None:
            if not args:
                return
            raise CppUnknown(f"constructor of {cls}")
        self.run_ctor(o, r, self.args(r, args, env))

    def find_ctor(self, cls, e, args):
        c = self.p.classes.get(cls)
        if c is None:
            return None
        ty = e.get("ctorType", {}).get("qualType", "")
        rs = list(c.methods.get("<ctor>", {}).values())
        same = [r for r in rs if r.type == ty]
        if len(same) == 1:
            return same[0]
        same = [r for r in rs if len(r.params) == len(args) and r.body is not None]
        return same[0] if len(same) == 1 else None

    def own(self, v, t):
        """Value stored in a variable / field / element of type t (a box for scalars and pointers)."""
        k = mat_kind(t)
        if k and not k[2]:
            if not isinstance(v, Mat):
                raise CppUnknown("matrix expected")
            if v.own and v.kind == k[0] and v.arr == k[1]:
                return v
            return self.plain(v, k)
        if isinstance(v, (Mat, CObj, CVec, JS, Lazy, Stream)):
            q = t["qualType"] if isinstance(t, dict) else t
            if isinstance(v, CObj) and q.rstrip().endswith("*"):
                return Box(v)
            return v
        q = ((t.get("desugaredQualType") or t["qualType"]) if isinstance(t, dict) else t).replace("const ", "").strip()
        if q in ("double", "float"):
            v = uninit() if v is None else term(v)
        elif q in ("int", "unsigned int", "long", "unsigned long", "bool") and isinstance(v, float):
            v = int(v)
        return Box(v)

    def plain(self, v, k):
        """Fresh owner with static kind k holding a copy of v."""
        a = v.a
        if k[0] == "col" and a.shape[1] != 1:
            if a.shape[0] != 1:
                raise CppAbort(f"{a.shape[0]}x{a.shape[1]} matrix converted to a vector")
            a = a.T
        elif k[0] == "row" and a.shape[0] != 1:
            if a.shape[1] != 1:
                raise CppAbort(f"{a.shape[0]}x{a.shape[1]} matrix converted to a row vector")
            a = a.T
        return Mat(a.copy(), k[0], k[1], True)

    def copy(self, v):
        if isinstance(v, Mat):
            return Mat(v.a.copy(), v.kind, v.arr, True)
        if isinstance(v, CObj):
            o = CObj(v.cls)
            for k, x in v.f.items():
                o.f[k] = Box(x.get()) if isinstance(x, Box) else self.copy(x)
            return o
        if isinstance(v, CVec):
            return CVec([self.copy(x) if isinstance(x, (Mat, CVec)) else x for x in v.v], v.et)
        if isinstance(v, JS):
            return JS(v.v)
        return v

    # -- calls
    def enter(self, r):
        q = r.qual()
        self.fcount["C++ " + q] = self.fcount.get("C++ " + q, 0) + 1
        self.depth += 1
        self.stack.append(r.site)
        if self.depth > 200:
            raise CppUnknown("recursion")

    def leave(self):
        self.depth -= 1
        self.stack.pop()

    def bind(self, r, args):
        env = {"tu": r.tu, "f": r}
        for (pid, t, d), v in zip(r.params, args):
            env[pid] = self.bind_param(t, v)
        return env

    def bind_param(self, t, v):
        q = (t.get("desugaredQualType") or t["qualType"]) if isinstance(t, dict) else t
        isref = q.rstrip().endswith("&") or t["qualType"].rstrip().endswith("&")
        k = mat_kind(t)
        if k and k[2]:
            # Ref binds to the storage (reshaped view for a vector of the other orientation)
            if not isinstance(v, Mat):
                raise CppUnknown("Ref of a non-matrix")
            a = v.a
            if k[0] == "col" and a.shape[1] != 1:
                if a.shape[0] != 1:
                    raise CppAbort("matrix bound to a Ref of a vector")
                a = a.T
            if k[0] == "row" and a.shape[0] != 1:
                if a.shape[1] != 1:
                    raise CppAbort("matrix bound to a Ref of a row vector")
                a = a.T
            return Mat(a, None, k[1], False)
        if isref:
            if isinstance(v, (Box, Elem, Item)):
                return v
            if isinstance(v, (Mat, CObj, CVec, JS, Lazy)):
                if k and isinstance(v, Mat) and not v.own:
                    return self.plain(v, k)
                return Box(v) if isinstance(v, CObj) and "*" in q else v
            return Box(v)
        if isinstance(v, (Box, Elem, Item)):
            v = v.get()
        return self.own(v, t)

    def args(self, r, exprs, env):
        out = []
        for i, (pid, t, d) in enumerate(r.params):
            if i < len(exprs) and self.peel(exprs[i]).get("kind") != "CXXDefaultArgExpr":
                e = exprs[i]
                q = (t.get("desugaredQualType") or t["qualType"]).rstrip()
                if q.endswith("&") and not mat_kind(t):
                    out.append(self.ref(e, env))
                else:
                    out.append(self.ev(e, env))
            elif d is not None:
                out.append(self.ev(d[1], {"tu": d[0], "f": r}))
            else:
                raise CppUnknown(f"argument {i} of {r.qual()}")
        return out

    def ref(self, e, env):
        x = self.peel(e)
        try:
            return self.loc(x, env)
        except CppUnknown:
            return self.ev(e, env)

    def call(self, r, this, args):
        if r.body is None:
            raise CppAbort(f"call of the pure virtual function {r.qual()}") if r.pure else CppUnknown(f"no body: {r.qual()}")
        self.callsites += 1
        self.enter(r)
        env = self.bind(r, args)
        env["this"] = this
        s = self.block(r.body, env)
        self.leave()
        v = s[1] if s and s[0] == "return" else None
        rt = r.type.split("(")[0].strip()
        if isinstance(v, Mat) and not rt.endswith("&"):
            k = mat_kind(rt)
            if k:
                v = self.plain(v, k)
        if rt in ("double", "float") and v is not None:
            v = term(v)
        return v

    # -- statements: None | ("return", v) | ("break",) | ("continue",)
    def block(self, n, env):
        for s in n.get("inner", []):
            r = self.st(s, env)
            if r is not None:
                return r
        return None

    def st(self, s, env):
        self.steps += 1
        if self.steps > self.limit:
            raise CppUnknown("too long")
        k = s.get("kind")
        if k == "CompoundStmt":
            return self.block(s, env)
        if k == "DeclStmt":
            for d in s.get("inner", []):
                self.decl(d, env)
            return None
        if k == "ReturnStmt":
            return ("return", self.ev(s["inner"][0], env) if s.get("inner") else None)
        if k == "IfStmt":
            return self.st_if(s, env)
        if k == "ForStmt":
            return self.st_for(s, env)
        if k == "WhileStmt":
            return self.st_while(s, env)
        if k == "DoStmt":
            return self.st_do(s, env)
        if k == "CXXForRangeStmt":
            return self.st_range(s, env)
        if k == "NullStmt":
            return None
        if k == "BreakStmt":
            return ("break",)
        if k == "ContinueStmt":
            return ("continue",)
        if k == "SwitchStmt":
            return self.st_switch(s, env)
        self.ev(s, env, drop=True)
        return None

    def decl(self, d, env):
        if d.get("kind") != "VarDecl":
            return
        t = d["type"]
        q = (t.get("desugaredQualType") or t["qualType"]).rstrip()
        init = [x for x in d.get("inner", []) if not x.get("kind", "").endswith("Comment")]
        if q.endswith("&"):
            v = self.ref(init[0], env)
            env[d["id"]] = v if isinstance(v, (Box, Elem, Item, Mat, CObj, CVec, JS)) else Box(v)
            return
        if not init:
            v = self.field_default(t)
            env[d["id"]] = self.own(v, t)
            return
        e = self.peel(init[0])
        k = mat_kind(t)
        if e.get("kind") == "CXXConstructExpr" and not e.get("inner") and "stream" not in q:
            env[d["id"]] = self.own(self.field_default(t), t)
            return
        v = self.ev(init[0], env)
        if isinstance(v, Mat) and (not k) and v.own and e.get("kind") == "DeclRefExpr":
            v = self.copy(v)
        if k and k[2]:
            env[d["id"]] = self.bind_param(t, v)
            return
        env[d["id"]] = self.own(v, t)

    def st_switch(self, s, env):
        c, body = s["inner"][-2], s["inner"][-1]
        c = self.ev(c, env)
        if not isinstance(c, int) or body.get("kind") != "CompoundStmt":
            raise CppUnknown("switch")
        flat = []      # (labels, statement): nested case labels are unrolled
        for x in body.get("inner", []):
            labels = []
            while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    if len(x["inner"]) != 2:
                        raise CppUnknown("case range")
                    labels.append(self.ev(x["inner"][0], env))
                else:
                    labels.append(None)
                x = x["inner"][-1]
            flat.append((labels, x))
        start = [i for i, (l, _) in enumerate(flat) if c in l] or [i for i, (l, _) in enumerate(flat) if None in l]
        if not start:
            return None
        for _, x in flat[start[0]:]:
            r = self.st(x, env)
            if r == ("break",):
                return None
            if r is not None:
                return r
        return None

    def st_if(self, s, env):
        inner = s["inner"]
        i = 0
        if s.get("hasInit"):
            self.st(inner[0], env)
            i = 1
        if s.get("hasVar"):
            self.st(inner[i], env)
            i += 1
        cond, then = inner[i], inner[i + 1]
        els = inner[i + 2] if len(inner) > i + 2 else None
        c = self.truth(self.ev(cond, env))
        if isinstance(c, bool):
            return self.st(then, env) if c else (self.st(els, env) if els else None)
        return self.merge_flow(c, lambda: self.st(then, env), lambda: self.st(els, env) if els else None)

    def merge_flow(self, c, f, g):
        def wrap(fn):
            def go():
                r = fn()
                if r is not None and r[0] != "return":
                    raise NeedSplit(c)
                if r is None:
                    return None
                if r[1] is None:
                    raise NeedSplit(c)
                if is_num(r[1]):
                    return r[1]
                raise NeedSplit(c)
            return go
        d0, j0, s0 = self.depth, len(self.journal), len(self.stack)
        try:
            v = self.branch(c, wrap(f), wrap(g))
        except NeedSplit:
            raise
        return None if v is None else ("return", v)

    def loop(self, cond, body, inc, env, scope):
        n = 0
        while True:
            n += 1
            if n > self.MAXLOOP:
                raise CppUnknown("loop bound")
            if cond is not None:
                c = self.truth(cond())
                if not isinstance(c, bool):
                    raise NeedSplit(c)
                if not c:
                    return None
            r = body()
            if r is not None:
                if r[0] == "break":
                    return None
                if r[0] == "return":
                    return r
            inc()

    def st_for(self, s, env):
        ini, _var, cond, inc, body = (s["inner"] + [{}] * 5)[:5]
        if ini:
            self.st(ini, env)
        return self.loop((lambda: self.ev(cond, env)) if cond.get("kind") else None, lambda: self.st(body, env),
                         lambda: self.ev(inc, env, drop=True) if inc.get("kind") else None, env, s)

    def st_while(self, s, env):
        cond, body = s["inner"][-2:]
        return self.loop(lambda: self.ev(cond, env), lambda: self.st(body, env), lambda: None, env, s)

    def st_do(self, s, env):
        body, cond = s["inner"]
        first = [True]

        def c():
            if first[0]:
                first[0] = False
                return True
            return self.ev(cond, env)
        return self.loop(c, lambda: self.st(body, env), lambda: None, env, s)

    def st_range(self, s, env):
        inner = [x for x in s["inner"] if x.get("kind")]
        rng = next((d["inner"][0] for x in inner if x.get("kind") == "DeclStmt" for d in x["inner"] if d.get("name", "").startswith("__range")), None)
        var = [x for x in inner if x.get("kind") == "DeclStmt"][-1]["inner"][0]
        body = inner[-1]
        if rng is None:
            raise CppUnknown("range for")
        v = self.ev(rng, env)
        if isinstance(v, CVec):
            seq = [Item(v.v, k) for k in range(len(v.v))]
        elif isinstance(v, Mat) and v.isvec():
            seq = [Elem(v, *((k, 0) if v.cols == 1 else (0, k))) for k in range(v.rows * v.cols)]
        elif isinstance(v, JS) and isinstance(v.v, list):
            seq = [JS(x) for x in v.v]
        else:
            raise CppUnknown("range for over " + type(v).__name__)
        isref = var["type"]["qualType"].rstrip().endswith("&")
        for it in seq:
            val = it.get() if not isinstance(it, JS) else it
            if isref:
                env[var["id"]] = val if isinstance(val, (Mat, CVec, JS)) else it
            else:
                env[var["id"]] = self.own(self.copy(val), var["type"])
            r = self.st(body, env)
            if r is not None:
                if r[0] == "break":
                    break
                if r[0] == "return":
                    return r
        return None

    # -- expressions
    TRANSPARENT = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "FullExpr", "SubstNonTypeTemplateParmExpr"}

    def peel(self, e):
        while e.get("kind") in self.TRANSPARENT or e.get("kind") in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and \
                e.get("castKind") in ("NoOp", "LValueToRValue", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "FunctionToPointerDecay", "ArrayToPointerDecay", "BaseToDerived"):
            e = e["inner"][0]
        return e

    def ev(self, e, env, drop=False):
        k = e.get("kind")
        if k in self.TRANSPARENT:
            return self.ev(e["inner"][0], env, drop)
        m = getattr(self, "x_" + k, None) if k else None
        if m is None:
            raise CppUnknown(f"expression {k}")
        v = m(e, env)
        if self.heap is not None and k in self.WATCHED:
            self.watch(k, e, v)
        if isinstance(v, (Box, Elem, Item)):
            v = v.get()
        return v

    # -- heap allocations (when watched)
    WATCHED = ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr")
    EXPR = r"(CwiseBinaryOp|CwiseUnaryOp|CwiseNullaryOp|CwiseTernaryOp|Product|Replicate|PartialReduxExpr|Select|Reverse|Inverse)<"

    def allocates(self, what):
        if self.heap is not None:
            self.heap.append((dict(self.dec), what, self.site()))

    @staticmethod
    def spelled(t):
        s = (t.get("desugaredQualType") or t["qualType"]) if isinstance(t, dict) else t
        return s.replace("const ", "").replace("Eigen::", "").replace("internal::", "").replace("&", "").strip()

    def watch(self, k, e, v):
        """What Eigen and the standard library allocate for this expression (assignments to matrices are watched where they change sizes)."""
        if k == "CXXNewExpr":
            return self.allocates("new")
        t = self.spelled(e["type"])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = [x for x in e.get("inner", []) if self.peel(x).get("kind") != "CXXDefaultArgExpr"]
            moved = "&&)" in e.get("ctorType", {}).get("qualType", "") or e.get("elidable")
            if not args or moved:
                return None
            kind = mat_kind(e["type"])
            if kind and not kind[2]:
                if isinstance(v, Mat) and v.a.size and not re.search(r"(Vector|RowVector|Matrix|Array)\d[d]|<double, \d+, \d+", t):
                    # a product that initialises is evaluated in place
                    self.in_place(args[0])
                    self.allocates("a matrix is constructed")
            elif kind:
                self.watch_ref(kind, args[0])
            elif isinstance(v, CVec):
                if v.v:
                    self.allocates("a vector is constructed")
            elif isinstance(v, str) and len(v) > 15 and ("basic_string" in t or t.endswith("string")):
                self.allocates("a string is constructed")
            elif isinstance(v, CObj) and any(isinstance(x, Mat) and x.a.size or isinstance(x, CVec) and x.v for x in v.f.values()) and "(const " in e.get("ctorType", {}).get("qualType", ""):
                self.allocates("an object is copied")
            elif "stream" in t or isinstance(v, JS):
                self.allocates(f"construction of {t[:40]}")
            return None
        if k == "CXXOperatorCallExpr":
            f = self.peel(e["inner"][0])
            op = f["referencedDecl"].get("name", "")[8:].strip() if f.get("kind") == "DeclRefExpr" else ""
            if op == "+" and isinstance(v, str) and len(v) > 15:
                self.allocates("strings are concatenated")
            elif op == "*" and re.match(r"Product<", t) and type_args(t)[2:] != ["1"]:
                self.heap.append((dict(self.dec), ("product", id(e)), self.site()))
                sh = static_shape(t)
                if not isinstance(v, Mat) or v.a.size == 0 or v.a.size == 1 and sh in (None, (1, 1)):
                    self.in_place(e)        # inner product
            elif op in ("=", "+=", "-="):
                lhs = self.spelled(self.peel(e["inner"][1])["type"])
                if lhs.startswith("NoAlias<"):
                    self.in_place(e["inner"][2])
            return None
        if k == "CXXMemberCallExpr":
            me = e["inner"][0]
            name = me.get("name", "")
            if name in ("eval", "normalized", "inverse", "determinant", "transposeInPlace", "llt", "ldlt", "householderQr", "colPivHouseholderQr", "partialPivLu", "fullPivLu", "jacobiSvd", "dump") and isinstance(v, (Mat, str)):
                self.allocates(name)
            elif name in ("operator=", "operator+=", "operator-=") and "NoAlias<" in self.spelled(self.peel(me["inner"][0])["type"]):
                self.in_place(e["inner"][1])
            return None
        if k == "CallExpr":
            f = self.peel(e["inner"][0])
            name = f["referencedDecl"].get("name", "") if f.get("kind") == "DeclRefExpr" else ""
            if name in ("make_shared", "make_unique", "to_string", "malloc", "calloc", "realloc", "strdup"):
                self.allocates(name)
        return None

    def in_place(self, e):
        """The product at the top of e is evaluated into its destination (as are, without aliasing, sums ending in a product)."""
        e = self.peel(e)
        while e.get("kind") == "CXXOperatorCallExpr" and len(e.get("inner", [])) == 3:
            f = self.peel(e["inner"][0])
            op = f["referencedDecl"].get("name", "")[8:].strip() if f.get("kind") == "DeclRefExpr" else ""
            if op in ("+", "-") and re.match(r"CwiseBinaryOp<", self.spelled(e["type"])):
                e = self.peel(e["inner"][2])
            elif op == "*" and re.match(r"CwiseBinaryOp<", self.spelled(e["type"])):
                e = self.peel(e["inner"][2 if self.spelled(self.peel(e["inner"][1])["type"]) in ("double", "float", "int") else 1])
            else:
                break
        self.heap[:] = [h for h in self.heap if not (isinstance(h[1], tuple) and h[1][1] == id(e))]

    def watch_ref(self, kind, arg):
        t = self.spelled(self.peel(arg)["type"])
        if re.match(self.EXPR, t):
            self.in_place(arg)
            return self.allocates("an expression is bound to a Ref")
        if re.match(r"(Ref|Matrix|Array|Map|VectorBlock|VectorXd|RowVectorXd|MatrixXd|ArrayXd|ArrayXXd)\b", t):
            return None
        if t.startswith("Block<"):
            x, y = static_shape(t), static_shape(type_args(t)[0])
            if x is None or y is None:
                raise CppUnknown(f"Ref of {t[:40]}")
            # a Ref of a vector has unit stride: rows of a (column-major) matrix are copied; a Ref of a matrix takes columns of any stride
            if kind[0] != "mat" and x[0] == 1 and y[0] != 1:
                return self.allocates("a row of a matrix is bound to a Ref")
            return None
        raise CppUnknown(f"Ref of {t[:40]}")

    def loc(self, e, env):
        """Location (Box/Elem/Item) or object denoted by an lvalue expression."""
        e = self.peel(e)
        k = e.get("kind")
        if k == "DeclRefExpr":
            i = e["referencedDecl"]["id"]
            if i in env:
                return env[i]
            return self.global_var(e, env)
        if k == "MemberExpr":
            o = self.ev(e["inner"][0], env)
            if o is None:
                raise CppAbort("null pointer dereferenced", self.site())
            if isinstance(o, CObj):
                if e["name"] not in o.f:
                    raise CppUnknown(f"field {e['name']}")
                return o.f[e["name"]]
            raise CppUnknown("member of " + type(o).__name__)
        if k == "CXXOperatorCallExpr":
            v = self.x_CXXOperatorCallExpr(e, env)
            return v
        if k == "CXXMemberCallExpr":
            return self.x_CXXMemberCallExpr(e, env)
        if k == "UnaryOperator" and e["opcode"] == "*":
            return self.ev(e["inner"][0], env)
        if k == "UnaryOperator" and e["opcode"] in ("++", "--"):
            self.ev(e, env)
            return self.loc(e["inner"][0], env)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            self.ev(e, env)
            return self.loc(e["inner"][0], env)
        if k == "CXXThisExpr":
            return env["this"]
        if k == "ConditionalOperator":
            c = self.truth(self.ev(e["inner"][0], env))
            if isinstance(c, bool):
                return self.loc(e["inner"][1 if c else 2], env)
        raise CppUnknown(f"lvalue {k}")

    def site(self):
        return self.stack[-1] if self.stack else ""

    def global_var(self, e, env):
        i = e["referencedDecl"]["id"]
        r = self.p.by_id.get((env.get("tu"), i))
        if r and r[0] == "var":
            g = getattr(self, "_globals", None)
            if g is None:
                g = self._globals = {}
            if (env["tu"], i) not in g:
                d = {"tu": env["tu"]}
                self.decl(r[1], d)
                g[(env["tu"], i)] = d[i]
            return g[(env["tu"], i)]
        nm = e["referencedDecl"].get("name")
        if nm in ("cout", "cerr", "clog"):
            return STREAM
        raise CppUnknown(f"variable {nm}")

    def x_DeclRefExpr(self, e, env):
        d = e["referencedDecl"]
        if d["kind"] in ("VarDecl", "ParmVarDecl"):
            if d["id"] in env:
                return env[d["id"]]
            return self.global_var(e, env)
        if d["kind"] == "EnumConstantDecl":
            raise CppUnknown("enum")
        if d["kind"] == "FunctionDecl" and d.get("name") in MANIPULATORS:
            return ("manip", d["name"])
        raise CppUnknown(f"reference to {d['kind']}")

    def x_IntegerLiteral(self, e, env):
        return int(e["value"])

    def x_FloatingLiteral(self, e, env):
        return N.const(float(e["value"]))

    def x_CXXBoolLiteralExpr(self, e, env):
        return bool(e["value"])

    def x_StringLiteral(self, e, env):
        return json.loads(e["value"]) if e["value"].startswith('"') else e["value"]

    def x_CharacterLiteral(self, e, env):
        return chr(e["value"])

    def x_GNUNullExpr(self, e, env):
        return None

    def x_CXXNullPtrLiteralExpr(self, e, env):
        return None

    def x_CXXThisExpr(self, e, env):
        return env["this"]

    def x_CXXDefaultArgExpr(self, e, env):
        raise CppUnknown("default argument")

    def x_ImplicitCastExpr(self, e, env):
        return self.cast(e, env)

    x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_CXXDynamicCastExpr = x_ImplicitCastExpr

    def cast(self, e, env):
        ck = e.get("castKind")
        sub = e["inner"][0]
        if ck == "ToVoid":
            return self.ev(sub, env) if self.peel(sub).get("kind") not in ("IntegerLiteral",) else None
        if ck == "UserDefinedConversion":
            return self.ev(sub, env)
        v = self.ev(sub, env)
        if ck in ("IntegralToFloating",):
            if isinstance(v, N.Node):
                return v if v.op not in ("cmp", "and", "or", "not", "bool") else N.phi(v, N.const(1), N.const(0))
            return term(v)
        if ck == "FloatingToIntegral":
            if isinstance(v, N.Node) and v.op == "const":
                return int(v.attr)
            raise CppUnknown("float to int")
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            if ck == "FloatingToBoolean":
                return N.not_(N.cmp("==", term(v), N.const(0))) if isinstance(v, N.Node) and v.op != "const" else self.truth(v)
            if isinstance(v, N.Node) and v.op not in ("const",):
                return v
            return self.truth(v)
        if ck == "IntegralCast":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, N.Node) and v.op in ("cmp", "and", "or", "not"):
                return v      # a comparison used as an integer: kept as the condition
            q = e["type"]["qualType"]
            if isinstance(v, int) and v < 0 and ("unsigned" in (e["type"].get("desugaredQualType") or q) or q == "size_t"):
                return v + 2 ** (32 if "int" in (e["type"].get("desugaredQualType") or q) else 64)
            return v
        return v

    def x_ParenExpr(self, e, env):
        return self.ev(e["inner"][0], env)

    def arith(self, op, a, b):
        if isinstance(a, (bool,)):
            a = int(a)
        if isinstance(b, (bool,)):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%"):
                if b == 0:
                    raise CppAbort("integer division by zero", self.site())
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                return q if op == "/" else a - q * b
        x, y = term(a), term(b)
        f = {"+": N.add, "-": N.sub, "*": N.mul, "/": N.div}.get(op)
        if f is None:
            raise CppUnknown(f"operator {op}")
        return f(x, y)

    def compare(self, op, a, b):
        if isinstance(a, (str,)) or isinstance(b, str) or a is None or b is None or isinstance(a, CObj) or isinstance(b, CObj):
            eq = (a is b) or (isinstance(a, str) and isinstance(b, str) and a == b) or (a == 0 and b is None and not isinstance(a, CObj)) or (b == 0 and a is None and not isinstance(b, CObj))
            return eq if op == "==" else (not eq if op == "!=" else self.strcmp(op, a, b))
        if not isinstance(a, N.Node) and not isinstance(b, N.Node):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        x, y = term(a), term(b)
        if x.op == "const" and y.op == "const":
            p, q = x.attr, y.attr
            return {"<": p < q, ">": p > q, "<=": p <= q, ">=": p >= q, "==": p == q, "!=": p != q}[op]
        if op == "!=":
            return N.not_(N.cmp("==", x, y))
        return N.cmp(op, x, y)

    def strcmp(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        raise CppUnknown("comparison of pointers")

    def x_BinaryOperator(self, e, env):
        op = e["opcode"]
        l, r = e["inner"]
        if op in ("&&", "||"):
            a = self.truth(self.ev(l, env))
            if isinstance(a, bool):
                if a == (op == "||"):
                    return a
                return self.truth(self.ev(r, env))
            b = self.branch(a, (lambda: self.truth(self.ev(r, env))) if op == "&&" else (lambda: True),
                            (lambda: False) if op == "&&" else (lambda: self.truth(self.ev(r, env)))) if self.effects(r) else self.truth(self.ev(r, env))
            if isinstance(b, bool):
                b = N.TRUE if b else N.FALSE
            v = N.and_(a, b) if op == "&&" else N.or_(a, b)
            return self.truth(v)
        if op == "=":
            v = self.ev(r, env)
            lo = self.loc(l, env)
            if isinstance(lo, (Box, Elem, Item)):
                q = (l["type"].get("desugaredQualType") or l["type"]["qualType"])
                if q == "double" and is_num(v):
                    v = term(v)
                self.put(lo, v)
                return v
            raise CppUnknown("assignment")
        if op == ",":
            self.ev(l, env)
            return self.ev(r, env)
        a, b = self.ev(l, env), self.ev(r, env)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        if op in ("&", "|", "^") and all(isinstance(x, (bool, int)) or isinstance(x, N.Node) for x in (a, b)):
            ca, cb = self.truth(a), self.truth(b)
            if isinstance(a, int) and isinstance(b, int):
                return {"&": a & b, "|": a | b, "^": a ^ b}[op]
            ca = ca if isinstance(ca, N.Node) else (N.TRUE if ca else N.FALSE)
            cb = cb if isinstance(cb, N.Node) else (N.TRUE if cb else N.FALSE)
            if op == "^":
                raise CppUnknown("xor")
            return self.truth(N.and_(ca, cb) if op == "&" else N.or_(ca, cb))
        return self.arith(op, a, b)

    def effects(self, e):
        k = e.get("kind")
        if k in ("CallExpr", "CXXMemberCallExpr") or k == "UnaryOperator" and e["opcode"] in ("++", "--") or k in ("CompoundAssignOperator",) or k == "BinaryOperator" and e["opcode"] == "=":
            return True
        return any(self.effects(c) for c in e.get("inner", []) if isinstance(c, dict))

    def x_CompoundAssignOperator(self, e, env):
        l, r = e["inner"]
        v = self.ev(r, env)
        lo = self.loc(l, env)
        if not isinstance(lo, (Box, Elem, Item)):
            raise CppUnknown("compound assignment")
        nv = self.arith(e["opcode"][:-1], lo.get(), v)
        self.put(lo, nv)
        return nv

    def x_UnaryOperator(self, e, env):
        op = e["opcode"]
        sub = e["inner"][0]
        if op in ("++", "--"):
            lo = self.loc(sub, env)
            old = lo.get()
            nv = self.arith("+" if op == "++" else "-", old, 1)
            self.put(lo, nv)
            return old if e.get("isPostfix") else nv
        if op == "&":
            v = self.loc(sub, env)
            return v.get() if isinstance(v, Box) and isinstance(v.get(), CObj) else v
        v = self.ev(sub, env)
        if op == "*":
            if v is None:
                raise CppAbort("null pointer dereferenced", self.site())
            return v
        if op == "-":
            return -v if isinstance(v, int) and not isinstance(v, bool) else N.neg(term(v))
        if op == "+":
            return v
        if op == "!":
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else N.not_(c)
        raise CppUnknown(f"unary {op}")

    def x_ConditionalOperator(self, e, env):
        ce, a, b = e["inner"]
        pb = self.peel(b)
        pa = self.peel(a)
        # assert(...)
        for failing, pol in ((pb, True), (pa, False)):
            if self.is_assert_fail(failing):
                c = self.truth(self.ev(ce, env))
                if isinstance(c, bool) and c != pol:
                    raise CppAbort("assertion fails", self.site())
                if not isinstance(c, bool):
                    self.asserts.append((dict(self.dec), c, pol, self.site()))
                return None
        c = self.truth(self.ev(ce, env))
        if isinstance(c, bool):
            return self.ev(a if c else b, env)
        return self.branch(c, lambda: self.ev(a, env), lambda: self.ev(b, env))

    def near(self, ds, prec, ref):
        """All of ds are zero, up to the precision (relative to ref). The default is about a rounding error: what two different computations of the same value pass is not decided by the source."""
        p = 1e-12 if prec is None else N.cval(term(prec))
        if p is None:
            raise CppUnknown("precision")
        if float(p) < 1e-9:
            self.fragile.append((dict(self.dec), [d for d in ds if d.op != "const"], self.site()))
        c = N.TRUE
        for d in ds:
            if d.op == "const":
                c = N.and_(c, N.TRUE if abs(d.attr) <= p else N.FALSE)
            else:
                c = N.and_(c, N.cmp("<=", N.mk("fn", d, attr="abs"), N.const(Fraction(str(p)))))
        return self.truth(c)

    def is_assert_fail(self, e):
        while e.get("kind") in self.TRANSPARENT or e.get("kind") == "ImplicitCastExpr":
            e = e["inner"][0]
        if e.get("kind") != "CallExpr":
            return False
        f = self.peel(e["inner"][0])
        return f.get("kind") == "DeclRefExpr" and f["referencedDecl"].get("name") == "__assert_fail"

    def x_CXXThrowExpr(self, e, env):
        raise CppAbort("exception thrown", self.site())

    def x_ArraySubscriptExpr(self, e, env):
        v, i = self.ev(e["inner"][0], env), self.ev(e["inner"][1], env)
        if isinstance(v, CVec) and isinstance(i, int):
            return Item(v.v, i)
        raise CppUnknown("subscript")

    def x_InitListExpr(self, e, env):
        return CVec([self.ev(x, env) for x in e.get("inner", [])])

    def x_CXXStdInitializerListExpr(self, e, env):
        return self.ev(e["inner"][0], env)

    def x_SourceLocExpr(self, e, env):
        return 0

    def x_PredefinedExpr(self, e, env):
        return ""

    def x_CXXDeleteExpr(self, e, env):
        self.ev(e["inner"][0], env)
        return None

    def x_CXXNewExpr(self, e, env):
        return self.ev(e["inner"][-1], env) if e.get("inner") else None

    def x_CXXScalarValueInitExpr(self, e, env):
        return 0

    def x_ImplicitValueInitExpr(self, e, env):
        return 0

    def x_MemberExpr(self, e, env):
        return self.loc(e, env)

    def x_LambdaExpr(self, e, env):
        """Closure: the body runs in a copy of the captured variables (by-reference captures share the location)."""
        inner = e["inner"]
        rec = inner[0]
        ms = [m for m in rec.get("inner", []) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"]
        fields = [m for m in rec.get("inner", []) if m.get("kind") == "FieldDecl"]
        inits = inner[1:-1]
        if len(ms) != 1 or len(fields) != len(inits) or inner[-1].get("kind") != "CompoundStmt":
            raise CppUnknown("lambda")
        m = ms[0]
        r = Func()
        r.name, r.mangled, r.node, r.tu, r.cls = "lambda", None, m, env.get("tu"), None
        r.virtual = r.pure = r.static = False
        r.kind, r.type, r.site = "Lambda", m["type"]["qualType"], self.site()
        r.params = [(x["id"], x["type"], None) for x in m.get("inner", []) if x.get("kind") == "ParmVarDecl"]
        r.body = inner[-1]
        cap = {}
        for f, x in zip(fields, inits):
            x = self.peel(x)
            while x.get("kind") in ("CXXConstructExpr", "ImplicitCastExpr", "ExprWithCleanups") and len(x.get("inner", [])) == 1:
                x = self.peel(x["inner"][0])
            if x.get("kind") == "CXXThisExpr":
                cap["this"] = env["this"]
                continue
            if x.get("kind") != "DeclRefExpr":
                raise CppUnknown("lambda capture")
            i = x["referencedDecl"]["id"]
            if f["type"]["qualType"].rstrip().endswith("&"):
                cap[i] = env[i]
            else:
                v = self.ev(x, env)
                cap[i] = self.own(self.copy(v) if not isinstance(v, CObj) or "*" not in f["type"]["qualType"] else v, f["type"])
        return Closure(r, cap)

    def call_closure(self, c, args):
        r = c.r
        self.callsites += 1
        self.enter(r)
        env = dict(c.cap)
        env["tu"], env["f"] = r.tu, r
        for (pid, t, d), v in zip(r.params, args):
            env[pid] = self.bind_param(t, v)
        s = self.block(r.body, env)
        self.leave()
        v = s[1] if s and s[0] == "return" else None
        rt = r.type.split("(")[0].strip()
        ret = re.search(r"->\s*(.+)$", r.type)
        if ret:
            rt = ret.group(1).strip()
        if isinstance(v, Mat) and not rt.endswith("&"):
            k = mat_kind(rt)
            if k:
                v = self.plain(v, k)
        if rt in ("double", "float") and v is not None:
            v = term(v)
        return v

    def x_CXXConstructExpr(self, e, env):
        t = e["type"]
        q = (t.get("desugaredQualType") or t["qualType"]).replace("const ", "").strip()
        args = [x for x in e.get("inner", []) if self.peel(x).get("kind") != "CXXDefaultArgExpr"]
        k = mat_kind(t)
        cls = q.split("::")[-1]
        if k is None and cls in self.p.classes:
            ct = e.get("ctorType", {}).get("qualType", "")
            if len(args) == 1 and re.match(r"void \((const )?(DmpBbo::)?%s (&|&&)\)" % cls, ct):
                return self.copy(self.ev(args[0], env))
            o = CObj(cls)
            self.ctor_expr_into(o, e, env)
            return o
        vals = [self.ev(x, env) for x in args]
        if k:
            return self.make_mat(k, vals, t)
        if "stream" in q:
            return self.make_stream(q, vals)
        if "basic_string" in q or cls == "string":
            if not vals:
                return ""
            if isinstance(vals[0], Line):
                return vals[0]
            if isinstance(vals[0], str):
                return vals[0]
            if isinstance(vals[0], JS):
                return self.js_as(vals[0], t)
            raise CppUnknown("string")
        m = re.match(r"(?:std::)?vector<(.*)>$", q)
        if m:
            et = m.group(1)
            if not vals:
                return CVec((), et)
            if isinstance(vals[0], CVec):
                return self.copy(vals[0])
            if isinstance(vals[0], int):
                d = self.copy(vals[1]) if len(vals) > 1 else None
                ets = et.split(", std::allocator")[0].strip()

                def item():
                    if len(vals) > 1:
                        return self.copy(vals[1])
                    x = self.field_default({"qualType": ets})
                    return x if x is not None else (None if ets.endswith("*") else N.const(0) if ets == "double" else 0)
                return CVec([item() for _ in range(vals[0])], et)
            raise CppUnknown("vector")
        if "json" in q:
            if not vals:
                return JS(None)
            v = vals[0]
            return JS(v.v) if isinstance(v, JS) else JS(v)
        if len(vals) == 1:
            return vals[0]
        if re.search(r"\bjson_ref\b|initializer_list", q):
            raise CppUnknown(q)
        if not vals:
            return STREAM if "stream" in q else None
        raise CppUnknown(f"construction of {q[:60]}")

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    # -- files
    def make_stream(self, q, vals):
        """ifstream / ofstream / stringstream (the mode argument of a file stream is not modelled)."""
        if re.search(r"[iof]fstream|basic_fstream", q):
            mode = "in" if "ifstream" in q else "out" if "ofstream" in q else None
            if mode is None or len(vals) > 1:
                raise CppUnknown(q[:40])
            st = Stream(mode)
            if vals:
                self.open_stream(st, vals[0])
            return st
        if "stringstream" in q and len(vals) >= 1 and isinstance(vals[0], Line):
            return Stream("in", [vals[0]])
        if "stringstream" in q and not vals:
            return STREAM
        if len(vals) == 1:
            return vals[0] if isinstance(vals[0], Stream) else STREAM
        if not vals:
            return STREAM
        raise CppUnknown(f"construction of {q[:60]}")

    def norm(self, p):
        if not isinstance(p, str):
            raise CppUnknown("file name")
        return os.path.normpath(p)

    def open_stream(self, st, p):
        if self.journal:
            raise CppUnknown("file opened under an undecided condition")
        st.name = self.norm(p)
        if st.mode == "in":
            st.lines = self.files.get(st.name)
            st.bad = st.lines is None
            st.row = st.col = 0
        else:
            st.bad = os.path.dirname(st.name) not in self.dirs
            if not st.bad:
                self.files[st.name] = []

    def extract(self, st, loc):
        """stream >> number."""
        if self.journal:
            raise CppUnknown("reading under an undecided condition")
        if st.mode != "in":
            raise CppUnknown("extraction")
        if st.lines is None or st.bad:
            return st
        while st.row < len(st.lines) and st.col >= len(st.lines[st.row].tok):
            if st.row == len(st.lines) - 1:
                break
            st.row, st.col = st.row + 1, 0
        if not st.lines or st.col >= len(st.lines[st.row].tok):
            st.eof = st.bad = True      # nothing was read: the variable keeps its value only at end of file
            return st
        v = st.lines[st.row].tok[st.col]
        st.col += 1
        last = st.row == len(st.lines) - 1 and st.col == len(st.lines[st.row].tok)
        if last and st.name is None and not st.lines[st.row].trail:
            st.eof = True
        if not isinstance(loc, (Box, Elem, Item)):
            raise CppUnknown("extraction")
        self.put(loc, v)
        return st

    def getline(self, st, loc):
        if self.journal:
            raise CppUnknown("reading under an undecided condition")
        if not isinstance(st, Stream) or st.mode != "in" or st.col or not isinstance(loc, Box):
            raise CppUnknown("getline")
        if st.lines is None or st.bad or st.row >= len(st.lines):
            st.bad = True
            st.eof = st.eof or st.lines is not None
            return st
        loc.v = st.lines[st.row]
        st.row += 1
        return st

    def insert(self, st, x):
        """stream << x."""
        if self.journal:
            raise CppUnknown("writing under an undecided condition")
        if x is None or st.bad:
            return st
        if isinstance(x, tuple) and x[0] == "manip":
            if x[1] in ("fixed", "scientific"):
                st.fixed = x[1] == "fixed"
            elif x[1] == "setprecision":
                st.digits = x[2]
            elif x[1] == "endl":
                self.files[st.name].append(Line([]))
            return st
        f = self.files[st.name]
        open_ = f and getattr(f[-1], "trail", False) is None
        if isinstance(x, Mat):
            rows = [Line([self.printed(st, v) for v in r]) for r in x.a]
        elif is_num(x):
            rows = [Line([self.printed(st, x)])]
        elif isinstance(x, str) and x.strip() == "" and "\n" not in x:
            return st
        elif isinstance(x, str) and x == "\n":
            f.append(Line([]))
            return st
        else:
            raise CppUnknown("text written to a file")
        # the first row continues the current line
        if not f:
            f.append(Line([]))
        if rows:
            f[-1].tok += rows[0].tok
            f += rows[1:]
        return st

    def printed(self, st, v):
        """What is read back from a printed number: itself up to the printed decimals."""
        v = term(v)
        if not st.fixed or st.digits < 6:
            raise CppAbort("numbers are printed with less than six decimals", self.site())
        return v

    def stream_call(self, o, name, args, env):
        if name in ("operator bool",):
            return not o.bad
        if name == "fail" or name == "bad":
            return o.bad
        if name == "eof":
            return o.eof
        if name == "good":
            return not (o.bad or o.eof)
        if name == "is_open":
            return o.name is not None and (o.lines is not None if o.mode == "in" else not o.bad)
        if name == "close":
            f = self.files.get(o.name) if o.mode == "out" else None
            if f and not f[-1].tok:
                f.pop()      # final newline
            return None
        if name == "open":
            vals = [self.ev(a, env) for a in args]
            if len(vals) != 1:
                raise CppUnknown("open")
            self.open_stream(o, vals[0])
            return None
        if name == "precision" and len(args) == 1:
            o.digits = self.ev(args[0], env)
            return 6
        if name == "clear" and not args:
            o.bad = o.eof = False
            return None
        raise CppUnknown(f"stream {name}")

    def make_mat(self, k, vals, t):
        if k[2]:        # Ref
            return self.bind_param(t, vals[0])
        if not vals:
            return Mat(full(1 if k[0] == "row" else 0, 1 if k[0] == "col" else 0), k[0], k[1], True)
        v = vals[0]
        if isinstance(v, Lazy):
            v = v.m
        if isinstance(v, Mat):
            if len(vals) > 1:
                raise CppUnknown("matrix constructor")
            return self.plain(v, k)
        if isinstance(v, JS):
            return self.js_as(v, t)
        if all(isinstance(x, int) for x in vals):
            if len(vals) == 1:
                if k[0] == "mat":
                    raise CppUnknown("MatrixXd(n)")
                return Mat(full(*((v, 1) if k[0] == "col" else (1, v))), k[0], k[1], True)
            return Mat(full(vals[0], vals[1]), k[0], k[1], True)
        raise CppUnknown("matrix constructor")

    # -- JSON
    def json_template(self, name, kind):
        want = {"mat": "MatrixIdLin1ELin1E", "col": "MatrixIdLin1ELi1E"}.get(kind)
        for m, r in self.p.funcs.items():
            if want and m.startswith(f"_ZN5Eigen{len(name)}{name}INS_6") and want in m and r.body is not None:
                return r
        return None

    def js_as(self, j, t):
        q = (t.get("desugaredQualType") or t["qualType"]).replace("const ", "").strip() if isinstance(t, dict) else t
        v = j.v
        k = mat_kind(t)
        r = self.json_template("from_json", k[0]) if k and not k[1] else None
        if r is not None:
            m = Mat(full(1 if k[0] == "row" else 0, 1 if k[0] == "col" else 0), k[0], k[1], True)
            self.call(r, None, [j, m])
            return m
        if k:
            if not isinstance(v, list):
                if isinstance(v, dict):
                    raise CppUnknown("matrix from an object")
                if v is None:
                    return Mat(full(1 if k[0] == "row" else 0, 1 if k[0] == "col" else 0), k[0], k[1], True)
                raise CppUnknown("matrix from a scalar")
            if v and isinstance(v[0], list):
                w = len(v[0])
                a = np.empty((len(v), w), dtype=object)
                for i, row in enumerate(v):
                    if not isinstance(row, list):
                        raise CppAbort("ragged matrix in json")
                    for jx, x in enumerate(row):
                        if jx >= w:
                            raise CppAbort("ragged matrix in json")
                        a[i, jx] = self.js_num(x)
            elif v:
                a = np.empty((len(v), 1), dtype=object)
                for i, x in enumerate(v):
                    a[i, 0] = self.js_num(x)
            else:
                return Mat(full(1 if k[0] == "row" else 0, 1 if k[0] == "col" else 0), k[0], k[1], True)
            return self.plain(Mat(a), k)
        if q == "double":
            if isinstance(v, bool):
                raise CppAbort("type must be number, but is boolean", self.site())
            return self.js_num(v)
        if q in ("int", "unsigned int", "long", "unsigned long"):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, N.Node):
                if v.op == "const":
                    return int(v.attr)
                if v.op == "bool":
                    return int(v.attr)
                if v.op in ("cmp", "and", "or", "not"):
                    raise NeedSplit(v)
                raise CppUnknown("symbolic integer in json")
            if isinstance(v, int):
                return v
            raise CppAbort("type must be number", self.site())
        if q == "bool":
            if isinstance(v, bool):
                return v
            if isinstance(v, N.Node) and v.op == "bool":
                return v.attr
            if isinstance(v, N.Node) and v.op in ("cmp", "and", "or", "not"):
                return v
            raise CppAbort("type must be boolean", self.site())
        if "string" in q:
            if isinstance(v, str):
                return v
            raise CppAbort("type must be string", self.site())
        if q.endswith("*"):
            cls = q[:-1].strip().split("::")[-1]
            for r in self.p.funcs.values():
                if r.name == "from_json" and len(r.params) == 2 and r.params[1][1] and re.sub(r"[\s*&]|DmpBbo::", "", r.params[1][1]["qualType"]) == cls and r.body is not None:
                    b = Box(None)
                    self.call(r, None, [j, b])
                    return b.get()
            raise CppUnknown(f"from_json for {cls}")
        m = re.match(r"(?:std::)?vector<(.*?)(?:, std::allocator.*)?>$", q)
        if m and isinstance(v, list):
            return CVec([self.js_as(JS(x), {"qualType": m.group(1)}) for x in v], m.group(1))
        if "json" in q:
            return JS(v)
        raise CppUnknown(f"json to {q[:50]}")

    def js_num(self, x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return N.const(x)
        if isinstance(x, N.Node):
            if x.op in ("none", "str", "bool"):
                raise CppAbort("type must be number", self.site())
            return x
        raise CppAbort("type must be number", self.site())

    # -- calls
    def x_CallExpr(self, e, env):
        f = self.peel(e["inner"][0])
        args = e["inner"][1:]
        if f.get("kind") == "MemberExpr":
            r = self.p.by_id.get((env.get("tu"), f.get("referencedMemberDecl")))
            if r and r[0] == "func":
                return self.call(r[1], None, self.args(r[1], args, env))
            raise CppUnknown("static call through member")
        if f.get("kind") != "DeclRefExpr":
            raise CppUnknown(f"call of {f.get('kind')}")
        d = f["referencedDecl"]
        r = self.p.by_id.get((env.get("tu"), d["id"]))
        if r and r[0] == "func":
            return self.call(r[1], None, self.args(r[1], args, env))
        name = d.get("name")
        if name in ("Zero", "Ones", "Constant", "Identity", "LinSpaced", "Random"):
            return self.static_mat(name, e, f, [self.ev(a, env) for a in args])
        if name == "from_json":
            vs = [self.ev(args[0], env), self.loc(args[1], env)]
            if isinstance(vs[0], JS) and isinstance(vs[1], Mat):
                k = (vs[1].kind or "mat", vs[1].arr, False)
                m = self.js_as(vs[0], {"qualType": {"col": "VectorXd", "row": "RowVectorXd", "mat": "MatrixXd"}[k[0]]})
                self.assign(vs[1], m)
                return None
            raise CppUnknown("from_json")
        if name == "getline" and len(args) == 2:
            return self.getline(self.ev(args[0], env), self.loc(args[1], env))
        if name == "swap" and len(args) == 2:
            a, b = self.loc(args[0], env), self.loc(args[1], env)
            return self.swap(a, b)
        vals = [self.ev(a, env) for a in args]
        if name in ("exists", "is_directory", "is_regular_file") and len(vals) == 1:
            p = self.norm(vals[0])
            return (p in self.files and name != "is_directory") or (p in self.dirs and name != "is_regular_file")
        if name in ("create_directories", "create_directory") and len(vals) == 1:
            p = self.norm(vals[0])
            if p in self.dirs or p in self.files:
                return False
            if self.journal:
                raise CppUnknown("directory made under an undecided condition")
            while p not in self.dirs:
                self.dirs.add(p)
                p = os.path.dirname(p)
            return True
        if name == "setprecision" and len(vals) == 1 and isinstance(vals[0], int):
            return ("manip", name, vals[0])
        ELEM = {"exp": "exp", "sqrt": "sqrt", "cos": "cos", "sin": "sin", "log": "log", "abs": "abs", "fabs": "abs", "tanh": "tanh", "floor": "floor", "ceil": "ceil"}
        if name in ELEM and len(vals) == 1:
            if isinstance(vals[0], Mat):
                return self.map1(vals[0], lambda x: self.fn(ELEM[name], x))
            if name == "abs" and isinstance(vals[0], int):
                return abs(vals[0])
            return self.fn(ELEM[name], term(vals[0]))
        if name == "pow" and len(vals) == 2:
            if isinstance(vals[0], Mat):
                return self.map1(vals[0], lambda x: N.power(x, term(vals[1])))
            return N.power(term(vals[0]), term(vals[1]))
        if name in ("max", "min", "fmax", "fmin") and len(vals) == 2 and all(is_num(v) for v in vals):
            a, b = vals
            if isinstance(a, int) and isinstance(b, int):
                return max(a, b) if "max" in name else min(a, b)
            a, b = term(a), term(b)
            return N.phi(N.cmp("<", a, b), b, a) if "max" in name else N.phi(N.cmp("<", a, b), a, b)
        if name in ("isnan", "isinf"):
            return False
        if name in ("move", "forward", "as_const") and len(vals) == 1:
            return vals[0]
        if name in ("to_string",):
            raise CppUnknown("to_string")
        if name == "set_is_malloc_allowed":
            return True
        if name == "is_malloc_allowed":
            return True
        raise CppUnknown(f"call of {name}")

    def fn(self, name, x):
        if name == "exp" and N.is_const(x, 0):
            return N.const(1)
        if name == "sqrt" and x.op == "const" and x.attr in (0, 1, 4):
            return N.const({0: 0, 1: 1, 4: 2}[int(x.attr)])
        return N.mk("fn", x, attr=name)

    def static_mat(self, name, e, f, vals):
        t = e["type"]
        # the class comes from the spelling of the callee's result: CwiseNullaryOp<..., Matrix<double, r, c>>
        s = t.get("desugaredQualType") or t["qualType"]
        m = re.search(r"(Matrix|Array)<double, (-?\d+), (-?\d+)", s)
        if not m:
            q = t["qualType"]
            kinds = {"col": "col", "row": "row"}
            raise CppUnknown(f"{name} of {q[:60]}")
        kind = "col" if m.group(3) == "1" else "row" if m.group(2) == "1" else "mat"
        ints = [v for v in vals if isinstance(v, int)]
        if name == "Constant":
            val, dims = term(vals[-1]), vals[:-1]
        else:
            val, dims = {"Zero": N.const(0), "Ones": N.const(1), "Identity": None}.get(name, None), vals
        if name in ("LinSpaced", "Random"):
            if name == "LinSpaced" and len(vals) == 3 and isinstance(vals[0], int):
                n, lo, hi = vals[0], term(vals[1]), term(vals[2])
                a = full(n, 1, N.const(0))
                for i in range(n):
                    a[i, 0] = N.add(lo, N.mul(N.div(N.const(i), N.const(max(1, n - 1))), N.sub(hi, lo)))
                return Mat(a if kind != "row" else a.T)
            raise CppUnknown(name)
        dims = [d for d in dims]
        if any(not isinstance(d, int) for d in dims):
            raise CppUnknown("symbolic size")
        if len(dims) == 1:
            sh = (dims[0], 1) if kind != "row" else (1, dims[0])
        elif len(dims) == 2:
            sh = tuple(dims)
        else:
            raise CppUnknown(name)
        if name == "Identity":
            a = full(*sh, N.const(0))
            for i in range(min(sh)):
                a[i, i] = N.const(1)
            return Mat(a)
        return Mat(full(*sh, val), None, m.group(1) == "Array")

    def x_CXXMemberCallExpr(self, e, env):
        me = e["inner"][0]
        while me.get("kind") in ("ParenExpr",):
            me = me["inner"][0]
        if me.get("kind") != "MemberExpr":
            raise CppUnknown("member call")
        args = [a for a in e["inner"][1:] if self.peel(a).get("kind") != "CXXDefaultArgExpr"]
        base = me["inner"][0]
        name = me.get("name", "")
        o = self.ev(base, env)
        if isinstance(o, CObj) or o is None:
            r = self.p.by_id.get((env.get("tu"), me.get("referencedMemberDecl")))
            if o is None:
                raise CppAbort(f"{name} called on a null pointer", self.site())
            if not r or r[0] != "func":
                raise CppUnknown(f"method {name}")
            r = r[1]
            if (r.virtual or self.any_virtual(r)) and not self.qualified(me, env):
                r = self.p.overrider(o.cls, r)
            else:
                r = self.p.overrider(r.cls, r)
            return self.call(r, o, self.args(r, e["inner"][1:], env))
        if isinstance(o, JS):
            return self.json_call(o, name, args, e, env)
        if isinstance(o, CVec):
            return self.vec_call(o, name, args, env)
        if isinstance(o, Stream):
            return self.stream_call(o, name, args, env)
        if o is STREAM:
            for a in args:
                self.ev(a, env)
            return True if name in ("operator bool", "good") else False if name in ("fail", "bad", "eof") else None
        if isinstance(o, Line):
            if name == "empty":
                return not o.tok and not o.trail
            raise CppUnknown(f"string {name}")
        if isinstance(o, str):
            vals = [self.ev(a, env) for a in args]
            if name in ("c_str", "data", "str"):
                return o
            if name in ("size", "length"):
                return len(o)
            if name == "empty":
                return o == ""
            if name == "compare" and isinstance(vals[0], str):
                return (o > vals[0]) - (o < vals[0])
            raise CppUnknown(f"string {name}")
        if isinstance(o, (Mat, Lazy)):
            vals = [self.ev(a, env) for a in args]
            return self.mat_call(o, name, vals, e)
        raise CppUnknown(f"{name} of {type(o).__name__}")

    def any_virtual(self, r):
        s = self.p.sig(r)
        for c in self.p.mro(r.cls):
            k = self.p.classes.get(c)
            m = k.methods.get(r.name, {}).get(s) if k else None
            if m is not None and m.virtual:
                return True
        return False

    def qualified(self, me, env):
        """Base::method(...) suppresses dynamic dispatch."""
        end = me.get("range", {}).get("end", {})
        off = end.get("offset")
        if off is None:
            return False
        f = end.get("file")
        src = None
        fn = env["f"].node if env.get("f") else {}
        inc = end.get("includedFrom")
        txt = self.p.source(env["tu"]) if not f else None
        if txt is None:
            return False
        name = me.get("name", "")
        if txt[off:off + len(name)] != name:
            # function defined in a header: look it up there
            for h in self.headers():
                t = self.p.text.setdefault(h, open(h, errors="replace").read())
                if t[off:off + len(name)] == name and re.search(r"::\s*$", t[:off]):
                    c = re.search(r"(\w+)\s*::\s*$", t[:off])
                    if c and c.group(1) in self.p.classes:
                        return True
            return False
        c = re.search(r"(\w+)\s*::\s*$", txt[:off])
        return bool(c and c.group(1) in self.p.classes)

    def headers(self):
        return glob.glob(os.path.join(self.p.repo, "src", "**", "*.hpp"), recursive=True)

    def json_call(self, o, name, args, e, env):
        if name in ("at", "operator[]"):
            k = self.ev(args[0], env)
            if isinstance(k, str):
                if not isinstance(o.v, dict):
                    raise CppAbort(f"cannot use at('{k}') with a json that is not an object", self.site())
                if k not in o.v:
                    raise CppAbort(f"key '{k}' not found in json", self.site())
                return JS(o.v[k])
            if isinstance(k, int):
                if not isinstance(o.v, list):
                    raise CppAbort("json is not an array", self.site())
                if not 0 <= k < len(o.v):
                    raise CppAbort(f"index {k} outside the json array", self.site())
                return JS(o.v[k])
        if name == "value" and len(args) == 2:
            k = self.ev(args[0], env)
            if isinstance(o.v, dict) and isinstance(k, str):
                return self.js_as(JS(o.v[k]), e["type"]) if k in o.v else self.ev(args[1], env)
        if name in ("get", "get_to") or name.startswith("operator "):
            if name == "get_to":
                lo = self.loc(args[0], env)
                v = self.js_as(o, args[0]["type"])
                if isinstance(lo, Mat):
                    self.assign(lo, v)
                else:
                    self.put(lo, v)
                return v
            return self.js_as(o, e["type"])
        if name == "contains" or name == "count":
            k = self.ev(args[0], env)
            return isinstance(o.v, dict) and k in o.v
        if name == "size":
            return len(o.v) if isinstance(o.v, (list, dict)) else 0 if o.v is None else 1
        if name == "is_array":
            return isinstance(o.v, list)
        if name == "is_object":
            return isinstance(o.v, dict)
        if name == "is_null":
            return o.v is None
        if name == "is_string":
            return isinstance(o.v, str)
        if name == "is_boolean":
            return isinstance(o.v, bool) or isinstance(o.v, N.Node) and o.v.op in ("bool", "cmp", "and", "or", "not")
        if name in ("is_number", "is_number_float", "is_number_integer"):
            return not isinstance(o.v, (bool, str, list, dict)) and o.v is not None
        if name == "empty":
            return not o.v if isinstance(o.v, (list, dict)) else o.v is None
        raise CppUnknown(f"json {name}")

    def vec_call(self, o, name, args, env):
        if name == "size":
            return len(o.v)
        if name == "empty":
            return not o.v
        if name in ("push_back", "emplace_back"):
            v = self.ev(args[0], env)
            self.log_vec(o)
            self.allocates("a vector grows")
            o.v.append(self.copy(v) if isinstance(v, (Mat, CVec)) else v)
            return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "clear":
            self.log_vec(o)
            o.v.clear()
            return None
        if name == "resize":
            n = self.ev(args[0], env)
            self.log_vec(o)
            if n > len(o.v):
                self.allocates("a vector grows")
            while len(o.v) > n:
                o.v.pop()
            while len(o.v) < n:
                o.v.append(self.ev(args[1], env) if len(args) > 1 else None)
            return None
        if name in ("back", "front"):
            if not o.v:
                raise CppAbort("element of an empty vector", self.site())
            k = len(o.v) - 1 if name == "back" else 0
            return o.v[k] if isinstance(o.v[k], (Mat, CVec, CObj)) else Item(o.v, k)
        if name == "at":
            return self.vec_item(o, self.ev(args[0], env))
        raise CppUnknown(f"vector {name}")

    def vec_item(self, o, k):
        if not isinstance(k, int):
            raise CppUnknown("symbolic index")
        if not 0 <= k < len(o.v):
            raise CppAbort(f"index {k} outside a vector of {len(o.v)}", self.site())
        self.log_vec(o)
        return o.v[k] if isinstance(o.v[k], (Mat, CVec)) else Item(o.v, k)

    # -- Eigen
    def map1(self, m, f):
        a = np.empty(m.a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            a[ix] = f(m.a[ix])
        return Mat(a, None, m.arr)

    def map2(self, x, y, f):
        if x.a.shape != y.a.shape:
            raise CppAbort(f"operands of shapes {x.a.shape[0]}x{x.a.shape[1]} and {y.a.shape[0]}x{y.a.shape[1]}", self.site())
        a = np.empty(x.a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            a[ix] = f(x.a[ix], y.a[ix])
        return Mat(a, None, x.arr or y.arr)

    def swap(self, a, b):
        if isinstance(a, Lazy):
            a = a.m
        if isinstance(b, Lazy):
            b = b.m
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.own and b.own and a.kind == b.kind and a.arr == b.arr:
                self.log_own(a)
                self.log_own(b)
                a.a, b.a = b.a, a.a
                return None
            if a.a.shape != b.a.shape:
                raise CppAbort("swap of matrices of different sizes")
            x, y = self.copy(a), self.copy(b)
            self.assign(a, y)
            self.assign(b, x)
            return None
        if isinstance(a, CVec) and isinstance(b, CVec):
            self.log_vec(a)
            self.log_vec(b)
            a.v, b.v = b.v, a.v
            return None
        if isinstance(a, (Box, Elem, Item)) and isinstance(b, (Box, Elem, Item)):
            x, y = a.get(), b.get()
            if is_num(x) and is_num(y) or isinstance(x, CObj) or isinstance(y, CObj):
                self.put(a, y)
                self.put(b, x)
                return None
        raise CppUnknown("swap")

    def assign(self, dst, src):
        """Eigen assignment: owners take the size of the source; views must have it."""
        if isinstance(src, Lazy):
            src = src.m
        if not isinstance(src, Mat):
            raise CppUnknown("matrix assignment")
        a = src.a.copy()
        if dst.own:
            if dst.kind == "col" and a.shape[1] != 1:
                if a.shape[0] != 1:
                    raise CppAbort("matrix assigned to a vector", self.site())
                a = a.T
            elif dst.kind == "row" and a.shape[0] != 1:
                if a.shape[1] != 1:
                    raise CppAbort("matrix assigned to a row vector", self.site())
                a = a.T
            if dst.a.shape == a.shape:
                self.log_arr(dst.a)
                dst.a[...] = a
            else:
                self.grow(dst, a.size)
                self.log_own(dst)
                dst.a = a.copy()
            return dst
        if dst.a.shape != a.shape:
            if 1 in dst.a.shape and a.T.shape == dst.a.shape:
                a = a.T
            else:
                raise CppAbort(f"{a.shape[0]}x{a.shape[1]} assigned to a {dst.a.shape[0]}x{dst.a.shape[1]} block", self.site())
        self.log_arr(dst.a)
        dst.a[...] = a
        return dst

    def resize(self, m, r, c):
        if m.a.shape == (r, c):
            return
        if not m.own:
            raise CppAbort("resizing a reference", self.site())
        self.grow(m, r * c)
        self.log_own(m)
        m.a = full(r, c)

    def grow(self, m, size):
        if self.heap is not None and size and size != m.a.size:
            self.allocates(f"a matrix of {m.a.shape[0]}x{m.a.shape[1]} becomes one of {size} elements")

    def sub(self, m, r0, c0, nr, nc):
        for v in (r0, c0, nr, nc):
            if not isinstance(v, int):
                raise CppUnknown("symbolic index")
        R, C = m.a.shape
        if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > R or c0 + nc > C:
            raise CppAbort(f"block ({r0},{c0}) of size {nr}x{nc} outside a {R}x{C} matrix", self.site())
        return Mat(m.a[r0:r0 + nr, c0:c0 + nc], None, m.arr)

    def total(self, xs, op="+"):
        xs = list(xs)
        if not xs:
            return N.const(0 if op == "+" else 1)
        t = xs[0]
        for x in xs[1:]:
            t = N.add(t, x) if op == "+" else N.mul(t, x)
        return t

    def extreme(self, xs, op):
        xs = list(xs)
        if not xs:
            raise CppAbort("extreme of nothing", self.site())
        t = xs[0]
        for x in xs[1:]:
            c = self.compare("<" if op == "min" else ">", x, t)
            t = (x if c else t) if isinstance(c, bool) else N.phi(c, x, t)
        return t

    def segment(self, m, i, n):
        if m.cols == 1:
            return self.sub(m, i, 0, n, 1)
        if m.rows == 1:
            return self.sub(m, 0, i, 1, n)
        if m.rows == 0 or m.cols == 0:
            return self.sub(m, 0, i, m.rows, n) if m.kind == "row" else self.sub(m, i, 0, n, m.cols)
        raise CppAbort("segment of a matrix", self.site())

    def flatten(self, m):
        return [m.a[i, j] for j in range(m.cols) for i in range(m.rows)]

    def mat_call(self, o, name, v, e):
        if isinstance(o, Lazy):
            return self.lazy_call(o, name, v, e)
        m = o
        if name in ("noalias", "derived", "eval", "const_cast_derived", "lazyAssign"):
            return m if name != "eval" else Mat(m.a.copy(), None, m.arr)
        if name == "array":
            return Mat(m.a, None, True)
        if name == "matrix":
            return Mat(m.a, None, False)
        if name == "rows":
            return m.rows
        if name == "cols":
            return m.cols
        if name == "size":
            return m.rows * m.cols
        if name == "innerSize" or name == "outerSize":
            return m.rows if name == "innerSize" else m.cols
        if name in ("resize", "setZero", "setOnes", "conservativeResize", "setConstant", "fill", "Zero"):
            ints = v
            val = None
            if name in ("setConstant", "fill"):
                val, ints = term(v[-1]), v[:-1]
            if name in ("setZero", "setOnes"):
                val = N.const(0 if name == "setZero" else 1)
            if ints:
                if any(not isinstance(x, int) for x in ints):
                    raise CppUnknown("symbolic size")
                sh = tuple(ints) if len(ints) == 2 else ((ints[0], 1) if m.kind == "col" or (not m.own and m.cols == 1) else (1, ints[0]))
                if name == "conservativeResize":
                    old = m.a
                    self.grow(m, sh[0] * sh[1])
                    self.log_own(m)
                    m.a = full(*sh)
                    r, c = min(sh[0], old.shape[0]), min(sh[1], old.shape[1])
                    m.a[:r, :c] = old[:r, :c]
                    return m
                self.resize(m, *sh)
            if val is not None:
                self.log_arr(m.a)
                for ix in np.ndindex(m.a.shape):
                    m.a[ix] = val
            return m
        if name == "transpose":
            return Mat(m.a.T, None, m.arr)
        if name == "transposeInPlace":
            self.log_own(m)
            m.a = m.a.T.copy()
            return None
        if name == "adjoint":
            return Mat(m.a.T, None, m.arr)
        if name == "segment":
            return self.segment(m, *v)
        if name == "head":
            return self.segment(m, 0, v[0])
        if name == "tail":
            return self.segment(m, m.rows * m.cols - v[0], v[0])
        if name == "block":
            return self.sub(m, *v)
        if name == "row":
            return self.sub(m, v[0], 0, 1, m.cols)
        if name == "col":
            return self.sub(m, 0, v[0], m.rows, 1)
        if name == "topRows":
            return self.sub(m, 0, 0, v[0], m.cols)
        if name == "bottomRows":
            return self.sub(m, m.rows - v[0], 0, v[0], m.cols)
        if name == "leftCols":
            return self.sub(m, 0, 0, m.rows, v[0])
        if name == "rightCols":
            return self.sub(m, 0, m.cols - v[0], m.rows, v[0])
        if name == "middleRows":
            return self.sub(m, v[0], 0, v[1], m.cols)
        if name == "middleCols":
            return self.sub(m, 0, v[0], m.rows, v[1])
        if name in ("topLeftCorner", "bottomLeftCorner", "topRightCorner", "bottomRightCorner"):
            r, c = v
            return self.sub(m, 0 if name.startswith("top") else m.rows - r, 0 if "Left" in name else m.cols - c, r, c)
        if name == "replicate":
            if any(not isinstance(x, int) for x in v):
                raise CppUnknown("symbolic size")
            return Mat(np.tile(m.a, (v[0], v[1])), None, m.arr)
        if name == "sum":
            return self.total(self.flatten(m))
        if name == "prod":
            return self.total(self.flatten(m), "*")
        if name == "mean":
            return N.div(self.total(self.flatten(m)), N.const(m.rows * m.cols))
        if name in ("maxCoeff", "minCoeff") and not v:
            return self.extreme(self.flatten(m), name[:3])
        if name == "squaredNorm":
            return self.total(N.mul(x, x) for x in self.flatten(m))
        if name == "norm":
            return self.fn("sqrt", self.total(N.mul(x, x) for x in self.flatten(m)))
        if name == "dot":
            y = v[0]
            if m.rows * m.cols != y.rows * y.cols:
                raise CppAbort("dot product of vectors of different size", self.site())
            return self.total(N.mul(a, b) for a, b in zip(self.flatten(m), self.flatten(y)))
        if name in ("exp", "sqrt", "cos", "sin", "abs", "log", "tanh", "cwiseAbs", "cwiseSqrt"):
            f = {"cwiseAbs": "abs", "cwiseSqrt": "sqrt"}.get(name, name)
            return self.map1(m, lambda x: self.fn(f, x))
        if name in ("square", "abs2", "cwiseAbs2"):
            return self.map1(m, lambda x: N.mul(x, x))
        if name == "cube":
            return self.map1(m, lambda x: N.mul(N.mul(x, x), x))
        if name in ("inverse", "cwiseInverse"):
            if m.arr or name == "cwiseInverse":
                return self.map1(m, lambda x: N.div(N.const(1), x))
            if m.rows == 1 and m.cols == 1:
                return self.map1(m, lambda x: N.div(N.const(1), x))
            if m.rows == 2 and m.cols == 2:
                (a, b), (c, d) = m.a
                det = N.sub(N.mul(a, d), N.mul(b, c))
                r = full(2, 2, N.const(0))
                r[0, 0], r[0, 1], r[1, 0], r[1, 1] = N.div(d, det), N.div(N.neg(b), det), N.div(N.neg(c), det), N.div(a, det)
                return Mat(r)
            raise CppUnknown("matrix inverse")
        if name == "pow":
            return self.map1(m, lambda x: N.power(x, term(v[0])))
        if name in ("cwiseProduct", "cwiseQuotient", "cwiseMin", "cwiseMax", "min", "max"):
            f = {"cwiseProduct": N.mul, "cwiseQuotient": N.div}.get(name)
            if f is None:
                mn = name.endswith("in")

                def f(a, b):
                    return N.phi(N.cmp("<", a, b), a, b) if mn else N.phi(N.cmp("<", a, b), b, a)
            if isinstance(v[0], Mat):
                r = self.map2(m, v[0], f)
            else:
                r = self.map1(m, lambda x: f(x, term(v[0])))
            return r
        if name in ("any", "all"):
            c = N.FALSE if name == "any" else N.TRUE
            for x in self.flatten(m):
                x = x if isinstance(x, N.Node) else (N.TRUE if x else N.FALSE)
                c = N.or_(c, x) if name == "any" else N.and_(c, x)
            return self.truth(c)
        if name in ("isZero", "isApprox", "isApproxToConstant", "isConstant", "isOnes", "hasNaN", "allFinite", "isMuchSmallerThan"):
            if name == "hasNaN":
                return False
            if name == "allFinite":
                return True
            if name == "isZero":
                xs = self.flatten(m)
                return self.near(xs, v[0] if v else None, [])
            if name == "isApprox":
                xs, ys = self.flatten(m), self.flatten(v[0])
                if len(xs) != len(ys):
                    raise CppAbort("isApprox of different sizes", self.site())
                return self.near([N.sub(a, b) for a, b in zip(xs, ys)], v[1] if len(v) > 1 else None, ys)
            raise CppUnknown(name)
        if name == "rowwise" or name == "colwise":
            return Lazy(name, m)
        if name in ("operator()", "operator[]", "coeff", "coeffRef"):
            return self.elem(m, v)
        if name in ("data",):
            raise CppUnknown("raw data")
        if name in ("asDiagonal",):
            n = m.rows * m.cols
            a = full(n, n, N.const(0))
            for i, x in enumerate(self.flatten(m)):
                a[i, i] = x
            return Mat(a)
        if name == "diagonal":
            n = min(m.rows, m.cols)
            a = full(n, 1, N.const(0))
            for i in range(n):
                a[i, 0] = m.a[i, i]
            return Mat(a)
        if name == "trace":
            return self.total(m.a[i, i] for i in range(min(m.rows, m.cols)))
        if name == "swap" and len(v) == 1:
            return self.swap(m, v[0])
        if name.startswith("operator"):
            return self.mat_op(name[8:], [m] + v)
        if name == "reverse":
            return Mat(m.a[::-1, ::-1], None, m.arr)
        if name == "finished":
            return m
        if name in ("value",) and m.rows * m.cols == 1:
            return m.a[0, 0]
        raise CppUnknown(f"Eigen {name}")

    def lazy_call(self, o, name, v, e):
        m = o.m
        if o.kind in ("rowwise", "colwise"):
            vecs = [m.a[i, :] for i in range(m.rows)] if o.kind == "rowwise" else [m.a[:, j] for j in range(m.cols)]
            red = {"sum": self.total, "maxCoeff": lambda x: self.extreme(x, "max"), "minCoeff": lambda x: self.extreme(x, "min"),
                   "prod": lambda x: self.total(x, "*"), "mean": lambda x: N.div(self.total(x), N.const(len(x))),
                   "squaredNorm": lambda x: self.total(N.mul(y, y) for y in x), "norm": lambda x: self.fn("sqrt", self.total(N.mul(y, y) for y in x))}
            if name in red:
                out = np.empty((len(vecs), 1), dtype=object)
                for i, x in enumerate(vecs):
                    out[i, 0] = red[name](list(x))
                return Mat(out if o.kind == "rowwise" else out.T, None, m.arr)
            if name == "replicate":
                return Mat(np.tile(m.a, (1, v[0])) if o.kind == "rowwise" else np.tile(m.a, (v[0], 1)), None, m.arr)
            if name == "reverse":
                return Mat(m.a[:, ::-1] if o.kind == "rowwise" else m.a[::-1, :], None, m.arr)
            if name.startswith("operator"):
                return self.lazy_op(o, name[8:], v[0])
        if o.kind == "comma" and name == "finished":
            return o.m
        raise CppUnknown(f"{o.kind} {name}")

    def lazy_op(self, o, op, x):
        m = o.m
        if not isinstance(x, Mat):
            raise CppUnknown("vectorwise operand")
        if o.kind == "rowwise":
            if x.rows != 1 or x.cols != m.cols:
                raise CppAbort("vectorwise operand of another size", self.site())
            y = Mat(np.tile(x.a, (m.rows, 1)), None, m.arr)
        else:
            if x.cols != 1 or x.rows != m.rows:
                raise CppAbort("vectorwise operand of another size", self.site())
            y = Mat(np.tile(x.a, (1, m.cols)), None, m.arr)
        if op == "=":
            self.assign(m, y)
            return m
        f = {"+": N.add, "-": N.sub, "*": N.mul, "/": N.div}[op[0]]
        r = self.map2(m, y, f)
        if op.endswith("="):
            self.assign(m, r)
            return m
        return r

    def elem(self, m, v):
        if any(not isinstance(x, int) for x in v):
            raise CppUnknown("symbolic index")
        if len(v) == 1:
            k = v[0]
            n = m.rows * m.cols
            if not 0 <= k < n:
                raise CppAbort(f"index {k} outside a vector of {n}", self.site())
            if m.cols == 1:
                i, j = k, 0
            elif m.rows == 1:
                i, j = 0, k
            else:
                i, j = k % m.rows, k // m.rows
        else:
            i, j = v
            if not (0 <= i < m.rows and 0 <= j < m.cols):
                raise CppAbort(f"index ({i},{j}) outside a {m.rows}x{m.cols} matrix", self.site())
        return Elem(m, i, j)

    def matmul(self, x, y):
        if x.cols != y.rows:
            raise CppAbort(f"product of {x.rows}x{x.cols} and {y.rows}x{y.cols}", self.site())
        a = np.empty((x.rows, y.cols), dtype=object)
        for i in range(x.rows):
            for j in range(y.cols):
                a[i, j] = self.total(N.mul(x.a[i, k], y.a[k, j]) for k in range(x.cols))
        return Mat(a)

    def mat_op(self, op, v):
        if len(v) == 1:
            if op == "-":
                return self.map1(v[0], N.neg)
            raise CppUnknown(f"unary {op}")
        x, y = v[0], v[1]
        if isinstance(x, Lazy):
            if x.kind in ("rowwise", "colwise"):
                return self.lazy_op(x, op, y)
            x = x.m
        if isinstance(y, Lazy):
            y = y.m
        if op == "=":
            if isinstance(y, Mat):
                return self.assign(x, y)
            if is_num(y):         # array = scalar
                self.log_arr(x.a)
                for ix in np.ndindex(x.a.shape):
                    x.a[ix] = term(y)
                return x
            raise CppUnknown("assignment")
        if op in ("+=", "-=", "*=", "/="):
            f = {"+": N.add, "-": N.sub, "*": N.mul, "/": N.div}[op[0]]
            if isinstance(y, Mat):
                if op == "*=" and not x.arr:
                    r = self.matmul(x, y)
                else:
                    if x.a.shape != y.a.shape and 1 in x.a.shape and x.a.shape == y.a.T.shape:
                        y = Mat(y.a.T, None, y.arr)
                    r = self.map2(x, y, f)
            else:
                t = term(y)
                r = self.map1(x, lambda z: f(z, t))
            self.assign(x, r)
            return x
        if op == "[]" or op == "()":
            return self.elem(x, v[1:])
        f = {"+": N.add, "-": N.sub, "*": N.mul, "/": N.div}.get(op)
        if f is not None:
            if isinstance(x, Mat) and isinstance(y, Mat):
                if op == "*" and not (x.arr or y.arr):
                    return self.matmul(x, y)
                return self.map2(x, y, f)
            if isinstance(x, Mat):
                t = term(y)
                return self.map1(x, lambda z: f(z, t))
            t = term(x)
            return self.map1(y, lambda z: f(t, z))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(x, Mat) and isinstance(y, Mat):
                if x.arr or y.arr:
                    r = self.map2(x, y, lambda a, b: self.cnode(self.compare(op, a, b)))
                    return r
                c = N.TRUE
                if x.a.shape != y.a.shape:
                    return op == "!="
                for a, b in zip(self.flatten(x), self.flatten(y)):
                    c = N.and_(c, self.cnode(self.compare("==", a, b)))
                return self.truth(c if op == "==" else N.not_(c))
            if isinstance(x, Mat):
                return self.map1(x, lambda z: self.cnode(self.compare(op, z, y)))
            return self.map1(y, lambda z: self.cnode(self.compare(op, x, z)))
        if op in ("&&", "||"):
            return self.map2(x, y, N.and_ if op == "&&" else N.or_)
        if op == "<<":
            return self.comma(Lazy("comma", x, [0, 0, 0]), y)
        raise CppUnknown(f"operator {op} of matrices")

    def cnode(self, c):
        return c if isinstance(c, N.Node) else (N.TRUE if c else N.FALSE)

    def comma(self, lz, y):
        m = lz.m
        r, c, h = lz.st
        a = y.a if isinstance(y, Mat) else None
        if a is None:
            a = full(1, 1, term(y))
        if a.shape[0] == 0 or a.shape[1] == 0:
            # an empty block has no effect besides its width
            return Lazy("comma", m, [r, c + (a.shape[1] if a.shape[0] else 0), h])
        if m.isvec() and m.rows != 1 and a.shape[1] == 1 and m.cols == 1 and (r, c) != (0, 0) and c >= m.cols:
            pass
        if c >= m.cols:
            r, c, h = r + h, 0, 0
        if h == 0:
            h = a.shape[0]
        if r + a.shape[0] > m.rows or c + a.shape[1] > m.cols:
            raise CppAbort("comma initializer does not fit", self.site())
        self.log_arr(m.a)
        m.a[r:r + a.shape[0], c:c + a.shape[1]] = a
        return Lazy("comma", m, [r, c + a.shape[1], h])

    def x_CXXOperatorCallExpr(self, e, env):
        f = self.peel(e["inner"][0])
        name = f["referencedDecl"].get("name", "") if f.get("kind") == "DeclRefExpr" else ""
        op = name[8:].strip() if name.startswith("operator") else ""
        args = e["inner"][1:]
        if op == "<<" or op == ">>":
            a = self.ev(args[0], env)
            if a is STREAM or a is None:
                return STREAM
            if isinstance(a, Stream):
                return self.insert(a, self.ev(args[1], env)) if op == "<<" else self.extract(a, self.loc(args[1], env))
            if isinstance(a, Mat):
                return self.mat_op("<<", [a, self.ev(args[1], env)])
            raise CppUnknown("operator <<")
        if op == "()" and "lambda" in args[0].get("type", {}).get("qualType", ""):
            c = self.ev(args[0], env)
            if isinstance(c, Closure):
                return self.call_closure(c, self.args(c.r, args[1:], env))
        r = self.p.by_id.get((env.get("tu"), f.get("referencedDecl", {}).get("id")))
        if r and r[0] == "func" and r[1].body is not None:
            r = r[1]
            if r.kind == "CXXMethodDecl":
                return self.call(r, self.ev(args[0], env), self.args(r, args[1:], env))
            return self.call(r, None, self.args(r, args, env))
        if op == "=":
            v = self.ev(args[1], env)
            x = self.ev_lhs(args[0], env)
            if isinstance(x, Mat):
                if isinstance(v, JS):
                    v = self.js_as(v, args[0]["type"])
                return self.mat_op("=", [x, v])
            if isinstance(x, Lazy):
                return self.mat_op("=", [x.m if x.kind == "noalias" else x, v])
            if isinstance(x, CVec):
                self.log_vec(x)
                if len(v.v) > len(x.v):
                    self.allocates("a vector grows")
                x.v = self.copy(v).v
                return x
            if isinstance(x, JS):
                x.v = v.v if isinstance(v, JS) else v
                return x
            if isinstance(x, CObj) and isinstance(v, CObj):
                if self.journal:
                    raise CppUnknown("object assignment under an undecided condition")
                cp = self.copy(v)
                for kk, vv in cp.f.items():
                    o = x.f.get(kk)
                    if isinstance(o, Mat):
                        self.assign(o, vv)
                    else:
                        x.f[kk] = vv
                return x
            if isinstance(x, (Box, Elem, Item)):
                self.put(x, v)
                return x
            raise CppUnknown("operator=")
        vals = [self.ev(a, env) for a in args]
        a = vals[0]
        if isinstance(a, Stream) and op == "!":
            return a.bad
        if op == ",":
            return self.comma(a, vals[1])
        if isinstance(a, CVec):
            if op == "[]":
                return self.vec_item(a, vals[1])
        if isinstance(a, JS):
            if op == "[]":
                return self.json_call(a, "at", args[1:], e, env)
            if op in ("==", "!=") and not isinstance(vals[1], JS):
                return self.compare(op, a.v, vals[1])
        if isinstance(a, str) or isinstance(vals[-1], str):
            if op in ("==", "!=", "<", ">"):
                b = vals[1]
                if isinstance(b, JS):
                    b = b.v
                return self.compare(op, a, b)
            if op == "+" and all(isinstance(x, str) for x in vals):
                return vals[0] + vals[1]
            raise CppUnknown("string operator")
        if any(isinstance(x, (Mat, Lazy)) for x in vals):
            return self.mat_op(op, vals)
        raise CppUnknown(f"operator {op} of {type(a).__name__}")

    def ev_lhs(self, e, env):
        v = self.loc(e, env)
        if isinstance(v, (Box, Item)) and isinstance(v.get(), (Mat, CVec, JS, Lazy)):
            return v.get()
        return v


# ------------------------------------------------------------------ traces
class Traces:
    """All guarded traces of run(interp) -> nested structure of Mat / numbers."""
    MAX = 64

    def __init__(self, prog, run):
        self.out = []          # (decisions, result or CppAbort)
        self.checks, self.checked = [], {}
        self.fns, self.callsites = {}, 0
        work = [{}]
        while work:
            if len(self.out) + len(work) > self.MAX:
                raise CppUnknown("too many traces")
            dec = work.pop()
            I = Interp(prog, dec)
            try:
                r = run(I)
            except NeedSplit as s:
                if s.cond in dec or N.not_(s.cond) in dec:
                    raise CppUnknown("undecided condition")
                work.append({**dec, s.cond: False})
                work.append({**dec, s.cond: True})
                continue
            except CppAbort as a:
                r = a
            for q, n in I.fcount.items():
                self.fns[q] = self.fns.get(q, 0) + n
            self.callsites += I.callsites
            self.out.append((dec, r))
            self.checks.append((I.asserts, I.fragile))

    def pick(self, m):
        """Result of the trace taken in model m."""
        for k, (dec, r) in enumerate(self.out):
            if all(m.truth(c) == b for c, b in dec.items()):
                return r if isinstance(r, CppAbort) else self.asserted(m, k) or r
        raise CppUnknown("no trace")

    def asserted(self, m, k):
        """CppAbort if an assertion on symbolic values fails in model m on trace k."""
        key = (id(m), k)
        if key in self.checked:
            return self.checked[key][1]
        res = None
        for dec, c, pol, site in self.checks[k][0]:
            try:
                if all(m.truth(x) == b for x, b in dec.items()) and m.truth(c) != pol:
                    res = CppAbort("assertion fails", site)
                    break
            except ri.Unknown:
                continue
        for dec, ds, site in self.checks[k][1] if res is None else ():
            try:
                if all(m.truth(x) == b for x, b in dec.items()) and any(abs(m.ev(d)) < 1e-12 for d in ds):
                    res = CppAbort("two computations of the same value are compared to within rounding errors", site)
                    break
            except ri.Unknown:
                continue
        self.checked[key] = (m, res)
        return res

    def pick_ok(self, m):
        r = self.pick(m)
        if isinstance(r, CppAbort):
            u = CppUnknown(f"C++ aborts: {r} [{r.site}]")
            u.error = True
            raise u
        return r

    def value(self, m, *path):
        r = self.pick(m)
        if isinstance(r, CppAbort):
            u = CppUnknown(f"C++ aborts: {r} [{r.site}]")
            u.error = True
            raise u
        for p in path:
            r = r[p]
        return ev_value(m, r)


def ev_value(m, v):
    if isinstance(v, Mat):
        a = np.empty(v.a.shape, dtype=object)
        for ix in np.ndindex(a.shape):
            a[ix] = m.ev(v.a[ix])
        return a
    if isinstance(v, N.Node):
        return m.ev(v)
    if isinstance(v, (list, tuple)):
        return [ev_value(m, x) for x in v]
    return v


# ------------------------------------------------------------------ client
class Client:
    """Calls the public C++ API within one trace."""

    def __init__(self, I):
        self.I, self.p = I, I.p

    def from_json(self, cls, js):
        return self.I.js_as(JS(js), {"qualType": f"DmpBbo::{cls} *"})

    def vec(self, xs):
        a = np.empty((len(xs), 1), dtype=object)
        for i, x in enumerate(xs):
            a[i, 0] = term(x)
        return Mat(a, "col", False, True)

    def mat(self, rows, kind="mat"):
        a = np.empty((len(rows), len(rows[0])), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = term(x)
        return Mat(a, kind, False, True)

    def empty(self, r=0, c=0, kind="mat"):
        return Mat(full(r, c), kind, False, True)

    def method(self, cls, name, nargs, pick=None):
        for c in self.p.mro(cls):
            k = self.p.classes.get(c)
            for r in (k.methods.get(name, {}).values() if k else ()):
                if len(r.params) == nargs and (pick is None or pick(r)):
                    return r
        raise CppUnknown(f"no method {cls}::{name} with {nargs} arguments")

    def call(self, obj, name, *args, pick=None):
        if obj is None:
            raise CppAbort("null pointer")
        r = self.method(obj.cls, name, len(args), pick)
        r = self.p.overrider(obj.cls, r)
        if self.I.heap is not None:
            for v, (_, t, _) in zip(args, r.params):
                k = mat_kind(t)
                if k and not k[2] and not (t.get("desugaredQualType") or t["qualType"]).rstrip().endswith("&") and v.a.size:
                    self.I.heap.append((dict(self.I.dec), "a matrix is passed by value", r.qual()))
        return self.I.call(r, obj, list(args))

    def heap(self, call):
        """Heap allocations of call(): [(decisions under which it happens, what, site)]."""
        I = self.I
        I.heap = []
        try:
            call()
            return [(d, "a product is evaluated into a temporary" if isinstance(x, tuple) else x, site) for d, x, site in I.heap]
        finally:
            I.heap = None

    def static(self, cls, name, *args, pick=None):
        return self.I.call(self.method(cls, name, len(args), pick), None, list(args))

    def new(self, cls, *args, like=()):
        """Object made by the public constructor whose first parameters' types contain the words `like`."""
        k = self.p.classes.get(cls)
        for r in (k.methods.get("<ctor>", {}).values() if k else ()):
            if r.body is None or len(r.params) < len(args) or len(like) > len(r.params):
                continue
            if any(d is None for _, _, d in r.params[len(args):]) or any(x not in t["qualType"] for x, (_, t, _) in zip(like, r.params)):
                continue
            vs = list(args) + [self.I.ev(d[1], {"tu": d[0], "f": r}) for _, _, d in r.params[len(args):]]
            return self.I.construct(cls, r, vs)
        raise CppUnknown(f"no constructor of {cls} with {len(args)} arguments like {like}")

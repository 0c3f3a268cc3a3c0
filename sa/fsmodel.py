"""Model of the file system and of (de)serialisation over the abstract domain.

Files whose path is a known text are entries of one dictionary in the abstract heap (so it forks and merges with the
state); contents are snapshots. Operations on paths that are not known stay unknown environment calls.
JSON pickling is a deep copy; text matrices lose the distinction of shapes that numpy.loadtxt squeezes."""
import fnmatch
import os
import re

from . import nodes as N
from .values import *

FS = -1          # heap address of the file table
ABSENT = strv("<absent>")
CALLS = {"os.path.join", "os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.abspath", "os.path.normpath",
         "os.path.expanduser", "os.fspath", "os.makedirs", "os.mkdir", "os.path.isfile", "os.path.exists", "os.path.isdir",
         "os.remove", "os.unlink", "glob.glob", "glob.iglob", "os.listdir", "numpy.savetxt", "numpy.loadtxt",
         "json.dumps", "json.dump", "json.JSONEncoder.default", "jsonpickle.encode", "jsonpickle.dumps", "jsonpickle.decode", "jsonpickle.loads", "pandas.read_csv"}


def text(n):
    """Known text of a string or path node, or None."""
    if n.op == "str":
        return n.attr
    if n.op == "path":
        ts = [text(a) for a in n.args]
        if any(t is None for t in ts):
            return None
        return norm(ts)
    if n.op == "fstr":
        out, k = "", 0
        for t in n.attr:
            if t[0] == "t":
                out += t[1]
            else:
                a = n.args[k]
                k += 1
                x = text(a) if not t[1] or t[1] == "s" else None
                if a.op == "const" and a.attr.denominator == 1:
                    x = format(int(a.attr), t[1])
                if x is None:
                    return None
                out += x
        return out
    if n.op == "strcat":
        ts = [text(a) for a in n.args]
        return None if any(t is None for t in ts) else "".join(ts)
    return None


def norm(ts):
    p = os.path.join(*ts) if ts else "."
    p = re.sub(r"/+", "/", p)
    parts = [x for x in p.split("/") if x not in ("", ".")]
    return ("/" if p.startswith("/") else "") + "/".join(parts) or "."


def pathnode(s):
    return N.mk("path", N.const(s))


def mkpath(nodes):
    n = N.mk("path", *nodes)
    t = text(n)
    return Ext(pathnode(t) if t is not None else n)


def fold_str(v):
    """Sc of a string-like node: its text when known"""
    if isinstance(v, Sc) and v.node.op in ("fstr", "strcat"):
        t = text(v.node)
        if t is not None:
            return strv(t)
    return v


def table(I, st):
    if FS not in st.heap:
        st.heap[FS] = DctCell([])
    return st.heap[FS]


def key(p):
    return strv(norm([p]))


def lookup(I, st, p):
    t = table(I, st)
    return I.parts_get(t.parts, key(p).node, st, ABSENT, Dct(FS))


def put(I, st, p, kind, val):
    table(I, st)
    I.dict_set(st.heap[FS], key(p), Tup([strv(kind), val]))
    I.log_event("fs.write", None, [key(p), strv(kind)], {}, None, st)


def absent(v):
    return isinstance(v, Sc) and v.node is ABSENT.node


def remove(I, st, p):
    I.dict_set(table(I, st), key(p), ABSENT)


def die(I, st, exc):
    from .interp import Dead
    I.raises.append(dict(exc=exc, site=I.site(), guards=st.guards, func=I.stack[-1].qual if I.stack else "", loops=tuple(I.loops)))
    raise Dead()


def makedirs(I, st, p):
    p = norm([p])
    parts = p.split("/")
    for k in range(1, len(parts) + 1):
        q = "/".join(parts[:k])
        if q in ("", "."):
            continue
        v = lookup(I, st, q)
        if absent(v) or isinstance(v, Phi):
            put(I, st, q, "dir", NONEV)


def new_dir(I, st, p, ok, parents):
    v = lookup(I, st, p)
    if not absent(v) and not isinstance(v, Phi) and (ok is None or I.node(st, ok) is N.FALSE):
        die(I, st, "FileExistsError")
    if not parents:
        parent_exists(I, st, p)
    makedirs(I, st, p)


def parent_exists(I, st, p):
    d = os.path.dirname(norm([p]))
    if d in ("", "/", "."):
        return
    v = lookup(I, st, d)
    if isinstance(v, Phi):
        return
    if absent(v):
        die(I, st, "FileNotFoundError")


def kind_is(I, st, v, kinds):
    def go(s, x):
        if absent(x):
            return FALSEV
        if not isinstance(x, Tup):
            return Sc(N.opaque("isfile"))
        return Sc(N.const(not kinds or x.items[0].node.attr in kinds))
    return I.cases(st, v, go)


def unknown_write(I, st):
    """something was written to, or removed from, a path that is not known"""
    table(I, st).parts.append(("open", N.opaque("files")))


FILES = ("txt", "text", "csv")


def snapshot(I, st, v):
    """an immutable copy, held in a list cell"""
    return I.new_list(st, [("e", I.deepcopy(v, st))])


def encode(I, st, v):
    lst = snapshot(I, st, v)
    return Ext(N.mk("jsonenc", attr=lst.addr))


def json_encode(I, st, v, cls):
    lst = I.new_list(st, [("e", I.deepcopy(v, st)), ("e", cls or NONEV)])
    return Ext(N.mk("jsontext", attr=lst.addr))


def json_document(I, st, v):
    """(object, encoder class) whose JSON text v is, or None."""
    if not isinstance(v, (Ext, Sc)):
        return None
    n = v.node
    if n.op == "textcat":
        parts = [a for a in n.args if not (a.op == "str" and not a.attr.strip())]
        if len(parts) != 1:
            return None
        n = parts[0]
    if n.op == "jsontext" and n.attr in st.heap:
        return [x[1] for x in st.heap[n.attr].parts]
    return None


def decode(I, st, v):
    if isinstance(v, Phi):
        return I.cases(st, v, lambda s, x: decode(I, s, x))
    if isinstance(v, (Ext, Sc)) and v.node.op == "jsonenc" and v.node.attr in st.heap:
        return I.deepcopy(st.heap[v.node.attr].parts[0][1], st)
    return None


def loaded(I, st, n, ndmin):
    s = N.shape_of(n)
    if s is None or any(N.cval(d) is None for d in s) or len(s) > 2:
        return None
    dims = [int(N.cval(d)) for d in s]
    if len(dims) == 0:
        return None
    if len(dims) == 1:
        two = [dims[0], 1]
    else:
        two = dims
    out = list(two)
    if ndmin < 2:
        out = [d for d in out if d != 1]
        if not out and ndmin == 1:
            out = [1]
    if out == dims:
        return I.new_arr(st, n)
    if not out:
        from . import npmodel
        a = I.new_arr(st, n)
        flat = npmodel.arr_method(I, a, "reshape", [num(-1)], {}, st)
        return I.getitem(flat, num(0), st)
    from . import npmodel
    return npmodel.arr_method(I, I.new_arr(st, n), "reshape", [num(d) for d in out], {}, st)


def fmt_of(args, kwargs):
    v = kwargs.get("fmt", args[2] if len(args) > 2 else None)
    if v is None:
        return "%.18e"
    return v.node.attr if isinstance(v, Sc) and v.node.op == "str" else None


WRITERS = {"os.makedirs", "os.mkdir", "os.remove", "os.unlink", "numpy.savetxt"}


def call(I, path, args, kwargs, st):
    """Library call on files with known paths; None if not modelled."""
    r = call1(I, path, args, kwargs, st)
    if r is None and (path in WRITERS or path == "builtins.open" and FS in st.heap):
        unknown_write(I, st)
    return r


def call1(I, path, args, kwargs, st):
    def P(k, nm=None):
        v = args[k] if len(args) > k else kwargs.get(nm) if nm else None
        if v is None:
            return None
        n = I.node(st, v)
        return text(n)
    if path == "os.path.join":
        t = text(N.mk("path", *[I.node(st, a) for a in args]))
        return strv(t) if t is not None else None
    if path in ("os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.abspath", "os.path.normpath", "os.path.expanduser", "os.fspath"):
        p = P(0)
        if p is None:
            return None
        f = path.rsplit(".", 1)[1]
        if f == "dirname":
            return strv(os.path.dirname(p))
        if f == "basename":
            return strv(os.path.basename(p))
        if f == "splitext":
            return Tup([strv(x) for x in os.path.splitext(p)])
        return strv(p)
    if path in ("os.makedirs", "os.mkdir"):
        p = P(0, "name")
        if p is None:
            return None
        new_dir(I, st, p, kwargs.get("exist_ok", args[2] if len(args) > 2 and path == "os.makedirs" else None), path == "os.makedirs")
        return NONEV
    if path in ("os.path.isfile", "os.path.exists", "os.path.isdir"):
        p = P(0)
        if p is None:
            return None
        f = path.rsplit(".", 1)[1]
        return kind_is(I, st, lookup(I, st, p), FILES if f == "isfile" else ("dir",) if f == "isdir" else None)
    if path in ("os.remove", "os.unlink"):
        p = P(0)
        if p is None:
            return None
        if absent(lookup(I, st, p)):
            die(I, st, "FileNotFoundError")
        remove(I, st, p)
        return NONEV
    if path in ("glob.glob", "glob.iglob", "os.listdir"):
        p = P(0)
        if p is None:
            return None
        parts = table(I, st).parts
        if any(q[0] != "kv" or not isinstance(q[1], Sc) or q[1].node.op != "str" or isinstance(q[2], Phi) for q in parts):
            return None
        names = [q[1].node.attr for q in parts if not absent(q[2])]
        if path == "os.listdir":
            hits = [os.path.basename(x) for x in names if os.path.dirname(x) == norm([p])]
        else:
            hits = [x for x in names if fnmatch.fnmatch(x, norm([p])) and x.count("/") == norm([p]).count("/")]
        # the order of directory entries is arbitrary
        return I.list_of(st, [strv(x) for x in sorted(hits, key=lambda x: x[::-1], reverse=True)])
    if path in ("numpy.savetxt", "numpy.loadtxt"):
        p = P(0, "fname")
        if p is None:
            return None
        if path == "numpy.savetxt":
            x = args[1] if len(args) > 1 else kwargs.get("X")
            n = I.node(st, x)
            parent_exists(I, st, p)
            f = fmt_of(args, kwargs)
            if f != "%.18e":
                n = N.mk("fmtnum", n, attr=f or "?")
            put(I, st, p, "txt", Ext(n))
            I.log_event("numpy.savetxt", None, args, kwargs, n, st)
            return NONEV
        v = lookup(I, st, p)
        nd = kwargs.get("ndmin")
        nd = 0 if nd is None else int(N.cval(I.node(st, nd)) or 0)

        def go(s, x):
            if absent(x):
                die(I, s, "FileNotFoundError")
            if isinstance(x, Tup) and x.items[0].node.attr == "txt":
                r = loaded(I, s, x.items[1].node, nd)
                return r if r is not None else Ext(N.mk("loadtxt", x.items[1].node))
            return Ext(N.opaque("loadtxt"))
        return I.cases(st, v, go)
    if path == "json.JSONEncoder.default":
        die(I, st, "TypeError")
    if path == "json.dumps":
        return json_encode(I, st, args[0], kwargs.get("cls"))
    if path == "json.dump":
        f = args[1] if len(args) > 1 else kwargs.get("fp")
        if isinstance(f, (Ext, Sc)) and f.node.op == "file":
            return file_write(I, st, f.node.args[0].attr, json_encode(I, st, args[0], kwargs.get("cls")))
        return None
    if path in ("jsonpickle.encode", "jsonpickle.dumps"):
        return encode(I, st, args[0])
    if path in ("jsonpickle.decode", "jsonpickle.loads"):
        return decode(I, st, args[0])
    if path == "pandas.read_csv":
        p = P(0)
        if p is None:
            return None

        def go(s, x):
            if absent(x):
                die(I, s, "FileNotFoundError")
            if isinstance(x, Tup) and x.items[0].node.attr == "csv":
                return I.deepcopy(x.items[1], s)
            return Ext(N.opaque("read_csv"))
        return I.cases(st, lookup(I, st, p), go)
    if path == "builtins.open":
        p = P(0, "file")
        if p is None:
            return None
        m = P(1, "mode") or "r"
        if "w" in m:
            parent_exists(I, st, p)
            put(I, st, p, "text", strv(""))
        elif "r" in m and absent(lookup(I, st, p)):
            die(I, st, "FileNotFoundError")
        return Ext(N.mk("file", N.const(norm([p])), N.const(m)))
    return None


def file_write(I, st, p, x):
    def add(s, cur):
        old = cur.items[1] if isinstance(cur, Tup) else strv("")
        if isinstance(old, Sc) and old.node.op == "str" and old.node.attr == "":
            new = x
        else:
            new = Ext(N.mk("textcat", I.node(s, old), I.node(s, x)))
        put(I, s, p, "text", new)
        return NONEV
    cur = lookup(I, st, p)
    if isinstance(cur, Phi):
        put(I, st, p, "text", x)
        return NONEV
    return add(st, cur)


def file_read(I, st, p):
    def go(s, x):
        if absent(x):
            die(I, s, "FileNotFoundError")
        if isinstance(x, Tup) and x.items[0].node.attr == "text":
            return x.items[1]
        return Ext(N.opaque("read"))
    return I.cases(st, lookup(I, st, p), go)


def file_method(I, v, name, args, kwargs, st):
    p = v.node.args[0].attr
    if name == "write":
        return file_write(I, st, p, args[0])
    if name == "read":
        return file_read(I, st, p)
    if name in ("close", "flush", "__enter__", "__exit__"):
        return v if name == "__enter__" else NONEV
    return None


def path_method(I, v, name, args, kwargs, st):
    t = text(v.node)
    if name == "joinpath":
        return mkpath([v.node] + [I.node(st, a) for a in args])
    if t is None:
        return None
    if name in ("exists", "is_file", "is_dir"):
        return kind_is(I, st, lookup(I, st, t), FILES if name == "is_file" else ("dir",) if name == "is_dir" else None)
    if name == "mkdir":
        par = kwargs.get("parents", args[1] if len(args) > 1 else None)
        new_dir(I, st, t, kwargs.get("exist_ok", args[2] if len(args) > 2 else None), par is not None and I.node(st, par) is N.TRUE)
        return NONEV
    if name == "open":
        return call(I, "builtins.open", [strv(t)] + list(args), kwargs, st)
    if name == "read_text":
        return file_read(I, st, t)
    if name == "write_text":
        parent_exists(I, st, t)
        put(I, st, t, "text", args[0])
        return NONEV
    if name == "unlink":
        if absent(lookup(I, st, t)):
            mo = kwargs.get("missing_ok")
            if mo is not None and I.node(st, mo) is N.TRUE:
                return NONEV
            die(I, st, "FileNotFoundError")
        remove(I, st, t)
        return NONEV
    if name in ("glob", "iterdir"):
        pat = text(I.node(st, args[0])) if args else "*"
        r = call(I, "glob.glob", [strv(norm([t, pat]))], {}, st) if pat is not None else None
        if r is None:
            return None
        return I.list_of(st, [Ext(pathnode(I.node(st, x).attr)) for x in I.concrete_items(r, st)])
    if name == "with_suffix":
        s = text(I.node(st, args[0]))
        return Ext(pathnode(os.path.splitext(t)[0] + s)) if s is not None else None
    if name in ("with_name",):
        s = text(I.node(st, args[0]))
        return Ext(pathnode(norm([os.path.dirname(t), s]))) if s is not None else None
    if name in ("resolve", "absolute", "expanduser"):
        return v
    if name in ("__str__", "as_posix", "__fspath__"):
        return strv(t)
    return None


def path_attr(I, v, name, st):
    t = text(v.node)
    if t is None:
        return None
    b = os.path.basename(t)
    if name == "name":
        return strv(b)
    if name == "stem":
        return strv(os.path.splitext(b)[0])
    if name == "suffix":
        return strv(os.path.splitext(b)[1])
    if name == "parent":
        return Ext(pathnode(os.path.dirname(t) or "."))
    if name == "parts":
        return Tup([strv(x) for x in t.split("/")])
    return None


def to_csv(I, v, target, kwargs, st):
    t = text(I.node(st, target))
    if t is None:
        return None
    parent_exists(I, st, t)
    idx = kwargs.get("index")
    if idx is not None and I.node(st, idx) is N.FALSE:
        put(I, st, t, "csv", v)
    else:
        put(I, st, t, "csv", Ext(N.mk("csv_with_index", v.node)))
    return NONEV

"""From an abstract Python object to the JSON file the C++ side reads, and to C++ objects made of it."""
from sa import cpp, fsmodel
from sa.cpp import term
from .c08 import *

FILE = "for_cpp.json"


class Bad(ri.Unknown):
    error = True


def saved(w, obj, filename=FILE):
    """JSON document (Python dicts, lists, numbers or terms) that savejson_for_cpp writes."""
    w.callf("dmpbbo.json_for_cpp.savejson_for_cpp", strv(filename), obj)
    v = fsmodel.lookup(w.I, w.st, filename)
    if not (isinstance(v, Tup) and v.items[0].node.attr == "text"):
        if fsmodel.absent(v):
            raise Bad("nothing was written to the file")
        raise ri.Unknown("written file")
    d = fsmodel.json_document(w.I, w.st, v.items[1])
    if d is None:
        raise ri.Unknown("text written to the file")
    obj, cls = d
    enc = w.I.call(cls, [], {}, w.st) if isinstance(cls, Cls) else None
    return tree(w, obj, enc)


def leaves(n):
    sh = N.shape_of(n)
    if sh is None or any(N.cval(d) is None for d in sh):
        raise ri.Unknown("array of unknown shape in the JSON document")

    def go(ix, k):
        if k == len(sh):
            x = n
            for i in ix:
                x = N.mk("index", x, N.const(i), attr="p")
            return scalar(x)
        return [go(ix + [i], k + 1) for i in range(int(N.cval(sh[k])))]
    return go([], 0)


def scalar(n):
    if n is N.NONE:
        return None
    if n.op in ("str", "bool"):
        return n.attr
    if n.op == "const":
        f = n.attr
        return int(f) if f.denominator == 1 else n
    return n


def tree(w, v, enc, depth=0):
    v = w.I.resolve(v, w.st)
    if depth > 40:
        raise Bad("circular reference in the JSON document")
    if isinstance(v, Sc):
        if N.shape_rank(v.node) not in (0, None):
            return leaves(v.node)
        return scalar(v.node)
    if isinstance(v, Dct):
        out = {}
        for k, x in pairs(w, v):
            out[k] = tree(w, x, enc, depth + 1)
        return out
    if isinstance(v, (Lst, Tup)):
        if isinstance(v, Lst):
            ps = w.st.heap[v.addr].parts
            if len(ps) == 1 and ps[0][0] == "open":
                return leaves(ps[0][1])
        items = w.I.concrete_items(v, w.st)
        if items is None:
            return leaves(w.node(v))
        return [tree(w, x, enc, depth + 1) for x in items]
    if isinstance(v, (Arr, Obj)):
        if enc is None:
            raise Bad("value that json cannot serialise")
        r = w.I.resolve(w.I.call(w.I.getattr(enc, "default", w.st), [v], {}, w.st), w.st)
        if isinstance(r, Arr):
            raise Bad("array that json cannot serialise")
        if isinstance(r, Obj) and r.addr == getattr(v, "addr", None):
            raise Bad("object that json cannot serialise")
        return tree(w, r, enc, depth + 1)
    if isinstance(v, Ext):
        raise ri.Unknown("opaque value in the JSON document")
    if isinstance(v, Phi):
        raise ri.Unknown("value in the JSON document depends on a condition")
    raise ri.Unknown(f"{type(v).__name__} in the JSON document")


def pairs(w, d):
    out = []
    for p in w.st.heap[d.addr].parts:
        if p[0] != "kv":
            raise ri.Unknown("dictionary in the JSON document")
        k = p[1].node if isinstance(p[1], Sc) else None
        if k is None or k.op != "str":
            raise ri.Unknown("key in the JSON document")
        out.append((k.attr, p[2]))
    return out


def cells(w, node, *shape):
    """Nested list of the element terms of an array term of known shape."""
    return leaves(node) if not shape else [leaves(N.mk("index", node, N.const(i), attr="p")) for i in range(shape[0])]


def cpp_run(s, run):
    """Traces of a C++ client; what they analysed goes to the evidence of scenario s."""
    tr = cpp.Traces(cpp.cpp_program(), run)
    s.cpp.append(tr)
    return tr


def vals(a):
    return [x for x in np.asarray(a, dtype=object).ravel()]

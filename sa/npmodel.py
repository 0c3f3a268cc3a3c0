"""Models of builtins, numpy and container methods over the abstract domain."""
from fractions import Fraction

import numpy as np

from . import fsmodel
from . import nodes as N
from .values import *

ELEM1 = {"exp": "exp", "log": "log", "sqrt": "sqrt", "abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor",
         "ceil": "ceil", "sin": "sin", "cos": "cos", "tan": "tan", "tanh": "tanh", "arctan": "arctan",
         "degrees": "degrees", "sign": "sign", "isnan": "isnan", "isfinite": "isfinite", "log10": "log10", "rint": "round",
         "expm1": "expm1", "log1p": "log1p"}
ARITH = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow",
         "float_power": "Pow", "floor_divide": "FloorDiv", "mod": "Mod", "logical_and": "BitAnd", "logical_or": "BitOr"}
CMPS = {"less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "equal": "Eq", "not_equal": "NotEq"}
REDUCE = {"sum": "sum", "prod": "prod", "mean": "mean", "max": "max", "amax": "max", "min": "min", "amin": "min",
          "any": "any", "all": "all", "std": "std", "var": "var", "argmax": "argmax", "argmin": "argmin", "median": "median",
          "nansum": "sum"}


def sc_ok(v):
    return isinstance(v, Sc) and v.node.op not in ("none", "str", "fstr", "strcat", "path")


def to_arr(I, v, st):
    """np.asarray semantics: arrays pass through."""
    v = I.resolve(v, st)
    if isinstance(v, (Arr, Ext)):
        return v
    if isinstance(v, Phi):
        return I.cases(st, v, lambda s, x: to_arr(I, x, s))
    return I.new_arr(st, I.node(st, v), dt=int_dt(I, v, st))


def arg(args, kwargs, k, name, default=None):
    if len(args) > k:
        return args[k]
    return kwargs.get(name, default)


def ival(I, v, st):
    if v is None:
        return None
    n = I.node(st, v)
    if n.op == "none":
        return None
    return int(n.attr) if n.op == "const" else n


def shape_arg(I, v, st):
    v = I.resolve(v, st)
    items = None
    if isinstance(v, (Tup, Lst)):
        items = I.concrete_items(v, st)
    if items is not None:
        return tuple(I.node(st, x) for x in items)
    if isinstance(v, Ext) and v.node.op == "shape":
        s = N.shape_of(v.node.args[0])
        if s is not None:
            return s
        return None
    n = I.node(st, v)
    if isinstance(v, (Sc,)) or N.shape_rank(n) == 0 or n.op in ("size",):
        return (n,)
    if isinstance(v, Ext):
        return (n,)
    return None


def dtype_kind(I, v, st):
    """'int' / 'bool' / None for a dtype argument"""
    if v is None:
        return None
    if isinstance(v, Sc):
        k = v.node.attr if v.node.op == "str" else None
        return "int" if k in ("int", "int64", "int32", "i") else "bool" if k in ("bool", "?") else None
    for t in type_names(I, v, st):
        if isinstance(t, str):
            k = NUMT.get(t) or {"numpy.bool_": "bool", "numpy.bool": "bool", "numpy.int32": "int", "numpy.intp": "int"}.get(t)
            return k if k in ("int", "bool") else None
    return None


def to_dtype(I, n, kind):
    if kind == "int" and not _is_int(n) and n.op not in ("npcall", "arange", "cmp"):
        if n.op == "alloc" and N.cval(n.args[0]) is not None and n.args[0].attr.denominator == 1:
            return n
        return N.mk("fn", n, attr="int")
    if kind == "bool" and n.op == "alloc" and n.args[0].op == "const":
        return N.mk("alloc", N.const(n.args[0].attr != 0), *n.args[1:])
    if kind == "bool" and n.op not in ("cmp", "not", "and", "or", "bool"):
        return N.opaque("astype-bool") if n.op != "npcall" else n
    return n


def alloc(I, v, shape, st, dt=None):
    if shape is None:
        return I.new_arr(st, N.opaque("alloc"))
    return I.new_arr(st, N.mk("alloc", v, *shape), dt=dt)


def copy_of(I, v, st):
    v = I.resolve(v, st)
    if isinstance(v, Phi):
        return I.cases(st, v, lambda s, x: copy_of(I, x, s))
    if isinstance(v, Ext):
        return Ext(N.mk("copy", v.node))
    return I.new_arr(st, I.node(st, v), dt=int_dt(I, v, st))


def int_dt(I, v, st):
    """'i' when np.array(v) certainly has an integer type, else None"""
    v = I.resolve(v, st)
    if isinstance(v, Arr):
        return st.heap[v.addr].dt
    if isinstance(v, Sc):
        return "i" if not v.fl and v.node.op in ("const", "idx", "size", "add", "sub", "mul") and _is_int(v.node) else None
    if isinstance(v, (Lst, Tup)):
        items = I.concrete_items(v, st)
        return "i" if items and all(int_dt(I, x, st) for x in items) else None
    if isinstance(v, Rng):
        return "i"
    return None


def alias(v, p):
    return Arr(v.addr, v.path + (p,))


def reduce_node(kind, n, ax):
    r = N.shape_rank(n)
    if isinstance(ax, N.Node):
        return N.mk("reduce", n, ax, attr=(kind, "sym"))
    if ax is not None and ax < 0:
        if r is None:
            return N.mk("reduce", n, attr=(kind, ax))
        ax = r + ax
    if r == 0:
        return n
    if ax is not None and r == 1:
        ax = None
    if n.op == "reshape" and ax is None and N.shape_rank(n.args[0]) == 0 and kind in ("sum", "prod", "max", "min", "mean"):
        return n.args[0]
    if n.op == "mul" and kind == "prod" and ax is None and r == 1:
        sh = N.shape_of(n)
        k = N.cval(sh[0]) if sh else None
        if k is not None and k <= 4:
            from .interp import index_node
            es = [index_node(n, "p", (N.const(j),)) for j in range(int(k))]
            if all(N.cval(e) is not None for e in es):
                t = es[0]
                for e in es[1:]:
                    t = N.mul(t, e)
                return t
    if n.op == "mklist" and ax is None and r == 1 and kind == "prod" and 0 < len(n.args) <= 6:
        t = n.args[0]
        for a in n.args[1:]:
            t = N.mul(t, a)
        return t
    if n.op == "mklist" and ax is None and r == 1 and kind in ("sum", "max", "min") and n.args and len(n.args) <= 6:
        t = n.args[0]
        for a in n.args[1:]:
            t = N.add(t, a) if kind == "sum" else N.mk("fn", t, a, attr={"max": "maximum", "min": "minimum"}[kind])
        return t
    return N.mk("reduce", n, attr=(kind, ax))


def call(I, path, args, kwargs, st):
    args = [I.resolve(a, st) for a in args]
    if path.startswith("builtins."):
        return builtin(I, path[9:], args, kwargs, st)
    if path in fsmodel.CALLS:
        for k, a in enumerate(args[:1]):
            if isinstance(a, Phi):
                return I.cases(st, a, lambda s, x: call(I, path, args[:k] + [x] + args[k + 1:], kwargs, s))
        r = fsmodel.call(I, path, args, kwargs, st)
        if r is not None:
            return r
    if path.startswith("numpy."):
        r = numpy_call(I, path[6:], args, kwargs, st)
        if r is not None:
            return r
    if path == "copy.deepcopy":
        return I.deepcopy(args[0], st)
    if path == "copy.copy":
        return shallow(I, args[0], st)
    if path in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath"):
        for k, a in enumerate(args):
            if isinstance(a, Phi):
                return I.cases(st, a, lambda s, x: call(I, path, args[:k] + [x] + args[k + 1:], kwargs, s))
        return fsmodel.mkpath([I.node(st, a) for a in args] or [N.const(".")])
    if path == "os.path.join":
        return Ext(N.mk("path", *[I.node(st, a) for a in args]))
    if path.startswith("math."):
        nm = path[5:]
        if nm in ELEM1:
            return Sc(N.mk("fn", I.node(st, args[0]), attr=ELEM1[nm]))
        if nm == "pow":
            return I.binop("Pow", args[0], args[1], st)
        if nm in ("hypot", "fmod", "isclose", "atan2", "copysign"):
            return Sc(N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs)],
                           attr=({"isclose": "math.isclose"}.get(nm, nm),) + tuple(sorted(kwargs))))
        if nm == "fsum":
            return builtin(I, "sum", args, {}, st)
        if nm == "prod":
            return Sc(reduce_node("prod", I.node(st, args[0]), None))
    if path.startswith("itertools."):
        nm = path[10:]
        if nm == "count":
            z = [arg(args, kwargs, 0, "start", num(0)), arg(args, kwargs, 1, "step", num(1))]
            return Iter("count", tuple(z))
        seqs = [I.concrete_items(a, st) for a in args]
        rep = N.cval(I.node(st, kwargs["repeat"])) if "repeat" in kwargs else 1
        out = None
        if nm == "product" and all(x is not None for x in seqs) and rep is not None:
            import itertools
            tot = 1
            for x in seqs * int(rep):
                tot *= max(1, len(x))
            if tot <= 256:
                out = [Tup(t) for t in itertools.product(*seqs, repeat=int(rep))]
        elif nm == "chain" and all(x is not None for x in seqs):
            out = [x for q in seqs for x in q]
        elif nm == "chain.from_iterable" and seqs and seqs[0] is not None:
            inner = [I.concrete_items(x, st) for x in seqs[0]]
            if all(x is not None for x in inner):
                out = [x for q in inner for x in q]
        elif nm == "pairwise" and seqs and seqs[0] is not None:
            out = [Tup(t) for t in zip(seqs[0], seqs[0][1:])]
        elif nm == "accumulate" and seqs and seqs[0] is not None and not kwargs and seqs[0]:
            out = [seqs[0][0]]
            for x in seqs[0][1:]:
                out.append(I.call(args[1], [out[-1], x], {}, st) if len(args) > 1 else I.binop("Add", out[-1], x, st))
        elif nm in ("combinations", "permutations", "combinations_with_replacement") and seqs and seqs[0] is not None and len(seqs[0]) <= 8 and len(args) > 1:
            import itertools
            k = N.cval(I.node(st, args[1]))
            if k is not None:
                out = [Tup(t) for t in getattr(itertools, nm)(seqs[0], int(k))]
        elif nm == "repeat" and len(args) > 1 and N.cval(I.node(st, args[1])) is not None and N.cval(I.node(st, args[1])) <= 64:
            out = [args[0]] * int(N.cval(I.node(st, args[1])))
        if out is not None:
            r = I.list_of(st, out)
            st.heap[r.addr].kind = "iter"
            return r
        return Ext(N.mk("npcall", *[I.node(st, a) for a in args], attr=(path,)))
    if path.startswith("operator."):
        nm = path[9:]
        op = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "matmul": "MatMult"}.get(nm)
        if op and len(args) == 2:
            return I.binop(op, args[0], args[1], st)
        cp = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}.get(nm)
        if cp and len(args) == 2:
            return I.compare(cp, args[0], args[1], st)
        if nm == "neg":
            return I.wrap(st, N.neg(I.node(st, args[0])))
        if nm == "getitem":
            return I.getitem(args[0], args[1], st)
    if path == "functools.partial":
        return Part(args[0], args[1:], kwargs)
    if path == "functools.wraps":
        return Part(Mod("sa.identity"))
    if path == "sa.identity":
        return args[0]
    if path in ("functools.lru_cache", "functools.cache"):
        if args and isinstance(args[0], (Fn, Lam, Bound, Cls, Part)):
            return Memo(args[0], N.fresh_id())
        return Mod("functools.cache")
    if path == "functools.reduce":
        items = I.concrete_items(args[1], st)
        if items is not None and len(items) <= 64 and (items or len(args) > 2):
            t = args[2] if len(args) > 2 else items.pop(0)
            for x in items:
                t = I.call(args[0], [t, x], {}, st)
            return t
        return Ext(N.opaque("reduce"))
    if path in ("scipy.signal.filtfilt", "scipy.signal.lfilter", "scipy.signal.butter"):
        # unknown functions; filtered data has the shape of the data
        r = I.env_call("ext." + path.rsplit(".", 1)[1], None, args, kwargs, st)
        return I.new_arr(st, r.node) if N.shape_of(r.node) is not None else r
    if path == "abc.ABC":
        return NONEV
    return I.env_call(path, None, args, kwargs, st)


def shallow(I, v, st):
    if isinstance(v, Arr):
        return copy_of(I, v, st)
    if isinstance(v, Obj):
        c = st.heap[v.addr]
        return I.new_obj(st, c.cls, dict(c.attrs), None, c.ident)
    if isinstance(v, Lst):
        return I.new_list(st, list(st.heap[v.addr].parts))
    if isinstance(v, Dct):
        d = I.new_dict(st)
        st.heap[d.addr].parts = list(st.heap[v.addr].parts)
        return d
    if isinstance(v, Ext):
        return Ext(N.mk("copy", v.node))
    return v


# ------------------------------------------------------------------------------------ builtins
def type_names(I, t, st):
    t = I.resolve(t, st)
    if isinstance(t, Tup):
        return [x for i in t.items for x in type_names(I, i, st)]
    if isinstance(t, Lst):
        return [x for i in (I.concrete_items(t, st) or []) for x in type_names(I, i, st)]
    if isinstance(t, Mod):
        return [t.path]
    if isinstance(t, Cls):
        return [t.info]
    if isinstance(t, StubCls):
        return [t.stub]
    return [None]


SEQNAMES = {"list": "builtins.list", "dict": "builtins.dict", "tuple": "builtins.tuple"}
NUMT = {"builtins.int": "int", "numpy.integer": "int", "numpy.int64": "int", "builtins.float": "float", "numpy.floating": "float", "numpy.number": "num",
        "numpy.float64": "float", "builtins.str": "str", "builtins.bool": "bool", "numbers.Number": "num", "numbers.Integral": "int",
        "numbers.Real": "num"}


def isinst1(I, v, t, st):
    """-> node"""
    if t is None:
        return None
    if isinstance(v, Phi):
        a, b = isinst1(I, I.resolve(v.a, st), t, st), isinst1(I, I.resolve(v.b, st), t, st)
        if a is None or b is None:
            return None
        return N.phi(v.cond, a, b)
    isstr = isinstance(t, str)
    if isinstance(v, Arr):
        return N.const(isstr and t in ("numpy.ndarray",) or t == "builtins.object")
    if isinstance(v, Lst):
        return N.const(t in ("builtins.list", "collections.abc.Sequence", "collections.abc.Iterable", "builtins.object"))
    if isinstance(v, Dct):
        return N.const(t in ("builtins.dict", "builtins.object", "collections.abc.Mapping"))
    if isinstance(v, Tup):
        return N.const(t in ("builtins.tuple", "builtins.object", "collections.abc.Sequence", "collections.abc.Iterable"))
    if isinstance(v, Obj):
        c = st.heap[v.addr].cls
        if isinstance(c, Stub):
            return N.const(c is t or t in c.isa or (hasattr(t, "name") and t.name in c.isa) or (isstr and t.rsplit(".", 1)[-1] in c.isa))
        if isstr:
            return N.const(t == "builtins.object")
        if isinstance(t, Stub):
            return N.const(any(k.name == t.name for k in c.mro()))
        return N.const(t in c.mro())
    if isinstance(v, Sc):
        n = v.node
        if n.op == "none":
            return N.FALSE
        if not isstr:
            return N.FALSE
        k = None
        if n.op in ("str", "fstr", "strcat", "fmt"):
            k = "str"
        elif n.op == "bool" or n.op in ("cmp", "and", "or", "not"):
            k = "bool"
        elif n.op in ("idx", "size"):
            k = "int"
        elif n.op == "const":
            k = "float" if v.fl or n.attr.denominator != 1 else "int"
        elif n.op == "sym":
            k = dict(n.attr[2]).get("kind")
            if k is None and dict(n.attr[2]).get("bool"):
                k = "bool"
        elif v.fl:
            k = "float"
        if t in NUMT:
            want = NUMT[t]
            if k is None:
                if want in ("str",) and n.op in ("const", "add", "sub", "mul", "div"):
                    return N.FALSE
                return N.mk("isinst", n, attr=want)
            if want == "num":
                return N.const(k in ("int", "float", "bool"))
            if t == "builtins.int" and k == "npint":
                return N.FALSE
            if k == "npint":
                return N.const(t.startswith("numpy.int") or t == "numbers.Integral")
            if k == "bool" and want == "int":
                return N.const(t == "builtins.int")
            return N.const(want == k)
        if t in ("numpy.ndarray", "builtins.list", "builtins.dict", "builtins.tuple"):
            if k is not None or n.op in ("const", "sym", "add", "sub", "mul", "div"):
                return N.FALSE
        return N.mk("isinst", n, attr=str(t))
    if isinstance(v, Ext):
        nm = t if isstr else t.name
        return N.mk("isinst", v.node, attr=nm)
    return None


def has_node(v):
    """Condition under which an attribute holding v has been set."""
    if isinstance(v, Phi):
        a, b = has_node(v.a), has_node(v.b)
        return N.TRUE if a is N.TRUE and b is N.TRUE else N.phi(v.cond, a, b)
    if isinstance(v, Ext):
        return has_set(v.node)
    return N.TRUE


def has_set(n):
    if n.op == "unset":
        return N.FALSE
    if n.op == "phi":
        a, b = has_set(n.args[1]), has_set(n.args[2])
        return N.TRUE if a is N.TRUE and b is N.TRUE else N.phi(n.args[0], a, b)
    return N.TRUE


def builtin(I, name, args, kwargs, st):
    if name == "len":
        return Sc(N.lin_node(I.length(args[0], st)) if True else None)
    if name == "range":
        ns = [I.node(st, a) for a in args]
        if len(ns) == 1:
            return Rng(N.const(0), ns[0], N.const(1))
        return Rng(ns[0], ns[1], ns[2] if len(ns) > 2 else N.const(1))
    if name == "enumerate":
        return Iter("enumerate", tuple(args) + ((kwargs["start"],) if "start" in kwargs else ()))
    if name == "slice" and not kwargs and 1 <= len(args) <= 3:
        return Slc(*((NONEV, args[0], NONEV) if len(args) == 1 else args if len(args) == 3 else (args[0], args[1], NONEV)))
    if name in ("zip", "reversed"):
        return Iter(name, tuple(args))
    if name == "iter":
        return I.new_list(st, I.iter_parts(args[0], st), kind="iter")
    if name == "next" and isinstance(args[0], Lst):
        parts = st.heap[args[0].addr].parts
        if parts and parts[0][0] == "e":
            return I.resolve(parts.pop(0)[1], st)
        if not parts and len(args) > 1:
            return args[1]
        if len(parts) == 1 and parts[0][0] == "if" and len(parts[0][2]) <= 1 and len(parts[0][3]) <= 1 and len(args) > 1 \
                and all(p[0] == "e" for p in parts[0][2] + parts[0][3]):
            pick = lambda q: q[0][1] if q else args[1]
            r = I.merge_val(parts[0][1], pick(parts[0][2]), pick(parts[0][3]))
            st.heap[args[0].addr].parts[:] = []
            return I.resolve(r, st)
        st.heap[args[0].addr].parts[:] = [("open", N.opaque("next"))]
        return Ext(N.opaque("next"))
    if name == "isinstance":
        ts = type_names(I, args[1], st)
        r = N.FALSE
        for t in ts:
            x = isinst1(I, args[0], t, st)
            if x is None:
                return Sc(N.mk("isinst", I.node(st, args[0]), attr="?"))
            r = N.or_(r, x)
        return Sc(I.simp(r, st))
    if name == "callable":
        a = args[0]
        if isinstance(a, Obj) and not isinstance(st.heap[a.addr].cls, Stub):
            return Sc(N.const(st.heap[a.addr].cls.find("__call__")[0] is not None))
        if isinstance(a, (Ext, Phi, Obj)):
            return Sc(N.mk("hasattr", I.node(st, a), N.const("__call__")))
        return Sc(N.const(isinstance(a, (Fn, Lam, Bound, Meth, Cls, Mod, Part, Memo, StubCls))))
    if name == "issubclass":
        if isinstance(args[0], Cls) and isinstance(args[1], Cls):
            return Sc(N.const(args[1].info in args[0].info.mro()))
        return Sc(N.opaque("issubclass"))
    if name in ("hasattr", "getattr", "setattr", "delattr"):
        n = I.node(st, args[1])
        o = args[0]
        if name == "hasattr":
            if isinstance(o, Phi):
                return I.cases(st, o, lambda s, x: builtin(I, name, [x] + list(args[1:]), kwargs, s))
            if isinstance(o, Obj) and n.op == "str":
                c = st.heap[o.addr]
                ok = n.attr in c.attrs
                if ok:
                    h = has_node(c.attrs[n.attr])
                    if h is not N.TRUE:
                        return Sc(I.simp(h, st))
                if not ok:
                    if n.attr in ("__dict__", "__class__"):
                        ok = True
                    elif isinstance(c.cls, Stub):
                        ok = n.attr in c.cls.methods or n.attr in c.cls.props
                    else:
                        ok = c.cls.find(n.attr)[0] is not None
                return Sc(N.const(ok))
            if isinstance(o, (Lst, Dct, Tup)) and n.op == "str":
                t = {Lst: list, Dct: dict, Tup: tuple}[type(o)]
                return Sc(N.const(hasattr(t, n.attr)))
            if isinstance(o, Arr) and n.op == "str":
                return Sc(N.const(hasattr(np.ndarray, n.attr)))
            return Sc(I.simp(N.mk("hasattr", I.node(st, o), n), st))
        if name == "getattr":
            if n.op == "str":
                if len(args) > 2 and isinstance(o, Obj):
                    has = builtin(I, "hasattr", args[:2], {}, st)
                    if has.node is N.FALSE:
                        return args[2]
                    if has.node is not N.TRUE:
                        return I.merge_val(has.node, I.getattr(o, n.attr, st), args[2])
                return I.getattr(o, n.attr, st)
            return Ext(N.mk("dynattr", I.node(st, o), n))
        if name == "setattr":
            if n.op == "str":
                I.setattr(o, n.attr, args[2], st)
                return NONEV
            if isinstance(o, Obj):
                I.effect("attr-write", st, o.addr, "?", val=args[2])
            return NONEV
        return NONEV
    if name == "print":
        I.log_event("print", None, args, kwargs, None, st)
        return NONEV
    if name == "super":
        return Ext(N.opaque("super"))
    if name == "bool":
        return Sc(I.truth(args[0], st)) if args else FALSEV
    if name == "int":
        n = I.node(st, args[0]) if args else N.const(0)
        if n.op == "const":
            return Sc(N.const(int(n.attr)))
        if n.op in ("idx", "size") or _is_int(n):
            return Sc(n)
        return Sc(N.mk("fn", n, attr="int"))
    if name == "float":
        n = I.node(st, args[0]) if args else N.const(0)
        if n.op == "str":
            if n.attr in ("inf", "-inf", "nan"):
                return Sc(N.mk("special", attr=n.attr))
            return Sc(N.mk("fn", n, attr="float"))
        if N.shape_rank(n) not in (0, None):
            return Sc(N.mk("squeeze", n))
        return Sc(n)
    if name in ("str", "repr", "format"):
        n = I.node(st, args[0]) if args else N.const("")
        if n.op in ("str", "fstr", "path", "strcat"):
            t = fsmodel.text(n) if n.op == "path" and name == "str" else None
            return strv(t) if t is not None else Sc(n)
        if n.op == "const" and n.attr.denominator == 1:
            return strv(str(int(n.attr)))
        if isinstance(args[0], Obj) and name == "str":
            o = args[0]
            c = st.heap[o.addr]
            if not isinstance(c.cls, Stub) and c.cls.find("__str__")[0] is not None:
                return I.call_method(st, o, "__str__")
        return Sc(N.mk("fstr", n, attr=(("v", ""),)))
    if name in ("min", "max") and "key" in kwargs:
        items = I.concrete_items(args[0], st) if len(args) == 1 else list(args)
        if items is None or not 0 < len(items) <= 8:
            return Ext(N.opaque("minmax-key"))
        best, bk = items[0], I.node(st, I.call(kwargs["key"], [items[0]], {}, st))
        for x in items[1:]:
            k = I.node(st, I.call(kwargs["key"], [x], {}, st))
            c = N.cmp(">" if name == "max" else "<", k, bk)
            best, bk = I.merge_val(c, x, best), N.phi(c, k, bk)
        return I.resolve(best, st)
    if name in ("min", "max") and len(args) == 1 and "default" in kwargs and I.concrete_items(args[0], st) == []:
        return kwargs["default"]
    if name in ("min", "max"):
        if len(args) >= 2:
            ns = [I.node(st, a) for a in args]
            t = ns[0]
            for a in ns[1:]:
                t = minmax(name, t, a)
            return I.wrap(st, t) if N.shape_rank(t) == 0 else Sc(t)
        items = I.concrete_items(args[0], st)
        if items and len(items) <= 8:
            t = I.node(st, items[0])
            for a in items[1:]:
                t = minmax(name, t, I.node(st, a))
            return Sc(t)
        return Sc(reduce_node(name, I.node(st, args[0]), None))
    if name == "sum":
        items = I.concrete_items(args[0], st)
        if items is not None and len(items) <= 16:
            t = args[1] if len(args) > 1 else num(0)
            for a in items:
                t = I.binop("Add", t, a, st)
            return t
        n = I.node(st, args[0])
        r = N.shape_rank(n)
        if r is None:
            n = N.mk("reduce", n, attr=("sum", 0))
        else:
            n = reduce_node("sum", n, 0 if r > 1 else None)
        start = arg(args, kwargs, 1, "start")
        return I.binop("Add", start, I.wrap(st, n), st) if start is not None else I.wrap(st, n)
    if name in ("any", "all"):
        items = I.concrete_items(args[0], st)
        if items is not None and len(items) <= 16:
            r = N.const(name == "all")
            for a in items:
                r = (N.and_ if name == "all" else N.or_)(r, I.truth(a, st))
            return Sc(r)
        return Sc(reduce_node(name, I.node(st, args[0]), None))
    if name == "abs":
        return I.wrap(st, N.mk("fn", I.node(st, args[0]), attr="abs"))
    if name == "pow":
        return I.binop("Pow", args[0], args[1], st)
    if name == "round":
        n = I.node(st, args[0])
        k = arg(args, kwargs, 1, "ndigits")
        if k is not None and I.node(st, k).op != "none":
            kc = N.cval(I.node(st, k))
            if kc is None:
                return Ext(N.opaque("round"))
            f = N.const(10 ** int(kc)) if kc >= 0 else N.div(N.const(1), N.const(10 ** int(-kc)))
            return I.wrap(st, N.div(N.mk("fn", N.mul(n, f), attr="round"), f))
        return I.wrap(st, N.mk("fn", n, attr="round"))
    if name == "divmod":
        return Tup([I.binop("FloorDiv", args[0], args[1], st), I.binop("Mod", args[0], args[1], st)])
    if name in ("list", "tuple", "set", "frozenset"):
        if not args:
            return I.new_list(st, [], kind="set" if name in ("set", "frozenset") else None) if name != "tuple" else Tup(())
        if isinstance(args[0], Arr) and name in ("list", "tuple"):
            sh = N.shape_of(I.content(st, args[0]))
            k = N.cval(sh[0]) if sh else None
            if k is not None and k <= 32:
                items = [I.getitem(args[0], num(i), st) for i in range(int(k))]
                return Tup(items) if name == "tuple" else I.list_of(st, items)
        parts = I.iter_parts(args[0], st)
        if name == "tuple" and all(p[0] == "e" for p in parts):
            return Tup([p[1] for p in parts])
        if name in ("set", "frozenset"):
            return I.set_of(st, parts)
        return I.new_list(st, parts)
    if name == "dict":
        d = I.new_dict(st)
        if args:
            if isinstance(args[0], (Dct,)) or (isinstance(args[0], Meth) and args[0].name == "__dict__"):
                I.dict_update(d, args[0], st)
            else:
                items = I.concrete_items(args[0], st)
                if items is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in items):
                    for x in items:
                        I.dict_set(st.heap[d.addr], x.items[0], x.items[1])
                else:
                    st.heap[d.addr].parts.append(("open", I.node(st, args[0])))
        for k, v in kwargs.items():
            if k != "**":
                I.dict_set(st.heap[d.addr], strv(k), v)
        return d
    if name == "vars":
        return Meth(args[0], "__dict__")
    if name == "sorted":
        items = I.concrete_items(args[0], st)
        if items is not None and all(isinstance(x, Sc) and x.node.op == "str" for x in items) and not kwargs:
            return I.list_of(st, sorted(items, key=lambda x: x.node.attr))
        n = I.node(st, args[0])
        if items is not None and len(items) <= 12:
            ks = []
            for x in items:
                k = I.node(st, I.call(kwargs["key"], [x], {}, st) if "key" in kwargs else x)
                ks.append(k.attr if k.op in ("const", "str") else None)
            rev = I.node(st, kwargs["reverse"]) if "reverse" in kwargs else N.FALSE
            if None not in ks and len({type(k) for k in ks}) <= 1 and rev in (N.TRUE, N.FALSE):
                return I.list_of(st, [items[i] for i in sorted(range(len(items)), key=lambda i: ks[i], reverse=rev is N.TRUE)])
        return I.new_list(st, [("open", N.opaque("sorted"))])
    if name == "type":
        v = args[0]
        if isinstance(v, Obj) and not isinstance(st.heap[v.addr].cls, Stub):
            return Cls(st.heap[v.addr].cls)
        k = {Lst: "list", Dct: "dict", Tup: "tuple", Arr: "ndarray"}.get(type(v))
        if isinstance(v, Lst) and st.heap[v.addr].kind:
            k = None
        if isinstance(v, Sc):
            if v.node.op in ("str", "fstr", "strcat", "fmt"):
                k = "str"
            elif v.node.op == "bool":
                k = "bool"
            elif v.node.op == "const" and v.node.attr.denominator == 1 and not v.fl:
                k = "int"
        if k:
            return Mod(("numpy." if k == "ndarray" else "builtins.") + k)
        return Ext(N.mk("type", I.node(st, v)))
    if name == "map":
        items = I.concrete_items(args[1], st)
        if items is not None and len(args) == 2:
            return I.list_of(st, [I.call(args[0], [x], {}, st) for x in items])
        return Ext(N.opaque("map"))
    if name == "open":
        r = fsmodel.call(I, "builtins.open", args, kwargs, st)
        if r is not None:
            return r
        return I.env_call("open", None, args, kwargs, st)
    if name == "id":
        return Ext(N.opaque("id"))
    if name == "object":
        return Ext(N.opaque("object"))
    if name[:1].isupper():
        return Ext(N.mk("exc", attr=name))
    return I.env_call("builtins." + name, None, args, kwargs, st)


def _is_int(n):
    if n.op == "const":
        return n.attr.denominator == 1
    if n.op in ("idx", "size"):
        return True
    if n.op == "sym":
        return dict(n.attr[2]).get("kind") == "int"
    if n.op in ("add", "sub", "mul", "floordiv", "neg"):
        return all(_is_int(a) for a in n.args)
    return False


def minmax(name, a, b):
    if a.op == "const" and b.op == "const":
        return N.const((min if name == "min" else max)(a.attr, b.attr))
    sg = N.lin_sign(N.lin_sub(a, b)) if _is_int(a) and _is_int(b) else None
    if sg is not None:
        if sg in ("+", "+0", "0"):
            return a if name == "max" else b
        if sg in ("-", "-0"):
            return b if name == "max" else a
    return N.mk("fn", a, b, attr={"min": "minimum", "max": "maximum"}[name])


# ------------------------------------------------------------------------------------ numpy
def numpy_call(I, name, args, kwargs, st):
    if name.startswith("random."):
        return random_call(I, name[7:], args, kwargs, st)
    # any argument with alternatives of different kinds: case split
    for k, a in enumerate(args):
        if isinstance(a, Phi):
            return I.cases(st, a, lambda s, x, k=k: call(I, "numpy." + name, args[:k] + [x] + args[k + 1:], kwargs, s))
    nd = lambda k: I.node(st, args[k])
    if "." in name and name.rsplit(".", 1)[1] in ("reduce", "accumulate", "outer"):
        base, how = name.rsplit(".", 1)
        red = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_and": "all", "logical_or": "any"}.get(base)
        if how == "reduce" and red and not (set(kwargs) - {"axis"}) and len(args) <= 2:
            ax = kwargs.get("axis", args[1] if len(args) > 1 else num(0))
            return numpy_call(I, red, args[:1], {"axis": ax}, st)
        if how == "accumulate" and base in ("add", "multiply") and not kwargs and len(args) == 1:
            v = to_arr(I, args[0], st)
            return numpy_call(I, {"add": "cumsum", "multiply": "cumprod"}[base], [v], {} if N.shape_rank(I.node(st, v)) == 1 else {"axis": num(0)}, st)
        if how == "outer" and len(args) == 2 and not kwargs:
            a, b = to_arr(I, args[0], st), to_arr(I, args[1], st)
            if N.shape_rank(I.node(st, a)) == 1 and N.shape_rank(I.node(st, b)) == 1:
                a = arr_shape_op(I, a, "reshape", [num(-1), num(1)], {}, st)
                b = arr_shape_op(I, b, "reshape", [num(1), num(-1)], {}, st)
                return numpy_call(I, base, [a, b], {}, st)
        return I.new_arr(st, N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs)], attr=(name,) + tuple(sorted(kwargs))))
    if name in ("zeros", "ones", "empty", "full", "ndarray"):
        sh = shape_arg(I, arg(args, kwargs, 0, "shape"), st)
        if name == "full":
            v = I.node(st, arg(args, kwargs, 1, "fill_value"))
        elif name in ("empty", "ndarray"):
            v = N.mk("uninit")
        else:
            v = N.const(0 if name == "zeros" else 1)
        dv = arg(args, kwargs, 2 if name == "full" else 1, "dtype")
        dk = dtype_kind(I, dv, st)
        if dk == "bool" and v.op == "const":
            v = N.const(v.attr != 0)
        if dk == "int" and name == "full":
            v = to_dtype(I, v, "int")
        dt = "i" if dk == "int" else None
        if name == "full" and (dv is None or isinstance(dv, Sc) and dv.node.op == "none"):
            dt = int_dt(I, arg(args, kwargs, 1, "fill_value"), st)
        return alloc(I, v, sh, st, dt)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        n = nd(0)
        sh = N.shape_of(n)
        if sh is None:
            sh = None
        v = {"zeros_like": N.const(0), "ones_like": N.const(1), "empty_like": N.mk("uninit")}.get(name)
        if v is None:
            v = I.node(st, arg(args, kwargs, 1, "fill_value"))
        dv = arg(args, kwargs, 2 if name == "full_like" else 1, "dtype")
        if dv is None or isinstance(dv, Sc) and dv.node.op == "none":
            dt = int_dt(I, args[0], st)
        else:
            dt = "i" if dtype_kind(I, dv, st) == "int" else None
        if dt == "i" and name == "full_like":
            v = to_dtype(I, v, "int")
        return alloc(I, v, sh, st, dt) if sh is not None else I.new_arr(st, N.mk("likefill", v, n), dt=dt)
    if name == "array":
        r = copy_of(I, args[0], st)
        if "ndmin" in kwargs:
            k = ival(I, kwargs["ndmin"], st)
            if not isinstance(k, int) or not isinstance(r, Arr) or k > 2:
                return I.new_arr(st, N.opaque("ndmin"))
            return arr_shape_op(I, r, f"atleast_{k}d", [], {}, st) if k else r
        dk = dtype_kind(I, arg(args, kwargs, 1, "dtype"), st)
        if dk and isinstance(r, Arr):
            return I.new_arr(st, to_dtype(I, I.content(st, r), dk), dt="i" if dk == "int" else None)
        if kwargs.get("dtype") is not None and isinstance(r, Arr):
            st.heap[r.addr].dt = None
        if "copy" in kwargs and I.node(st, kwargs["copy"]) is not N.TRUE and isinstance(args[0], Arr):
            return args[0] if I.node(st, kwargs["copy"]) is N.FALSE else I.new_arr(st, N.opaque("copy?"))
        return r
    if name in ("copy",):
        return copy_of(I, args[0], st)
    if name in ("asarray", "asanyarray", "ascontiguousarray", "squeeze", "atleast_1d", "atleast_2d", "reshape", "ravel", "transpose",
                "array_copy"):
        v = to_arr(I, args[0], st)
        return arr_shape_op(I, v, name, args[1:], kwargs, st)
    if name in ELEM1:
        return I.wrap(st, N.mk("fn", nd(0), attr=ELEM1[name]))
    if name == "square":
        return I.wrap(st, N.power(nd(0), N.const(2)))
    if name == "negative":
        return I.wrap(st, N.neg(nd(0)))
    if name == "reciprocal":
        return I.wrap(st, N.div(N.const(1), nd(0)))
    if name in ("round", "around"):
        dec = arg(args, kwargs, 1, "decimals")
        k = N.cval(I.node(st, dec)) if dec is not None else 0
        if k is None:
            return I.new_arr(st, N.opaque("round"))
        if k:
            f = N.const(10 ** int(k)) if k >= 0 else N.div(N.const(1), N.const(10 ** int(-k)))
            return I.wrap(st, N.div(N.mk("fn", N.mul(nd(0), f), attr="round"), f))
        return I.wrap(st, N.mk("fn", nd(0), attr="round"))
    if name in ARITH and len(args) >= 2:
        r = I.binop_node(ARITH[name], nd(0), nd(1), st)
        out = kwargs.get("out")
        if isinstance(out, Arr):
            I.write(out, r, st)
            return out
        return I.wrap(st, r)
    if name in CMPS:
        return I.compare(CMPS[name], args[0], args[1], st)
    if name == "logical_not":
        return I.wrap(st, N.not_(nd(0)))
    if name in ("minimum", "maximum"):
        return I.wrap(st, N.mk("fn", nd(0), nd(1), attr=name))
    if name == "clip":
        lo = arg(args, kwargs, 1, "a_min", kwargs.get("min", NONEV))
        hi = arg(args, kwargs, 2, "a_max", kwargs.get("max", NONEV))
        r = N.mk("fn", nd(0), I.node(st, lo), I.node(st, hi), attr="clip")
        out = arg(args, kwargs, 3, "out")
        if isinstance(out, Arr):
            I.write(out, r, st)
            return out
        return I.wrap(st, r)
    if name == "where" and len(args) == 3:
        return I.wrap(st, N.mk("fn", nd(0), nd(1), nd(2), attr="where"))
    if name == "ptp":
        hi, lo = (numpy_call(I, f, args, kwargs, st) for f in ("amax", "amin"))
        return I.wrap(st, N.sub(I.node(st, hi), I.node(st, lo)))
    if name in REDUCE:
        ax = ival(I, arg(args, kwargs, 1, "axis"), st)
        if set(kwargs) - {"axis", "keepdims", "out", "dtype"} or "out" in kwargs and not (isinstance(kwargs["out"], Sc) and kwargs["out"].node.op == "none"):
            return I.wrap(st, N.opaque("reduce"))
        r = reduce_node(REDUCE[name], nd(0), ax)
        kd = kwargs.get("keepdims")
        if kd is not None and I.node(st, kd) is not N.FALSE:
            sh = N.shape_of(nd(0))
            if sh is None or I.node(st, kd) is not N.TRUE or isinstance(ax, N.Node):
                return I.new_arr(st, N.opaque("keepdims"))
            k = None if ax is None else ax % len(sh)
            return I.new_arr(st, N.mk("reshape", r, *[N.const(1) if k is None or i == k else d for i, d in enumerate(sh)]))
        return I.wrap(st, r)
    if name == "average":
        ax = ival(I, arg(args, kwargs, 1, "axis"), st)
        w = arg(args, kwargs, 2, "weights")
        if w is None or (isinstance(w, Sc) and w.node.op == "none"):
            return I.wrap(st, reduce_node("mean", nd(0), ax))
        wn, x = I.node(st, w), nd(0)
        if ax == 0 or (ax is None and N.shape_rank(x) == 1):
            return I.wrap(st, N.div(matmul(wn, x), reduce_node("sum", wn, None)))
        return I.wrap(st, N.mk("average", x, wn, attr=ax))
    if name in ("dot", "matmul", "inner"):
        return I.wrap(st, matmul(nd(0), nd(1)))
    if name == "outer":
        return I.new_arr(st, N.mk("outer", nd(0), nd(1)))
    if name == "linalg.multi_dot":
        items = I.concrete_items(args[0], st)
        t = I.node(st, items[0])
        for x in items[1:]:
            t = matmul(t, I.node(st, x))
        return I.wrap(st, t)
    if name == "linalg.inv":
        return I.wrap(st, N.mk("inv", nd(0)))
    if name == "linalg.solve":
        return I.wrap(st, matmul(N.mk("inv", nd(0)), nd(1)))
    if name == "linalg.pinv":
        return I.wrap(st, N.mk("pinv", nd(0)))
    if name == "linalg.norm":
        if len(args) == 1 and not kwargs:
            return Sc(N.mk("fn", reduce_node("sum", N.power(nd(0), N.const(2)), None), attr="sqrt"))
        return I.wrap(st, N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs)], attr=("linalg.norm",) + tuple(sorted(kwargs))))
    if name in ("identity", "eye"):
        return I.new_arr(st, N.mk("eye", nd(0)))
    if name in ("diag", "diagflat") and arg(args, kwargs, 1, "k") is not None and N.cval(I.node(st, arg(args, kwargs, 1, "k"))) != 0:
        return I.new_arr(st, N.mk("npcall", nd(0), I.node(st, arg(args, kwargs, 1, "k")), attr=(name,)))
    if name in ("diag", "diagflat"):
        n = nd(0)
        r = N.shape_rank(n)
        if r == 1 or name == "diagflat":
            return I.new_arr(st, N.mk("diagflat", n))
        if r == 2:
            return I.new_arr(st, N.mk("diagonal", n))
        return I.new_arr(st, N.mk("diag", n))
    if name in ("diagonal",):
        return I.new_arr(st, N.mk("diagonal", nd(0)))
    if name == "trace":
        return I.wrap(st, reduce_node("sum", N.mk("diagonal", nd(0)), None))
    if name == "tile":
        reps = shape_arg(I, args[1], st)
        if reps is None:
            return I.new_arr(st, N.opaque("tile"))
        return I.new_arr(st, N.mk("tile", nd(0), *reps))
    if name == "repeat":
        ax = ival(I, arg(args, kwargs, 2, "axis"), st)
        return I.new_arr(st, N.mk("repeat", nd(0), nd(1), attr=ax))
    if name in ("concatenate", "append", "hstack", "vstack", "column_stack", "stack", "row_stack"):
        return I.new_arr(st, concat(I, name, args, kwargs, st))
    if name in ("insert", "delete", "pad", "select", "linalg.matrix_power", "tri", "linalg.pinv", "percentile", "quantile"):
        return I.new_arr(st, N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs)], attr=(name,) + tuple(sorted(kwargs))))
    if name == "ma.average":
        name = "average"
    if name == "arange":
        ns = [I.node(st, a) for a in args]
        dt = "i" if all(int_dt(I, a, st) for a in args) and "dtype" not in kwargs else None
        if len(ns) == 1:
            return I.new_arr(st, N.mk("arange", N.const(0), ns[0]), dt=dt)
        if len(ns) == 2:
            return I.new_arr(st, N.mk("arange", *ns), dt=dt)
        return I.new_arr(st, N.mk("arange3", *ns), dt=dt)
    if name == "linspace":
        n = arg(args, kwargs, 2, "num")
        nn = I.node(st, n) if n is not None else N.const(50)
        rs = kwargs.get("retstep")
        if rs is not None and I.node(st, rs) is not N.FALSE or kwargs.get("axis") is not None or len(args) > 4:
            return Ext(N.opaque("linspace"))
        if N.shape_rank(nd(0)) != 0 or N.shape_rank(nd(1)) != 0:
            if N.shape_rank(nd(0)) is not None and N.shape_rank(nd(1)) is not None:
                return I.new_arr(st, N.mk("npcall", nd(0), nd(1), nn, attr=("linspace",)))
        ep = arg(args, kwargs, 3, "endpoint")
        if ep is not None and I.node(st, ep) is not N.TRUE:
            if I.node(st, ep) is not N.FALSE:
                return I.new_arr(st, N.opaque("linspace"))
            step = N.div(N.sub(nd(1), nd(0)), nn)
            return I.new_arr(st, N.mk("linspace", nd(0), N.sub(nd(1), step), nn))
        return I.new_arr(st, N.mk("linspace", nd(0), nd(1), nn))
    if name == "diff":
        n = nd(0)
        ax = ival(I, arg(args, kwargs, 2, "axis"), st)
        r = N.shape_rank(n)
        if len(args) == 1 and not (set(kwargs) - {"axis"}) and (r == 1 and ax in (None, 0, -1) or ax == 0):
            return I.new_arr(st, N.mk("diff", n))
        return I.new_arr(st, N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs)], attr=("diff",) + tuple(sorted(kwargs))))
    if name in ("isscalar",):
        v = args[0]
        if isinstance(v, Sc):
            return Sc(N.const(v.node.op != "none"))
        if isinstance(v, Ext):
            return Sc(I.simp(N.mk("isscalar", v.node), st))
        return FALSEV
    if name in ("shape",):
        return arr_attr(I, to_arr(I, args[0], st), "shape", st)
    if name in ("size", "ndim"):
        return arr_attr(I, to_arr(I, args[0], st), name, st)
    if name in ("argsort", "sort", "flip", "cumsum", "cumprod", "unique", "gradient", "nonzero", "convolve", "interp", "fliplr", "flipud"):
        return I.new_arr(st, N.mk("npcall", *[I.node(st, a) for a in args],
                                  *[I.node(st, kwargs[k]) for k in sorted(kwargs)], attr=(name,) + tuple(sorted(kwargs))))
    if name in ("isclose", "allclose", "array_equal"):
        tol = {k: kwargs[k] for k in ("rtol", "atol") if k in kwargs}
        for k, v in zip(("rtol", "atol"), args[2:]):
            tol[k] = v
        return I.wrap(st, N.mk("npcall", *[I.node(st, a) for a in args[:2]], *[I.node(st, tol[k]) for k in sorted(tol)], attr=(name,) + tuple(sorted(tol))))
    if name in ("loadtxt", "savetxt", "load", "save", "genfromtxt"):
        return None
    if name in ("fill_diagonal",):
        v = args[0]
        if isinstance(v, Arr):
            I.write(v, N.mk("npcall", nd(0), nd(1), attr=("fill_diagonal",)), st)
        return NONEV
    if name in ("put", "place", "putmask", "put_along_axis"):
        v = args[0]
        if isinstance(v, Arr):
            I.write(v, N.mk("npcall", *[I.node(st, a) for a in args], attr=("inplace." + name,)), st)
        return NONEV
    if name == "copyto":
        if isinstance(args[0], Arr):
            I.write(args[0], nd(1), st)
        return NONEV
    if name in ("float64", "float32", "float_"):
        if isinstance(args[0], Sc) and name != "float32":
            return Sc(args[0].node, True)
        return args[0]
    if name in ("split", "array_split") and isinstance(args[0], Arr) and not kwargs and len(args) == 2 or \
            name == "split" and isinstance(args[0], Arr) and len(args) == 2 and list(kwargs) == ["axis"] and N.cval(I.node(st, kwargs["axis"])) == 0:
        sh = N.shape_of(I.content(st, args[0]))
        cuts = None
        if sh and isinstance(args[1], (Lst, Tup)):
            cuts = I.concrete_items(args[1], st)
        elif sh and isinstance(args[1], Sc) and N.cval(args[1].node) is not None:
            k = int(N.cval(args[1].node))
            tot = N.cval(sh[0])
            if 0 < k <= 32 and tot is not None and (tot % k == 0 or name == "array_split"):
                q, r = divmod(int(tot), k)
                at, cuts = 0, []
                for j in range(k - 1):
                    at += q + (1 if j < r else 0)
                    cuts.append(num(at))
            elif 0 < k <= 32 and tot is None:
                w = N.div(sh[0], N.const(k))
                if all(c.denominator == 1 for c in N.lin(w).values()):
                    cuts = [Sc(N.lin_node(N.mul(N.const(j), w))) for j in range(1, k)]
        if cuts is not None and all(isinstance(c, Sc) for c in cuts):
            ends = [NONEV] + list(cuts) + [NONEV]
            return I.list_of(st, [I.getitem(args[0], Slc(a, b, NONEV), st) for a, b in zip(ends, ends[1:])])
    if name in ("int64", "int32"):
        return builtin(I, "int", args, {}, st)
    from .ri import NP_GENERIC
    if name in NP_GENERIC:
        n = N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs) if k != "**"], attr=(name,) + tuple(sorted(kwargs)))
        if name in ("meshgrid", "linalg.lstsq", "split", "array_split", "hsplit", "vsplit", "nonzero", "ix_", "unique"):
            return Ext(n)
        return I.wrap(st, n)
    I.unknown_calls["numpy." + name] = I.unknown_calls.get("numpy." + name, 0) + 1
    n = N.mk("npcall", *[I.node(st, a) for a in args], *[I.node(st, kwargs[k]) for k in sorted(kwargs) if k != "**"],
             attr=(name,) + tuple(sorted(kwargs)))
    return Ext(n)


def matmul(a, b):
    ra, rb = N.shape_rank(a), N.shape_rank(b)
    if ra == 0 or rb == 0:
        return N.mul(a, b)
    return N.mk("matmul", a, b)


def concat(I, name, args, kwargs, st):
    if name == "append":
        ax = ival(I, arg(args, kwargs, 2, "axis"), st)
        ns = [I.node(st, a) for a in args[:2]]
        if ax is None:
            ns = [ravel(n) for n in ns]
            ax = 0
        return mkconcat(ns, ax)
    items = I.concrete_items(args[0], st)
    if items is None:
        n = I.node(st, args[0])
        if name == "column_stack" and n.op == "maplist":
            return N.mk("transpose", n)
        if n.op == "maplist" and N.shape_rank(n) == 2:
            if name in ("vstack", "row_stack"):
                return n
            if name == "stack":
                ax = ival(I, arg(args, kwargs, 1, "axis"), st)
                if ax in (None, 0, -2):
                    return n
                if ax in (1, -1):
                    return N.mk("transpose", n)
        return N.mk("concatlist", n, attr=(name, ival(I, arg(args, kwargs, 1, "axis"), st) if name in ("concatenate", "stack") else None))
    ns = [I.node(st, x) for x in items]
    if name == "concatenate":
        ax = ival(I, arg(args, kwargs, 1, "axis"), st)
        if "axis" not in kwargs and len(args) < 2:
            ax = 0
        if ax is None:
            ns = [ravel(n) for n in ns]
            ax = 0
        if not isinstance(ax, N.Node) and ax < 0:
            r = N.shape_rank(ns[0])
            if r is None:
                return N.mk("concat", *ns, attr=ax)
            ax += r
        return mkconcat(ns, ax)
    rk = [N.shape_rank(n) for n in ns]
    if name == "hstack":
        if None in rk:
            return N.mk("concatlist", *ns, attr=("hstack", None))
        if all(r <= 1 for r in rk):
            return mkconcat([ravel(n) for n in ns], 0)
        return mkconcat(ns, 1)
    if name == "column_stack":
        if None in rk:
            return N.mk("concatlist", *ns, attr=("column_stack", None))
        out = []
        for n, r in zip(ns, rk):
            out.append(n if r == 2 else N.mk("reshape", n, N.shape_of(n)[0] if r else N.const(1), N.const(1)))
        return mkconcat(out, 1)
    if name in ("vstack", "row_stack"):
        if None in rk:
            return N.mk("concatlist", *ns, attr=("vstack", None))
        out = []
        for n, r in zip(ns, rk):
            out.append(n if r == 2 else N.mk("reshape", n, N.const(1), N.shape_of(n)[0] if r else N.const(1)))
        return mkconcat(out, 0)
    if name == "stack":
        ax = ival(I, arg(args, kwargs, 1, "axis"), st) if len(args) > 1 or "axis" in kwargs else 0
        if None in rk or isinstance(ax, N.Node) or ax is None:
            return N.mk("concatlist", *ns, attr=("stack", ax if isinstance(ax, int) else None if len(ns) and ax is None else ax))
        if ax < 0:
            ax += rk[0] + 1
        out = []
        for n in ns:
            sh = tuple(N.shape_of(n) or ()) if N.shape_rank(n) else ()
            if len(sh) != rk[0]:
                return N.mk("concatlist", *ns, attr=("stack", ax))
            sh2 = sh[:ax] + (N.const(1),) + sh[ax:]
            out.append(N.mk("reshape", n, *sh2))
        return mkconcat(out, ax) if len(out) > 1 else out[0]
    return N.mk("concatlist", *ns, attr=(name, None))


def mkconcat(ns, ax):
    if len(ns) == 1:
        return ns[0]
    out = []
    for n in ns:
        if n.op == "concat" and n.attr == ax:
            out.extend(n.args)
        else:
            out.append(n)
    return N.mk("concat", *out, attr=ax)


def ravel(n):
    s = N.shape_of(n)
    if s is None:
        return N.mk("ravel", n)
    if len(s) == 1:
        return n
    tot = N.const(1)
    for d in s:
        tot = N.mul(tot, d)
    return N.mk("reshape", n, tot)


def arr_shape_op(I, v, name, args, kwargs, st):
    if isinstance(v, Ext):
        if name in ("asarray", "asanyarray", "ascontiguousarray"):
            return Ext(N.mk("asarray", v.node)) if v.node.op != "asarray" else v
        return Ext(N.mk(name, v.node, *[I.node(st, a) for a in args]))
    n = I.content(st, v)
    r = N.shape_rank(n)
    if name in ("asarray", "asanyarray", "ascontiguousarray"):
        return v
    order = kwargs.get("order", args[0] if name in ("ravel", "flatten") and args else None)
    if order is not None:
        o = I.node(st, order)
        kwargs = {k: x for k, x in kwargs.items() if k != "order"}
        if name in ("ravel", "flatten"):
            args = []
        if o.op != "str" or o.attr == "F":
            if o.op != "str" or r is None:
                return I.new_arr(st, N.opaque("order"))
            t = I.new_arr(st, N.mk("transpose", n) if r > 1 else n)
            if name in ("ravel", "flatten"):
                return arr_shape_op(I, t, "flatten", [], {}, st)
            sh = shape_arg(I, args[0] if len(args) == 1 else Tup(args), st)
            if sh is None:
                return I.new_arr(st, N.opaque("order"))
            x = arr_shape_op(I, t, "reshape", [Tup([Sc(d) for d in reversed(sh)])], {}, st)
            return I.new_arr(st, N.mk("transpose", I.node(st, x)) if len(sh) > 1 else I.node(st, x))
    if name == "squeeze" and (args or kwargs):
        ax = ival(I, args[0] if args else kwargs.get("axis"), st)
        if ax is not None:
            if not isinstance(ax, int) or r is None:
                return I.new_arr(st, N.opaque("squeeze"))
            return alias(v, ("reshape", tuple(d for i, d in enumerate(N.shape_of(n)) if i != ax % r)))
    if name == "transpose" and (args or kwargs):
        items = [I.node(st, x) for x in (args if len(args) > 1 else (I.concrete_items(args[0], st) or []) if args else (I.concrete_items(kwargs.get("axes"), st) or []))]
        ks = [int(x.attr) if x.op == "const" else None for x in items]
        if ks == list(range(len(ks))) and ks:
            return v
        if ks != list(reversed(range(len(ks)))) or not ks:
            return I.new_arr(st, N.opaque("transpose"))
    if name in ("atleast_1d", "atleast_2d"):
        k = int(name[8])
        if r is not None and r >= k:
            return v
        if r is not None:
            sh = N.shape_of(n)
            return alias(v, ("reshape", tuple([N.const(1)] * (k - r)) + sh))
        return alias(v, ("atleast", k))
    if name == "squeeze":
        if r is not None and not any(N.is_const(d, 1) for d in N.shape_of(n)):
            return v
        if r is not None:
            return alias(v, ("reshape", tuple(d for d in N.shape_of(n) if not N.is_const(d, 1))))
        return alias(v, ("squeeze",))
    if name in ("ravel", "flatten"):
        if r == 1:
            return v if name == "ravel" else I.new_arr(st, n)
        if name == "flatten":
            return I.new_arr(st, ravel(n))
        sh = N.shape_of(n)
        if sh is None:
            return I.new_arr(st, N.mk("ravel", n), None, alias=(v.addr,))
        tot = N.const(1)
        for d in sh:
            tot = N.mul(tot, d)
        return alias(v, ("reshape", (tot,)))
    if name == "transpose":
        if r is not None and r < 2:
            return v
        return alias(v, ("T",))
    if name == "reshape":
        sh = shape_arg(I, args[0] if len(args) == 1 else Tup(args), st)
        if "newshape" in kwargs:
            sh = shape_arg(I, kwargs["newshape"], st)
        if sh is None:
            return I.new_arr(st, N.opaque("reshape"), None, alias=(v.addr,))
        old = N.shape_of(n)
        new = N.shape_of(N.mk("reshape", n, *sh))
        if old is not None and new is not None and len(old) == len(new) and all(N.same_size(a, b) for a, b in zip(old, new)):
            return v
        return alias(v, ("reshape", new if new is not None else sh))
    return v


RANDOM = []


def random_call(I, name, args, kwargs, st):
    k = N.fresh_id()
    size = None
    if name == "multivariate_normal":
        sz = arg(args, kwargs, 2, "size")
        mean = I.node(st, arg(args, kwargs, 0, "mean"))
        ms = N.shape_of(mean)
        shp = None
        if ms is not None:
            if sz is None or (isinstance(sz, Sc) and sz.node.op == "none"):
                shp = ms
            else:
                s2 = shape_arg(I, sz, st)
                shp = s2 + ms if s2 is not None else None
        n = N.sym(f"random{k}", shp, random=True)
    else:
        n = N.sym(f"random{k}", None, random=True)
    from .interp import positional
    args, kwargs = positional({"multivariate_normal": ("mean", "cov", "size"), "normal": ("loc", "scale", "size")}.get(name, ()), args, kwargs)
    I.log_event("numpy.random." + name, None, args, kwargs, n, st)
    return I.new_arr(st, n)


# ------------------------------------------------------------------------------------ methods
def arr_attr(I, v, name, st):
    n = I.node(st, v)
    if n.op in ("str", "fstr", "strcat", "none"):
        return Meth(v, name)
    s = N.shape_of(n)
    if name == "shape":
        if s is not None:
            return Tup([Sc(d) for d in s])
        return Ext(N.mk("shape", n))
    if name == "size":
        return Sc(N.lin_node(I.size(n)))
    if name == "ndim":
        return Sc(N.const(len(s))) if s is not None else Sc(N.mk("ndim", n))
    if name == "T":
        if not isinstance(v, Arr):
            return v
        if s is not None and len(s) < 2:
            return v
        return alias(v, ("T",))
    if name == "dtype":
        return Ext(N.mk("dtype", n))
    if name in ("real",):
        return v
    if name == "flat" and isinstance(v, (Arr, Sc)):
        return arr_shape_op(I, v if isinstance(v, Arr) else I.new_arr(st, n), "reshape", [num(-1)], {}, st)
    return Meth(v, name)


def arr_method(I, v, name, args, kwargs, st):
    if name in REDUCE or name in ("ptp", "argsort", "cumsum", "dot", "clip", "repeat", "round", "diagonal", "trace"):
        if name == "clip":
            return numpy_call(I, "clip", [v] + args, kwargs, st)
        return call(I, "numpy." + name, [v] + args, kwargs, st)
    if name in ("reshape", "squeeze", "ravel", "flatten", "transpose"):
        if isinstance(v, Sc):
            v = I.new_arr(st, v.node)
        return arr_shape_op(I, v, name, args, kwargs, st)
    if name == "view" and not args and not kwargs:
        return v
    if name in ("copy", "__copy__", "__deepcopy__"):
        return copy_of(I, v, st) if isinstance(v, Arr) else v
    if name == "astype":
        dk = dtype_kind(I, arg(args, kwargs, 0, "dtype"), st)
        cp = kwargs.get("copy")
        if isinstance(v, Arr) and cp is not None and I.node(st, cp) is not N.TRUE:
            if I.node(st, cp) is N.FALSE and dk is None and st.heap[v.addr].dt is None:
                return v
            if I.node(st, cp) is not N.FALSE:
                return I.new_arr(st, N.opaque("copy?"))
        if dk and isinstance(v, Arr):
            return I.new_arr(st, to_dtype(I, I.content(st, v), dk), dt="i" if dk == "int" else None)
        return I.new_arr(st, I.content(st, v)) if isinstance(v, Arr) else v
    if name == "tolist":
        if isinstance(v, Sc):
            return v
        return I.new_list(st, I.iter_parts(v, st)) if N.shape_rank(I.content(st, v)) == 1 else I.new_list(st, [("open", I.content(st, v))])
    if name == "item":
        if not args:
            n = I.node(st, v)
            return Sc(n if N.shape_rank(n) == 0 else N.mk("squeeze", n))
        return I.getitem(v, args[0], st)
    if name == "fill" and isinstance(v, Arr):
        old = I.content(st, v)
        s = N.shape_of(old)
        x = I.node(st, args[0])
        I.write(v, N.mk("alloc", x, *s) if s is not None else N.mk("likefill", x, old), st, "fill")
        return NONEV
    if name in ("sort", "resize", "put", "itemset", "partition", "byteswap") and isinstance(v, Arr):
        I.write(v, N.mk("npcall", I.content(st, v), *[I.node(st, a) for a in args], attr=("inplace." + name,)), st, name)
        return NONEV
    if name in ("tofile", "tobytes", "dump"):
        return I.env_call("ndarray." + name, I.node(st, v), args, kwargs, st)
    if name == "is_integer":
        return Sc(N.mk("isinst", I.node(st, v), attr="int"))
    if name == "__len__":
        return Sc(I.length(v, st))
    n = N.mk("npcall", I.node(st, v), *[I.node(st, a) for a in args], attr=("method." + name,))
    return Ext(n)


def list_method(I, v, name, args, kwargs, st):
    cell = st.heap[v.addr]
    if name == "append":
        I.effect("list-append", st, v.addr, val=args[0])
        cell.parts.append(("e", args[0]))
        return NONEV
    if name == "extend":
        I.effect("list-extend", st, v.addr)
        cell.parts.extend(I.iter_parts(args[0], st))
        return NONEV
    if name == "insert":
        I.effect("list-insert", st, v.addr, val=args[1])
        k = ival(I, args[0], st)
        if isinstance(k, int) and all(p[0] == "e" for p in cell.parts):
            cell.parts.insert(k, ("e", args[1]))
        elif k == 0:
            cell.parts.insert(0, ("e", args[1]))
        else:
            cell.parts[:] = [("open", N.opaque("insert"))]
        return NONEV
    if name == "pop":
        I.effect("list-pop", st, v.addr)
        k = ival(I, args[0], st) if args else -1
        if isinstance(k, int) and cell.parts and all(p[0] == "e" for p in cell.parts) and -len(cell.parts) <= k < len(cell.parts):
            return cell.parts.pop(k)[1]
        if k == -1 and cell.parts and cell.parts[-1][0] == "e":
            return cell.parts.pop()[1]
        if k == 0 and cell.parts and cell.parts[0][0] == "e":
            return cell.parts.pop(0)[1]
        r = Ext(N.mk("pop", I.node(st, v)))
        cell.parts[:] = [("open", N.opaque("pop"))]
        return r
    if name in ("remove", "clear", "sort", "reverse"):
        I.effect("list-" + name, st, v.addr)
        if name == "clear":
            cell.parts[:] = []
        elif name == "reverse" and all(p[0] == "e" for p in cell.parts):
            cell.parts.reverse()
        elif name == "remove" and all(p[0] == "e" for p in cell.parts):
            kn = I.node(st, args[0])
            for i, p in enumerate(cell.parts):
                if N.cmp("==", I.node(st, p[1]), kn) is N.TRUE:
                    del cell.parts[i]
                    break
                if N.cmp("==", I.node(st, p[1]), kn) is not N.FALSE:
                    cell.parts[:] = [("open", N.opaque("remove"))]
                    break
        else:
            cell.parts[:] = [("open", N.mk("listop", I.node(st, v), attr=name))]
        return NONEV
    if name == "copy":
        return I.new_list(st, list(cell.parts))
    if name == "index":
        items = I.concrete_items(v, st)
        kn = I.node(st, args[0])
        if items is not None:
            for i, x in enumerate(items):
                c = N.cmp("==", I.node(st, x), kn)
                if c is N.TRUE:
                    return num(i)
                if c is not N.FALSE:
                    break
        return Sc(N.mk("listindex", I.node(st, v), kn))
    if name in ("add",):   # sets
        I.effect("list-append", st, v.addr, val=args[0])
        new = I.set_of(st, list(cell.parts) + [("e", args[0])])
        cell.parts[:] = st.heap[new.addr].parts
        return NONEV
    if name == "count":
        items = I.concrete_items(v, st)
        if items is not None:
            cs = [I.truth(I.compare("Eq", x, args[0], st), st) for x in items]
            if all(c in (N.TRUE, N.FALSE) for c in cs):
                return num(sum(c is N.TRUE for c in cs))
    if cell.kind == "set":
        if name in ("union", "intersection", "difference", "symmetric_difference") and len(args) == 1:
            return I.set_op(name, v, I.set_of(st, I.iter_parts(args[0], st)), st)
        if name in ("issubset", "issuperset"):
            o = I.set_of(st, I.iter_parts(args[0], st))
            return Sc(I.compare_struct("<=" if name == "issubset" else ">=", v, o, st))
        if name == "update" and args:
            I.effect("list-append", st, v.addr)
            cell.parts[:] = st.heap[I.set_op("union", v, I.set_of(st, I.iter_parts(args[0], st)), st).addr].parts
            return NONEV
        if name == "discard":
            name = "remove"
            return list_method(I, v, name, args, kwargs, st)
    if name == "__len__":
        return Sc(I.length(v, st))
    return Ext(N.mk("listmeth", I.node(st, v), *[I.node(st, a) for a in args], attr=name))


def dict_method(I, v, name, args, kwargs, st):
    cell = st.heap[v.addr]
    if name == "get":
        dflt = args[1] if len(args) > 1 else NONEV
        kn = I.node(st, args[0])
        return I.parts_get(cell.parts, kn, st, dflt, v)
    if name in ("keys", "values", "items"):
        return Iter(name, (v,))
    if name == "update":
        I.effect("dict-write", st, v.addr)
        if args:
            I.dict_update(v, args[0], st)
        for k, x in kwargs.items():
            if k != "**":
                I.dict_set(cell, strv(k), x)
        return NONEV
    if name == "copy":
        d = I.new_dict(st)
        st.heap[d.addr].parts = list(cell.parts)
        return d
    if name == "pop":
        I.effect("dict-pop", st, v.addr)
        kn = I.node(st, args[0])
        r = I.parts_get(cell.parts, kn, st, args[1] if len(args) > 1 else None, v)
        cell.parts[:] = [p for p in cell.parts if not (p[0] == "kv" and I.node(st, p[1]) is kn)]
        return r
    if name == "setdefault":
        kn = I.node(st, args[0])
        has = I.dict_has(cell, kn)
        dflt = args[1] if len(args) > 1 else NONEV
        I.effect("dict-write", st, v.addr)
        cur = I.parts_get(cell.parts, kn, st, dflt, v)
        if has is not N.TRUE:
            I.dict_set(cell, args[0], cur)
        return cur
    if name == "clear":
        I.effect("dict-clear", st, v.addr)
        cell.parts[:] = []
        return NONEV
    if name == "__len__":
        return Sc(I.length(v, st))
    return Ext(N.mk("dictmeth", I.node(st, v), *[I.node(st, a) for a in args], attr=name))


def str_method(I, v, name, args, kwargs, st):
    ns = [I.node(st, a) for a in args]
    n = v.node
    if n.op == "str" and all(x.op == "str" or x.op == "const" for x in ns) and not kwargs and name in (
            "lower", "upper", "strip", "split", "replace", "startswith", "endswith", "zfill", "rstrip", "lstrip", "find", "title"):
        r = getattr(n.attr, name)(*[x.attr if x.op == "str" else int(x.attr) for x in ns])
        if isinstance(r, list):
            return I.list_of(st, [strv(x) for x in r])
        return Sc(N.const(r))
    if name == "format":
        import string
        tmpl, out, k = [], [], 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(n.attr if n.op == "str" else ""):
                if lit:
                    tmpl.append(("t", lit))
                if fld is None:
                    continue
                if fld == "":
                    x = ns[k]
                    k += 1
                elif fld.isdigit():
                    x = ns[int(fld)]
                elif fld in kwargs:
                    x = I.node(st, kwargs[fld])
                else:
                    return Sc(N.mk("strop", n, *ns, attr="format"))
                if x.op == "str" and not spec:
                    tmpl.append(("t", x.attr))
                else:
                    out.append(x)
                    tmpl.append(("v", spec or ""))
        except Exception:
            return Sc(N.mk("strop", n, *ns, attr="format"))
        return Sc(N.mk("fstr", *out, attr=tuple(tmpl))) if out else strv("".join(t[1] for t in tmpl))
    if name == "join":
        items = I.concrete_items(args[0], st)
        if items is not None and n.op == "str":
            xs = [I.node(st, x) for x in items]
            if all(x.op == "str" for x in xs):
                return strv(n.attr.join(x.attr for x in xs))
            from .interp import strcat
            out = []
            for i, x in enumerate(xs):
                if i and n.attr:
                    out.append(n)
                out.append(x)
            return Sc(strcat(out)) if out else strv("")
    if name in ("startswith", "endswith", "isdigit"):
        return Sc(I.simp(N.mk("strop", n, *ns, attr=name), st))
    return Sc(N.mk("strop", n, *ns, attr=name))


def ext_method(I, v, name, args, kwargs, st):
    if name in ("copy", "__copy__"):
        return Ext(N.mk("copy", v.node))
    if v.node.op in ("path",):
        return fsmodel.path_method(I, v, name, args, kwargs, st)
    if v.node.op == "file":
        return fsmodel.file_method(I, v, name, args, kwargs, st)
    if name == "to_csv" and args:
        return fsmodel.to_csv(I, v, args[0], kwargs, st)
    return None


NPCONST = {"numpy.pi": None, "numpy.inf": "inf", "numpy.nan": "nan", "numpy.newaxis": None}


def mod_attr(I, path, st):
    if path == "numpy.newaxis":
        return NONEV
    if path == "numpy.inf":
        return Sc(N.mk("special", attr="inf"))
    if path == "numpy.nan":
        return Sc(N.mk("special", attr="nan"))
    if path in ("numpy.pi", "math.pi"):
        return Sc(N.const(3.141592653589793), True)
    if path == "numpy.e":
        return Sc(N.mk("fn", N.const(1), attr="exp"))
    return Mod(path)


N.declare_call_shape("ext.filtfilt", lambda n: N.shape_of(n.args[2]) if len(n.args) > 2 else None)
N.declare_call_shape("ext.lfilter", lambda n: N.shape_of(n.args[2]) if len(n.args) > 2 else None)

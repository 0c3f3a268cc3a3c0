"""Abstract Python values and the abstract heap."""
from . import nodes as N


class Val:
    __slots__ = ()


class Sc(Val):
    """Immutable scalar (number, bool, str, None) denoted by a node."""
    __slots__ = ("node", "fl")

    def __init__(self, node, fl=False):
        self.node = node
        self.fl = fl        # a literal (or arithmetic on literals) of float type, where the node alone is an integer

    def __repr__(self):
        return f"Sc({self.node})"


class Ext(Val):
    """Value of the environment about which only its provenance (node) is known."""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return f"Ext({self.node})"


class Arr(Val):
    """Reference to array storage: heap cell `addr`, seen through a view path."""
    __slots__ = ("addr", "path")

    def __init__(self, addr, path=()):
        self.addr, self.path = addr, path

    def __repr__(self):
        return f"Arr(#{self.addr}{list(self.path) if self.path else ''})"


class Obj(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return f"Obj(#{self.addr})"


class Lst(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return f"Lst(#{self.addr})"


class Dct(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return f"Dct(#{self.addr})"


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items}"


class Phi(Val):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"Phi({self.cond}, {self.a}, {self.b})"


class Fn(Val):
    __slots__ = ("info", "closure", "defaults")

    def __init__(self, info, closure=None, defaults=None):
        self.info, self.closure, self.defaults = info, closure, defaults


class Lam(Val):
    __slots__ = ("node", "env", "module", "defaults")

    def __init__(self, node, env, module, defaults=None):
        self.node, self.env, self.module, self.defaults = node, env, module, defaults or {}


class Part(Val):
    """A callable with some arguments fixed (functools.partial)."""
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args=(), kwargs=None):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs or {})


class Memo(Val):
    """A callable that remembers its results by argument (functools.lru_cache); key identifies the cache."""
    __slots__ = ("fn", "key")

    def __init__(self, fn, key):
        self.fn, self.key = fn, key


class Bound(Val):
    __slots__ = ("self", "info")

    def __init__(self, self_, info):
        self.self, self.info = self_, info


class Meth(Val):
    """Method of a built-in / stub / environment value."""
    __slots__ = ("self", "name")

    def __init__(self, self_, name):
        self.self, self.name = self_, name


class Cls(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class Mod(Val):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Mod({self.path})"


class Sup(Val):
    __slots__ = ("self", "after")

    def __init__(self, self_, after):
        self.self, self.after = self_, after


class Rng(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Iter(Val):
    """enumerate / zip / reversed / items views."""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class Slc(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class StubCls(Val):
    """Model of an environment class supplied by a check."""
    __slots__ = ("stub",)

    def __init__(self, stub):
        self.stub = stub


# ------------------------------------------------------------------ heap cells
class ArrCell:
    """dt: 'i' for storage known to hold integers (assignments truncate), else None"""
    __slots__ = ("node", "origin", "alias", "dt")

    def __init__(self, node, origin=None, alias=(), dt=None):
        self.node, self.origin, self.alias, self.dt = node, origin, alias, dt

    def copy(self):
        return ArrCell(self.node, self.origin, self.alias, self.dt)


class ObjCell:
    __slots__ = ("cls", "attrs", "origin", "ident")

    def __init__(self, cls, attrs=None, origin=None, ident=None):
        self.cls, self.attrs, self.origin, self.ident = cls, attrs or {}, origin, ident

    def copy(self):
        return ObjCell(self.cls, dict(self.attrs), self.origin, self.ident)


class LstCell:
    """parts: ('e', val) | ('map', L, lo, hi, parts) | ('if', cond, partsA, partsB) | ('mu', L, name)
    | ('sym', name, length, factory)"""
    __slots__ = ("parts", "origin", "kind")

    def __init__(self, parts, origin=None, kind=None):
        self.parts, self.origin, self.kind = list(parts), origin, kind     # kind: 'set' / 'iter' / None

    def copy(self):
        return LstCell(self.parts, self.origin, self.kind)


class DctCell:
    """parts: ('kv', keyval, val) | ('map', L, lo, hi, parts) | ('if', c, A, B) | ('mu',...) | ('open', node)"""
    __slots__ = ("parts", "origin")

    def __init__(self, parts, origin=None):
        self.parts, self.origin = list(parts), origin

    def copy(self):
        return DctCell(self.parts, self.origin)


class Stub:
    """Abstract class model: methods map name -> handler(interp, st, self, args, kwargs)."""

    def __init__(self, name, methods=None, props=None, isa=()):
        self.name, self.methods, self.props, self.isa = name, methods or {}, props or {}, isa

    def __repr__(self):
        return f"<stub {self.name}>"


class State:
    __slots__ = ("heap", "env", "assume", "guards", "ext")

    def __init__(self):
        self.heap, self.env, self.assume, self.guards, self.ext = {}, {}, {}, (), {}

    def fork(self):
        s = State()
        s.heap = {k: c.copy() for k, c in self.heap.items()}
        s.env = dict(self.env)
        s.assume = dict(self.assume)
        s.guards = self.guards
        s.ext = dict(self.ext)
        return s

    def take(self, o):
        self.heap, self.env, self.assume, self.guards, self.ext = o.heap, o.env, o.assume, o.guards, o.ext


NONEV = Sc(N.NONE)
TRUEV = Sc(N.TRUE)
FALSEV = Sc(N.FALSE)


def num(x):
    return Sc(N.const(x))


def strv(s):
    return Sc(N.const(s))

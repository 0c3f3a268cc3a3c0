"""Interprocedural abstract interpreter: Python AST -> gated value graph + abstract heap.

Branches are joined with gates, loops are summarised (fixpoint over the set of loop-carried
locations, then recurrence / map recognition).  There is no path enumeration and no execution of
repository code."""
import ast
import re

from . import fsmodel
from . import nodes as N
from . import ri
from .program import AnchorError, ClassInfo, External, FuncInfo, ModuleInfo, Program
from .values import *

MAXDEPTH = 60


class Exit:
    __slots__ = ("kind", "st", "val", "base")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Dead(Exception):
    """The current abstract state has no successors (raise inside an expression)."""

    def __init__(self, exits=()):
        self.exits = list(exits)


def conj(conds):
    r = N.TRUE
    for c in conds:
        r = N.and_(r, c)
    return r


class Interp:
    def __init__(self, program=None, stubs=None):
        self.prog = program or Program()
        self.stubs = stubs or {}
        self.unroll_arrays = False      # iterate over small arrays of known length element by element
        self.effects = []      # writes to storage: dict(kind, addr, origin, site, guards, name)
        self.events = []       # calls into the environment: dict(name, args, kwargs, node, site, guards, loops)
        self.raises = []       # dict(exc, site, guards, func)
        self.diags = []        # dict(kind, site, ...)
        self.functions = {}    # analysed functions: qual -> count
        self.callsites = 0
        self.stack = []        # FuncInfo stack
        self.loops = []        # active loops (ids)
        self.loopinfo = {}
        self.unknown_calls = {}
        self.in_summary = 0
        self._next_addr = 0
        self._const_cache = {}
        self.cur = None        # current ast node
        self.opaque_fns = set()  # qualnames not to inline (treated as uninterpreted)
        self.field_reads = set()
        self.unbound_reads = set()
        self.statics = {}      # storage living as long as the program: key -> (value, {addr: cell})
        self.static_cells = {}
        self.cls_writes = set()    # names assigned on a class object anywhere
        self.glob_writes = set()   # (module, name) assigned through a global declaration or a module attribute
        self.hooks = {}        # 'qual' -> handler(interp, st, args, kwargs) replacing a repo function

    # ---------------------------------------------------------------- allocation
    def _addr(self):
        self._next_addr += 1
        return self._next_addr

    def state(self):
        return State()

    def new_arr(self, st, node, origin=None, alias=(), dt=None):
        a = self._addr()
        st.heap[a] = ArrCell(node, origin, alias, dt)
        return Arr(a)

    def arr(self, st, name, shape=None, origin=None, **kw):
        return self.new_arr(st, N.sym(name, shape, **kw), origin)

    def scalar(self, name, **kw):
        return Sc(N.sym(name, (), **kw))

    def new_obj(self, st, cls, attrs=None, origin=None, ident=None):
        a = self._addr()
        st.heap[a] = ObjCell(cls, attrs, origin, ident)
        return Obj(a)

    def new_list(self, st, parts, origin=None, kind=None):
        a = self._addr()
        st.heap[a] = LstCell(parts, origin, kind)
        return Lst(a)

    def set_of(self, st, parts):
        """A set: elements that are certainly equal or different, else contents unknown."""
        if all(p[0] == "e" and isinstance(p[1], Sc) and p[1].node.op in ("const", "str", "bool", "none") for p in parts):
            seen = {}
            for p in parts:
                seen.setdefault(p[1].node.id, p)
            return self.new_list(st, list(seen.values()), kind="set")
        if len(parts) == 1 and parts[0][0] == "e":
            return self.new_list(st, parts, kind="set")
        return self.new_list(st, [("open", N.opaque("set"))], kind="set")

    def set_elems(self, v, st):
        """{node id: value} of a set with known elements, else None"""
        if not isinstance(v, Lst) or st.heap[v.addr].kind != "set":
            return None
        parts = st.heap[v.addr].parts
        if not all(p[0] == "e" and isinstance(p[1], Sc) and p[1].node.op in ("const", "str", "bool", "none") for p in parts):
            return None
        return {p[1].node.id: p[1] for p in parts}

    def set_op(self, op, a, b, st):
        x, y = self.set_elems(a, st), self.set_elems(b, st)
        if x is None or y is None:
            return self.new_list(st, [("open", N.opaque("set"))], kind="set")
        if op in ("union", "BitOr"):
            r = {**x, **y}
        elif op in ("intersection", "BitAnd"):
            r = {k: v for k, v in x.items() if k in y}
        elif op in ("difference", "Sub"):
            r = {k: v for k, v in x.items() if k not in y}
        else:
            r = {**{k: v for k, v in x.items() if k not in y}, **{k: v for k, v in y.items() if k not in x}}
        return self.new_list(st, [("e", v) for v in r.values()], kind="set")

    def list_of(self, st, vals, origin=None):
        return self.new_list(st, [("e", v) for v in vals], origin)

    def new_dict(self, st, kvs=(), origin=None):
        a = self._addr()
        st.heap[a] = DctCell([("kv", k, v) for k, v in kvs], origin)
        return Dct(a)

    def wrap(self, st, node):
        """Value for a freshly computed numeric node."""
        if node.op in ("const", "bool", "str", "none", "idx", "size", "special"):
            return Sc(node)
        r = N.shape_rank(node)
        if r == 0:
            return Sc(node)
        return self.new_arr(st, node)

    # ---------------------------------------------------------------- storage shared by all calls
    def static(self, st, key, build):
        """Value created once per program (module and class variables, default arguments); its mutable
        contents live in the heap of the state at hand."""
        k = ("static",) + key
        if k in st.ext:
            return self.resolve(st.ext[k], st)
        if k not in self.statics:
            tmp = State()
            loops, self.loops = self.loops, []
            try:
                v = build(tmp)
            finally:
                self.loops = loops
            self.statics[k] = (v, {a: c.copy() for a, c in tmp.heap.items()})
            self.static_cells.update(self.statics[k][1])
            for k2, v2 in tmp.ext.items():
                st.ext.setdefault(k2, v2)
            if isinstance(v, Sc):
                self.statics[k] = (v, {})
        v, cells = self.statics[k]
        if isinstance(v, Sc) and not cells:
            return v
        for a, c in cells.items():
            if a not in st.heap:
                st.heap[a] = c.copy()
        st.ext[k] = v
        return v

    def static_set(self, st, key, v):
        st.ext[("static",) + key] = v

    def decorated(self, f, st, closure=None):
        """The callable a decorated function's name is bound to."""
        ds = [d for d in f.decos]
        if not ds:
            return Fn(f, closure)

        def build(t):
            v = Fn(f, closure, getattr(f, "defaults", None))
            for i, d in enumerate(reversed(ds)):
                if closure is None:
                    dv = self.resolve(self.eval_in_module(f.module, d, t), t)
                else:
                    dv = self.resolve(self.ev(d, t), t)
                path = dv.path if isinstance(dv, Mod) else None
                if isinstance(dv, Part) and isinstance(dv.fn, Mod):
                    path = dv.fn.path
                if isinstance(dv, Meth) and getattr(dv, "name", "") in ("lru_cache", "cache"):
                    path = "functools.lru_cache"
                if path in ("functools.lru_cache", "functools.cache"):
                    v = Memo(v, ("deco", f.qual, i) if closure is None else N.fresh_id())
                elif isinstance(dv, (Fn, Lam, Cls, Part, Bound, Obj)):
                    v = self.call(dv, [v], {}, t)
            return v
        if closure is not None:
            return build(st)
        return self.static(st, ("deco", f.qual, f.node.lineno), build)

    # ---------------------------------------------------------------- diagnostics
    def site(self, node=None):
        f = self.stack[-1] if self.stack else None
        n = node if node is not None else self.cur
        line = getattr(n, "lineno", 0)
        if f is None:
            return f"<driver>:{line}"
        return f"{f.module.rel}:{line} in {f.qual}"

    def effect(self, kind, st, addr, name=None, val=None, written=None):
        c = st.heap.get(addr)
        origins = []
        if c is not None:
            if c.origin:
                origins.append(c.origin)
            for al in getattr(c, "alias", ()):
                c2 = st.heap.get(al)
                if c2 is not None and c2.origin:
                    origins.append(c2.origin)
        self.effects.append(dict(kind=kind, addr=addr, origins=origins, name=name, site=self.site(),
                                 guards=st.guards, func=self.stack[-1].qual if self.stack else "", val=val))

    # ---------------------------------------------------------------- content / nodes
    def content(self, st, a):
        c = st.heap[a.addr]
        n = c.node
        for p in a.path:
            n = self.apply_path(n, p)
        return n

    def apply_path(self, n, p):
        if p[0] == "index":
            return index_node(n, p[1], p[2])
        if p[0] == "reshape":
            return N.mk("reshape", n, *p[1])
        if p[0] == "T":
            return N.mk("transpose", n)
        if p[0] == "atleast":
            r = N.shape_rank(n)
            return n if r is not None and r >= p[1] else N.mk("atleast", n, attr=p[1])
        if p[0] == "squeeze":
            return N.mk("squeeze", n)
        raise AssertionError(p)

    def node(self, st, v):
        """The value-graph node denoting v."""
        if isinstance(v, (Sc, Ext)):
            return v.node
        if isinstance(v, Arr):
            return self.content(st, v)
        if isinstance(v, Phi):
            return N.phi(v.cond, self.node(st, v.a), self.node(st, v.b))
        if isinstance(v, Tup):
            return N.mk("mklist", *[self.node(st, x) for x in v.items])
        if isinstance(v, Lst):
            return self.parts_node(st, st.heap[v.addr].parts)
        if isinstance(v, Dct):
            return self.parts_node(st, st.heap[v.addr].parts, "mkdict")
        if isinstance(v, Obj):
            c = st.heap[v.addr]
            if c.ident is not None:
                return c.ident
            return N.mk("obj", attr=v.addr)
        if isinstance(v, Rng):
            return N.mk("arange", v.lo, v.hi)
        if isinstance(v, Cls):
            return N.mk("class", attr=v.info.name)
        if isinstance(v, Mod):
            return N.mk("modref", attr=v.path)
        if isinstance(v, Iter):
            return N.mk("iter", *[self.node(st, x) for x in v.args], attr=v.kind)
        if isinstance(v, (Fn, Bound)):
            return N.mk("fnref", attr=v.info.qual)
        if isinstance(v, Slc):
            return N.mk("slice", *[self.node(st, x) for x in (v.lo, v.hi, v.step)])
        return N.opaque(type(v).__name__)

    def parts_node(self, st, parts, op="mklist"):
        if all(p[0] == "e" for p in parts):
            return N.mk(op, *[self.node(st, p[1]) for p in parts])
        if len(parts) == 1 and parts[0][0] == "map":
            _, L, lo, hi, sub = parts[0]
            if len(sub) == 1 and sub[0][0] == "e":
                return N.mk("maplist", self.node(st, sub[0][1]), lo, hi, attr=L)
        out = []
        for p in parts:
            if p[0] == "e":
                out.append(self.node(st, p[1]))
            elif p[0] == "kv":
                out.append(N.mk("kv", self.node(st, p[1]), self.node(st, p[2])))
            elif p[0] == "map":
                out.append(N.mk("mapparts", self.parts_node(st, p[4], op), p[2], p[3], attr=p[1]))
            elif p[0] == "if":
                out.append(N.mk("ifparts", p[1], self.parts_node(st, p[2], op), self.parts_node(st, p[3], op)))
            elif p[0] == "mu":
                out.append(N.mk("mu", attr=(p[1], p[2], None)))
            elif p[0] == "sym":
                out.append(N.sym(p[1], None))
            else:
                out.append(p[1] if isinstance(p[1], N.Node) else N.opaque("part"))
        return N.mk("seqparts", *out, attr=op)

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is N.TRUE:
            return a
        if c is N.FALSE:
            return b
        if type(a) is type(b):
            if isinstance(a, Sc):
                return Sc(N.phi(c, a.node, b.node), a.fl or b.fl)
            if isinstance(a, Ext):
                return Ext(N.phi(c, a.node, b.node))
            if isinstance(a, Arr) and a.addr == b.addr and a.path == b.path:
                return a
            if isinstance(a, (Obj, Lst, Dct)) and a.addr == b.addr:
                return a
            if isinstance(a, Tup) and len(a.items) == len(b.items):
                return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
            if isinstance(a, Fn) and a.info is b.info:
                return a
            if isinstance(a, Cls) and a.info is b.info:
                return a
            if isinstance(a, Mod) and a.path == b.path:
                return a
        if c.op == "not":
            return Phi(c.args[0], b, a)
        return Phi(c, a, b)

    def merge_parts(self, c, p, q):
        if p == q:
            return p
        k = 0
        while k < len(p) and k < len(q) and (p[k] is q[k] or p[k] == q[k]):
            k += 1
        if all(x[0] == "kv" for x in p[k:]) and all(x[0] == "kv" for x in q[k:]):
            # dictionaries: merge per key when both sides have it in order
            out = list(p[:k])
            kp = {self._keyid(x[1]): x for x in p[k:]}
            kq = {self._keyid(x[1]): x for x in q[k:]}
            if None not in kp and None not in kq and list(kp) == list(kq):
                for key in kp:
                    out.append(("kv", kp[key][1], self.merge_val(c, kp[key][2], kq[key][2])))
                return out
        if all(x[0] == "e" for x in p[k:]) and all(x[0] == "e" for x in q[k:]) and len(p) == len(q):
            return list(p[:k]) + [("e", self.merge_val(c, x[1], y[1])) for x, y in zip(p[k:], q[k:])]
        return list(p[:k]) + [("if", c, tuple(p[k:]), tuple(q[k:]))]

    def _keyid(self, v):
        if isinstance(v, (Sc, Ext)):
            return v.node.id
        return None

    def merge_state(self, c, s1, s2):
        """Join: c selects s1. Result keeps s2's identity-independent data."""
        out = State()
        out.guards = s1.guards[: _common(s1.guards, s2.guards)]
        out.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) == v}
        heap = out.heap
        for a in list(s1.heap) + [x for x in s2.heap if x not in s1.heap]:
            c1, c2 = s1.heap.get(a), s2.heap.get(a)
            if c1 is None or c2 is None:
                if a not in self.static_cells:
                    heap[a] = c1 or c2
                    continue
                c1, c2 = c1 or self.static_cells[a].copy(), c2 or self.static_cells[a].copy()
            if isinstance(c1, ArrCell):
                heap[a] = ArrCell(N.phi(c, c1.node, c2.node), c1.origin, tuple(set(c1.alias) | set(c2.alias)),
                                  c1.dt if c1.dt == c2.dt else None)
            elif isinstance(c1, ObjCell):
                attrs = {}
                for k in list(c1.attrs) + [x for x in c2.attrs if x not in c1.attrs]:
                    v1, v2 = c1.attrs.get(k), c2.attrs.get(k)
                    if v1 is None or v2 is None:
                        missing = Ext(N.mk("unset", attr=k))
                        if (v1 or v2) is not None:
                            attrs[k] = self.merge_val(c, v1 or missing, v2 or missing)
                    else:
                        attrs[k] = self.merge_val(c, v1, v2)
                heap[a] = ObjCell(c1.cls, attrs, c1.origin, c1.ident)
            elif isinstance(c1, LstCell):
                heap[a] = LstCell(self.merge_parts(c, c1.parts, c2.parts), c1.origin, c1.kind)
            else:
                heap[a] = DctCell(self.merge_parts(c, c1.parts, c2.parts), c1.origin)
        env = out.env
        for k in list(s1.env) + [x for x in s2.env if x not in s1.env]:
            v1, v2 = s1.env.get(k), s2.env.get(k)
            if v1 is None or v2 is None:
                # possibly unbound after the join; keep the bound one (Python would raise)
                env[k] = v1 if v1 is not None else v2
            else:
                env[k] = self.merge_val(c, v1, v2)
        for k in set(s1.ext) | set(s2.ext):
            v1, v2 = s1.ext.get(k), s2.ext.get(k)
            if v1 is not None and v2 is not None:
                out.ext[k] = self.merge_val(c, v1, v2)
            else:
                if k[0] == "static" and k in self.statics:
                    v0 = self.statics[k][0]
                    out.ext[k] = self.merge_val(c, v1 or v0, v2 or v0)
                elif k[0] == "memo":
                    un = Ext(N.mk("unset", attr="memo"))
                    out.ext[k] = Phi(c, v1 or un, v2 or un)
                else:
                    out.ext[k] = v1 or v2
        return out

    # ---------------------------------------------------------------- conditions
    def simp(self, c, st):
        if not st.assume:
            return c
        v = st.assume.get(c.id)
        if v is not None:
            return N.TRUE if v else N.FALSE
        if c.op == "not":
            return N.not_(self.simp(c.args[0], st))
        if c.op == "and":
            return N.and_(self.simp(c.args[0], st), self.simp(c.args[1], st))
        if c.op == "or":
            return N.or_(self.simp(c.args[0], st), self.simp(c.args[1], st))
        if c.op == "phi":
            k = self.simp(c.args[0], st)
            if k is N.TRUE:
                return self.simp(c.args[1], st)
            if k is N.FALSE:
                return self.simp(c.args[2], st)
        if c.op == "cmp":
            a, b = (self.resolve_node(x, st) for x in c.args)
            if a is not c.args[0] or b is not c.args[1]:
                return N.cmp(c.attr, a, b)
        return c

    def resolve_node(self, n, st):
        while n.op == "phi":
            k = self.simp(n.args[0], st)
            if k is N.TRUE:
                n = n.args[1]
            elif k is N.FALSE:
                n = n.args[2]
            else:
                break
        return n

    def assume(self, st, c, val):
        """Record c == val on st."""
        st.guards = st.guards + ((c if val else N.not_(c)),)
        self._assume(st, c, val)

    def _assume(self, st, c, val):
        st.assume[c.id] = val
        if c.op == "not":
            self._assume(st, c.args[0], not val)
        elif c.op == "and" and val:
            self._assume(st, c.args[0], True)
            self._assume(st, c.args[1], True)
        elif c.op == "or" and not val:
            self._assume(st, c.args[0], False)
            self._assume(st, c.args[1], False)
        elif c.op == "cmp" and c.attr == "<":
            rev = N.mk("cmp", c.args[1], c.args[0], attr="<=")
            st.assume[rev.id] = not val
            if val:
                st.assume[N.mk("cmp", c.args[0], c.args[1], attr="<=").id] = True
                st.assume[N.mk("cmp", c.args[1], c.args[0], attr="<").id] = False
        elif c.op == "cmp" and c.attr == "<=":
            rev = N.mk("cmp", c.args[1], c.args[0], attr="<")
            st.assume[rev.id] = not val

    def resolve(self, v, st):
        while isinstance(v, Phi):
            k = self.simp(v.cond, st)
            if k is N.TRUE:
                v = v.a
            elif k is N.FALSE:
                v = v.b
            else:
                break
        if isinstance(v, (Sc,)) and v.node.op == "phi":
            n = self.resolve_node(v.node, st)
            if n is not v.node:
                return Sc(n)
        return v

    def truth(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, Sc):
            n = self.resolve_node(v.node, st)
            if n.op == "bool":
                return n
            if n.op == "none":
                return N.FALSE
            if n.op == "const":
                return N.const(bool(n.attr != 0))
            if n.op == "str":
                return N.const(bool(n.attr))
            if n.op in ("cmp", "not", "and", "or", "isinst", "truth"):
                return self.simp(n, st)
            if n.op == "phi":
                return self.simp(N.phi(n.args[0], self.truth(Sc(n.args[1]), st), self.truth(Sc(n.args[2]), st)), st)
            if n.op == "sym" and dict(n.attr[2]).get("bool"):
                return self.simp(n, st)
            if n.op in ("size",):
                return self.simp(N.cmp("<", N.const(0), n), st)
            return self.simp(N.mk("truth", n), st)
        if isinstance(v, Phi):
            return self.simp(N.phi(v.cond, self.truth(v.a, st), self.truth(v.b, st)), st)
        if isinstance(v, (Obj, Fn, Bound, Cls, Mod, StubCls, Lam)):
            return N.TRUE
        if isinstance(v, Lst) or isinstance(v, Dct):
            parts = st.heap[v.addr].parts
            if not parts:
                return N.FALSE
            if any(p[0] in ("e", "kv") for p in parts):
                return N.TRUE
            if len(parts) == 1 and parts[0][0] == "map":
                return self.simp(N.cmp("<", parts[0][2], parts[0][3]), st)
            if len(parts) == 1 and parts[0][0] == "sym":
                return self.simp(N.cmp("<", N.const(0), parts[0][2]), st)
            return self.simp(N.mk("truth", self.node(st, v)), st)
        if isinstance(v, Tup):
            return N.const(bool(v.items))
        if isinstance(v, Arr):
            n = self.content(st, v)
            s = N.shape_of(n)
            if s is not None:
                size = N.const(1)
                for d in s:
                    size = N.mul(size, d)
                if not N.is_const(size, 1):
                    self.diags.append(dict(kind="ambiguous-truth", site=self.site(), node=n, guards=st.guards))
            if n.op in ("cmp", "not", "and", "or"):
                return self.simp(n, st)
            return self.simp(N.mk("truth", n), st)
        if isinstance(v, Ext):
            n = v.node
            if n.op in ("cmp", "not", "and", "or", "bool"):
                return self.simp(n, st)
            return self.simp(N.mk("truth", n), st)
        if isinstance(v, Rng):
            return self.simp(N.cmp("<", v.lo, v.hi), st)
        return self.simp(N.mk("truth", self.node(st, v)), st)

    # ---------------------------------------------------------------- case split on a Phi value
    def cases(self, st, v, fn):
        """Apply fn(st_case, value) to every alternative of v; joins states and results."""
        v = self.resolve(v, st)
        if not isinstance(v, Phi):
            return fn(st, v)
        s1, s2 = st.fork(), st.fork()
        self.assume(s1, v.cond, True)
        self.assume(s2, v.cond, False)
        g = st.guards
        r1 = r2 = None
        try:
            r1 = self.cases(s1, v.a, fn)
        except Dead:
            s1 = None
        try:
            r2 = self.cases(s2, v.b, fn)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            st.take(s2)
            return r2
        if s2 is None:
            st.take(s1)
            return r1
        m = self.merge_state(v.cond, s1, s2)
        m.guards = g
        st.take(m)
        return self.merge_val(v.cond, r1, r2)

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, st):
        """-> list of Exit; at most one of kind 'normal'."""
        exits = []
        for s in body:
            r = self.exec_stmt(s, st)
            normal = None
            for e in r:
                if e.kind == "normal":
                    normal = e.st
                else:
                    exits.append(e)
            if normal is None:
                return exits
            st = normal
        exits.append(Exit("normal", st))
        return exits

    def exec_stmt(self, s, st):
        self.cur = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [Exit("normal", st)]
        try:
            r = m(s, st)
        except Dead as d:
            return d.exits
        return r if r is not None else [Exit("normal", st)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        return

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = self.lift(self.prog.import_name(a.name if a.asname else a.name.split(".")[0], None), st)

    def s_ImportFrom(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name] = self.lift(self.prog.import_name(s.module, a.name), st)

    def s_FunctionDef(self, s, st):
        f = FuncInfo(s, self.stack[-1].module, None, "nested")
        d = self.nested_defaults(s, st)
        v = Fn(f, st.env, d)
        if f.decos:
            f.defaults = d
            v = self.decorated(f, st, st.env)
        self.set_name(s.name, v, st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        rhs = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(t, st)
            self.set_name(t.id, self.inplace(op, old, rhs, st, t.id), st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            old = self.getattr(base, t.attr, st)
            self.setattr(base, t.attr, self.inplace(op, old, rhs, st, t.attr), st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            old = self.getitem(base, idx, st)
            new = self.binop(op, old, rhs, st)
            self.setitem(base, idx, new, st)

    def inplace(self, op, old, rhs, st, name=None):
        def go(s, v):
            if isinstance(v, Arr):
                new = self.binop_node(op, self.node(s, v), self.node(s, rhs), s)
                self.write(v, new, s, name)
                return v
            if isinstance(v, Lst) and op == "Add":
                self.effect("list-extend", s, v.addr, name)
                s.heap[v.addr].parts.extend(self.iter_parts(rhs, s))
                return v
            return self.binop(op, v, rhs, s)
        return self.cases(st, old, go)

    def write(self, a, new, st, name=None):
        """Overwrite the array content seen through a with node `new`."""
        cell = st.heap[a.addr]
        if cell.dt == "i":
            new = to_int_node(new)
        self.effect("array-write", st, a.addr, name, val=new)
        cell.node = self.write_path(cell.node, a.path, new)

    def write_path(self, base, path, new):
        if not path:
            sh = N.shape_of(base)
            nsh = N.shape_of(new)
            if sh is not None and nsh is not None and len(nsh) < len(sh):
                return mk_fill(new, sh)
            return new
        p = path[0]
        inner = self.write_path(self.apply_path(base, p), path[1:], new)
        if p[0] == "index":
            return store_node(base, p[1], p[2], inner)
        sh = N.shape_of(base)
        if p[0] == "T":
            return N.mk("transpose", inner)
        if sh is not None:
            return N.mk("reshape", inner, *sh)
        return inner

    def set_name(self, name, v, st):
        if self.stack and name in global_names(self.stack[-1].node):
            mod = self.stack[-1].module
            self.glob_writes.add((mod.dotted, name))
            self.global_name(name, st)
            self.static_set(st, ("g", mod.dotted, name), v)
            self.statics.setdefault(("static", "g", mod.dotted, name), (v, {}))
            return
        fr = st.env.get("%cell:" + name)
        if fr is not None:
            st.heap[fr.addr].attrs[name] = v
            return
        st.env[name] = v

    def new_frame(self, st, names, env):
        """Variables shared with nested functions live in one storage cell per call."""
        fr = self.new_obj(st, FRAME, {n: env[n] for n in names if n in env})
        for n in names:
            env["%cell:" + n] = fr

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            self.setitem(base, idx, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, elts, v, st):
        v = self.resolve(v, st)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            after = len(elts) - k - 1
            items = self.concrete_items(v, st)
            if items is None and not isinstance(v, (Phi, Ext)):
                sp = self.sym_space(v, st)
                n = N.cval(N.sub(sp[1], sp[0])) if sp else None
                if n is not None and n <= 64:
                    items = [sp[2](N.add(sp[0], N.const(i)), st) for i in range(int(n))]
            if items is not None and len(items) >= len(elts) - 1:
                for e, x in zip(elts[:k], items[:k]):
                    self.assign(e, x, st)
                self.assign(elts[k].value, self.list_of(st, items[k:len(items) - after]), st)
                for e, x in zip(elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, st)
            else:
                for e in elts:
                    self.assign(e, Ext(N.opaque("star")), st)
            return
        if isinstance(v, Phi):
            a = self._unpack_vals(v.a, len(elts), st)
            b = self._unpack_vals(v.b, len(elts), st)
            vals = [self.merge_val(v.cond, x, y) for x, y in zip(a, b)]
        else:
            vals = self._unpack_vals(v, len(elts), st)
        for e, x in zip(elts, vals):
            self.assign(e, x, st)

    def _unpack_vals(self, v, n, st):
        v = self.resolve(v, st)
        if isinstance(v, Phi):
            a, b = self._unpack_vals(v.a, n, st), self._unpack_vals(v.b, n, st)
            return [self.merge_val(v.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v, Tup) and len(v.items) == n:
            return list(v.items)
        if isinstance(v, Lst):
            parts = st.heap[v.addr].parts
            if len(parts) == n and all(p[0] == "e" for p in parts):
                return [p[1] for p in parts]
        if isinstance(v, Iter):
            it = self.concrete_items(v, st)
            if it is not None and len(it) == n:
                return list(it)
            sp = self.sym_space(v, st)
            if sp is not None:
                return [sp[2](N.add(sp[0], N.const(i)), st) for i in range(n)]
        if isinstance(v, Ext):
            return [Ext(N.mk("index", v.node, N.const(i), attr="p")) for i in range(n)]
        return [self.getitem(v, Sc(N.const(i)), st) for i in range(n)]

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONEV
        return [Exit("return", st, v)]

    def s_Raise(self, s, st):
        exc = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = e.id if isinstance(e, ast.Name) else getattr(e, "attr", "Exception")
        self.raises.append(dict(exc=exc, site=self.site(s), guards=st.guards,
                                func=self.stack[-1].qual if self.stack else "", loops=tuple(self.loops)))
        return [Exit("raise", st, strv(exc))]

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        self.assume(st, c, True)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                idx = self.ev_index(t.slice, st)
                self.delitem(base, idx, st)
            elif isinstance(t, ast.Attribute):
                b = self.resolve(self.ev(t.value, st), st)
                if isinstance(b, Obj):
                    self.effect("attr-del", st, b.addr, t.attr)
                    st.heap[b.addr].attrs.pop(t.attr, None)

    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        return self.branch(c, st, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x))

    def branch(self, c, st, f, g):
        if c is N.TRUE:
            return f(st)
        if c is N.FALSE:
            return g(st)
        s1, s2 = st.fork(), st.fork()
        g0 = st.guards
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        e1, e2 = f(s1), g(s2)
        n1 = [e for e in e1 if e.kind == "normal"]
        n2 = [e for e in e2 if e.kind == "normal"]
        out = [e for e in e1 + e2 if e.kind != "normal"]
        if n1 and n2:
            m = self.merge_state(c, n1[0].st, n2[0].st)
            # guards added inside a branch by early exits must survive the join when one-sided only
            m.guards = g0
            if n1[0].st.guards[len(g0) + 1:] or n2[0].st.guards[len(g0) + 1:]:
                x = conj(n1[0].st.guards[len(g0):])
                y = conj(n2[0].st.guards[len(g0):])
                m.guards = g0 + (N.or_(x, y),)
            out.append(Exit("normal", m))
        elif n1 or n2:
            out.append((n1 or n2)[0])
        return out

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.exec_block(s.body, st)

    def s_Try(self, s, st):
        pre = st.fork()
        exits = self.exec_block(s.body, st)
        normal = [e for e in exits if e.kind == "normal"]
        raised = [e for e in exits if e.kind == "raise"]
        out = [e for e in exits if e.kind not in ("normal", "raise")]
        if normal and s.orelse:
            r = self.exec_block(s.orelse, normal[0].st)
            out += [e for e in r if e.kind != "normal"]
            normal = [e for e in r if e.kind == "normal"]
        hn = []
        if s.handlers:
            for h in s.handlers:
                hs = pre.fork()
                c = N.opaque("exc")
                self.assume(hs, c, True)
                if h.name:
                    hs.env[h.name] = Ext(N.opaque("exception"))
                r = self.exec_block(h.body, hs)
                out += [e for e in r if e.kind != "normal"]
                hn += [(c, e) for e in r if e.kind == "normal"]
        else:
            out += raised
        cur = normal[0].st if normal else None
        for c, e in hn:
            if cur is None:
                cur = e.st
            else:
                g = cur.guards
                cur = self.merge_state(c, e.st, cur)
                cur.guards = g
        if s.finalbody:
            fin = []
            if cur is not None:
                r = self.exec_block(s.finalbody, cur)
                fin += r
            for e in out:
                r = self.exec_block(s.finalbody, e.st)
                for x in r:
                    if x.kind == "normal":
                        e.st = x.st
                        fin.append(e)
                    else:
                        fin.append(x)
            return fin
        if cur is not None:
            out.append(Exit("normal", cur))
        return out

    def s_Break(self, s, st):
        return [Exit("break", st)]

    def s_Continue(self, s, st):
        return [Exit("continue", st)]

    # ---------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.resolve(self.ev(s.iter, st), st)
        if isinstance(it, Iter) and it.kind == "count":
            # for x in count(a, d): the same as an unbounded while loop over a counter
            if not hasattr(s, "as_while"):
                c = f"__count{s.lineno}_{s.col_offset}"
                load = lambda n: ast.Name(id=n, ctx=ast.Load())
                body = [ast.Assign(targets=[s.target], value=load(c)),
                        ast.Assign(targets=[ast.Name(id=c, ctx=ast.Store())], value=ast.BinOp(left=load(c), op=ast.Add(), right=load(c + "step")))] + s.body
                s.as_while = c, ast.While(test=ast.Constant(value=True), body=body, orelse=[])
                for n in ast.walk(s.as_while[1]):
                    if not hasattr(n, "lineno"):
                        ast.copy_location(n, s)
            c, loop = s.as_while
            st.env[c], st.env[c + "step"] = it.args
            return self.s_While(loop, st)
        return self.for_over(it, st, lambda v, x: self.assign(s.target, v, x), lambda x: self.exec_block(s.body, x),
                             lambda x: self.exec_block(s.orelse, x), s)

    def concrete_items(self, it, st):
        """List of element values when the iteration space is statically known, else None."""
        it = self.resolve(it, st)
        if isinstance(it, Tup):
            return list(it.items)
        if isinstance(it, Lst):
            parts = st.heap[it.addr].parts
            if all(p[0] == "e" for p in parts):
                return [p[1] for p in parts]
        if isinstance(it, Dct):
            parts = st.heap[it.addr].parts
            if all(p[0] == "kv" for p in parts):
                return [p[1] for p in parts]
        if isinstance(it, Sc) and it.node.op == "str":
            return [strv(ch) for ch in it.node.attr]
        if self.unroll_arrays and isinstance(it, Arr):
            sh = N.shape_of(self.content(st, it))
            k = N.cval(sh[0]) if sh else None
            if k is not None and k <= 8:
                return [self.getitem(it, num(i), st) for i in range(int(k))]
        if isinstance(it, Rng):
            lo, hi, sp = (N.cval(x) for x in (it.lo, it.hi, it.step))
            if None not in (lo, hi, sp) and sp != 0 and abs((hi - lo) / sp) <= 16:
                return [Sc(N.const(int(i))) for i in range(int(lo), int(hi), int(sp))]
        if isinstance(it, Iter):
            if it.kind == "enumerate":
                base = self.concrete_items(it.args[0], st)
                if base is None:
                    return None
                start = N.cval(self.node(st, it.args[1])) if len(it.args) > 1 else 0
                return [Tup([Sc(N.const(int(start) + i)), v]) for i, v in enumerate(base)]
            if it.kind == "zip":
                bs = [self.concrete_items(a, st) for a in it.args]
                if any(b is None for b in bs):
                    known = [len(b) for b in bs if b is not None]
                    if not known:
                        return None
                    k = min(known)
                    if k > 16:
                        return None
                    for j, (b, a) in enumerate(zip(bs, it.args)):
                        if b is not None:
                            continue
                        if isinstance(a, Iter) and a.kind == "count":
                            o, dn = (self.node(st, x) for x in a.args)
                            bs[j] = [Sc(N.add(o, N.mul(N.const(i), dn))) for i in range(k)]
                            continue
                        sp = self.sym_space(a, st)
                        c = N.cval(N.sub(sp[1], sp[0])) if sp else None
                        if c is None:
                            return None
                        k = min(k, int(c))
                        lo, _, el = sp
                        bs[j] = [el(N.add(lo, N.const(i)), st) for i in range(k)]
                return [Tup(t) for t in zip(*bs)]
            if it.kind == "reversed":
                b = self.concrete_items(it.args[0], st)
                return None if b is None else list(reversed(b))
            if it.kind in ("items", "values", "keys"):
                parts = st.heap[it.args[0].addr].parts if isinstance(it.args[0], Dct) else [("?",)]
                if all(p[0] == "kv" for p in parts):
                    if it.kind == "items":
                        return [Tup([p[1], p[2]]) for p in parts]
                    return [p[1] if it.kind == "keys" else p[2] for p in parts]
        return None

    def sym_space(self, it, st):
        """(lo, hi, elem(idx_node, st)) for a symbolic iteration space, or None."""
        it = self.resolve(it, st)
        if isinstance(it, Rng):
            if N.is_const(it.step, 1):
                return it.lo, it.hi, lambda i, s: Sc(i)
            if N.is_const(it.step, -1):
                # range(a, b, -1): i = a - k, k in [0, a-b)
                return N.const(0), N.sub(it.lo, it.hi), lambda k, s: Sc(N.sub(it.lo, k))
            return None
        if isinstance(it, Iter):
            if it.kind == "enumerate":
                b = self.sym_space(it.args[0], st)
                if b is None:
                    return None
                start = self.node(st, it.args[1]) if len(it.args) > 1 else N.const(0)
                lo, hi, el = b
                return lo, hi, lambda i, s: Tup([Sc(N.add(N.sub(i, lo), start)), el(i, s)])
            if it.kind == "zip":
                bs = [self.sym_space(a, st) for a in it.args]
                if any(b is None for b in bs):
                    return None
                lo, hi, _ = bs[0]
                return lo, hi, lambda i, s: Tup([e(N.add(N.sub(i, lo), l2), s) for (l2, _, e) in bs])
            if it.kind == "reversed":
                b = self.sym_space(it.args[0], st)
                if b is None:
                    return None
                lo, hi, el = b
                return lo, hi, lambda i, s: el(N.sub(N.sub(N.add(lo, hi), N.const(1)), i), s)
            if it.kind in ("items", "keys", "values") and isinstance(it.args[0], Dct):
                n = self.node(st, it.args[0])
                L = N.mk("size", n, attr=0)

                def el(i, s, kind=it.kind, d=it.args[0]):
                    k, v = Ext(N.mk("key_at", n, i)), Ext(N.mk("val_at", n, i))
                    parts = s.heap[d.addr].parts
                    if len(parts) == 1 and parts[0][0] == "map":
                        _, L0, lo0, hi0, sub = parts[0]
                        if len(sub) == 1 and sub[0][0] == "kv":
                            m = {L0.id: N.add(i, lo0)} if isinstance(L0, N.Node) else {}
                            k, v = self.subst_val(sub[0][1], m, s), self.subst_val(sub[0][2], m, s)
                    return {"items": Tup([k, v]), "keys": k, "values": v}[kind]
                return N.const(0), L, el
            return None
        if isinstance(it, Lst):
            parts = st.heap[it.addr].parts
            return N.const(0), self.length(it, st), lambda i, s: self.getitem(it, Sc(i), s)
        if isinstance(it, Arr):
            return N.const(0), self.length(it, st), lambda i, s: self.getitem(it, Sc(i), s)
        if isinstance(it, Dct):
            return self.sym_space(Iter("keys", (it,)), st)
        if isinstance(it, Ext):
            return N.const(0), N.mk("size", it.node, attr=0), lambda i, s: Ext(N.mk("index", it.node, i, attr="p"))
        if isinstance(it, Sc):
            return N.const(0), N.mk("size", it.node, attr=0), lambda i, s: Sc(N.mk("index", it.node, i, attr="p"))
        return None

    def for_over(self, it, st, bind, body, orelse, s):
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= 200:
            return self.unroll(items, st, bind, body, orelse)
        if isinstance(it, Phi):
            out = []

            def mkrun(alt):
                return lambda x: self.for_over(self.resolve(alt, x), x, bind, body, orelse, s)
            return self.branch(self.simp(it.cond, st), st, mkrun(it.a), mkrun(it.b))
        # iteration over a literal list part followed by a symbolic part
        if isinstance(it, Lst):
            parts = st.heap[it.addr].parts
            if len(parts) > 1 and all(p[0] in ("e", "map") for p in parts):
                return self.seq_parts_loop(parts, st, bind, body, orelse, s)
        sp = self.sym_space(it, st)
        if sp is None:
            n = self.node(st, it)
            sp = (N.const(0), N.mk("size", n, attr=0), lambda i, x: Ext(N.mk("index", n, i, attr="p")))
        lo, hi, elem = sp
        return self.sym_loop(st, lo, hi, lambda i, x: bind(elem(i, x), x), body, orelse, s)

    def seq_parts_loop(self, parts, st, bind, body, orelse, s):
        out = []
        for p in parts:
            if p[0] == "e":
                r = self.unroll([p[1]], st, bind, body, lambda x: [Exit("normal", x)])
            else:
                sub = self.new_list(st, [p])
                lo, hi, elem = self.sym_space(sub, st)
                r = self.sym_loop(st, lo, hi, lambda i, x, elem=elem: bind(elem(i, x), x), body,
                                  lambda x: [Exit("normal", x)], s)
            nrm = [e for e in r if e.kind == "normal"]
            out += [e for e in r if e.kind != "normal"]
            if not nrm:
                return out
            st = nrm[0].st
        r = orelse(st)
        return out + r

    def unroll(self, items, st, bind, body, orelse):
        out, broken = [], []
        for v in items:
            try:
                bind(v, st)
            except Dead:
                return out
            r = body(st)
            nrm = None
            conts = []
            for e in r:
                if e.kind == "normal":
                    nrm = e
                elif e.kind == "continue":
                    conts.append(e)
                elif e.kind == "break":
                    broken.append(e)
                else:
                    out.append(e)
            cand = ([nrm] if nrm else []) + conts
            if not cand:
                st = None
                break
            st = self.join_exits(cand)
        if st is not None:
            r = orelse(st)
            nn = [e for e in r if e.kind == "normal"]
            out += [e for e in r if e.kind != "normal"]
        else:
            nn = []
        cand = nn + broken
        if cand:
            out.append(Exit("normal", self.join_exits(cand)))
        return out

    def join_exits(self, exits):
        """Join mutually exclusive exits; guards beyond the common prefix select."""
        st = exits[0].st
        for e in exits[1:]:
            k = _common(st.guards, e.st.guards)
            c = conj(e.st.guards[k:])
            rest = conj(st.guards[k:])
            g = st.guards[:k]
            st = self.merge_state(c, e.st, st)
            st.guards = g
        return st

    def sym_loop(self, st, lo, hi, bind, body, orelse, s, cond=None, trip_once=False):
        key = (self.stack[-1].qual if self.stack else "", N.fresh_id())
        L = N.mk("loop", attr=key)
        idx = N.mk("idx", attr=key)
        N.declare_atleast(idx, 0) if N.lin_sign(N.lin(lo)) in ("0", "+", "+0") else None
        self.loopinfo[key] = (lo, hi, self.site(s))
        ri.LOOPS[key] = {"mus": {}, "lo": lo, "hi": hi, "outer": frozenset(self.loops)}
        changed = {}
        exits_out = []
        for rnd in range(12):
            marks = (len(self.effects), len(self.events), len(self.raises), len(self.diags))
            unbound, self.unbound_reads = self.unbound_reads, set()
            head = st.fork()
            mus = {}
            for loc, shape in changed.items():
                self.set_loc(head, loc, self.make_mu(head, key, loc, st))
            pre = head.fork()
            self.loops.append(key)
            within = N.mk("inloop", attr=key)
            head.guards = head.guards + (within,)
            g_in = head.guards
            try:
                bind(idx, head)
                ex = body(head)
            except Dead as d:
                ex = d.exits
            finally:
                self.loops.pop()
            nrm = [e for e in ex if e.kind in ("normal", "continue")]
            brk = [e for e in ex if e.kind == "break"]
            oth = [e for e in ex if e.kind in ("return", "raise")]
            post = None
            if nrm:
                post = self.join_exits(nrm)
            allpost = post
            ri.LOOPS[key]["brk"] = []
            if brk:
                for j, e in enumerate(brk):
                    ri.LOOPS[key]["brk"].append(conj([g for g in e.st.guards[len(g_in):] if g.op != "inloop"]))
                    if allpost is None:
                        allpost = e.st.fork()
                    else:
                        allpost = self.merge_state(N.mk("brk", attr=(key, j)), e.st, allpost)
            if allpost is None:
                allpost = pre
            new = {}
            carried, self.unbound_reads = self.unbound_reads, unbound
            for nm in carried:
                # assigned in one iteration and read in the next
                if nm in allpost.env and nm not in st.env:
                    v = self.resolve(allpost.env[nm], allpost)
                    if isinstance(v, Arr):
                        sh = N.shape_of(self.content(allpost, v))
                        st.env[nm] = self.new_arr(st, N.mk("undef", attr=(nm, sh)))
                    else:
                        st.env[nm] = Sc(N.mk("undef", attr=(nm, ()))) if isinstance(v, Sc) else Ext(N.mk("undef", attr=(nm, None)))
                    new[("env", nm)] = None
            for loc in self.diff_locs(pre, allpost):
                if loc not in changed:
                    new[loc] = None
            touched = [k for k in allpost.ext if k[0] == "static" and k not in st.ext and k in self.statics]
            if not new and not touched:
                break
            for k in touched:
                v, cells = self.statics[k]
                for a, c in cells.items():
                    if a not in st.heap:
                        st.heap[a] = c.copy()
                st.ext[k] = v
            changed.update(new)
            for lst, k in zip((self.effects, self.events, self.raises, self.diags), marks):
                del lst[k:]
        # counting pattern: while loops / manual counters
        res = st
        final = allpost
        for loc in changed:
            v0 = self.get_loc(st, loc)
            v1 = self.get_loc(final, loc)
            mu = self.get_loc(pre, loc)
            self.set_loc(res, loc, self.close_loop(res, key, idx, lo, hi, loc, v0, mu, v1, final, bool(brk)))
        for nm, v1 in final.env.items():
            # names bound by the loop keep the value of the last iteration
            if nm not in res.env and isinstance(v1, (Sc, Arr)) and nm not in carried:
                n1 = self.node(final, v1)
                if n1.op in ("const", "str", "none", "bool") and N.lin_sign(N.lin_sub(hi, lo)) == "+":
                    res.env[nm] = v1
                    continue
                ud = N.mk("undef", attr=(nm, N.shape_of(n1)))
                n = N.mk("rec", ud, n1, lo, hi, N.mk("nomu"), attr=(key, nm, bool(brk)))
                res.env[nm] = Sc(n) if isinstance(v1, Sc) else self.new_arr(res, n)
        # heap cells allocated in the body survive for values referring to them
        for a, c in final.heap.items():
            if a not in res.heap:
                res.heap[a] = c
        for k, v in final.ext.items():
            if k not in res.ext:
                res.ext[k] = v
        res.guards = st.guards
        out = []
        ret = [e for e in oth if e.kind == "return"]
        ri.LOOPS[key]["ret"] = []
        for e in oth:
            if e.kind == "return" and not brk and not changed and isinstance(e.val, (Sc, Arr)) \
                    and not self.diff_locs(pre, e.st) and not any(g.op == "inloop" for g in e.st.guards[len(g_in):]):
                # nothing but the result depends on the iteration that returns: the first one that does
                j = len(ri.LOOPS[key]["ret"])
                ri.LOOPS[key]["ret"].append(conj(e.st.guards[len(g_in):]))
                n = self.node(e.st, e.val)
                e.st.guards = st.guards + (N.mk("anyret", lo, hi, attr=(key, j)),)
                e.val = self.wrap(e.st, N.mk("atfirst", n, lo, hi, attr=(key, j))) if not n.op in ("const", "bool", "none", "str") else e.val
            out.append(e)
        if brk and getattr(s, "orelse", None):
            r = self.branch(N.mk("anybrk", lo, hi, attr=(key, None)), res, lambda x: [Exit("normal", x)], orelse)
        else:
            r = orelse(res)
        return out + r

    def make_mu(self, head, key, loc, st):
        v = self.get_loc(st, loc)
        return self.mu_val(v, key, locname(loc), head)

    def mu_val(self, v, key, name, head):
        if isinstance(v, N.Node):      # cell content
            return N.mk("mu", attr=(key, name, N.shape_of(v)))
        if isinstance(v, list):
            return [("mu", key, name)]
        v = self.resolve(v, head) if v is not None else None
        if isinstance(v, Sc):
            n = N.mk("mu", attr=(key, name, ()))
            return Sc(n)
        if isinstance(v, Arr):
            sh = N.shape_of(self.content(head, v))
            c = head.heap[v.addr]
            return self.new_arr(head, N.mk("mu", attr=(key, name, sh)), None, alias=(v.addr,) + c.alias)
        if isinstance(v, Tup):
            return Tup([self.mu_val(x, key, f"{name}.{i}", head) for i, x in enumerate(v.items)])
        if isinstance(v, Obj):
            c = head.heap[v.addr]
            attrs = {k: self.mu_val(x, key, f"{name}.{k}", head) for k, x in c.attrs.items()}
            return self.new_obj(head, c.cls, attrs, None, N.mk("mu", attr=(key, name, None)))
        return Ext(N.mk("mu", attr=(key, name, None)))

    # locations -------------------------------------------------------
    def get_loc(self, st, loc):
        k = loc[0]
        if k == "env":
            return st.env.get(loc[1])
        if k == "cell":
            c = st.heap.get(loc[1])
            return c.node if c is not None else None
        if k == "attr":
            c = st.heap.get(loc[1])
            return c.attrs.get(loc[2]) if c is not None else None
        if k == "list":
            c = st.heap.get(loc[1])
            return list(c.parts) if c is not None else None
        if k == "ext":
            return st.ext.get(loc[1])

    def set_loc(self, st, loc, v):
        k = loc[0]
        if v is None:
            return
        if k == "env":
            st.env[loc[1]] = v
        elif k == "cell":
            st.heap[loc[1]].node = v
        elif k == "attr":
            st.heap[loc[1]].attrs[loc[2]] = v
        elif k == "list":
            st.heap[loc[1]].parts = list(v)
        elif k == "ext":
            st.ext[loc[1]] = v

    def diff_locs(self, pre, post):
        out = []
        for k, v in post.env.items():
            if k in pre.env and not self.same_val(pre.env[k], v):
                out.append(("env", k))
        for a, c0 in pre.heap.items():
            c1 = post.heap.get(a)
            if c1 is None or c1 is c0:
                continue
            if isinstance(c0, ArrCell):
                if c0.node is not c1.node:
                    out.append(("cell", a))
            elif isinstance(c0, ObjCell):
                for k, v in c1.attrs.items():
                    if k not in c0.attrs or not self.same_val(c0.attrs[k], v):
                        out.append(("attr", a, k))
            elif c0.parts != c1.parts and not self.same_parts(c0.parts, c1.parts):
                out.append(("list", a))
        for k, v in post.ext.items():
            if k in pre.ext and not self.same_val(pre.ext[k], v):
                out.append(("ext", k))
        return out

    def same_parts(self, p, q):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if x is y:
                continue
            if x[0] != y[0]:
                return False
            if x[0] == "e":
                if not self.same_val(x[1], y[1]):
                    return False
            elif x[0] == "kv":
                if not (self.same_val(x[1], y[1]) and self.same_val(x[2], y[2])):
                    return False
            elif x != y:
                return False
        return True

    def same_val(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, (Sc, Ext)):
            return a.node is b.node
        if isinstance(a, Arr):
            return a.addr == b.addr and a.path == b.path
        if isinstance(a, (Obj, Lst, Dct)):
            return a.addr == b.addr
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Phi):
            return a.cond is b.cond and self.same_val(a.a, b.a) and self.same_val(a.b, b.b)
        if isinstance(a, Fn):
            return a.info is b.info
        if isinstance(a, Cls):
            return a.info is b.info
        if isinstance(a, Mod):
            return a.path == b.path
        return False

    def close_loop(self, res, key, idx, lo, hi, loc, v0, mu, v1, final, broke):
        name = locname(loc)
        if isinstance(v1, N.Node):
            return close_node(key, idx, lo, hi, name, v0 if v0 is not None else N.opaque("undef"), mu, v1, broke)
        if isinstance(v1, list):
            return self.close_list(key, idx, lo, hi, name, v0 or [], v1, broke)
        if isinstance(v1, Sc) and isinstance(v0, Sc):
            return Sc(close_node(key, idx, lo, hi, name, v0.node, mu.node, v1.node, broke))
        if isinstance(v1, Arr):
            n1 = self.content(final, v1)
            n0 = self.node(res, v0) if v0 is not None else N.opaque("undef")
            mn = final.heap[mu.addr].node if isinstance(mu, Arr) and mu.addr in final.heap else N.NONE
            if isinstance(mu, Arr):
                mn = N.mk("mu", attr=(key, name, N.shape_of(n0)))
            al = [v1.addr]
            if isinstance(v0, Arr):
                al += [v0.addr] + list(res.heap[v0.addr].alias) if v0.addr in res.heap else []
            return self.new_arr(res, close_node(key, idx, lo, hi, name, n0, mn, n1, broke), None, alias=tuple(al))
        if isinstance(v1, Tup) and isinstance(v0, Tup) and len(v0.items) == len(v1.items):
            mi = mu.items if isinstance(mu, Tup) and len(mu.items) == len(v1.items) else [NONEV] * len(v1.items)
            return Tup([self.close_loop(res, key, idx, lo, hi, ("env", f"{name}.{i}"), a, m, b, final, broke)
                        for i, (a, m, b) in enumerate(zip(v0.items, mi, v1.items))])
        if isinstance(v1, Ext):
            n0 = self.node(res, v0) if v0 is not None else N.opaque("undef")
            mn = mu.node if isinstance(mu, (Ext, Sc)) else N.NONE
            return Ext(close_node(key, idx, lo, hi, name, n0, mn, v1.node, broke))
        if isinstance(v1, Phi):
            try:
                n1 = self.node(final, v1)
                n0 = self.node(res, v0)
                if any(isinstance(x, (Obj, Lst, Dct)) for x in phi_leaves(v1)):
                    return Phi(N.mk("lastiter", attr=(key, name)), v1, v0) if v0 is not None else v1
                mn = self.node(final, mu) if isinstance(mu, (Sc, Ext, Arr)) else N.NONE
                return self.wrap(res, close_node(key, idx, lo, hi, name, n0, mn, n1, broke))
            except Exception:
                pass
        if v0 is None:
            return v1
        if self.same_val(v0, v1):
            return v0
        return Phi(N.mk("lastiter", attr=(key, name)), v1, v0)

    def close_list(self, key, idx, lo, hi, name, v0, v1, broke):
        if v1 and v1[0] == ("mu", key, name) and not broke:
            rest = v1[1:]
            if not rest:
                return v0
            return list(v0) + [("map", idx, lo, hi, tuple(rest))]
        if v1 and v1[-1] == ("mu", key, name) and not broke:
            return [("rmap", idx, lo, hi, tuple(v1[:-1]))] + list(v0)
        return [("rec", N.opaque("list-rec"), tuple(v0), tuple(v1))]

    def s_While(self, s, st):
        early = []
        r = self._while(s, st, early)
        return early + r

    def _while(self, s, st, early):
        # unroll if the condition is decided at once
        for _ in range(20):
            t = self.truth(self.ev(s.test, st), st)
            if t is N.FALSE:
                return self.exec_block(s.orelse, st)
            if t is not N.TRUE:
                break
            # a decided-true loop (while True) or concrete counter
            probe = st.fork()
            ex = self.exec_block(s.body, probe)
            if len(ex) == 1 and ex[0].kind == "break":
                return [Exit("normal", ex[0].st)]
            if len(ex) == 1 and ex[0].kind == "continue":
                st = ex[0].st
                continue
            if ex and all(e.kind in ("return", "raise") for e in ex):
                early += ex
                return []
            if any(e.kind in ("break", "continue") for e in ex) or not any(e.kind == "normal" for e in ex):
                break
            early += [e for e in ex if e.kind in ("return", "raise")]
            st = [e for e in ex if e.kind == "normal"][0].st
        pat = self.while_counter(s, st)
        if pat is not None:
            var, lo, hi = pat

            def bind(i, x):
                x.env[var] = Sc(i)

            def body(x):
                r = self.exec_block(s.body, x)
                return r
            r = self.sym_loop(st, lo, hi, bind, body, lambda x: [Exit("normal", x)], s)
            for e in r:
                if e.kind == "normal":
                    e.st.env[var] = Sc(hi)
            return r
        hi = N.mk("trip", attr=N.fresh_id())
        inner = [False]

        def body(x):
            c = self.truth(self.ev(s.test, x), x)

            def run(y):
                r = self.exec_block(s.body, y)
                inner[0] = inner[0] or any(e.kind == "break" for e in r)
                return r
            return self.branch(c, x, run, lambda y: [Exit("break", y)])

        def after(x):
            if not s.orelse:
                return [Exit("normal", x)]
            if inner[0]:
                return self.branch(N.opaque("while-else"), x, lambda y: self.exec_block(s.orelse, y), lambda y: [Exit("normal", y)])
            return self.exec_block(s.orelse, x)
        return self.sym_loop(st, N.const(0), hi, lambda i, x: None, body, after, None)

    def while_counter(self, s, st):
        """`while i < n: ...; i += 1` with invariant n and i otherwise unassigned -> (i, lo, hi)."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        var = t.left.id
        incs = 0
        assigned = set()
        for n in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, (ast.Continue, ast.Break)):
                return None
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                assigned.add(n.target.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == var:
                pass
        last = s.body[-1]
        ok = False
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == var \
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1:
            ok = True
        if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == var \
                and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) \
                and isinstance(last.value.left, ast.Name) and last.value.left.id == var \
                and isinstance(last.value.right, ast.Constant) and last.value.right.value == 1:
            ok = True
        if not ok:
            return None
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == var:
                    return None
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        used = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        if used & stored:
            return None
        v = st.env.get(var)
        if not isinstance(v, Sc):
            return None
        hi = self.node(st, self.ev(t.comparators[0], st))
        return var, v.node, hi

    # ---------------------------------------------------------------- expressions
    def ev(self, e, st):
        old = self.cur
        if hasattr(e, "lineno"):
            self.cur = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return Ext(N.opaque(type(e).__name__))
        v = m(e, st)
        self.cur = old
        return v

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return Sc(N.mk("ellipsis"))
        if isinstance(v, (bytes, complex)):
            return Ext(N.opaque("bytes"))
        return Sc(N.const(v), isinstance(v, float))

    def e_Name(self, e, st):
        fr = st.env.get("%cell:" + e.id)
        if fr is not None:
            v = st.heap[fr.addr].attrs.get(e.id)
            if v is not None:
                return self.resolve(v, st)
            return Ext(N.mk("unbound", attr=(self.stack[-1].qual, e.id)))
        if e.id in st.env:
            return self.resolve(st.env[e.id], st)
        if self.stack and e.id in local_names(self.stack[-1].node):
            # a local variable read before it is assigned (on this path)
            self.unbound_reads.add(e.id)
            return Ext(N.mk("unbound", attr=(self.stack[-1].qual, e.id)))
        return self.global_name(e.id, st)

    def global_name(self, name, st):
        if name in self.stubs:
            return self.lift(self.stubs[name], st)
        mod = self.stack[-1].module if self.stack else None
        f = self.stack[-1] if self.stack else None
        clos = getattr(f, "_closure", None)
        if clos and name in clos:
            return clos[name]
        if mod is not None:
            if (mod.dotted, name) in self.glob_writes and ("static", "g", mod.dotted, name) in st.ext:
                return self.resolve(st.ext[("static", "g", mod.dotted, name)], st)
            r = mod.lookup(name)
            if r is not None:
                return self.lift(r, st, mod, name)
        return Mod("builtins." + name)

    def lift(self, r, st, mod=None, name=None):
        if isinstance(r, Val):
            return r
        if isinstance(r, Stub):
            return StubCls(r)
        if isinstance(r, FuncInfo):
            return self.decorated(r, st) if r.decos and r.qual not in self.hooks else Fn(r)
        if isinstance(r, ClassInfo):
            if r.name in self.stubs:
                return self.lift(self.stubs[r.name], st)
            return Cls(r)
        if isinstance(r, ModuleInfo):
            return Mod("@" + r.dotted)
        if isinstance(r, External):
            last = r.path.rsplit(".", 1)[-1]
            if last in self.stubs:
                return self.lift(self.stubs[last], st)
            return Mod(r.path)
        if isinstance(r, tuple) and r[0] == "const":
            return self.static(st, ("g", mod.dotted, name), lambda t: self.eval_in_module(mod, r[1], t))
        return Ext(N.opaque("global"))

    def eval_in_module(self, mod, expr, st, cls=None):
        tmp = FuncInfo(ast.parse("def _m(): pass").body[0], mod)
        self.stack.append(tmp)
        env = st.env
        st.env = {}
        if cls is not None:
            # earlier names of the class body
            used = {n.id for n in ast.walk(expr) if isinstance(n, ast.Name)}
            for nm in used:
                m = cls.members.get(nm)
                if m is not None and m[0] == "const" and m[1] is not expr:
                    st.env[nm] = self.class_const(m, cls, nm, st)
                elif m is not None and m[0] == "func":
                    st.env[nm] = Fn(m[1])
        try:
            return self.ev(expr, st)
        finally:
            st.env = env
            self.stack.pop()

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                it = self.concrete_items(v, st)
                out.extend(it if it is not None else [Ext(N.opaque("star"))])
            else:
                out.append(self.ev(x, st))
        return Tup(out)

    def e_List(self, e, st):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.iter_parts(self.ev(x.value, st), st))
            else:
                parts.append(("e", self.ev(x, st)))
        return self.new_list(st, parts)

    def e_Set(self, e, st):
        return self.set_of(st, st.heap[self.e_List(e, st).addr].parts)

    def unzip(self, v, st):
        """zip(*rows): one list per position of the tuples in a list."""
        v = self.resolve(v, st)
        if not isinstance(v, Lst):
            return None

        def proj(parts, j):
            out = []
            for p in parts:
                if p[0] == "e":
                    t = self.resolve(p[1], st)
                    if not isinstance(t, Tup):
                        return None
                    widths.add(len(t.items))
                    if j is not None:
                        out.append(("e", t.items[j]))
                elif p[0] == "map":
                    sub = proj(p[4], j)
                    if sub is None:
                        return None
                    out.append(p[:4] + (tuple(sub),))
                else:
                    return None
            return out
        widths = set()
        parts = st.heap[v.addr].parts
        if proj(parts, None) is None or len(widths) != 1:
            return None
        return [self.new_list(st, proj(parts, j)) for j in range(widths.pop())]

    def iter_parts(self, v, st):
        v = self.resolve(v, st)
        items = self.concrete_items(v, st)
        if items is not None:
            return [("e", x) for x in items]
        if isinstance(v, Lst):
            return list(st.heap[v.addr].parts)
        sp = self.sym_space(v, st)
        if sp:
            lo, hi, el = sp
            key = ("iter", N.fresh_id())
            idx = N.mk("idx", attr=key)
            N.declare_atleast(idx, 0)
            return [("map", idx, lo, hi, (("e", el(idx, st)),))]
        return [("open", self.node(st, v))]

    def e_Dict(self, e, st):
        d = self.new_dict(st)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, st), st)
            else:
                kk = self.ev(k, st)
                self.dict_set(st.heap[d.addr], kk, self.ev(v, st))
        return d

    def e_JoinedStr(self, e, st):
        args, tmpl = [], []
        allconst = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                tmpl.append(("t", v.value))
            else:
                x = self.ev(v.value, st)
                n = self.node(st, x)
                spec = ""
                if v.format_spec is not None:
                    spec = "".join(p.value for p in v.format_spec.values if isinstance(p, ast.Constant))
                if n.op in ("str", "path") and not spec and fsmodel.text(n) is not None:
                    tmpl.append(("t", fsmodel.text(n)))
                elif n.op == "const" and n.attr.denominator == 1 and v.conversion == -1:
                    tmpl.append(("t", format(int(n.attr), spec)))
                else:
                    args.append(n)
                    tmpl.append(("v", spec))
        # join adjacent text
        out = []
        for t in tmpl:
            if t[0] == "t" and out and out[-1][0] == "t":
                out[-1] = ("t", out[-1][1] + t[1])
            else:
                out.append(t)
        if not args:
            return strv("".join(t[1] for t in out))
        return Sc(N.mk("fstr", *args, attr=tuple(out)))

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return Sc(N.not_(self.truth(v, st)))
        if isinstance(e.op, ast.USub):
            return self.wrap(st, N.neg(self.node(st, v)))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.wrap(st, N.not_(self.node(st, v)))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(a, Phi) and not self._numeric_phi(a):
            return self.cases(st, a, lambda s, v: self.binop(op, v, b, s))
        if isinstance(b, Phi) and not self._numeric_phi(b):
            return self.cases(st, b, lambda s, v: self.binop(op, a, v, s))
        if op in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, Lst) and isinstance(b, Lst):
            return self.set_op(op, a, b, st)
        if op == "BitOr" and isinstance(a, Dct) and isinstance(b, Dct):
            d = self.new_dict(st)
            self.dict_update(d, a, st)
            self.dict_update(d, b, st)
            return d
        if op == "Add":
            if isinstance(a, Lst) and isinstance(b, Lst):
                return self.new_list(st, list(st.heap[a.addr].parts) + list(st.heap[b.addr].parts))
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Sc) and isinstance(b, Sc):
                x, y = a.node, b.node
                if x.op == "str" and y.op == "str":
                    return strv(x.attr + y.attr)
                if x.op in ("str", "fstr") or y.op in ("str", "fstr"):
                    return Sc(strcat([x, y]))
        if op == "Mult":
            if isinstance(b, Lst):
                a, b = b, a
            if isinstance(a, Lst):
                n = self.node(st, b)
                parts = st.heap[a.addr].parts
                if n.op == "const":
                    return self.new_list(st, list(parts) * int(n.attr))
                if len(parts) == 1 and parts[0][0] == "e":
                    key = ("rep", N.fresh_id())
                    return self.new_list(st, [("map", N.mk("idx", attr=key), N.const(0), n, (parts[0],))])
        if op == "Mod" and isinstance(a, Sc) and a.node.op == "str":
            items = list(b.items) if isinstance(b, Tup) else [b]
            vals = []
            for x in items:
                n = self.node(st, x)
                if n.op == "str":
                    vals.append(n.attr)
                elif n.op == "const" and n.attr.denominator == 1 and not getattr(x, "fl", False):
                    vals.append(int(n.attr))
                else:
                    break
            if len(vals) == len(items) and a.node.op == "str":
                try:
                    return strv(a.node.attr % tuple(vals))
                except (TypeError, ValueError):
                    pass
            return Sc(N.mk("fmt", a.node, self.node(st, b)))
        if op == "Div" and isinstance(a, (Ext, Obj)) and isinstance(b, (Sc, Ext)) and self.node(st, a).op in ("path",):
            return fsmodel.mkpath([self.node(st, a), self.node(st, b)])
        n = self.binop_node(op, self.node(st, a), self.node(st, b), st)
        if isinstance(a, Ext) or isinstance(b, Ext):
            if N.shape_rank(n) == 0:
                return Sc(n)
            return Ext(n) if not isinstance(a, Arr) and not isinstance(b, Arr) else self.new_arr(st, n)
        if n.op == "const" and isinstance(a, Sc) and isinstance(b, Sc):
            return Sc(n, a.fl or b.fl or op == "Div")
        return self.wrap(st, n)

    def _numeric_phi(self, v):
        if isinstance(v, Phi):
            return self._numeric_phi(v.a) and self._numeric_phi(v.b)
        if isinstance(v, Sc):
            return v.node.op not in ("none", "str")
        return isinstance(v, (Arr, Ext))

    def binop_node(self, op, x, y, st):
        if op == "Add":
            return N.add(x, y)
        if op == "Sub":
            return N.sub(x, y)
        if op == "Mult":
            return N.mul(x, y)
        if op == "Div":
            return N.div(x, y)
        if op == "Pow":
            return N.power(x, y)
        if op == "FloorDiv":
            return N.floordiv(x, y)
        if op == "MatMult":
            return N.mk("matmul", x, y)
        if op == "BitAnd":
            return N.and_(x, y)
        if op == "BitOr":
            return N.or_(x, y)
        return N.mk(op.lower(), x, y)

    def e_BoolOp(self, e, st):
        return self.boolop(isinstance(e.op, ast.And), e.values, st)

    def boolop(self, is_and, vals, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        c = self.truth(v, st)
        if c is N.TRUE:
            return self.boolop(is_and, vals[1:], st) if is_and else v
        if c is N.FALSE:
            return v if is_and else self.boolop(is_and, vals[1:], st)
        # evaluate the rest under the short-circuit assumption
        s1 = st.fork()
        self.assume(s1, c, is_and)
        try:
            r = self.boolop(is_and, vals[1:], s1)
        except Dead:
            self.assume(st, c, not is_and)
            return v
        s2 = st.fork()
        self.assume(s2, c, not is_and)
        g = st.guards
        m = self.merge_state(c, s1, s2) if is_and else self.merge_state(c, s2, s1)
        m.guards = g
        st.take(m)
        if self._boolish(v) and self._boolish(r):
            rn = self.truth(r, st)
            return Sc(N.and_(c, rn) if is_and else N.or_(c, rn))
        return self.merge_val(c, r, v) if is_and else self.merge_val(c, v, r)

    def _boolish(self, v):
        return isinstance(v, Sc) and (v.node.op in ("bool", "cmp", "not", "and", "or", "isinst", "truth") or
                                      (v.node.op == "sym" and dict(v.node.attr[2]).get("bool")))

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            c = self.compare(type(op).__name__, left, right, st)
            res = c if res is None else Sc(N.and_(self.node(st, res), self.node(st, c)))
            left = right
        return res

    def compare(self, op, a, b, st):
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b, st)
            return Sc(r if op == "Is" else N.not_(r))
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st)
            return Sc(r if op == "In" else N.not_(r))
        sym = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        if isinstance(a, Phi) and not self._numeric_phi(a):
            return Sc(N.phi(a.cond, self.node(st, self.compare(op, a.a, b, st)), self.node(st, self.compare(op, a.b, b, st))))
        if isinstance(b, Phi) and not self._numeric_phi(b):
            return Sc(N.phi(b.cond, self.node(st, self.compare(op, a, b.a, st)), self.node(st, self.compare(op, a, b.b, st))))
        if isinstance(a, (Tup, Lst, Dct)) and isinstance(b, (Tup, Lst, Dct)):
            return Sc(self.compare_struct(sym, a, b, st))
        x, y = self.node(st, a), self.node(st, b)
        # comparing an array/object with a string or None constant is False
        if sym in ("==", "!=") and (y.op in ("str", "none") or x.op in ("str", "none")):
            o, k = (x, y) if y.op in ("str", "none") else (y, x)
            ov = a if o is x else b
            if isinstance(ov, (Arr, Obj, Lst, Dct)) or o.op in ("const", "add", "sub", "mul", "div", "idx", "size"):
                return Sc(N.const(sym == "!="))
            if o.op == "sym" and dict(o.attr[2]).get("num"):
                return Sc(N.const(sym == "!="))
        if sym in ("==", "!=") and N.shape_rank(x) == 0 and N.shape_rank(y) == 0 and x.op != "special" and y.op != "special":
            d = N.lin_sub(x, y)
            if not d:
                return Sc(N.const(sym == "=="))
            if N.lin_sign(d) in ("+", "-"):
                return Sc(N.const(sym != "=="))
        n = N.cmp(sym, x, y)
        rank = N.shape_rank(n)
        if n.op == "bool" or rank == 0 or (isinstance(a, Sc) and isinstance(b, Sc)):
            return Sc(n)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.new_arr(st, n)
        return Sc(n)

    def compare_struct(self, sym, a, b, st):
        """Comparison of lists, tuples, dictionaries and sets with one another (node)."""
        if sym == "!=":
            return N.not_(self.compare_struct("==", a, b, st))
        sa, sb = self.set_elems(a, st), self.set_elems(b, st)
        if sa is not None and sb is not None:
            x, y = set(sa), set(sb)
            return N.const({"==": x == y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[sym])
        kinds = [st.heap[v.addr].kind if isinstance(v, Lst) else None for v in (a, b)]
        if type(a) is not type(b) or kinds[0] != kinds[1]:
            return N.FALSE if sym == "==" else N.opaque("order")
        if "set" in kinds or "iter" in kinds:
            return N.opaque("seteq")
        if isinstance(a, Dct):
            pa, pb = st.heap[a.addr].parts, st.heap[b.addr].parts
            if sym != "==" or not all(p[0] == "kv" for p in pa + pb):
                return N.TRUE if a.addr == b.addr else N.opaque("dicteq")
            ka, kb = ({self._keyid(p[1]): p[2] for p in ps} for ps in (pa, pb))
            if None in ka or None in kb or not all(N.node_by_id(k).op in ("str", "const", "bool") for k in list(ka) + list(kb)):
                return N.opaque("dicteq")
            if set(ka) != set(kb):
                return N.FALSE
            pairs = [(ka[k], kb[k]) for k in ka]
        else:
            x, y = self.concrete_items(a, st), self.concrete_items(b, st)
            if x is None or y is None:
                if sym == "==" and isinstance(a, Lst) and a.addr == b.addr:
                    return N.TRUE
                nx, ny = self.node(st, a), self.node(st, b)
                return N.TRUE if sym in ("==", "<=", ">=") and nx is ny else N.mk("listcmp", nx, ny, attr=sym)
            if sym != "==":
                r = N.const({"<": len(x) < len(y), "<=": len(x) <= len(y), ">": len(x) > len(y), ">=": len(x) >= len(y)}[sym])
                strict = "Lt" if sym[0] == "<" else "Gt"
                for u, v in reversed(list(zip(x, y))):
                    e = self.truth(self.compare("Eq", u, v, st), st)
                    r = N.phi(e, r, self.truth(self.compare(strict, u, v, st), st))
                return r
            if len(x) != len(y):
                return N.FALSE
            pairs = list(zip(x, y))
        r = N.TRUE
        for u, v in pairs:
            u, v = self.resolve(u, st), self.resolve(v, st)
            if isinstance(u, Arr) and isinstance(v, Arr) and u.addr == v.addr and u.path == v.path:
                continue
            r = N.and_(r, self.truth(self.compare("Eq", u, v, st), st))
        return r

    def is_same(self, a, b, st):
        if isinstance(a, Phi):
            return N.phi(a.cond, self.is_same(self.resolve(a.a, st), b, st), self.is_same(self.resolve(a.b, st), b, st))
        if isinstance(b, Phi):
            return N.phi(b.cond, self.is_same(a, b.a, st), self.is_same(a, b.b, st))
        an = isinstance(a, Sc) and a.node.op == "none"
        bn = isinstance(b, Sc) and b.node.op == "none"
        if an and bn:
            return N.TRUE
        if an or bn:
            o = b if an else a
            if isinstance(o, Ext):
                return self.simp(N.mk("cmp", o.node, N.NONE, attr="is"), st)
            if isinstance(o, Sc):
                n = self.resolve_node(o.node, st)
                if n.op == "phi":
                    return self.simp(N.phi(n.args[0], self.is_same(Sc(n.args[1]), NONEV, st), self.is_same(Sc(n.args[2]), NONEV, st)), st)
                if n.op in ("mu", "rec", "opaque"):
                    return self.simp(N.mk("cmp", n, N.NONE, attr="is"), st)
                return N.const(n.op == "none")
            if isinstance(o, Arr) and self.content(st, o).op == "phi":
                return N.FALSE
            return N.FALSE
        if isinstance(a, Sc) and isinstance(b, Sc):
            return self.simp(N.cmp("is", a.node, b.node), st)
        if isinstance(a, (Obj, Lst, Dct)) and type(a) is type(b):
            return N.const(a.addr == b.addr)
        if isinstance(a, Cls) and isinstance(b, Cls):
            return N.const(a.info is b.info)
        return self.simp(N.cmp("is", self.node(st, a), self.node(st, b)), st)

    def contains(self, cont, x, st):
        cont = self.resolve(cont, st)
        if isinstance(cont, Phi):
            return N.phi(cont.cond, self.contains(cont.a, x, st), self.contains(cont.b, x, st))
        xn = self.node(st, x)
        if isinstance(cont, Sc) and cont.node.op == "str" and xn.op == "str":
            return N.const(xn.attr in cont.node.attr)
        if isinstance(cont, (Lst, Tup)):
            items = self.concrete_items(cont, st)
            if items is not None:
                r = N.FALSE
                for i in items:
                    r = N.or_(r, N.cmp("==", xn, self.node(st, i)))
                return self.simp(r, st)
        if isinstance(cont, Dct):
            cell = st.heap[cont.addr]
            return self.simp(self.dict_has(cell, xn), st)
        return self.simp(N.mk("cmp", xn, self.node(st, cont), attr="in"), st)

    def dict_has(self, cell, kn):
        r = N.FALSE
        for p in cell.parts:
            if p[0] == "kv":
                r = N.or_(r, N.cmp("==", p[1].node if isinstance(p[1], (Sc, Ext)) else N.opaque("k"), kn))
            elif p[0] == "if":
                a = self.dict_has(DctCell(p[2]), kn)
                b = self.dict_has(DctCell(p[3]), kn)
                r = N.or_(r, N.phi(p[1], a, b))
            else:
                r = N.or_(r, N.mk("haskey", kn, attr=("part", id(p))))
        return r

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st)
        if c is N.TRUE:
            return self.ev(e.body, st)
        if c is N.FALSE:
            return self.ev(e.orelse, st)
        g = st.guards
        s1, s2 = st.fork(), st.fork()
        self.assume(s1, c, True)
        self.assume(s2, c, False)
        v1 = v2 = None
        try:
            v1 = self.ev(e.body, s1)
        except Dead:
            pass
        try:
            v2 = self.ev(e.orelse, s2)
        except Dead:
            pass
        if v1 is None and v2 is None:
            raise Dead()
        if v1 is None or v2 is None:
            st.take(s1 if v1 is not None else s2)
            return v1 if v1 is not None else v2
        m = self.merge_state(c, s1, s2)
        m.guards = g
        st.take(m)
        return self.merge_val(c, v1, v2)

    def e_Lambda(self, e, st):
        return Lam(e, dict(st.env), self.stack[-1].module if self.stack else None, self.nested_defaults(e, st))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.set_name(e.target.id, v, st)
        return v

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_ListComp(self, e, st):
        return self.comprehension(e, st, "list")

    def e_GeneratorExp(self, e, st):
        r = self.comprehension(e, st, "list")
        if isinstance(r, Lst):
            st.heap[r.addr].kind = "iter"
        return r

    def e_SetComp(self, e, st):
        return self.set_of(st, st.heap[self.comprehension(e, st, "list").addr].parts)

    def e_DictComp(self, e, st):
        return self.comprehension(e, st, "dict")

    def comprehension(self, e, st, kind):
        saved = dict(st.env)
        bound = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        keep = {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}
        for n in bound:
            st.env.pop("%cell:" + n, None)
        caught = bound & {n.id for f in ast.walk(e) if isinstance(f, ast.Lambda) for n in ast.walk(f.body) if isinstance(n, ast.Name)}
        if caught:
            self.new_frame(st, caught, st.env)
        acc = self.new_list(st, []) if kind == "list" else self.new_dict(st)

        def gen(k, x):
            if k == len(e.generators):
                if kind == "list":
                    v = self.ev(e.elt, x)
                    x.heap[acc.addr].parts.append(("e", v))
                else:
                    kk = self.ev(e.key, x)
                    self.dict_set(x.heap[acc.addr], kk, self.ev(e.value, x))
                return [Exit("normal", x)]
            g = e.generators[k]
            it = self.resolve(self.ev(g.iter, x), x)

            def body(y):
                if g.ifs:
                    c = N.TRUE
                    for t in g.ifs:
                        c = N.and_(c, self.truth(self.ev(t, y), y))
                    return self.branch(c, y, lambda z: gen(k + 1, z), lambda z: [Exit("normal", z)])
                return gen(k + 1, y)
            return self.for_over(it, x, lambda v, y: self.assign(g.target, v, y), body,
                                 lambda y: [Exit("normal", y)], e)
        r = gen(0, st)
        nrm = [x for x in r if x.kind == "normal"]
        if not nrm:
            raise Dead([x for x in r])
        if nrm[0].st is not st:
            st.take(nrm[0].st)
        saved.update({k: st.env[k] for k in keep if k in st.env})
        st.env = saved
        return acc

    # ---------------------------------------------------------------- attributes
    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st)

    def getattr(self, v, name, st):
        v = self.resolve(v, st)
        if isinstance(v, Phi):
            return self.cases(st, v, lambda s, x: self.getattr(x, name, s))
        if isinstance(v, Obj):
            return self.obj_getattr(v, name, st)
        if isinstance(v, Sup):
            cell = st.heap[v.self.addr]
            cls = cell.cls
            m, owner = self.find_after(cls, v.after, name)
            if m is None:
                if name == "__init__":
                    return Meth(v.self, "__object_init__")
                return Ext(N.opaque("super." + name))
            return self.member(m, v.self, st, owner)
        if isinstance(v, Mod):
            if v.path.startswith("@"):
                if ("static", "g", v.path[1:], name) in st.ext:
                    return self.resolve(st.ext[("static", "g", v.path[1:], name)], st)
                r = self.prog.modules[v.path[1:]].lookup(name)
                if r is None:
                    sub = v.path[1:] + "." + name
                    if sub in self.prog.modules:
                        return Mod("@" + sub)
                    return Ext(N.opaque("modattr"))
                return self.lift(r, st, self.prog.modules[v.path[1:]], name)
            return self.mod_attr(v.path + "." + name, st)
        if isinstance(v, Cls):
            w = self.cls_override(v.info, name, st)
            if w is not None:
                return w
            m, owner = v.info.find(name)
            if m is None:
                if name == "__name__":
                    return strv(v.info.name)
                return Ext(N.mk("attr", N.mk("class", attr=v.info.name), attr=name))
            if m[0] == "func":
                f = m[1]
                if f.decos and f.qual not in self.hooks:
                    d = self.decorated(f, st)
                    return Part(d, [v]) if f.kind == "classmethod" else d
                if f.kind == "classmethod":
                    return Bound(v, f)
                return Fn(f)
            if m[0] == "const":
                return self.class_const(m, owner, name, st)
            return Ext(N.opaque("prop"))
        if isinstance(v, (Arr, Sc)):
            return self.arr_attr(v, name, st)
        if isinstance(v, Ext):
            k = (v.node.id, name)
            if k in st.ext:
                return st.ext[k]
            if v.node.op == "path":
                r = fsmodel.path_attr(self, v, name, st)
                if r is not None:
                    return r
            return Meth(v, name)
        if isinstance(v, StubCls):
            h = v.stub.props.get("cls." + name)
            if h:
                return h(self, st, v)
            return Meth(v, name)
        return Meth(v, name)

    def class_const(self, m, owner, name, st):
        return self.static(st, ("c", owner.module.dotted, owner.name, name), lambda t: self.eval_in_module(owner.module, m[1], t, owner))

    def cls_override(self, info, name, st):
        """Value assigned to a class attribute at run time, if any."""
        if name not in self.cls_writes:
            return None
        for c in info.mro():
            k = ("static", "c", c.module.dotted, c.name, name)
            if k in st.ext:
                return self.resolve(st.ext[k], st)
            c.build()
            if name in c.members:
                return None
        return None

    def find_after(self, cls, after, name):
        if isinstance(cls, Stub):
            return None, None
        mro = cls.mro()
        k = mro.index(after) + 1 if after in mro else 1
        for c in mro[k:]:
            c.build()
            if name in c.members:
                return c.members[name], c
        return None, None

    def obj_getattr(self, v, name, st):
        cell = st.heap[v.addr]
        cls = cell.cls
        if isinstance(cls, Stub):
            if name in cell.attrs:
                return self.resolve(cell.attrs[name], st)
            if name in cls.props:
                return cls.props[name](self, st, v)
            return Meth(v, name)
        m, owner = cls.find(name)
        if m is not None and m[0] == "prop":
            if m[1] is not None and m[1].cached:
                return self.cached_get(m, v, name, st, owner)
            return self.member(m, v, st, owner)
        if name in cell.attrs:
            self.field_reads.add((cls.name, name))
            return self.resolve(cell.attrs[name], st)
        if name == "__dict__":
            return Meth(v, "__dict__")
        if name == "__class__":
            return Cls(cls)
        w = self.cls_override(cls, name, st)
        if w is not None:
            return w
        if m is not None:
            return self.member(m, v, st, owner, name)
        g, gowner = cls.find("__getattr__")
        if g is not None:
            return self.call_func(g[1], [v, strv(name)], {}, st)
        self.diags.append(dict(kind="missing-attribute", site=self.site(), cls=cls.name, name=name, guards=st.guards))
        return Ext(N.mk("missing", attr=(cls.name, name)))

    def cached_get(self, m, v, name, st, owner):
        """functools.cached_property: the first value stays in the instance."""
        def put(s):
            val = self.member(m, v, s, owner)
            s.heap[v.addr].attrs[name] = val
            return val
        if name not in st.heap[v.addr].attrs:
            return put(st)
        return self.cases(st, st.heap[v.addr].attrs[name],
                          lambda s, x: put(s) if isinstance(x, Ext) and x.node.op == "unset" else x)

    def member(self, m, selfv, st, owner, name=None):
        if m[0] == "prop":
            if m[1] is None:
                return Ext(N.opaque("noget"))
            if m[1].decos:
                return self.call(self.decorated(m[1], st), [selfv], {}, st)
            return self.call_func(m[1], [selfv], {}, st)
        if m[0] == "func":
            f = m[1]
            if f.decos and f.qual not in self.hooks:
                d = self.decorated(f, st)
                if f.kind == "staticmethod":
                    return d
                return Part(d, [Cls(st.heap[selfv.addr].cls) if f.kind == "classmethod" else selfv])
            if f.kind == "staticmethod":
                return Fn(f)
            if f.kind == "classmethod":
                return Bound(Cls(st.heap[selfv.addr].cls), f)
            return Bound(selfv, f)
        return self.class_const(m, owner, name, st)

    def setattr(self, v, name, val, st):
        v = self.resolve(v, st)
        if isinstance(v, Phi):
            self.cases(st, v, lambda s, x: (self.setattr(x, name, val, s), NONEV)[1])
            return
        if isinstance(v, Obj):
            cell = st.heap[v.addr]
            if not isinstance(cell.cls, Stub):
                m, owner = cell.cls.find(name)
                if m is not None and m[0] == "prop" and not (m[1] is not None and m[1].cached):
                    if m[2] is None:
                        self.diags.append(dict(kind="no-setter", site=self.site(), cls=cell.cls.name, name=name, guards=st.guards))
                        self.raises.append(dict(exc="AttributeError", site=self.site(), guards=st.guards,
                                                func=self.stack[-1].qual if self.stack else "", loops=tuple(self.loops)))
                        raise Dead()
                    self.call_func(m[2], [v, val], {}, st)
                    return
                if name not in cell.attrs and self.stack and self.stack[-1].name != "__init__":
                    self.diags.append(dict(kind="new-attribute", site=self.site(), cls=cell.cls.name, name=name, guards=st.guards))
            else:
                h = cell.cls.props.get("set." + name)
                if h:
                    h(self, st, v, val)
                    return
            self.effect("attr-write", st, v.addr, name, val=val)
            st.heap[v.addr].attrs[name] = val
            return
        if isinstance(v, Ext):
            self.events.append(dict(name="setattr." + name, recv=v.node, args=[val], kwargs={}, node=None,
                                    argnodes=[self.node(st, val)], site=self.site(), guards=st.guards, loops=tuple(self.loops)))
            st.ext[(v.node.id, name)] = val
            N.node_by_id(v.node.id)
            return
        if isinstance(v, Arr) and name == "shape":
            return
        if isinstance(v, Cls):
            self.cls_writes.add(name)
            k = ("c", v.info.module.dotted, v.info.name, name)
            if v.info.find(name)[0] is not None and v.info.find(name)[0][0] == "const":
                self.getattr(v, name, st)
            self.static_set(st, k, val)
            self.statics.setdefault(("static",) + k, (val, {}))
            return
        if isinstance(v, Mod) and v.path.startswith("@"):
            self.glob_writes.add((v.path[1:], name))
            self.getattr(v, name, st)
            self.static_set(st, ("g", v.path[1:], name), val)
            self.statics.setdefault(("static", "g", v.path[1:], name), (val, {}))
            return
        if isinstance(v, Sup):
            m, owner = self.find_after(st.heap[v.self.addr].cls, v.after, name)
            if m is not None and m[0] == "prop" and m[2] is not None:
                self.call_func(m[2], [v.self, val], {}, st)
            return

    # ---------------------------------------------------------------- subscripts
    def e_Subscript(self, e, st):
        v = self.ev(e.value, st)
        idx = self.ev_index(e.slice, st)
        return self.getitem(v, idx, st)

    def ev_index(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: self.ev(x, st) if x is not None else NONEV
            return Slc(f(e.lower), f(e.upper), f(e.step))
        if isinstance(e, ast.Tuple):
            return Tup([self.ev_index(x, st) for x in e.elts])
        return self.ev(e, st)

    def e_Slice(self, e, st):
        return self.ev_index(e, st)

    def encode_index(self, idx, st, base_node=None):
        """-> (attr string, args tuple)."""
        items = idx.items if isinstance(idx, Tup) else (idx,)
        attr, args = "", []
        sh = N.shape_of(base_node) if base_node is not None else None
        ax = 0
        for it in items:
            it = self.resolve(it, st)
            axlen = sh[ax] if sh is not None and ax < len(sh) else None
            if isinstance(it, Slc):
                lo, hi, sp = (self.node(st, x) for x in (it.lo, it.hi, it.step))
                if sp.op == "none" or N.is_const(sp, 1):
                    attr += "s"
                    lo = N._norm_bound(lo, axlen, N.NONE) or lo
                    hi = N._norm_bound(hi, axlen, N.NONE) or hi
                    if N.is_const(lo, 0):
                        lo = N.NONE
                    if axlen is not None and hi is not N.NONE and N.same_size(hi, axlen):
                        hi = N.NONE
                    args += [lo, hi]
                else:
                    attr += "S"
                    args += [lo, hi, sp]
            else:
                n = self.node(st, it)
                if n.op == "none":
                    attr += "n"
                    continue
                if n.op == "ellipsis":
                    attr += "e"
                    if sh is not None:
                        ax = len(sh) - (len(items) - 1)
                    continue
                if isinstance(it, Sc) or N.shape_rank(n) == 0:
                    attr += "p"
                    n = N._norm_bound(n, axlen, None) or n
                    args.append(n)
                elif isinstance(it, Ext) and n.op in ("index",) and n.attr == "p":
                    attr += "p"
                    args.append(n)
                elif n.op == "arange":
                    attr += "a"
                    args.append(n)
                else:
                    attr += "a"
                    args.append(n)
            ax += 1
        # drop trailing full slices
        while attr.endswith("s") and len(attr) > 1 and args[-1] is N.NONE and args[-2] is N.NONE:
            attr, args = attr[:-1], args[:-2]
        return attr, tuple(args)

    def getitem(self, v, idx, st):
        v = self.resolve(v, st)
        if isinstance(v, Phi):
            return self.cases(st, v, lambda s, x: self.getitem(x, idx, s))
        idx = self.resolve(idx, st)
        if isinstance(v, (Lst, Tup)):
            return self.seq_getitem(v, idx, st)
        if isinstance(v, Dct):
            return self.dict_get(v, idx, st)
        if isinstance(v, Mod) and v.path in ("numpy.r_", "numpy.c_"):
            from . import npmodel
            its = list(idx.items) if isinstance(idx, Tup) else [idx]
            if any(isinstance(x, Slc) for x in its) or any(isinstance(x, Sc) and x.node.op == "str" for x in its):
                return self.new_arr(st, N.opaque("r_"))
            if v.path == "numpy.r_":
                return npmodel.call(self, "numpy.concatenate", [Tup([npmodel.call(self, "numpy.atleast_1d", [x], {}, st) for x in its])], {}, st)
            return npmodel.call(self, "numpy.column_stack", [Tup(its)], {}, st)
        if isinstance(v, Meth) and v.name == "__dict__":
            n = self.node(st, idx)
            if n.op == "str":
                c = st.heap[v.self.addr]
                if n.attr in c.attrs:
                    return self.resolve(c.attrs[n.attr], st)
            return Ext(N.mk("dynattr", N.mk("obj", attr=v.self.addr), n))
        if isinstance(v, Arr):
            base = self.content(st, v)
            attr, args = self.encode_index(idx, st, base)
            n = index_node(base, attr, args)
            rank = N.shape_rank(n)
            if rank == 0:
                return Sc(n)
            if "a" in attr:
                return self.new_arr(st, n)
            return Arr(v.addr, v.path + (("index", attr, args),))
        if isinstance(v, Ext):
            attr, args = self.encode_index(idx, st)
            return Ext(N.mk("index", v.node, *args, attr=attr))
        if isinstance(v, Sc):
            if v.node.op == "str" and isinstance(idx, Slc):
                lo, hi = N.cval(self.node(st, idx.lo)), N.cval(self.node(st, idx.hi))
                lo = None if lo is None else int(lo)
                hi = None if hi is None else int(hi)
                return strv(v.node.attr[lo:hi])
            attr, args = self.encode_index(idx, st)
            n = N.mk("index", v.node, *args, attr=attr)
            return Sc(n) if "s" not in attr else Ext(n)
        if isinstance(v, Rng):
            n = self.node(st, idx)
            return Sc(N.add(v.lo, N.mul(n, v.step)))
        if isinstance(v, Obj):
            c = st.heap[v.addr]
            if not isinstance(c.cls, Stub):
                m, owner = c.cls.find("__getitem__")
                if m is not None:
                    return self.call_func(m[1], [v, idx], {}, st)
            elif "__getitem__" in c.cls.methods:
                return c.cls.methods["__getitem__"](self, st, v, [idx], {})
        attr, args = self.encode_index(idx, st)
        return Ext(N.mk("index", self.node(st, v), *args, attr=attr))

    def seq_getitem(self, v, idx, st):
        if isinstance(v, Tup):
            if isinstance(idx, Slc):
                lo, hi = N.cval(self.node(st, idx.lo)), N.cval(self.node(st, idx.hi))
                return Tup(v.items[None if lo is None else int(lo): None if hi is None else int(hi)])
            k = N.cval(self.node(st, idx))
            if k is not None and -len(v.items) <= k < len(v.items):
                return v.items[int(k)]
            return Ext(N.mk("index", self.node(st, v), self.node(st, idx), attr="p"))
        parts = st.heap[v.addr].parts
        if isinstance(idx, Slc):
            lo, hi, sp = (self.node(st, x) for x in (idx.lo, idx.hi, idx.step))
            if all(p[0] == "e" for p in parts):
                l, h, s_ = N.cval(lo), N.cval(hi), N.cval(sp)
                if (l is not None or lo is N.NONE) and (h is not None or hi is N.NONE) and (s_ is not None or sp is N.NONE):
                    g = lambda x: None if x is None else int(x)
                    return self.new_list(st, parts[g(l):g(h):g(s_)])
            if len(parts) == 1 and parts[0][0] in ("map", "sym") and (sp is N.NONE or N.is_const(sp, 1)):
                L = self.parts_len(parts, st)
                lo2 = N._norm_bound(lo, L, N.const(0))
                hi2 = N._norm_bound(hi, L, L)
                if lo2 is not None and hi2 is not None and (parts[0][0] == "sym" or len(parts[0][4]) == 1 and parts[0][4][0][0] == "e"):
                    if not (hi is N.NONE or N.is_const(hi) or N.same_size(hi2, L)):
                        hi2 = N.phi(N.cmp("<", hi2, L), hi2, L)
                    if N.is_const(lo2, 0) and N.same_size(hi2, L):
                        return self.new_list(st, list(parts))
                    if hi2 is L or N.cval(hi2) is None or N.cval(hi) is not None and N.cval(hi) < 0:
                        key = ("iter", N.fresh_id())
                        ix = N.mk("idx", attr=key)
                        N.declare_atleast(ix, 0)
                        el = self.seq_getitem(v, Sc(N.add(ix, lo2)), st)
                        return self.new_list(st, [("map", ix, N.const(0), N.sub(hi2, lo2), (("e", el),))])
            return self.new_list(st, [("open", N.mk("index", self.node(st, v), lo, hi, attr="s"))])
        n = self.node(st, idx)
        k = N.cval(n)
        if k is not None and all(p[0] == "e" for p in parts):
            if -len(parts) <= k < len(parts):
                return self.resolve(parts[int(k)][1], st)
        if k is not None and k >= 0 and len(parts) > k and all(p[0] == "e" for p in parts[: int(k) + 1]):
            return self.resolve(parts[int(k)][1], st)
        if k is not None and k < 0 and len(parts) >= -k and all(p[0] == "e" for p in parts[int(k):]):
            return self.resolve(parts[int(k)][1], st)
        if len(parts) == 1:
            p = parts[0]
            if p[0] == "map" and len(p[4]) == 1 and p[4][0][0] == "e":
                k2 = n
                if k is not None and k < 0:
                    k2 = N.add(N.sub(p[3], p[2]), n)
                m = {p[1].id: N.add(k2, p[2])}
                return self.subst_val(p[4][0][1], m, st)
            if p[0] == "sym":
                return p[3](self, st, n)
        if parts and all(p[0] == "e" for p in parts):
            # symbolic index into a literal list: join of the elements
            r = parts[0][1]
            for i, p in enumerate(parts[1:], 1):
                r = self.merge_val(N.cmp("==", n, N.const(i)), p[1], r)
            return r
        return Ext(N.mk("index", self.node(st, v), n, attr="p"))

    def subst_val(self, v, m, st):
        if isinstance(v, Sc):
            return Sc(N.subst(v.node, m))
        if isinstance(v, Ext):
            return Ext(N.subst(v.node, m))
        if isinstance(v, Arr):
            return self.new_arr(st, N.subst(self.content(st, v), m), st.heap[v.addr].origin, (v.addr,))
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, m, st) for x in v.items])
        if isinstance(v, Phi):
            return self.merge_val(N.subst(v.cond, m), self.subst_val(v.a, m, st), self.subst_val(v.b, m, st))
        if isinstance(v, Lst):
            c = st.heap[v.addr]
            return self.new_list(st, [self.subst_part(p, m, st) for p in c.parts])
        if isinstance(v, Dct):
            c = st.heap[v.addr]
            a = self._addr()
            st.heap[a] = DctCell([self.subst_part(p, m, st) for p in c.parts])
            return Dct(a)
        if isinstance(v, Obj):
            c = st.heap[v.addr]
            if c.ident is not None:
                ident = N.subst(c.ident, m)
                if ident is c.ident:
                    return v
                return self.new_obj(st, c.cls, {k: self.subst_val(x, m, st) for k, x in c.attrs.items()}, c.origin, ident)
        return v

    def subst_part(self, p, m, st):
        if p[0] == "e":
            return ("e", self.subst_val(p[1], m, st))
        if p[0] == "kv":
            return ("kv", self.subst_val(p[1], m, st), self.subst_val(p[2], m, st))
        if p[0] == "if":
            return ("if", N.subst(p[1], m), tuple(self.subst_part(x, m, st) for x in p[2]), tuple(self.subst_part(x, m, st) for x in p[3]))
        if p[0] == "map":
            return ("map", p[1], N.subst(p[2], m), N.subst(p[3], m), tuple(self.subst_part(x, m, st) for x in p[4]))
        return p

    def dict_get(self, d, key, st, default=None):
        kn = self.node(st, key)
        return self.parts_get(st.heap[d.addr].parts, kn, st, default, d)

    def parts_get(self, parts, kn, st, default, d):
        res = None
        for i in range(len(parts) - 1, -1, -1):
            p = parts[i]
            if p[0] == "kv":
                pk = p[1].node if isinstance(p[1], (Sc, Ext)) else self.node(st, p[1])
                c = N.cmp("==", pk, kn)
                if c is N.TRUE:
                    return self.resolve(p[2], st)
                if c is N.FALSE or self.keys_differ(pk, kn):
                    continue
                rest = self.parts_get(parts[:i], kn, st, default, d)
                return self.merge_val(c, p[2], rest)
            if p[0] == "if":
                a = self.parts_get(list(parts[:i]) + list(p[2]), kn, st, default, d)
                b = self.parts_get(list(parts[:i]) + list(p[3]), kn, st, default, d)
                return self.merge_val(self.simp(p[1], st), a, b)
            if p[0] in ("map",):
                # keys of a symbolic loop: match by unifying the template
                _, idx, lo, hi, sub = p
                for q in reversed(sub):
                    if q[0] == "kv":
                        pk = self.node(st, q[1])
                        m = unify_idx(pk, kn, idx)
                        if m is not None:
                            return self.subst_val(q[2], {idx.id: m}, st)
                        if not self.keys_differ(pk, kn):
                            return Ext(N.mk("lookup", self.node(st, d), kn))
                    elif self.part_may_hold(q, kn, st):
                        return Ext(N.mk("lookup", self.node(st, d), kn))
                continue
            return Ext(N.mk("lookup", self.node(st, d), kn))
        if default is not None:
            return default
        return Ext(N.mk("missingkey", kn))

    def part_may_hold(self, p, kn, st):
        if p[0] == "kv":
            return not self.keys_differ(self.node(st, p[1]), kn)
        if p[0] == "if":
            return any(self.part_may_hold(x, kn, st) for x in list(p[2]) + list(p[3]))
        if p[0] == "map":
            return any(self.part_may_hold(x, kn, st) for x in p[4])
        return True

    def keys_differ(self, a, b):
        """Statically distinct string keys (templates with different fixed text)."""
        if a.op in ("str", "const", "none") and b.op in ("str", "const", "none"):
            return a is not b
        ta, tb = key_template(a), key_template(b)
        if ta is None or tb is None:
            return False
        return not templates_unify(ta, tb)

    def dict_set(self, cell, key, val):
        for i, p in enumerate(cell.parts):
            if p[0] == "kv" and (p[1] is key or (isinstance(p[1], (Sc, Ext)) and isinstance(key, (Sc, Ext)) and p[1].node is key.node)):
                # only safe to overwrite in place when nothing after it may be the same key
                cell.parts[i] = ("kv", p[1], val)
                return
        cell.parts.append(("kv", key, val))

    def dict_update(self, d, o, st):
        o = self.resolve(o, st)
        if isinstance(o, Dct):
            for p in st.heap[o.addr].parts:
                if p[0] == "kv":
                    self.dict_set(st.heap[d.addr], p[1], p[2])
                else:
                    st.heap[d.addr].parts.append(p)
        elif isinstance(o, Meth) and o.name == "__dict__":
            for k, v in st.heap[o.self.addr].attrs.items():
                self.dict_set(st.heap[d.addr], strv(k), v)
        else:
            st.heap[d.addr].parts.append(("open", self.node(st, o)))

    def setitem(self, v, idx, val, st):
        v = self.resolve(v, st)
        if isinstance(v, Phi):
            self.cases(st, v, lambda s, x: (self.setitem(x, idx, val, s), NONEV)[1])
            return
        idx = self.resolve(idx, st)
        if isinstance(v, Arr):
            cell = st.heap[v.addr]
            base = self.content(st, v)
            attr, args = self.encode_index(idx, st, base)
            vn = self.node(st, val)
            new = store_node(base, attr, args, to_int_node(vn) if cell.dt == "i" else vn)
            self.effect("array-write", st, v.addr, None, val=self.node(st, val), written=(attr, args))
            cell.node = self.write_path(cell.node, v.path, new)
            return
        if isinstance(v, Lst):
            self.effect("list-write", st, v.addr)
            cell = st.heap[v.addr]
            k = N.cval(self.node(st, idx)) if not isinstance(idx, Slc) else None
            if k is not None and all(p[0] == "e" for p in cell.parts) and -len(cell.parts) <= k < len(cell.parts):
                cell.parts[int(k)] = ("e", val)
            elif isinstance(idx, Slc) and isinstance(val, (Lst, Tup)):
                lo, hi, sp = (self.node(st, x) for x in (idx.lo, idx.hi, idx.step))
                new = self.iter_parts(val, st)
                if all(p[0] == "e" for p in list(cell.parts) + new) and all(x is N.NONE or N.cval(x) is not None for x in (lo, hi)) \
                        and (sp is N.NONE or N.is_const(sp, 1)):
                    ps = list(cell.parts)
                    ps[None if lo is N.NONE else int(lo.attr):None if hi is N.NONE else int(hi.attr)] = new
                    cell.parts = ps
                elif lo is N.NONE and hi is N.NONE and sp is N.NONE:
                    cell.parts = new
                else:
                    cell.parts = [("open", N.opaque("slice-assignment"))]
            else:
                cell.parts = [("open", N.mk("store", self.node(st, v), self.node(st, idx), self.node(st, val), attr="p"))]
            return
        if isinstance(v, Dct):
            self.effect("dict-write", st, v.addr, None, val=val)
            self.dict_set(st.heap[v.addr], idx, val)
            return
        if isinstance(v, Meth) and v.name == "__dict__":
            n = self.node(st, idx)
            if n.op == "str":
                self.effect("attr-write", st, v.self.addr, n.attr, val=val)
                st.heap[v.self.addr].attrs[n.attr] = val
            return
        if isinstance(v, Ext):
            self.events.append(dict(name="setitem", recv=v.node, args=[idx, val], kwargs={}, node=None,
                                    argnodes=[self.node(st, idx), self.node(st, val)],
                                    site=self.site(), guards=st.guards, loops=tuple(self.loops)))
            return
        if isinstance(v, Obj):
            c = st.heap[v.addr]
            if not isinstance(c.cls, Stub):
                m, owner = c.cls.find("__setitem__")
                if m is not None:
                    self.call_func(m[1], [v, idx, val], {}, st)

    def delitem(self, v, idx, st):
        v = self.resolve(v, st)
        if isinstance(v, (Lst, Dct)):
            self.effect("del-item", st, v.addr)
            cell = st.heap[v.addr]
            kn = self.node(st, idx) if not isinstance(idx, Slc) else N.NONE
            if isinstance(v, Dct):
                cell.parts = [p for p in cell.parts if not (p[0] == "kv" and self.node(st, p[1]) is kn)]
            else:
                k = N.cval(kn)
                if k is not None and all(p[0] == "e" for p in cell.parts):
                    del cell.parts[int(k)]
                else:
                    cell.parts = [("open", N.opaque("del"))]

    # ---------------------------------------------------------------- lengths
    def length(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, Tup):
            return N.const(len(v.items))
        if isinstance(v, (Lst, Dct)):
            return self.parts_len(st.heap[v.addr].parts, st)
        if isinstance(v, Rng):
            return N.sub(v.hi, v.lo)
        if isinstance(v, Phi):
            return N.phi(v.cond, self.length(v.a, st), self.length(v.b, st))
        n = self.node(st, v)
        return self.dim(n, 0)

    def parts_len(self, parts, st):
        tot = N.const(0)
        for p in parts:
            if p[0] in ("e", "kv"):
                tot = N.add(tot, N.const(1))
            elif p[0] in ("map", "rmap"):
                inner = self.parts_len(p[4], st)
                if N.is_const(inner, 1):
                    tot = N.add(tot, N.sub(p[3], p[2]))
                elif p[1].id not in N.leaves(inner):
                    tot = N.add(tot, N.mul(inner, N.sub(p[3], p[2])))
                else:
                    tot = N.add(tot, N.mk("sumloop", inner, p[2], p[3], attr=p[1].attr))
            elif p[0] == "if":
                tot = N.add(tot, N.phi(p[1], self.parts_len(p[2], st), self.parts_len(p[3], st)))
            elif p[0] == "sym":
                tot = N.add(tot, p[2])
            elif p[0] == "mu":
                tot = N.add(tot, N.mk("mulen", attr=(p[1], p[2])))
            else:
                tot = N.add(tot, N.mk("size", p[1] if isinstance(p[1], N.Node) else N.opaque("len"), attr=0))
        return tot

    def dim(self, n, ax):
        if n.op == "str":
            return N.const(len(n.attr))
        s = N.shape_of(n)
        if s is not None and -len(s) <= ax < len(s):
            return s[ax]
        return N.mk("size", n, attr=ax)

    def size(self, n):
        s = N.shape_of(n)
        if s is None:
            return N.mk("size", n, attr="all")
        tot = N.const(1)
        for d in s:
            tot = N.mul(tot, d)
        return tot

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            f = self.stack[-1]
            if e.args:
                c = self.ev(e.args[0], st)
                o = self.ev(e.args[1], st)
                return Sup(o, c.info) if isinstance(o, Obj) else Ext(N.opaque("super"))
            fn = f.node
            a = fn.args.posonlyargs + fn.args.args
            o = self.resolve(st.env.get(a[0].arg), st) if a else None
            if isinstance(o, Obj):
                return Sup(o, f.cls)
            if isinstance(o, Cls):
                return Sup(o, f.cls)
            return Ext(N.opaque("super"))
        fv = self.ev(e.func, st)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                it = self.concrete_items(v, st)
                if it is None and isinstance(e.func, ast.Name) and e.func.id == "zip" and len(e.args) == 1:
                    cols = self.unzip(v, st)
                    if cols is not None:
                        return self.list_of(st, cols)
                if it is None:
                    args.append(Ext(N.opaque("star")))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                v = self.resolve(v, st)
                if isinstance(v, Dct):
                    for p in st.heap[v.addr].parts:
                        if p[0] == "kv" and isinstance(p[1], Sc) and p[1].node.op == "str":
                            kwargs[p[1].node.attr] = p[2]
                        else:
                            kwargs.setdefault("**", []).append(p)
                else:
                    kwargs.setdefault("**", []).append(("open", self.node(st, v)))
            else:
                kwargs[k.arg] = v
        self.cur = e
        self.callsites += 1
        return self.call(fv, args, kwargs, st)

    def call(self, fv, args, kwargs, st):
        fv = self.resolve(fv, st)
        if isinstance(fv, Phi):
            return self.cases(st, fv, lambda s, f: self.call(f, args, kwargs, s))
        if isinstance(fv, Fn):
            return self.call_func(fv.info, args, kwargs, st, fv.closure, fv.defaults)
        if isinstance(fv, Bound):
            return self.call_func(fv.info, [fv.self] + args, kwargs, st)
        if isinstance(fv, Cls):
            return self.construct(fv.info, args, kwargs, st)
        if isinstance(fv, Lam):
            a = fv.node.args
            env = dict(fv.env)
            given = {}
            for p, v in zip(a.args, args):
                given[p.arg] = v
            for p in a.args + a.kwonlyargs:
                if p.arg in kwargs:
                    given[p.arg] = kwargs[p.arg]
                elif p.arg not in given and p.arg in fv.defaults:
                    given[p.arg] = fv.defaults[p.arg]
            if a.vararg:
                given[a.vararg.arg] = Tup(args[len(a.args):])
            for k in given:
                env.pop("%cell:" + k, None)
            env.update(given)
            saved = st.env
            st.env = env
            try:
                return self.ev(fv.node.body, st)
            finally:
                st.env = saved
        if isinstance(fv, Part):
            return self.call(fv.fn, list(fv.args) + list(args), {**fv.kwargs, **kwargs}, st)
        if isinstance(fv, Memo):
            k = ("memo", fv.key, tuple(self.memo_id(a, st) for a in args), tuple((n, self.memo_id(kwargs[n], st)) for n in sorted(kwargs)))
            def put(s):
                v = self.call(fv.fn, args, kwargs, s)
                s.ext[k] = v
                return v
            if k not in st.ext:
                return put(st)
            return self.cases(st, self.resolve(st.ext[k], st),
                              lambda s, x: put(s) if isinstance(x, Ext) and x.node.op == "unset" else x)
        if isinstance(fv, StubCls):
            h = fv.stub.methods.get("__new__")
            if h:
                return h(self, st, fv, args, kwargs)
            o = self.new_obj(st, fv.stub, {}, None, None)
            n = N.mk("call", *[self.node(st, a) for a in args], attr=("new." + fv.stub.name, o.addr))
            st.heap[o.addr].ident = n
            self.log_event("new." + fv.stub.name, None, args, kwargs, n, st)
            return o
        if isinstance(fv, Meth):
            return self.call_method_val(fv.self, fv.name, args, kwargs, st)
        if isinstance(fv, Mod):
            from . import npmodel
            return npmodel.call(self, fv.path, args, kwargs, st)
        if isinstance(fv, Ext):
            return self.env_call("call", fv.node, args, kwargs, st)
        if isinstance(fv, Obj):
            return self.call(self.getattr(fv, "__call__", st), args, kwargs, st)
        return Ext(N.opaque("call"))

    def memo_id(self, v, st):
        v = self.resolve(v, st)
        if isinstance(v, (Obj, Lst, Dct)):
            return ("ref", v.addr)
        return ("val", self.node(st, v).id)

    def log_event(self, name, recv, args, kwargs, node, st):
        self.events.append(dict(name=name, recv=recv, args=list(args), kwargs=dict(kwargs), node=node,
                                argnodes=[self.node(st, a) for a in args],
                                kwnodes={k: self.node(st, v) for k, v in kwargs.items() if isinstance(v, Val)},
                                site=self.site(), guards=st.guards, loops=tuple(self.loops)))

    def env_call(self, name, recv, args, kwargs, st, ret=None):
        """Call into the environment: uninterpreted, logged."""
        ns = ([recv] if recv is not None else []) + [self.node(st, a) for a in args]
        kn = tuple(sorted(k for k in kwargs if k != "**"))
        ns += [self.node(st, kwargs[k]) for k in kn]
        n = N.mk("call", *ns, attr=(name, len(args)) + kn)
        self.log_event(name, recv, args, {k: v for k, v in kwargs.items() if k != "**"}, n, st)
        return Ext(n)

    def construct(self, cls, args, kwargs, st):
        o = self.new_obj(st, cls, {}, None)
        m, owner = cls.find("__init__")
        if m is not None:
            self.call_func(m[1], [o] + list(args), kwargs, st)
        return o

    def new(self, st, clsname, args=(), kwargs=None):
        return self.construct(self.prog.cls(clsname), list(args), kwargs or {}, st)

    def call_method(self, st, o, name, args=(), kwargs=None):
        """Driver entry: call o.name(*args)."""
        o = self.resolve(o, st)
        v = self.getattr(o, name, st)
        return self.call(v, list(args), kwargs or {}, st)

    def default_value(self, f, name, d, st, defaults):
        if defaults is not None and name in defaults:
            return defaults[name]
        if isinstance(d, ast.Constant) or isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            return self.ev(d, st)
        if f.cls is None and f.kind == "nested":
            return self.ev(d, st)
        return self.static(st, ("d", f.qual, f.node.lineno, name), lambda t: self.eval_in_module(f.module, d, t, f.cls))

    def nested_defaults(self, node, st):
        a = node.args
        out = {}
        ps = a.posonlyargs + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            out[p.arg] = self.ev(d, st)
        return out

    def call_func(self, f, args, kwargs, st, closure=None, defaults=None):
        h = self.hooks.get(f.qual)
        if h is not None:
            return h(self, st, args, kwargs)
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x is f) > 3:
            self.unknown_calls[f.qual + " (recursion)"] = 1
            return Ext(N.mk("call", *[self.node(st, a) for a in args], attr=(f.qual, 0)))
        self.functions[f.qual] = self.functions.get(f.qual, 0) + 1
        a = f.node.args
        env = dict(closure) if closure else {}
        if closure:
            f._closure = closure
        params = a.posonlyargs + a.args
        if f.kind == "classmethod" and (not args or not isinstance(args[0], Cls)) and args and isinstance(args[0], Obj):
            args = [Cls(st.heap[args[0].addr].cls)] + list(args[1:])
        saved_env = st.env
        bound = {}
        for p, v in zip(params, args):
            bound[p.arg] = v
        extra = list(args[len(params):])
        kw = dict(kwargs)
        openkw = kw.pop("**", [])
        for p in params + a.kwonlyargs:
            if p.arg in kw and p.arg not in bound:
                bound[p.arg] = kw.pop(p.arg)
        self.stack.append(f)
        st.env = {}
        missing = False
        try:
            nd = len(a.defaults)
            for p, d in zip(params[len(params) - nd:], a.defaults):
                if p.arg not in bound:
                    bound[p.arg] = self.default_value(f, p.arg, d, st, defaults)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in bound and d is not None:
                    bound[p.arg] = self.default_value(f, p.arg, d, st, defaults)
            for p in params:
                if p.arg not in bound:
                    bound[p.arg] = Ext(N.mk("unbound", attr=(f.qual, p.arg)))
                    self.diags.append(dict(kind="missing-argument", site=self.site(), func=f.qual, name=p.arg, guards=st.guards))
            if a.vararg:
                bound[a.vararg.arg] = Tup(extra)
            elif extra:
                self.diags.append(dict(kind="extra-argument", site=self.site(), func=f.qual, guards=st.guards))
            if a.kwarg:
                d = self.new_dict(st, [(strv(k), v) for k, v in kw.items()])
                st.heap[d.addr].parts.extend(openkw)
                bound[a.kwarg.arg] = d
            elif kw:
                self.diags.append(dict(kind="extra-argument", site=self.site(), func=f.qual, name=",".join(kw), guards=st.guards))
            if any(k.startswith("%cell:") for k in env):
                own = local_names(f.node) | set(bound)
                env = {k: v for k, v in env.items() if not (k.startswith("%cell:") and k[6:] in own)}
            env.update(bound)
            cells = cell_names(f.node)
            if cells:
                self.new_frame(st, cells, env)
            g0 = st.guards
            s = st.fork()
            s.env = env
            exits = self.exec_block(f.node.body, s)
        finally:
            self.stack.pop()
            st.env = saved_env
        rets = []
        for e in exits:
            if e.kind == "normal":
                rets.append(Exit("return", e.st, NONEV))
            elif e.kind == "return":
                rets.append(e)
        raised = [e for e in exits if e.kind == "raise"]
        if not rets:
            st.env = saved_env
            raise Dead([Exit("raise", _restore(e.st, saved_env), e.val) for e in raised])
        res = rets[-1]
        rst, rv = res.st, res.val
        for e in reversed(rets[:-1]):
            c = conj([x for x in e.st.guards[len(g0):] if x.op != "inloop"])
            if any(x.op == "inloop" for x in e.st.guards[len(g0):]):
                c = N.mk("exists_iter", c)      # what is returned depends on an iteration the analysis cannot single out
            c = self.simp(c, st)
            m = self.merge_state(c, e.st, rst)
            rv = self.merge_val(c, e.val, rv)
            rst = m
        # restore the caller's frame
        asm = {k: v for k, v in rst.assume.items() if k in st.assume or True}
        st.heap, st.ext = rst.heap, rst.ext
        st.env = saved_env
        st.guards = g0
        if raised and len(rets) >= 1:
            # continuing after a call that may raise: remember the negated conditions
            for k, v in rst.assume.items():
                st.assume.setdefault(k, v)
            extra_g = rets[0].st.guards[len(g0):] if len(rets) == 1 else ()
            extra_g = tuple(x for x in extra_g if x.op != "inloop")
            st.guards = g0 + extra_g
        return self.resolve(rv, st)

    # methods on builtin values ---------------------------------------
    def call_method_val(self, v, name, args, kwargs, st):
        v = self.resolve(v, st)
        if isinstance(v, Phi):
            return self.cases(st, v, lambda s, x: self.call_method_val(x, name, args, kwargs, s))
        from . import npmodel
        if isinstance(v, Obj):
            c = st.heap[v.addr]
            if name == "__object_init__":
                return NONEV
            if isinstance(c.cls, Stub):
                h = c.cls.methods.get(name)
                args, kwargs = positional(STUB_PARAMS.get(name, ()), args, kwargs)
                if h is not None:
                    return h(self, st, v, args, kwargs)
                r = self.env_call(c.cls.name + "." + name, self.node(st, v), args, kwargs, st)
                return r
        if isinstance(v, StubCls):
            h = v.stub.methods.get("cls." + name)
            if h:
                return h(self, st, v, args, kwargs)
            return self.env_call(v.stub.name + "." + name, None, args, kwargs, st)
        if isinstance(v, Lst):
            return npmodel.list_method(self, v, name, args, kwargs, st)
        if isinstance(v, Dct):
            return npmodel.dict_method(self, v, name, args, kwargs, st)
        if isinstance(v, Meth) and v.name == "__dict__":
            parts = [(strv(k), x) for k, x in st.heap[v.self.addr].attrs.items()]
            d = self.new_dict(st, parts)
            return npmodel.dict_method(self, d, name, args, kwargs, st)
        if isinstance(v, Tup):
            l = self.list_of(st, v.items)
            return npmodel.list_method(self, l, name, args, kwargs, st)
        if isinstance(v, (Arr,)) or (isinstance(v, Sc) and v.node.op not in ("str", "fstr", "strcat", "none")):
            return npmodel.arr_method(self, v, name, args, kwargs, st)
        if isinstance(v, Sc):
            return npmodel.str_method(self, v, name, args, kwargs, st)
        if isinstance(v, Ext):
            r = npmodel.ext_method(self, v, name, args, kwargs, st)
            if r is not None:
                return r
            return self.env_call(name, v.node, args, kwargs, st)
        return self.env_call(name, self.node(st, v), args, kwargs, st)

    def arr_attr(self, v, name, st):
        from . import npmodel
        return npmodel.arr_attr(self, v, name, st)

    def mod_attr(self, path, st):
        from . import npmodel
        return npmodel.mod_attr(self, path, st)

    # deep copies -------------------------------------------------------
    def deepcopy(self, v, st, memo=None):
        memo = {} if memo is None else memo
        v = self.resolve(v, st)
        if isinstance(v, Arr):
            k = ("arr", v.addr, v.path)
            if k not in memo:
                memo[k] = self.new_arr(st, self.content(st, v), dt=st.heap[v.addr].dt)
            return memo[k]
        if isinstance(v, Obj):
            if v.addr in memo:
                return memo[v.addr]
            c = st.heap[v.addr]
            o = self.new_obj(st, c.cls, {}, None, c.ident)
            memo[v.addr] = o
            for k, x in list(c.attrs.items()):
                st.heap[o.addr].attrs[k] = self.deepcopy(x, st, memo)
            return o
        if isinstance(v, (Lst, Dct)):
            if v.addr in memo:
                return memo[v.addr]
            c = st.heap[v.addr]
            n = self.new_list(st, []) if isinstance(v, Lst) else self.new_dict(st)
            memo[v.addr] = n
            st.heap[n.addr].parts = [self.copy_part(p, st, memo) for p in c.parts]
            return n
        if isinstance(v, Tup):
            return Tup([self.deepcopy(x, st, memo) for x in v.items])
        if isinstance(v, Phi):
            return Phi(v.cond, self.deepcopy(v.a, st, memo), self.deepcopy(v.b, st, memo))
        if isinstance(v, Ext):
            return Ext(N.mk("deepcopy", v.node)) if v.node.op != "deepcopy" else v
        return v

    def copy_part(self, p, st, memo):
        if p[0] == "e":
            return ("e", self.deepcopy(p[1], st, memo))
        if p[0] == "kv":
            return ("kv", p[1], self.deepcopy(p[2], st, memo))
        if p[0] == "if":
            return ("if", p[1], tuple(self.copy_part(x, st, memo) for x in p[2]), tuple(self.copy_part(x, st, memo) for x in p[3]))
        if p[0] == "map":
            return ("map", p[1], p[2], p[3], tuple(self.copy_part(x, st, memo) for x in p[4]))
        return p


# ==================================================================== helpers
def to_int_node(n):
    from .npmodel import _is_int
    return n if _is_int(n) else N.mk("fn", n, attr="int")


_LOCALS = {}


# parameters of the environment's methods (Task, Updater, CostFunction, FunctionApproximator, ...)
STUB_PARAMS = {"train": ("inputs", "targets"), "predict": ("inputs",), "evaluate": ("sample",), "evaluate_rollout": ("cost_vars", "sample"),
               "perform_rollout": ("sample",), "update_distribution": ("distribution", "samples", "costs"),
               "set_param_vector": ("values",), "set_selected_param_names": ("names",)}


def positional(params, args, kwargs):
    """Arguments given by name moved to their position."""
    if not kwargs or len(args) >= len(params):
        return args, kwargs
    args, kwargs = list(args), dict(kwargs)
    for p in params[len(args):]:
        if p not in kwargs:
            break
        args.append(kwargs.pop(p))
    return args, kwargs


FRAME = Stub("frame")
_CELLS = {}


def cell_names(fn):
    """Local variables that nested functions see change: assigned there (nonlocal), or assigned more than once."""
    r = _CELLS.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    inner = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
    out = set()
    if inner:
        a = fn.args
        mine = local_names(fn) | {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        used, non = set(), set()
        first = min(n.lineno for n in inner)
        for f in inner:
            for n in ast.walk(f):
                if isinstance(n, ast.Name):
                    used.add(n.id)
                elif isinstance(n, ast.Nonlocal):
                    non.update(n.names)
        late = set()

        def go(n, inloop):
            if n in inner:
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (inloop or n.lineno >= first):
                late.add(n.id)
            if isinstance(n, ast.FunctionDef) and inloop:
                late.add(n.name)
            for c in ast.iter_child_nodes(n):
                go(c, inloop or isinstance(n, (ast.For, ast.While)))
        for b in fn.body:
            go(b, False)
        out = mine & used & (late | non)
    _CELLS[id(fn)] = (fn, out)
    return out


_GLOBALS = {}


def global_names(fn):
    r = _GLOBALS.get(id(fn))
    if r is None or r[0] is not fn:
        out = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                out.update(n.names)
        r = _GLOBALS[id(fn)] = (fn, out)
    return r[1]


def local_names(fn):
    """Names a function binds itself (comprehension variables and nested scopes excluded)."""
    r = _LOCALS.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    out, glob = set(), set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            go(c)
    if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for b in fn.body:
            go(b)
    out -= glob
    _LOCALS[id(fn)] = (fn, out)
    return out


def _restore(st, env):
    st.env = env
    return st


def _common(a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] is b[k]:
        k += 1
    return k


def locname(loc):
    if loc[0] == "env":
        return loc[1]
    if loc[0] == "attr":
        return f"#{loc[1]}.{loc[2]}"
    return f"{loc[0]}#{loc[1]}"


def phi_leaves(v):
    if isinstance(v, Phi):
        return phi_leaves(v.a) + phi_leaves(v.b)
    return [v]


def mk_fill(v, shape):
    return N.mk("alloc", v, *shape)


def strcat(ns):
    out = []
    for n in ns:
        if n.op == "strcat":
            out.extend(n.args)
        else:
            out.append(n)
    return N.mk("strcat", *out)


def key_template(n):
    """Sequence of ('t', text) / ('v', node id) for string-like keys."""
    if n.op == "str":
        return (("t", n.attr),)
    if n.op == "fstr":
        out, k = [], 0
        for t in n.attr:
            if t[0] == "t":
                out.append(t)
            else:
                sub = key_template(n.args[k])
                if sub is not None and not t[1]:
                    out.extend(sub)
                else:
                    out.append(("v", n.args[k].id, t[1]))
                k += 1
        return tuple(out)
    if n.op in ("path", "strcat"):
        out = []
        for i, a in enumerate(n.args):
            s = key_template(a)
            if i and n.op == "path":
                out.append(("t", "/"))
            out.extend(s if s is not None else (("v", a.id, ""),))
        return tuple(out)
    return None


def templates_unify(a, b):
    """May two string templates denote the same string? 'v' parts with numeric formats match digits;
    plain 'v' parts match anything."""
    import re

    def rx(t):
        r = ""
        for p in t:
            if p[0] == "t":
                r += re.escape(p[1])
            else:
                r += "[0-9]+" if p[2].endswith("d") else ".*"
        return r

    def sample(t):
        s = ""
        for p in t:
            if p[0] == "t":
                s += p[1]
            else:
                m = "7"
                if p[2].endswith("d"):
                    w = p[2][:-1].lstrip("0") or "1"
                    m = "7".rjust(int(w), "0") if w.isdigit() else "7"
                s += m
        return s
    return re.fullmatch(rx(a), sample(b)) is not None or re.fullmatch(rx(b), sample(a)) is not None


def unify_idx(template, key, idx):
    """If key == template[idx := m] structurally return m."""
    if template is idx:
        return key
    tt, tk = key_template(template), key_template(key)
    if tt is not None and tk is not None and all(p[0] == "t" for p in tk):
        # a text against a template with the index as its only variable
        if any(p[0] == "v" and p[1] != idx.id for p in tt):
            return None
        m = re.fullmatch("".join(re.escape(p[1]) if p[0] == "t" else "([0-9]+)" for p in tt), "".join(p[1] for p in tk))
        vs = [p[2] for p in tt if p[0] == "v"]
        if m is None or len({int(g) for g in m.groups()}) != 1:
            return None
        k = int(m.group(1))
        if all(f and re.fullmatch("0?[0-9]*d", f) is None for f in vs) or any(format(k, f) != g for f, g in zip(vs, m.groups())):
            return None
        return N.const(k)
    res = [None]

    def go(t, k):
        if t is k:
            return True
        if t is idx:
            if res[0] is None:
                res[0] = k
                return True
            return res[0] is k
        if t.op != k.op or t.attr != k.attr or len(t.args) != len(k.args):
            return False
        return all(go(x, y) for x, y in zip(t.args, k.args))
    if go(template, key):
        return res[0] if res[0] is not None else idx
    # fstr with a constant substituted
    return None


# ------------------------------------------------------------------ index / store algebra
def _region(item, axlen):
    """-> ('iv', lo, hi) | ('pt', n) | ('mask'/'arr', n) | ('all',)"""
    c = item[0]
    if c == "s":
        lo = N.const(0) if item[1] is N.NONE else item[1]
        if item[2] is N.NONE:
            if item[1] is N.NONE:
                return ("all",)
            if axlen is None:
                return ("ivopen", lo)
            return ("iv", lo, axlen)
        hi = item[2]
        if axlen is not None and N.is_const(lo, 0) and N.same_size(hi, axlen):
            return ("all",)
        return ("iv", lo, hi)
    if c == "p":
        return ("pt", item[1])
    if c == "a" and item[1].op == "arange":
        lo, hi = item[1].args[:2]
        if axlen is not None and N.is_const(lo, 0) and N.same_size(hi, axlen):
            return ("all",)
        return ("iv", lo, hi)
    if c == "a":
        return ("arr", item[1])
    return ("other",) + item[1:]


def regions(base, attr, args):
    sh = N.shape_of(base)
    items = [it for it in N.split_index(attr, args)]
    if any(it[0] in "ne" for it in items) or sum(1 for it in items if it[0] == "a") > 1:
        return None
    out = []
    for k, it in enumerate(items):
        axlen = sh[k] if sh is not None and k < len(sh) else None
        out.append(_region(it, axlen))
    return out


def _reg_same(a, b):
    if a[0] == "all" or b[0] == "all":
        return a[0] == b[0]
    if a[0] != b[0]:
        return False
    if a[0] == "other":
        return a == b
    return all(N.same_size(x, y) for x, y in zip(a[1:], b[1:]))


def _reg_disjoint(a, b):
    if "all" in (a[0], b[0]):
        return False
    if a[0] == "pt" and b[0] == "pt" and a[1].op == "const" and b[1].op == "const":
        return a[1].attr != b[1].attr and (a[1].attr >= 0) == (b[1].attr >= 0)
    if a[0] == "arr" or b[0] == "arr" or a[0] == "other" or b[0] == "other":
        # complementary masks
        if a[0] == "arr" and b[0] == "arr" and N.not_(a[1]) is b[1]:
            return True
        return False

    def lohi(r):
        if r[0] == "pt":
            return r[1], N.add(r[1], N.const(1))
        if r[0] == "ivopen":
            return r[1], None
        return r[1], r[2]
    la, ha = lohi(a)
    lb, hb = lohi(b)
    if ha is not None and N.lin_sign(N.lin_sub(lb, ha)) in ("+", "0", "+0"):
        return True
    if hb is not None and N.lin_sign(N.lin_sub(la, hb)) in ("+", "0", "+0"):
        return True
    return False


def reg_relation(r1, r2):
    """'same' | 'disjoint' | 'unknown' for two region lists (missing axes are full)."""
    if r1 is None or r2 is None:
        return "unknown"
    k = max(len(r1), len(r2))
    r1 = list(r1) + [("all",)] * (k - len(r1))
    r2 = list(r2) + [("all",)] * (k - len(r2))
    same = True
    for a, b in zip(r1, r2):
        if _reg_disjoint(a, b):
            return "disjoint"
        if not _reg_same(a, b):
            same = False
    return "same" if same else "unknown"


def covers_all(r):
    return r is not None and all(x[0] == "all" for x in r)


_IDX = {}


def index_node(base, attr, args):
    key = (base.id, attr, tuple(a.id if isinstance(a, N.Node) else a for a in args))
    r = _IDX.get(key)
    if r is None:
        r = _IDX[key] = _index_node(base, attr, args)
    return r


def _index_node(base, attr, args):
    if not attr or all(c == "s" for c in attr) and all(a is N.NONE for a in args):
        return base
    if base.op == "store":
        sattr = base.attr
        nb = len(base.args)
        inner, val, sargs = base.args[0], base.args[-1], base.args[1:-1]
        rel = reg_relation(regions(inner, sattr, sargs), regions(inner, attr, args))
        if rel == "same":
            sh = N._index_shape(N.shape_of(inner), attr, args)
            return bcast_to(val, sh)
        if rel == "disjoint":
            return index_node(inner, attr, args)
        # the stored region contains the read one on an axis read by a point / full elsewhere
        r1, r2 = regions(inner, sattr, sargs), regions(inner, attr, args)
        if r1 is not None and r2 is not None:
            sub = sub_read(r1, r2, val, attr, args, inner)
            if sub is not None:
                return sub
    if base.op == "alloc":
        sh = N._index_shape(N.shape_of(base), attr, args)
        fill = base.args[0]
        if sh is not None and N.shape_rank(fill) == 0:
            return fill if len(sh) == 0 else mk_fill(fill, sh)
    if base.op == "mapstore":
        r = mapstore_read(base, attr, args)
        if r is not None:
            return r
    if base.op == "phi":
        a = index_node(base.args[1], attr, args)
        b = index_node(base.args[2], attr, args)
        return N.phi(base.args[0], a, b)
    if base.op == "index" and "a" not in base.attr and "n" not in base.attr and "e" not in base.attr:
        r = compose_index(base, attr, args)
        if r is not None:
            return r
    if base.op == "mklist" and attr[0] == "p":
        k = N.cval(args[0])
        if k is not None and -len(base.args) <= k < len(base.args):
            e = base.args[int(k)]
            return index_node(e, attr[1:], args[1:]) if len(attr) > 1 else e
    if base.op == "maplist" and attr == "p":
        idx = N.mk("idx", attr=base.attr) if not isinstance(base.attr, N.Node) else base.attr
        return N.subst(base.args[0], {idx.id: N.add(args[0], base.args[1])})
    if base.op == "arange" and attr == "p":
        return N.add(base.args[0], args[0])
    if base.op == "reshape" and N.shape_rank(base.args[0]) == 0 and set(attr) <= set("p"):
        sh = N._index_shape(N.shape_of(base), attr, args)
        if sh is not None:
            return base.args[0] if len(sh) == 0 else N.mk("reshape", base.args[0], *sh)
    if base.op in ("mul", "add", "sub", "div") and attr == "p" and N.cval(args[0]) is not None:
        shs = [N.shape_of(a) for a in base.args]
        if all(x is not None and len(x) <= 1 for x in shs) and all(a.op in ("reshape", "alloc", "mklist", "const") for a in base.args):
            parts = []
            for a, x in zip(base.args, shs):
                if len(x) == 0:
                    parts.append(a)
                elif N.is_const(x[0], 1):
                    parts.append(index_node(a, "p", (N.const(0),)))
                else:
                    parts.append(index_node(a, "p", args))
            return {"mul": N.mul, "add": N.add, "sub": N.sub, "div": N.div}[base.op](*parts)
    return N.mk("index", base, *args, attr=attr)


def sub_read(r1, r2, val, attr, args, inner):
    """Read of region r2 inside a stored region r1 (r2 within r1): index the stored value."""
    k = max(len(r1), len(r2))
    r1 = list(r1) + [("all",)] * (k - len(r1))
    r2 = list(r2) + [("all",)] * (k - len(r2))
    nattr, nargs = "", []
    for a, b in zip(r1, r2):
        if a[0] == "pt":
            if not _reg_same(a, b):
                return None
            continue
        if a[0] == "all":
            off = N.const(0)
        elif a[0] == "iv":
            if b[0] == "pt":
                if N.lin_sign(N.lin_sub(b[1], a[1])) not in ("0", "+", "+0") or N.lin_sign(N.lin_sub(a[2], b[1])) != "+":
                    return None
            elif b[0] == "iv":
                if N.lin_sign(N.lin_sub(b[1], a[1])) not in ("0", "+", "+0") or N.lin_sign(N.lin_sub(a[2], b[2])) not in ("0", "+", "+0"):
                    return None
            else:
                return None
            off = a[1]
        else:
            return None
        if b[0] == "all":
            nattr += "s"
            nargs += [N.NONE, N.NONE]
        elif b[0] == "pt":
            nattr += "p"
            nargs.append(N.sub(b[1], off) if not N.is_const(off, 0) else b[1])
        elif b[0] == "iv":
            nattr += "s"
            lo, hi = N.lin_node(N.sub(b[1], off)), N.lin_node(N.sub(b[2], off))
            if a[0] == "iv" and N.same_size(hi, N.sub(a[2], a[1])):
                hi = N.NONE
            if N.is_const(lo, 0):
                lo = N.NONE
            nargs += [lo, hi]
        else:
            return None
    vs = N.shape_of(val)
    n_axes = len([x for x in r1 if x[0] != "pt"])
    if vs is None:
        return None
    if len(vs) == 0:
        sh = N._index_shape(N.shape_of(inner), attr, args)
        return bcast_to(val, sh)
    if len(vs) < n_axes:
        # broadcast along leading axes: drop those index items
        items = N.split_index(nattr, tuple(nargs))
        items = items[len(items) - len(vs):]
        nattr = "".join(i[0] for i in items)
        nargs = [x for i in items for x in i[1:]]
    if any(N.is_const(d, 1) for d in vs):
        # axes along which the stored value was broadcast
        items = N.split_index(nattr, tuple(nargs))
        out = []
        axes = [x for x in r1 if x[0] != "pt"][-len(vs):] if len(vs) <= n_axes else None
        ish = N.shape_of(inner)
        if axes is None or len(items) != len(vs):
            return None
        full = list(enumerate(r1))
        ax_no = [i for i, x in full if x[0] != "pt"][-len(vs):]
        for d, a, i, it in zip(vs, axes, ax_no, items):
            size = N.sub(a[2], a[1]) if a[0] == "iv" else (ish[i] if ish is not None and i < len(ish) else None)
            if N.is_const(d, 1) and not (size is not None and N.is_const(N.lin_node(size), 1)):
                if it[0] != "p":
                    return None
                it = ("p", N.const(0))
            out.append(it)
        nattr = "".join(i[0] for i in out)
        nargs = [x for i in out for x in i[1:]]
    while nattr.endswith("s") and nargs[-1] is N.NONE and nargs[-2] is N.NONE:
        nattr, nargs = nattr[:-1], nargs[:-2]
    if not nattr:
        return val
    return index_node(val, nattr, tuple(nargs))


def bcast_to(val, sh):
    vs = N.shape_of(val)
    if sh is None or vs is None or len(vs) > len(sh):
        return val
    if len(vs) == len(sh) and not any(N.is_const(a, 1) and not N.is_const(b, 1) for a, b in zip(vs, sh)):
        return val
    return mk_fill(val, sh)


def compose_index(base, attr, args):
    """index(index(x, s..), t..) -> index(x, ..) for slices/points."""
    items1 = N.split_index(base.attr, base.args[1:])
    items2 = N.split_index(attr, args)
    x = base.args[0]
    sh = N.shape_of(x)
    out = []
    j = 0
    for k, it in enumerate(items1):
        if it[0] == "p":
            out.append(it)
            continue
        if it[0] != "s":
            return None
        if j >= len(items2):
            out.append(it)
            continue
        t = items2[j]
        j += 1
        lo = N.const(0) if it[1] is N.NONE else it[1]
        if lo.op == "const" and lo.attr < 0:
            return None
        if t[0] == "p":
            if t[1].op == "const" and t[1].attr < 0:
                return None
            out.append(("p", N.add(lo, t[1])))
        elif t[0] == "s":
            l2 = N.const(0) if t[1] is N.NONE else t[1]
            if (l2.op == "const" and l2.attr < 0) or (t[2].op == "const" and t[2].attr < 0):
                return None
            h = it[2] if t[2] is N.NONE else N.add(lo, t[2])
            nl = N.add(lo, l2)
            out.append(("s", N.NONE if N.is_const(nl, 0) else nl, h))
        else:
            return None
    out.extend(items2[j:])
    if any(o[0] not in "sp" for o in out[len(items1):]) and any(o[0] == "a" for o in out):
        pass
    nattr = "".join(o[0] for o in out)
    nargs = tuple(a for o in out for a in o[1:])
    while len(nattr) > 0 and nattr.endswith("s") and nargs[-1] is N.NONE and nargs[-2] is N.NONE:
        nattr, nargs = nattr[:-1], nargs[:-2]
    if not nattr:
        return x
    return index_node(x, nattr, nargs)


def fit_slot(base, attr, args, val):
    """NumPy drops leading axes of length one of a value stored in a slot of lower rank."""
    vs = N.shape_of(val)
    if vs is None or not vs or N.cval(vs[0]) != 1:
        return val
    bs = N.shape_of(base)
    sl = N._index_shape(bs, attr, args) if bs is not None else None
    if sl is None:
        return val
    k = 0
    while len(vs) - k > len(sl) and N.cval(vs[k]) == 1:
        k += 1
    return index_node(val, "p" * k, (N.const(0),) * k) if k and len(vs) - k == len(sl) else val


def store_node(base, attr, args, val):
    val = fit_slot(base, attr, args, val)
    r = regions(base, attr, args)
    if covers_all(r) or not attr:
        sh = N.shape_of(base)
        vs = N.shape_of(val)
        if sh is not None and (vs is None or len(vs) < len(sh)):
            if vs is not None:
                return mk_fill(val, sh)
            return N.mk("cast", val) if False else val
        return val
    if base.op == "store":
        r0 = regions(base.args[0], base.attr, base.args[1:-1])
        rel = reg_relation(r0, r)
        if rel == "same":
            return store_node(base.args[0], attr, args, val)
    if base.op == "phi" and False:
        pass
    return N.mk("store", base, *args, val, attr=attr)


def affine_in(n, idx):
    """n == idx + a with a free of idx -> a, else None."""
    p = N.lin(n)
    if p.get((idx.id,)) != 1:
        return None
    for m in p:
        if idx.id in m and m != (idx.id,):
            return None
    rest = N.sub(n, idx)
    rest = N.lin_node(rest)
    return rest if idx.id not in N.leaves(rest) else None


def close_node(key, idx, lo, hi, name, init, mu, nxt, broke):
    """Value of a location after the loop."""
    if key in ri.LOOPS:
        ri.LOOPS[key]["mus"][name] = (init, nxt)
    if nxt is mu:
        return init
    # chain of stores on top of mu, each at an index affine in idx on exactly one axis
    if not broke:
        r = close_stores(key, idx, lo, hi, init, mu, nxt)
        if r is not None:
            return r
    return N.mk("rec", init, nxt, lo, hi, mu if mu is not N.NONE else N.mk("nomu"), attr=(key, name, broke))


def close_stores(key, idx, lo, hi, init, mu, nxt):
    chain = []
    n = nxt
    while n is not mu:
        if n.op == "store":
            chain.append((n.attr, n.args[1:-1], n.args[-1]))
            n = n.args[0]
        elif n.op == "mapstore" and mu.id in N.leaves(n.args[0]):
            chain.append(("M", n, None))
            n = n.args[0]
        else:
            return None
    out = init
    for ent in reversed(chain):
        if ent[0] == "M":
            # inner map loops over another axis; treat as a region store with an inner-indexed value
            m = ent[1]
            ikey, iattr = m.attr
            iargs, v, ilo, ihi = m.args[1:-3], m.args[-3], m.args[-2], m.args[-1]
            if mu.id in N.leaves(v):
                v2 = replace_self_reads(v, mu, iattr, iargs, init, out)
                if v2 is None:
                    return None
                v = v2
            if idx.id not in {x for a in iargs for x in N.leaves(a)}:
                return None
            out = N.mk("mapstore", out, *iargs, v, ilo, ihi, attr=(ikey, iattr))
            out = N.mk("mapstore", out, *iargs, v, lo, hi, attr=(key, iattr)) if False else N.mk(
                "mapouter", out, lo, hi, attr=key)
            continue
        attr, args, val = ent
        items = N.split_index(attr, args)
        hit = [i for i, it in enumerate(items) if it[0] == "p" and idx.id in N.leaves(it[1])]
        if len(hit) != 1 or any(idx.id in N.leaves(a) for i, it in enumerate(items) if i not in hit for a in it[1:]):
            return None
        if affine_in(items[hit[0]][1], idx) is None:
            return None
        if mu.id in N.leaves(val):
            v2 = replace_self_reads(val, mu, attr, args, init, out)
            if v2 is None:
                return None
            val = v2
        r = full_map(out, attr, args, val, lo, hi, idx, hit[0])
        out = r if r is not None else N.mk("mapstore", out, *args, val, lo, hi, attr=(key, attr))
    return out


def replace_self_reads(v, mu, attr, args, init, out):
    """Reads of the array being built at the element currently written see the pre-loop content."""
    target = N.mk("index", mu, *args, attr=attr)
    r = N.subst(v, {target.id: index_node(init, attr, args)})
    return None if mu.id in N.leaves(r) else r


def full_map(base, attr, args, val, lo, hi, idx, ax):
    """The loop writes every element along axis ax: vectorised form when val is elementwise in idx."""
    return None


def mapstore_read(base, attr, args):
    """index(mapstore(init, .., v; loop), attr2): substitute the loop index."""
    key, sattr = base.attr
    sargs, v, lo, hi = base.args[1:-3], base.args[-3], base.args[-2], base.args[-1]
    idx = N.mk("idx", attr=key)
    items = N.split_index(sattr, sargs)
    ax = [i for i, it in enumerate(items) if it[0] == "p" and idx.id in N.leaves(it[1])]
    if len(ax) != 1:
        return None
    ax = ax[0]
    a = affine_in(items[ax][1], idx)
    if a is None:
        return None
    ritems = N.split_index(attr, args)
    sh = N.shape_of(base.args[0])
    # region written: [lo+a, hi+a) on axis ax
    wreg = []
    for i, it in enumerate(items):
        axl = sh[i] if sh is not None and i < len(sh) else None
        wreg.append(("iv", N.add(lo, a), N.add(hi, a)) if i == ax else _region(it, axl))
    rreg = regions(base.args[0], attr, args)
    if rreg is None:
        return None
    rel = reg_relation(wreg, rreg)
    if rel == "disjoint":
        return index_node(base.args[0], attr, args)
    if ax < len(ritems) and ritems[ax][0] == "p":
        k = ritems[ax][1]
        inside = N.lin_sign(N.lin_sub(k, wreg[ax][1])) in ("0", "+", "+0") and N.lin_sign(N.lin_sub(wreg[ax][2], k)) == "+"
        same_idx = k is items[ax][1]
        if k.op == "idx":
            inside = inside or same_idx
        # loop index of another loop with the same range
        if not inside and _idx_within(k, wreg[ax][1], wreg[ax][2]):
            inside = True
        if inside and any(x.op in ("mu", "mulen") and x.attr[0] == key for x in N.leaves(v).values()):
            return None       # the element depends on what the loop carries from one iteration to the next
        if inside:
            kk = N.lin_node(N.sub(k, a)) if not N.is_const(a, 0) else k
            v2 = N.subst(v, {idx.id: kk})
            # remaining axes
            w = [x for i, x in enumerate(wreg) if i != ax]
            r = [x for i, x in enumerate(rreg) if i != ax]
            m = max(len(w), len(r))
            w += [("all",)] * (m - len(w))
            r += [("all",)] * (m - len(r))
            if all(_reg_same(x, y) for x, y in zip(w, r)):
                shp = N._index_shape(sh, attr, args)
                return bcast_to(v2, shp)
    return None


_IDX_RANGE = {}


def _idx_within(k, lo, hi):
    return False

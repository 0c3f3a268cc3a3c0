"""Environment models and most-general-client helpers shared by the checks."""
import mpmath
import numpy as np
from mpmath import mpf

from . import nodes as N
from . import ri
from .interp import Interp, Dead
from .program import AnchorError, Program
from .values import *

_PROG = [None]


def program():
    if _PROG[0] is None:
        _PROG[0] = Program()
    return _PROG[0]


def size(name, k=1):
    return N.declare_atleast(N.sym(name, (), kind="int"), k)


def S(name, **kw):
    kw.setdefault("kind", "float")
    return Sc(N.sym(name, (), **kw))


class World:
    """One abstract execution context (interpreter + state) with shortcuts."""

    def __init__(self, stubs=None, hooks=None, opaque=()):
        self.I = Interp(program(), stubs)
        self.I.hooks.update(hooks or {})
        self.st = self.I.state()

    def arr(self, name, *shape, origin=None, **kw):
        return self.I.arr(self.st, name, tuple(N.const(d) if isinstance(d, int) else d for d in shape), origin, **kw)

    def new(self, cls, *args, **kw):
        return self.I.new(self.st, cls, list(args), kw)

    def call(self, obj, name, *args, **kw):
        return self.I.call_method(self.st, obj, name, list(args), kw)

    def callf(self, func, *args, **kw):
        f = self.I.prog.func(*func.rsplit(".", 1)) if isinstance(func, str) else func
        return self.I.call_func(f, list(args), kw, self.st)

    def callf_np(self, name, *args, **kw):
        from . import npmodel
        return npmodel.call(self.I, "numpy." + name, list(args), kw, self.st)

    def static(self, cls, name, *args, **kw):
        c = Cls(self.I.prog.cls(cls))
        return self.I.call(self.I.getattr(c, name, self.st), list(args), kw, self.st)

    def get(self, obj, name):
        return self.I.getattr(obj, name, self.st)

    def set(self, obj, name, val):
        self.I.setattr(obj, name, val, self.st)

    def node(self, v):
        return self.I.node(self.st, v)

    def list(self, *vals):
        return self.I.list_of(self.st, vals)

    def dict(self, **kv):
        return self.I.new_dict(self.st, [(strv(k), v) for k, v in kv.items()])

    def attrs(self, obj):
        return self.st.heap[obj.addr].attrs

    def item(self, v, k):
        return self.I.getitem(v, Sc(N.const(k)) if isinstance(k, int) else k, self.st)

    def clobber(self, v, name="clobbered"):
        """The client overwrites every element of an array it holds."""
        v = self.I.resolve(v, self.st)
        if not isinstance(v, Arr):
            return
        sh = N.shape_of(self.node(v))
        cell = self.st.heap[v.addr]
        cell.node = self.I.write_path(cell.node, v.path, N.sym(name, sh, lo="7", hi="9"))

    def fork(self):
        w = World.__new__(World)
        w.I, w.st = self.I, self.st.fork()
        return w


# ------------------------------------------------------------------ function approximator model
def fa_stub(trained=True, name="fa"):
    """Environment model of a function approximator: an unknown pointwise function of the phase."""

    def predict(I, st, self, args, kwargs):
        x = I.node(st, args[0])
        n = N.mk("rowfn", x, I.node(st, self), attr="predict")
        I.log_event("fa.predict", I.node(st, self), args, kwargs, n, st)
        return I.new_arr(st, n)

    def is_trained(I, st, self, args, kwargs):
        return Sc(N.const(trained)) if isinstance(trained, bool) else Sc(trained)

    def train(I, st, self, args, kwargs):
        I.log_event("fa.train", I.node(st, self), args, kwargs, None, st)
        return NONEV

    def psize(I, st, self, args, kwargs):
        n = N.mk("call", I.node(st, self), attr=("fa.psize",))
        N.declare_atleast(n, 1)
        return Sc(n)

    def getp(I, st, self, args, kwargs):
        s = psize(I, st, self, args, kwargs).node
        return I.new_arr(st, N.mk("faparams", I.node(st, self), s))

    def setp(I, st, self, args, kwargs):
        I.log_event("fa.set_param_vector", I.node(st, self), args, kwargs, None, st)
        return NONEV

    def sel(I, st, self, args, kwargs):
        I.log_event("fa.set_selected_param_names", I.node(st, self), args, kwargs, None, st)
        return NONEV
    return Stub(name, {"predict": predict, "is_trained": is_trained, "train": train, "get_param_vector_size": psize,
                       "get_param_vector": getp, "set_param_vector": setp, "set_selected_param_names": sel})


N.declare_call_shape("fa.psize", lambda n: ())


def _ev_faparams(self, n, env):
    k = ri.as_int(self.ev(n.args[1], env))
    key = ri.canon(self.ev_soft(n.args[0], env))
    return ri.obj1([mpf("0.2") + ri.rnd(self.seed, "fap", key, i) for i in range(k)])


def _ev_call(self, n, env):
    if n.attr[0] == "fa.psize":
        return mpf(1 + ri.h(self.seed, "psize", ri.canon(self.ev_soft(n.args[0], env))) % 3)
    sh = N.shape_of(n)
    k = ("call", n.attr, tuple(ri.canon(self.ev_soft(a, env)) for a in n.args))
    return self.unint(k, None if sh is None else tuple(ri.as_int(self.ev(d, env)) for d in sh))


ri.Model.o_faparams = _ev_faparams
ri.Model.o_call = _ev_call


def fa_list(w, D, stub=None, name="fas"):
    """Symbolic-length list of function approximators fa[0..D)."""
    stub = stub or fa_stub()

    def factory(I, st, n):
        ident = N.mk("fa", n, attr=name)
        for a, c in st.heap.items():
            if getattr(c, "ident", None) is ident:
                return Obj(a)
        return I.new_obj(st, stub, {}, None, ident)
    return w.I.new_list(w.st, [("sym", name, D, factory)])


def models(n=6, sizes=None, values=None, **kw):
    out = []
    for k in range(n):
        sz = {nm: (v[k % len(v)] if isinstance(v, (list, tuple)) else v) for nm, v in (sizes or {}).items()}
        out.append(ri.Model(1000 + k, values=values, sizes=sz, **kw))
    return out

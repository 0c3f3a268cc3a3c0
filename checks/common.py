"""Shared most-general-client set-ups."""
import os

import numpy as np
import mpmath
from mpmath import mpf

from sa import nodes as N
from sa import ri
from sa.lib import *
from sa.report import Scn

SIZES = dict(D=[1, 2, 3], T=[2, 3, 4])


def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"


def sysmodels(n=4, dual=None, seed=1, **values):
    out = []
    if thorough():
        n *= 3
    seed += 100 * int(os.environ.get("VERIF_SEED") or 1)
    for k in range(n):
        sz = dict(D=1 + (k % 3), T=2 + (k + 1) % 3)
        sz.update({a: b for a, b in values.items() if isinstance(b, int)})
        out.append(ri.Model(1000 * seed + k, values={a: b for a, b in values.items() if not isinstance(b, int)}, sizes=sz, dual=dual))
    return out


def col(*xs):
    return ri.obj1([mpf(x) for x in xs])


# every one-dimensional-order dynamical system in every parameter form the constructors accept
def mk_exp(w, D, alpha="vec"):
    a = w.arr("alpha", D, pos=True) if alpha == "vec" else S("alpha_s", pos=True)
    return w.new("ExponentialSystem", S("tau", pos=True), w.arr("x0", D), w.arr("g", D), a)


def mk_exp_list(w, D):
    return w.new("ExponentialSystem", S("tau", pos=True), w.arr("x0", 2), w.arr("g", 2), w.list(S("al0", pos=True), S("al1", pos=True)))


def mk_sig(w, D, form="scalar"):
    r = S("rate") if form == "scalar" else w.arr("rates", D)
    i = S("infl", pos=True) if form == "scalar" else w.arr("infls", D, pos=True)
    return w.new("SigmoidSystem", S("tau", pos=True), w.arr("x0", D), r, i)


def mk_gating(w, D):
    return w.static("SigmoidSystem", "for_gating", S("tau", pos=True), S("ratio", lo="0.02", hi="0.4"), Sc(D))


def mk_spring(w, D, form="scalar"):
    d = S("damp", pos=True) if form == "scalar" else w.arr("damps", D, pos=True)
    return w.new("SpringDamperSystem", S("tau", pos=True), w.arr("x0", D), w.arr("g", D), d)


def mk_spring_mass(w, D):
    """critically damped through explicit stiffness: k = d^2/(4 m)"""
    d, m = S("damp", pos=True), S("mass", pos=True)
    k = Sc(N.div(N.mul(d.node, d.node), N.mul(N.const(4), m.node)))
    return w.new("SpringDamperSystem", S("tau", pos=True), w.arr("x0", D), w.arr("g", D), d, k, m)


def mk_rich(w, D, form="scalar"):
    # start state above/below the attractor keeps the logistic base positive for the drawn ranges
    kw = dict(alpha=S("alpha_s", pos=True), v=S("v", lo="0.6", hi="2.5")) if form == "scalar" else \
        dict(alpha=w.arr("alpha", D, pos=True), v=w.arr("vs", D, lo="0.6", hi="2.5"))
    return w.new("RichardsSystem", S("tau", pos=True), w.arr("x0", D, lo="0.1", hi="0.9"), w.arr("g", D, lo="1.1", hi="2.5"),
                 S("infl", lo="0.2", hi="0.9") if form == "scalar" else w.arr("infls", D, lo="0.2", hi="0.9"), **kw)


def mk_rich_left(w, D):
    o = w.new("RichardsSystem", S("tau", pos=True), w.arr("x0", D, lo="0.1", hi="0.9"), w.arr("g", D, lo="1.1", hi="2.5"),
              S("infl", lo="0.2", hi="0.9"), S("alpha_s", pos=True), S("v", lo="0.6", hi="2.5"))
    w.call(o, "set_left_asymp", w.arr("left", D, lo="-2", hi="0"))
    return o


def mk_time(w, D, down=False):
    return w.new("TimeSystem", S("tau", pos=True), Sc(N.const(down)))


SYSTEMS = {
    "exponential": ("ExponentialSystem", mk_exp),
    "exponential-shared-rate": ("ExponentialSystem", lambda w, D: mk_exp(w, D, "s")),
    "exponential-list-rate": ("ExponentialSystem", mk_exp_list),
    "sigmoid": ("SigmoidSystem", mk_sig),
    "sigmoid-per-dim": ("SigmoidSystem", lambda w, D: mk_sig(w, D, "vec")),
    "sigmoid-gating": ("SigmoidSystem", mk_gating),
    "spring-damper": ("SpringDamperSystem", mk_spring),
    "spring-damper-per-dim": ("SpringDamperSystem", lambda w, D: mk_spring(w, D, "vec")),
    "spring-damper-mass": ("SpringDamperSystem", mk_spring_mass),
    "richards": ("RichardsSystem", mk_rich),
    "richards-per-dim": ("RichardsSystem", lambda w, D: mk_rich(w, D, "vec")),
    "richards-left-asymptote": ("RichardsSystem", mk_rich_left),
    "time-up": ("TimeSystem", mk_time),
    "time-down": ("TimeSystem", lambda w, D: mk_time(w, D, True)),
}


class Post(ri.Model):
    """Model whose named leaves are transformed (rescaled / shifted) versions of another model's leaves."""

    def __init__(self, seed, post, **kw):
        super().__init__(seed, **kw)
        self.post = post

    def leaf(self, n):
        v = super().leaf(n)
        f = self.post.get(n.attr[0])
        return f(v) if f else v


def rows(m, n, k):
    return ri.oarr(m.ev(n))[k]

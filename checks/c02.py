"""C02: numerical integration performs the textbook steps of the system's own equation."""
from .common import *
from .dmp import DMP_TYPES, mk_dmp

EXPLANATION = ("For every dynamical system (and the DMP in every type) the terms returned by one integration step and by whole-series "
               "integration are compared with the textbook Euler / classical Runge-Kutta tableau built by the driver from the class's own "
               "rate function; wrong-sized states must be rejected on every path.")
ASSUMPTIONS = ["real arithmetic", "term equality by congruence, then random interpretation"]


def lc(w, *terms):
    """sum of coefficient*value (coefficients are nodes or numbers)"""
    acc = None
    for c, v in terms:
        c = c if isinstance(c, N.Node) else N.const(c)
        t = N.mul(c, v)
        acc = t if acc is None else N.add(acc, t)
    return w.I.wrap(w.st, acc)


def spec(w, o, x, dt, method):
    f = lambda v: w.call(o, "differential_equation", v)
    n = w.node
    k1 = f(x)
    if method == "euler":
        return lc(w, (1, n(x)), (dt, n(k1))), k1
    k2 = f(lc(w, (1, n(x)), (N.div(dt, N.const(2)), n(k1))))
    k3 = f(lc(w, (1, n(x)), (N.div(dt, N.const(2)), n(k2))))
    k4 = f(lc(w, (1, n(x)), (dt, n(k3))))
    six = N.div(dt, N.const(6))
    x1 = lc(w, (1, n(x)), (six, n(k1)), (N.mul(N.const(2), six), n(k2)), (N.mul(N.const(2), six), n(k3)), (six, n(k4)))
    return x1, f(x1)


def make(w, name, D):
    if name.startswith("dmp"):
        return "Dmp", mk_dmp(w, D, dmp_type=name.split(":")[1])
    cls, mk = SYSTEMS[name]
    return cls, mk(w, D)


def rng(cls):
    return dict(lo="0.1", hi="0.9") if cls == "RichardsSystem" else {}


def step(s, name):
    w = s.world()
    cls, o = make(w, name, size("D"))
    s.at(f"{cls}.integrate_step", f"{cls}.integrate_step_runge_kutta", f"{cls}.integrate_step_euler")
    dt = S("dt", lo="0.01", hi="0.2")
    x = w.arr("x", w.node(w.get(o, "dim_x")), **rng(cls))
    for meth, kind in (("integrate_step_euler", "euler"), ("integrate_step_runge_kutta", "rk"), ("integrate_step", "rk")):
        w1 = w.fork()
        r = w1.call(o, meth, dt, x)
        w2 = w.fork()
        e = spec(w2, o, x, dt.node, kind)
        for part, a, b in (("state", 0, 0), ("rate", 1, 1)):
            s.same(f"{meth}/{part}", sysmodels(3), w1.node(r.items[a]), w2.node(e[b]),
                   f"{'Euler' if kind == 'euler' else 'Runge-Kutta'} step: returned {part} is the textbook one")
    for meth in ("integrate_step_euler", "integrate_step_runge_kutta", "integrate_step"):
        w3 = w.fork()
        bad = w3.arr("bad", N.add(w3.node(w3.get(o, "dim_x")), N.const(1)))
        s.rejects(f"{meth}/rejects-wrong-size", w3, lambda: w3.call(o, meth, dt, bad), "a state of the wrong size is rejected")


def series(s, name, method):
    w = s.world()
    cls, o = make(w, name, size("D"))
    s.at(f"{cls}.integrate")
    ts = w.arr("ts", size("T", 3), increasing=True)
    kw = {} if method is None else dict(integration_method=strv(method))
    kind = "rk" if method in (None, "Runge-Kutta") else "euler"
    w1 = w.fork()
    r = w1.call(o, "integrate", ts, **kw)
    nx, nxd = w1.node(r.items[0]), w1.node(r.items[1])
    w2 = w.fork()
    x, xd = w2.call(o, "integrate_start").items
    mods = [ri.Model(50 + k, sizes=dict(D=1 + k % 2, T=3 + k % 2)) for k in range(3)]
    for j in range(3):
        if j:
            dt = N.sub(w2.node(w2.item(ts, j)), w2.node(w2.item(ts, j - 1)))
            x, xd = spec(w2, o, x, dt, kind)
        a, b = w2.node(x), w2.node(xd)
        s.same(f"row{j}/state", mods, lambda m: m.ev(nx)[j], lambda m: ri.flat(m.ev(a)), f"row {j} of the integrated states follows from the previous row and the elapsed time")
        s.same(f"row{j}/rate", mods, lambda m: m.ev(nxd)[j], lambda m: ri.flat(m.ev(b)), f"row {j} of the integrated rates belongs to that row's step")
    s.forall("shape", mods, lambda m: m.ev(nx).shape == m.ev(nxd).shape and m.ev(nx).shape[0] == m.sizes["T"], "one row per requested time")


def build(chk):
    names = list(SYSTEMS) + ["dmp:" + t for t in DMP_TYPES]
    for n in names:
        chk.scenario(f"step/{n}", step, n)
        for meth in (None, "Runge-Kutta", "Euler"):
            chk.scenario(f"series/{n}/{meth or 'default'}", series, n, meth)

"""C01: closed-form solutions are solutions of the system's own differential equation."""
from .common import *

EXPLANATION = ("For every dynamical system class and every parameter form its constructor accepts (shared scalar, one value per "
               "dimension, list), the value graphs of the batch solution and of the rate function are computed by abstract "
               "interpretation of the source (symbolic dimension, symbolic number of samples, no path enumeration). Obligations, "
               "decided on the terms: first row at time zero equals the initial state; the rate series is the formal time derivative "
               "(dual-number differentiation of the term) of the state series; the rate function applied to row k equals rate row k; "
               "row k is a function of time k only. Repeated after the initial state / time constant / attractor were changed "
               "following an earlier query, and after parameters were decoupled.")
ASSUMPTIONS = ["real arithmetic (rounding is not modelled)", "term equality decided by congruence, then by random interpretation over 40-digit reals",
               "spring-damper: critically damped; Richards: parameters for which the power base is positive"]


def reconfigure(w, cls, o, D):
    """A history: query, then change everything the class lets its user change."""
    w.call(o, "analytical_solution", w.arr("ts0", size("T0", 2), increasing=True))
    w.set(o, "tau", S("tau2", pos=True))
    if cls == "TimeSystem":
        return
    w.set(o, "y_init", w.arr("x0b", D, **(dict(lo="0.1", hi="0.9") if cls == "RichardsSystem" else {})))
    if cls in ("ExponentialSystem", "SpringDamperSystem"):
        w.set(o, "y_attr", w.arr("gb", D))


def scenario(s, name, variant):
    cls, mk = SYSTEMS[name]
    s.at(f"{cls}.analytical_solution", f"{cls}.differential_equation")
    w = s.world()
    D, T = size("D"), size("T", 2)
    Dn = N.const(2) if "list" in name else D
    o = mk(w, D)
    if variant == "reconfigured":
        reconfigure(w, cls, o, Dn)
    if variant == "decoupled":
        w.call(o, "decouple_parameters")
    if variant == "moving-start" and cls != "TimeSystem":
        w.set(o, "x_init", w.arr("xfull", w.node(w.get(o, "dim_x")), **(dict(lo="0.1", hi="0.9") if cls == "RichardsSystem" else {})))
    ts = w.arr("ts", T, increasing=True)
    r = w.call(o, "analytical_solution", ts)
    xs, xds = r.items
    nx, nxd = w.node(xs), w.node(xds)
    # shape
    dx = w.node(w.get(o, "dim_x"))
    s.forall("shape", sysmodels(2), lambda m: m.ev(nx).shape == (m.sizes["T"], ri.as_int(m.ev(dx))) == m.ev(nxd).shape,
             "both series have one row per requested time and one column per state dimension", rule="shape of the term")
    # start
    m0 = sysmodels(3, ts=lambda m, sh: col(*([0] + [mpf(k) / 3 for k in range(1, sh[0])])))
    x0 = w.node(w.get(o, "x_init"))
    s.same("starts-at-initial-state", m0, lambda m: m.ev(nx)[0], lambda m: ri.flat(m.ev(x0)), "the state at time zero is the initial state")
    # derivative
    s.same("rate-is-time-derivative", sysmodels(4, dual="ts"), lambda m: ri.values(m.ev(nxd)), lambda m: ri.derivs(m.ev(nx)),
           "the reported rates are the time derivative of the reported states", rule="formal differentiation of the term")
    # ode
    for j in range(2):
        row = w.item(xs, j)
        nd = w.node(w.call(o, "differential_equation", row))
        s.same(f"satisfies-differential-equation/{j}", sysmodels(4), lambda m: m.ev(nxd)[j], lambda m: ri.flat(m.ev(nd)),
               "the reported rate of a state is the rate the differential equation gives for it")
    # locality
    mods = [(sysmodels(1, seed=7 + k, ts=lambda m, sh: col(0.1, 0.7, 1.3), T=3)[0],
             sysmodels(1, seed=7 + k, ts=lambda m, sh: col(0.3, 0.7, 0.9, 4.0), T=4)[0]) for k in range(2)]

    def go(ab):
        a, b = ab
        ok = ri.close(a.ev(nx)[1], b.ev(nx)[1]) and ri.close(a.ev(nxd)[1], b.ev(nxd)[1])
        return ok, f"{ri.fmt(a.ev(nx)[1])} vs {ri.fmt(b.ev(nx)[1])}"
    s.forall("row-depends-on-own-time", mods, go, "a row depends on its own time only, not on the other requested times", rule="dependence")


def build(chk):
    for name, (cls, _) in SYSTEMS.items():
        for v in ("fresh", "reconfigured", "decoupled", "moving-start"):
            if cls == "TimeSystem" and v == "moving-start":
                continue
            chk.scenario(f"{name}/{v}", scenario, name, v)

"""C05: time units: scaling the time constant and all times by the same factor leaves the traversed states unchanged."""
from .c03 import cfg
from .dmp import *

EXPLANATION = ("The terms of the closed-form solutions, rate functions and integration steps are interpreted twice: once at random "
               "leaves, once with the time constant, the requested times (and quantities that are rates by definition) multiplied by a "
               "random factor. States must be unchanged and rates divided by the factor - a dimensional-analysis (unit homogeneity) "
               "judgement on the terms. Decided for every system class, parameter form, DMP type and scaling.")
ASSUMPTIONS = ["real arithmetic", "the logistic system's growth rate is a quantity per unit time, every other shape parameter is dimensionless"]
C = mpf("2.37")


def pair(k, **sizes):
    up = lambda v: v * C
    dn = lambda v: v / C
    post = dict(tau=up, ts=up, dt=up, rate=dn, rates=dn, tau2=up, ts0=up)
    return ri.Model(500 + k, sizes=sizes), Post(500 + k, post, sizes=sizes)


def rel(s, oid, n, factor, what, sizes):
    mods = [pair(k, **{a: b[k % len(b)] for a, b in sizes.items()}) for k in range(3)]

    def go(mm):
        a, b = mm[0].ev(n), mm[1].ev(n)
        want = ri.vec(lambda x: x * factor, a)
        return ri.close(b, want), f"{ri.fmt(b)} instead of {ri.fmt(want)}"
    s.forall(oid, mods, go, what, rule="unit homogeneity")


SZ = dict(D=[1, 2, 3], T=[3, 4, 3], T0=[2, 3, 2])


def systems(s, name, hist):
    cls, mk = SYSTEMS[name]
    s.at(f"{cls}.analytical_solution", f"{cls}.differential_equation", f"{cls}.tau")
    w = s.world()
    D, T = size("D"), size("T", 3)
    o = mk(w, D)
    if hist == "tau-changed":
        w.call(o, "analytical_solution", w.arr("ts0", size("T0", 2), increasing=True))
        w.set(o, "tau", S("tau2", pos=True))
    xs, xds = (w.node(v) for v in w.call(o, "analytical_solution", w.arr("ts", T, increasing=True)).items)
    rg = dict(lo="0.1", hi="0.9") if cls == "RichardsSystem" else {}
    x = w.arr("x", w.node(w.get(o, "dim_x")), **rg)
    if "gating" in name and hist == "tau-changed":
        return        # its growth rate was derived from the original time constant
    rel(s, "states", xs, 1, "the same states are traversed", SZ)
    rel(s, "rates", xds, 1 / C, "rates scale inversely", SZ)
    w1 = w.fork()
    rel(s, "rate-function", w1.node(w1.call(o, "differential_equation", x)), 1 / C, "the rate function scales inversely with the time constant", SZ)
    for meth in ("integrate_step_euler", "integrate_step_runge_kutta"):
        w2 = w.fork()
        a, b = w2.call(o, meth, S("dt", lo="0.01", hi="0.1"), x).items
        rel(s, meth + "/state", w2.node(a), 1, "a step over the scaled duration reaches the same state", SZ)
        rel(s, meth + "/rate", w2.node(b), 1 / C, "its rate scales inversely", SZ)


def dmp(s, typ, sc, combo):
    s.at("Dmp.analytical_solution", "Dmp.differential_equation")
    w = s.world()
    D, T = size("D"), size("T", 3)
    d = mk_dmp(w, D, typ, sc, **cfg(w, D, combo))
    ts = w.arr("ts", T, increasing=True)
    w1 = w.fork()
    r = [w1.node(v) for v in w1.call(d, "analytical_solution", ts).items]
    rel(s, "states", r[0], 1, "the same states are traversed", SZ)
    rel(s, "rates", r[1], 1 / C, "rates scale inversely", SZ)
    rel(s, "forcing", r[2], 1, "the forcing term is unchanged", SZ)
    w2 = w.fork()
    st = w2.call(d, "integrate_start").items
    rel(s, "start/state", w2.node(st[0]), 1, "the same start state", SZ)
    rel(s, "start/rate", w2.node(st[1]), 1 / C, "the start rate scales inversely", SZ)
    for meth in ("integrate_step_euler", "integrate_step_runge_kutta"):
        w3 = w2.fork()
        a, b = w3.call(d, meth, S("dt", lo="0.01", hi="0.1"), st[0]).items
        rel(s, meth + "/state", w3.node(a), 1, "a step over the scaled duration reaches the same state", SZ)
        rel(s, meth + "/rate", w3.node(b), 1 / C, "its rate scales inversely", SZ)
    w4 = w1.fork()
    x = w4.call(d, "analytical_solution", ts).items
    tr = w4.call(d, "states_as_trajectory", ts, x[0], x[1])
    for a, f in (("ys", 1), ("yds", 1 / C), ("ydds", 1 / C ** 2)):
        rel(s, "trajectory/" + a, w4.node(w4.get(tr, a)), f, f"read-out {a} scale by the {'zeroth first second'.split()[('ys','yds','ydds').index(a)]} power", SZ)


def build(chk):
    for n in SYSTEMS:
        for h in ("fresh", "tau-changed"):
            chk.scenario(f"{n}/{h}", systems, n, h)
    for t in DMP_TYPES:
        for sc in SCALINGS:
            chk.scenario(f"dmp:{t}/{sc}", dmp, t, sc, None)
    for combo in ("no-goal-system", "goal-exponential", "damping-system", "phase-exponential", "stiff-spring"):
        chk.scenario(f"dmp:{combo}", dmp, "KULVICIUS_2012_JOINING", "NO_SCALING", combo)

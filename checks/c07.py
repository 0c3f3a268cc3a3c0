"""C07: changing the time constant, start or goal afterwards is the same as constructing with the new value."""
from .c03 import cfg
from .dmp import *

EXPLANATION = ("Typestate comparison: for every class the object obtained by a history (construct, optionally query, set time constant / "
               "start / goal through the public setters in every order, optionally repeatedly) is compared with a freshly constructed object "
               "on every observable: batch solution, rate function, start of integration, getters. DMP setters must reach every subsystem the "
               "DMP is composed of, including user-supplied ones. Wrong-sized values must be rejected on every path without effect.")
ASSUMPTIONS = ["the logistic gating system keeps its absolute growth rate when the time constant changes (as its own constructor defines it)",
               "term equality by congruence, then random interpretation"]
MODS = lambda: [ri.Model(700 + k, sizes=dict(D=1 + k % 3, T=3 + k % 2, T0=2)) for k in range(3)]
RG = lambda cls: dict(lo="0.1", hi="0.9") if cls == "RichardsSystem" else {}
RG2 = lambda cls: dict(lo="1.1", hi="2.5") if cls == "RichardsSystem" else {}


def params(w, D, cls, p):
    return dict(tau=S("tau" + p, pos=True), x0=w.arr("x0" + p, D, **RG(cls)), g=w.arr("g" + p, D, **RG2(cls)))


def build_sys(w, D, name, p):
    cls = SYSTEMS[name][0]
    v = params(w, D, cls, p)
    t, x0, g = v["tau"], v["x0"], v["g"]
    pd = "per-dim" in name
    if cls == "ExponentialSystem":
        return w.new(cls, t, x0, g, S("alpha_s", pos=True) if "shared" in name else w.arr("alpha", D, pos=True))
    if cls == "SigmoidSystem":
        return w.new(cls, t, x0, w.arr("rates", D) if pd else S("rate"), w.arr("infls", D, pos=True) if pd else S("infl", pos=True))
    if cls == "SpringDamperSystem":
        return w.new(cls, t, x0, g, w.arr("damps", D, pos=True) if pd else S("damp", pos=True))
    if cls == "RichardsSystem":
        return w.new(cls, t, x0, g, S("infl", lo="0.2", hi="0.9"), S("alpha_s", pos=True), S("v", lo="0.6", hi="2.5"))
    return w.new(cls, t, TRUEV if "down" in name else FALSEV)


def observe(w, o, cls, D):
    """All observables as nodes (each evaluated in its own fork of the state)."""
    out = {}
    ts = w.arr("ts", size("T", 3), increasing=True)
    w1 = w.fork()
    r = w1.call(o, "analytical_solution", ts)
    out["batch-states"], out["batch-rates"] = w1.node(r.items[0]), w1.node(r.items[1])
    w2 = w.fork()
    x, xd = w2.call(o, "integrate_start").items
    out["start-state"], out["start-rate"] = w2.node(x), w2.node(xd)
    w3 = w.fork()
    xx = w3.arr("x", w3.node(w3.get(o, "dim_x")), **(RG(cls) if cls != "Dmp" else {}))
    out["rate-function"] = w3.node(w3.call(o, "differential_equation", xx))
    w4 = w2.fork()
    a, b = w4.call(o, "integrate_step", S("dt", lo="0.01", hi="0.1"), x).items
    out["step-state"], out["step-rate"] = w4.node(a), w4.node(b)
    for g in ("tau", "y_init", "y_attr") if cls not in ("TimeSystem", "SigmoidSystem") else ("tau", "y_init"):
        w5 = w.fork()
        out["reads-" + g] = w5.node(w5.get(o, g))
    return out


def compare(s, oa, ob, what, skip=()):
    for k in oa:
        if k not in skip:
            s.same(k, MODS(), oa[k], ob[k], what + f" ({k.replace('-', ' ')})", flat=True)


ORDERS = {"tau": ["tau"], "start": ["y_init"], "goal": ["y_attr"], "all": ["tau", "y_init", "y_attr"], "all-reversed": ["y_attr", "y_init", "tau"]}


def apply(w, o, names, vals, cls):
    for n in names:
        if n == "y_attr" and cls in ("SigmoidSystem", "TimeSystem"):
            continue
        if n == "y_init" and cls == "TimeSystem":
            continue
        w.set(o, n, vals[dict(tau="tau", y_init="x0", y_attr="g")[n]])


def query(w, o):
    w.call(o, "analytical_solution", w.arr("ts0", size("T0", 2), increasing=True))
    w.call(o, "integrate_start")


def system(s, name, order, hist):
    cls = SYSTEMS[name][0]
    s.at(f"{cls}.tau", f"{cls}.y_init", cls)
    D = size("D")
    w = s.world()
    names = ORDERS[order]
    if hist == "repeated":
        o = build_sys(w, D, name, "P")
        mid = params(w, D, cls, "M")
        query(w, o)
        apply(w, o, names, mid, cls)
    else:
        o = build_sys(w, D, name, "P")
    if hist != "unused":
        query(w, o)
    apply(w, o, names, params(w, D, cls, "N"), cls)
    # reference: constructed with new values for the changed parameters, old ones for the others
    w2 = s.world()
    vals = {"tau": "P", "x0": "P", "g": "P"}
    ref = build_mixed(w2, D, name, {"tau": "N" if "tau" in names else "P", "x0": "N" if "y_init" in names and cls != "TimeSystem" else "P", "g": "N" if "y_attr" in names else "P"})
    compare(s, observe(w, o, cls, D), observe(w2, ref, cls, D), "setting afterwards equals constructing with the value")


def build_mixed(w, D, name, which):
    cls = SYSTEMS[name][0]
    old = params

    def mixed(w_, D_, cls_, p_):
        return dict(tau=S("tau" + which["tau"], pos=True), x0=w_.arr("x0" + which["x0"], D_, **RG(cls_)), g=w_.arr("g" + which["g"], D_, **RG2(cls_)))
    globals()["params"] = mixed
    try:
        return build_sys(w, D, name, "")
    finally:
        globals()["params"] = old


def rejects(s, name):
    cls, mk = SYSTEMS[name]
    s.at(f"{cls}.y_init")
    w = s.world()
    D = size("D")
    o = mk(w, D)
    big = w.arr("big", N.add(D, N.const(1)))
    bigx = w.arr("bigx", N.add(w.node(w.get(o, "dim_x")), N.const(1)))
    s.rejects("start-of-wrong-size", w.fork(), lambda: (lambda v: v.set(o, "y_init", big))(w.fork()), "a start of the wrong size is rejected")
    s.rejects("state-of-wrong-size", w.fork(), lambda: (lambda v: v.set(o, "x_init", bigx))(w.fork()), "an initial state of the wrong size is rejected")
    if cls not in ("SigmoidSystem", "TimeSystem"):
        s.rejects("goal-of-wrong-size", w.fork(), lambda: (lambda v: v.set(o, "y_attr", big))(w.fork()), "a goal of the wrong size is rejected")


def countdown(s):
    s.at("TimeSystem.count_down")
    for a, b in ((True, False), (False, True)):
        w = s.world()
        o = w.new("TimeSystem", S("tauP", pos=True), Sc(N.const(a)))
        query(w, o)
        w.set(o, "count_down", Sc(N.const(b)))
        w2 = s.world()
        ref = w2.new("TimeSystem", S("tauP", pos=True), Sc(N.const(b)))
        oa, ob = observe(w, o, "TimeSystem", None), observe(w2, ref, "TimeSystem", None)
        for k in oa:
            s.same(f"{a}-{b}/{k}", MODS(), oa[k], ob[k], "changing the direction of time equals constructing with it", flat=True)


# ------------------------------------------------------------------ DMP
def gating_for(w, typ, which):
    """The logistic gating system with growth rate fixed by the time constant it was created with."""
    if typ not in ("KULVICIUS_2012_JOINING", "COUNTDOWN_2013"):
        return {}
    g = w.static("SigmoidSystem", "for_gating", S("tauP", pos=True))
    if which["tau"] == "N":
        w.set(g, "tau", S("tauN", pos=True))
    return dict(gating_system=g)


def mkdmp(w, D, typ, sc, which, combo=None, custom=True):
    sct = "SCT23" in typ or typ == "2022"
    tau = S("tau" + which["tau"], pos=True)
    y0 = w.arr("x0" + which["x0"], D, **(dict(lo="0.1", hi="0.9") if sct else {}))
    g = w.arr("g" + which["g"], D, **(dict(lo="1.1", hi="2.5") if sct else {}))
    kw = dict(dmp_type=strv(typ), forcing_term_scaling=strv(sc))
    if sc == "AMPLITUDE_SCALING":
        kw["scaling_amplitudes"] = w.arr("amp", D, pos=True)
    if custom:
        kw.update(gating_for(w, typ, which))
    if combo:
        kw.update(combo(w, D, tau, y0, g))
    return w.new("Dmp", tau, y0, g, fa_list(w, D), **kw)


COMBOS = {
    "no-goal-system": lambda w, D, t, y0, g: dict(goal_system=NONEV),
    "damping-system": lambda w, D, t, y0, g: dict(damping_system=w.new("ExponentialSystem", t, w.arr("d0", D, pos=True), w.arr("d1", D, pos=True), S("adamp", pos=True))),
    "exponential-all": lambda w, D, t, y0, g: dict(phase_system=w.new("ExponentialSystem", t, num(1), num(0), S("aph", pos=True)),
                                                  gating_system=w.new("ExponentialSystem", t, num(1), num(0), S("agt", pos=True)),
                                                  goal_system=w.new("ExponentialSystem", t, y0, g, S("agoal", pos=True))),
    "richards-gating": lambda w, D, t, y0, g: dict(gating_system=w.new("RichardsSystem", t, w.arr("one", 1, lo="0.9", hi="1.1"), w.arr("zero", 1, lo="0", hi="0.1"), num(1), num(10), num(10))),
    "custom-spring": lambda w, D, t, y0, g: dict(transformation_system=w.new("SpringDamperSystem", t, y0, g, S("damp", pos=True), S("k", pos=True), S("m", pos=True))),
}


def dmp(s, typ, sc, order, hist, combo=None):
    s.at("Dmp.tau", "Dmp.y_init", "Dmp.y_attr")
    D = size("D")
    names = ORDERS[order]
    w = s.world()
    P = dict(tau="P", x0="P", g="P")
    cb = COMBOS[combo] if combo else None
    o = mkdmp(w, D, typ, sc, P, cb)
    sct = "SCT23" in typ or typ == "2022"

    def setall(p):
        for n in names:
            v = {"tau": lambda: S("tau" + p, pos=True),
                 "y_init": lambda: w.arr("x0" + p, D, **(dict(lo="0.1", hi="0.9") if sct else {})),
                 "y_attr": lambda: w.arr("g" + p, D, **(dict(lo="1.1", hi="2.5") if sct else {}))}[n]()
            w.set(o, n, v)
    if hist != "unused":
        query(w, o)
    if hist == "repeated":
        setall("M")
        query(w, o)
    if hist == "start-argument":
        # start given when integration begins
        w.call(o, "integrate_start", w.arr("x0N", D, **(dict(lo="0.1", hi="0.9") if sct else {})))
    else:
        setall("N")
    w2 = s.world()
    ref = mkdmp(w2, D, typ, sc, {"tau": "N" if "tau" in names else "P", "x0": "N" if "y_init" in names else "P", "g": "N" if "y_attr" in names else "P"}, cb)
    compare(s, observe(w, o, "Dmp", D), observe(w2, ref, "Dmp", D), "setting afterwards equals constructing with the value")


def dmp_rejects(s, typ):
    s.at("Dmp.y_init", "Dmp.y_attr")
    w = s.world()
    D = size("D")
    o = mkdmp(w, D, typ, "NO_SCALING", dict(tau="P", x0="P", g="P"))
    big = w.arr("big", N.add(D, N.const(1)))
    s.rejects("start-of-wrong-size", w, lambda: (lambda v: v.set(o, "y_init", big))(w.fork()), "a start of the wrong size is rejected")
    s.rejects("goal-of-wrong-size", w, lambda: (lambda v: v.set(o, "y_attr", big))(w.fork()), "a goal of the wrong size is rejected")


def build(chk):
    for n in ("exponential", "exponential-shared-rate", "sigmoid", "sigmoid-per-dim", "spring-damper", "spring-damper-per-dim", "richards", "time-up", "time-down"):
        for order in ORDERS:
            for h in ("unused", "used", "repeated"):
                chk.scenario(f"{n}/{order}/{h}", system, n, order, h)
        chk.scenario(f"{n}/rejects", rejects, n)
    chk.scenario("time/direction", countdown)
    for t in DMP_TYPES:
        for sc in SCALINGS if chk.thorough else ("NO_SCALING", "G_MINUS_Y0_SCALING"):
            for order in ORDERS:
                for h in ("unused", "used", "repeated"):
                    if h == "unused" and not chk.thorough and order != "all":
                        continue
                    chk.scenario(f"dmp:{t}/{sc}/{order}/{h}", dmp, t, sc, order, h)
            chk.scenario(f"dmp:{t}/{sc}/start/argument", dmp, t, sc, "start", "start-argument")
        chk.scenario(f"dmp:{t}/rejects", dmp_rejects, t)
    for c in COMBOS:
        for order in ORDERS:
            for h in ("used", "repeated"):
                chk.scenario(f"dmp:{c}/{order}/{h}", dmp, "KULVICIUS_2012_JOINING", "G_MINUS_Y0_SCALING", order, h, c)

"""C23: a dynamical system saved for C++ behaves there as in Python."""
import os
import subprocess
from .cpp_common import *

EXPLANATION = ("Construction, reconfiguration and savejson_for_cpp are interpreted abstractly over symbolic parameters; the JSON document they denote is given to the C++ reader, and the object it makes is "
               "asked for its rates, start, integration steps and closed-form solution - as read, after set_tau, and after the start was changed with each of the setters - "
               "over clang's AST of src/. The terms must equal those of the Python object put through the corresponding calls.")
ASSUMPTIONS = ["term equality by random interpretation (dimension 1..3, 1..4 times)", "parameters shared by all dimensions (the C++ classes have no others); exponential, sigmoid, spring-damper and time systems (the C++ library has no others)",
               "C++ is interpreted over clang's AST of src/ (default build flags), with Eigen and nlohmann::json modelled natively; asserts are enabled"]

TAU = dict(lo="0.4", hi="3")


def mk(w, kind, D):
    tau = S("tau", **TAU)
    x0, g = w.arr("x0", D), w.arr("g", D)
    if kind == "exponential":
        return "ExponentialSystem", w.new("ExponentialSystem", tau, x0, g, S("alpha", pos=True))
    if kind == "exponential-integer":
        return "ExponentialSystem", w.new("ExponentialSystem", num(1), x0, g, num(4))
    if kind == "sigmoid":
        return "SigmoidSystem", w.new("SigmoidSystem", tau, x0, S("rate"), S("infl", lo="0.3", hi="1.2"))
    if kind == "sigmoid-gating":
        return "SigmoidSystem", w.static("SigmoidSystem", "for_gating", tau, S("ratio", lo="0.02", hi="0.4"), Sc(N.const(D)))
    if kind == "spring-damper":
        return "SpringDamperSystem", w.new("SpringDamperSystem", tau, x0, g, S("damp", pos=True))
    if kind == "spring-damper-mass":
        d, m = S("damp", pos=True), S("mass", pos=True)
        return "SpringDamperSystem", w.new("SpringDamperSystem", tau, x0, g, d, Sc(N.div(N.mul(d.node, d.node), N.mul(N.const(4), m.node))), m)
    if kind == "spring-damper-loose":
        return "SpringDamperSystem", w.new("SpringDamperSystem", tau, x0, g, S("damp", pos=True), S("stiff", pos=True), S("mass", pos=True))
    if kind == "spring-damper-default-loose":
        return "SpringDamperSystem", w.new("SpringDamperSystem", tau, x0, g, S("damp", pos=True), strv("CRITICALLY_DAMPED"), S("mass", pos=True))
    return "TimeSystem", w.new("TimeSystem", tau, Sc(N.const(kind == "time-down")))


KINDS = ["exponential", "exponential-integer", "sigmoid", "sigmoid-gating", "spring-damper", "spring-damper-mass", "spring-damper-loose", "spring-damper-default-loose", "time-up", "time-down"]
BEFORE = ["fresh", "reconfigured", "used"]
AFTER = ["as-read", "set-tau", "set-y-init", "set-x-init", "start-y-init", "tau-and-start", "goal"]


def allowed(kind, before, after):
    if kind.startswith("time"):
        return after in ("as-read", "set-tau")
    if kind.startswith("sigmoid") and after == "goal":
        return False
    return True


def mods_(D):
    return sysmodels(3, D=D)


def case(s, kind, D, before, after, make=None, T=3):
    w = s.world()
    cls, o = mk(w, kind, D)
    s.at(*(("savejson_for_cpp", cls) if make is None else (cls,)))
    yi = w.arr("y0new", D)
    if before in ("reconfigured", "used"):
        if before == "used":
            w.call(o, "integrate_start")
            w.call(o, "analytical_solution", w.arr("tsold", 2, increasing=True, lo="0", hi="2"))
        w.set(o, "tau", S("tau2", **TAU))
        if not kind.startswith("time"):
            n = w.node(w.get(o, "dim_x"))
            w.set(o, "x_init", w.arr("x2", n))
            if kind.startswith(("exponential", "spring")):
                w.set(o, "x_attr" if kind.startswith("exp") else "y_attr", w.arr("g2", D))
    if make is None:
        doc = saved(w, o)
    else:
        make = make(w, kind, D)
    nx = int(N.cval(w.node(w.get(o, "dim_x"))))
    xi = w.arr("x0new", nx)
    t3 = S("tau3", **TAU)
    gn = w.arr("gnew", D)
    x = w.arr("x", nx, lo="0.1", hi="0.9")
    ts = w.arr("ts", T, increasing=True, lo="0", hi="3")
    dt = S("dt", lo="0.01", hi="0.2")
    # ---- Python
    if after in ("set-tau", "tau-and-start"):
        w.set(o, "tau", t3)
    if after in ("set-y-init", "tau-and-start"):
        w.set(o, "y_init", yi)
    if after == "set-x-init":
        w.set(o, "x_init", xi)
    if after == "goal":
        w.set(o, "x_attr" if kind.startswith("exp") else "y_attr", gn)
    P = {}
    r = w.call(o, "integrate_start", *([yi] if after == "start-y-init" else []))
    P["start/state"], P["start/rate"] = r.items
    P["rates"] = w.call(o, "differential_equation", x)
    for nm, meth in (("euler", "integrate_step_euler"), ("runge-kutta", "integrate_step_runge_kutta"), ("step", "integrate_step")):
        P[nm + "/state"], P[nm + "/rate"] = w.call(o, meth, dt, x).items
    loose = kind.endswith("loose")
    if not loose:
        P["solution/states"], P["solution/rates"] = w.call(o, "analytical_solution", ts).items
    P["tau"], P["dim"], P["dim-y"] = w.get(o, "tau"), w.get(o, "dim_x"), w.get(o, "dim_y")
    P["initial-state"] = w.get(o, "x_init")
    P = {k: w.node(v) for k, v in P.items()}
    X, TS, XI, YI, G = (cells(w, w.node(v), n) for v, n in ((x, nx), (ts, T), (xi, nx), (yi, D), (gn, D)))

    def run(I, backwards=False):
        c = cpp.Client(I)
        ds = c.from_json("DynamicalSystem", doc) if make is None else make(c)
        if after in ("set-tau", "tau-and-start"):
            c.call(ds, "set_tau", term(t3.node))
        if after in ("set-y-init", "tau-and-start"):
            c.call(ds, "set_y_init", c.vec(YI))
        if after == "set-x-init":
            c.call(ds, "set_x_init", c.vec(XI))
        if after == "goal":
            c.call(ds, "set_x_attr" if kind.startswith("exp") else "set_y_attr", c.vec(G))
        out = {}
        v = lambda: c.empty(nx, 1, "col")

        def start():
            a, b = v(), v()
            c.call(ds, "integrateStart", *([c.vec(YI)] if after == "start-y-init" else []), a, b)
            out["start/state"], out["start/rate"] = a, b

        def rates():
            b = v()
            c.call(ds, "differentialEquation", c.vec(X), b)
            out["rates"] = b

        def steps():
            for nm, meth in (("euler", "integrateStepEuler"), ("runge-kutta", "integrateStepRungeKutta"), ("step", "integrateStep")):
                a, b = v(), v()
                c.call(ds, meth, term(dt.node), c.vec(X), a, b)
                out[nm + "/state"], out[nm + "/rate"] = a, b
            # in place: the state is its own successor
            a, b = c.vec(X), v()
            c.call(ds, "integrateStep", term(dt.node), a, a, b)
            out["step-in-place/state"], out["step-in-place/rate"] = a, b

        def solution():
            if loose:
                return
            a, b = c.empty(), c.empty()
            c.call(ds, "analyticalSolution", c.vec(TS), a, b)
            out["solution/states"], out["solution/rates"] = a, b
            if nx != T:
                a, b = c.empty(nx, T), c.empty(nx, T)
                c.call(ds, "analyticalSolution", c.vec(TS), a, b)
                out["transposed/states"], out["transposed/rates"] = a, b

        def attributes():
            out["tau"], out["dim"], out["dim-y"] = c.call(ds, "tau"), c.call(ds, "dim"), c.call(ds, "dim_y")
            out["initial-state"] = c.call(ds, "x_init")
        for q in (start, rates, steps, solution, attributes) if not backwards else (attributes, solution, steps, rates, start):
            q()
        return out
    ms = mods_(D)
    F = lambda v: ri.flat(v) if isinstance(v, np.ndarray) else ri.obj1([mpf(v)])
    keys = list(P) + ["step-in-place/state", "step-in-place/rate"] + (["transposed/states", "transposed/rates"] if not loose and nx != T else [])

    def compare(tr, how):
        for k in keys:
            ref = k.replace("step-in-place", "step").replace("transposed", "solution")
            if k.startswith("transposed"):
                s.same(k + how, ms, lambda m: F(np.asarray(tr.value(m, k)).T), lambda m: F(m.ev(P[ref])), "asked for one column per time, C++ gives the Python solution transposed")
            else:
                s.same(k + how, ms, lambda m: F(tr.value(m, k)), lambda m: F(m.ev(P[ref])), f"C++ {ref.replace('/', ': ')} as in Python")
            if k.startswith("transposed"):
                s.same(k + "/shape" + how, ms, lambda m: ri.obj1([mpf(v) for v in tr.value(m, k).shape]), lambda m: ri.obj1([mpf(nx), mpf(T)]), "asked for one column per time, C++ gives one column per time")
            if k.startswith("solution"):
                s.same(k + "/shape" + how, ms, lambda m: ri.obj1([mpf(v) for v in tr.value(m, k).shape]), lambda m: ri.obj1([mpf(T), mpf(nx)]), "one row per time")
    for how in ("",) if after == "start-y-init" else ("", "/asked-backwards"):
        tr = cpp_run(s, lambda I: run(I, bool(how)))
        compare(tr, how)


def compiles(s):
    """Compile-time witness: the sources of the library type-check with the installed Eigen and nlohmann::json."""
    p = cpp.cpp_program()
    for f in p.files:
        rel = os.path.relpath(f, p.repo)
        if not f.endswith(".cpp") or not os.path.exists(f):
            continue
        msg = p.rejected.get(f)
        if msg:     # the project is built with g++: let it have the last word
            g = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-I" + os.path.join(p.repo, "src"), f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if g.returncode == 0:
                msg = None
        s.ob(rel, msg is None, "compiles" if msg is None else f"does not compile: {msg[:300]}", site=rel, rule="type checking")


def build(chk):
    cpp.cpp_program()
    chk.scenario("library", compiles)
    for kind in KINDS:
        for D in ((1,) if kind.startswith("time") else (1, 2) if not chk.thorough else (1, 2, 3)):
            for before in BEFORE:
                for after in AFTER:
                    if not allowed(kind, before, after) or before != "fresh" and after not in ("as-read", "tau-and-start"):
                        continue
                    chk.scenario(f"{kind}/{D}d/{before}/{after}", case, kind, D, before, after)
                    if before == "fresh" and after == "as-read":
                        for T in (1, 2, 5):
                            chk.scenario(f"{kind}/{D}d/{before}/{after}/times={T}", case, kind, D, before, after, None, T)

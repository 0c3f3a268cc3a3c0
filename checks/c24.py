"""C24: a DMP saved for C++ makes there the movement it makes in Python."""
from .cpp_common import *
from .dmp import *

EXPLANATION = ("Construction, training of the approximators, reconfiguration and savejson_for_cpp are interpreted abstractly over symbolic data; the JSON document they denote is given to the C++ reader, and the DMP it makes "
               "is asked for its start, rates, integration steps, batch solution, forcing terms and trajectory - as read, and after time constant, start and goal were changed there - over clang's AST of src/. "
               "The terms must equal those of the Python DMP put through the corresponding calls (the C++ state has no block for the damping coefficient; the others are compared).")
ASSUMPTIONS = ["term equality by random interpretation (1..2 dimensions, 3..4 times, approximators with 2 basis functions)", "DMPs made of the systems and approximators the C++ library has (exponential, sigmoid, time, RBFN, LWR), parameters shared by all dimensions",
               "C++ is interpreted over clang's AST of src/ (default build flags), with Eigen and nlohmann::json modelled natively; asserts are enabled"]

TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"]
AFTER = ["as-read", "set-tau", "set-y-init", "set-y-attr", "start-y-init", "everything", "late"]
TAU = dict(lo="0.4", hi="3")


def cfg(w, D, name, tau):
    """subsystem combinations beyond the ready-made types"""
    if name == "no-goal-system":
        return dict(goal_system=NONEV)
    if name == "goal-exponential":
        return dict(goal_system=w.new("ExponentialSystem", tau, w.arr("y0", D), w.arr("g", D), S("agoal", pos=True)))
    if name == "phase-exponential":
        return dict(phase_system=w.new("ExponentialSystem", tau, num(1), num(0), S("aphase", pos=True)))
    if name == "stiff-spring":
        return dict(transformation_system=w.new("SpringDamperSystem", tau, w.arr("y0", D), w.arr("g", D), S("dmp", pos=True), S("k", pos=True), S("m", pos=True)))
    return {}


def approximators(w, D, fas):
    if fas == "none":
        return NONEV
    if fas == "empty":
        return w.list()
    out = []
    for k in range(D):
        kind = ("RBFN", "LWR")[(k + (fas == "swapped")) % 2]
        f = w.new(CLS[kind], num(2), S("height", lo="0.3", hi="0.8"), S("reg", lo="0.05", hi="0.3"))
        w.call(f, "train", w.arr(f"X{k}", 4, 1, lo="-1", hi="2"), w.arr(f"t{k}", 4, lo="-3", hi="3"))
        out.append(f)
    return w.list(*out)


def case(s, typ, D, scaling, combo, fas, before, after, T=3, make=None):
    w = s.world()
    s.at(*(("savejson_for_cpp", "Dmp") if make is None else ("Dmp",)))
    tau = S("tau", **TAU)
    kw = cfg(w, D, combo, tau) if make is None else make.python(w, D, tau)
    if scaling:
        kw["forcing_term_scaling"] = strv(scaling)
        if scaling == "AMPLITUDE_SCALING":
            kw["scaling_amplitudes"] = w.arr("amp", D, pos=True)
    if combo == "alpha":
        kw["alpha_spring_damper"] = S("aspring", pos=True)
    fa = approximators(w, D, fas)
    if make is not None:
        make.take(w, D, tau, fa, scaling)
    o = w.new("Dmp", tau, w.arr("y0", D), w.arr("g", D), fa, dmp_type=strv(typ), **kw)
    if before == "used":
        w.call(o, "integrate_start")
        w.call(o, "analytical_solution", w.arr("tsold", 2, increasing=True, lo="0", hi="2"))
    if before != "fresh":
        w.set(o, "tau", S("tau2", **TAU))
        w.set(o, "y_init", w.arr("y02", D))
        w.set(o, "y_attr", w.arr("g2", D))
    doc = saved(w, o) if make is None else None
    yi, gn, t3 = w.arr("y0new", D), w.arr("gnew", D), S("tau3", **TAU)
    nx = 3 * D + 2
    ts = w.arr("ts", T, increasing=True, lo="0", hi="3")
    x, dt = w.arr("x", 4 * D + 2, lo="0.1", hi="0.9"), S("dt", lo="0.01", hi="0.2")
    if after == "late":     # far beyond the goal, gate almost closed, phase out of its usual range
        far = w.arr("far", 3 * D, lo="-50", hi="50")
        x = w.I.wrap(w.st, w.node(w.callf_np("concatenate", w.list(far, w.list(S("ph", lo="-3", hi="4"), S("gate", lo="-0.00001", hi="0.00001")), w.arr("xd", D)))))
    # ---- Python
    todo = {"everything": ("set-tau", "set-y-init", "set-y-attr")}.get(after, (after,))
    if "set-tau" in todo:
        w.set(o, "tau", t3)
    if "set-y-init" in todo:
        w.set(o, "y_init", yi)
    if "set-y-attr" in todo:
        w.set(o, "y_attr", gn)
    P = {}
    P["start/state"], P["start/rate"] = w.call(o, "integrate_start", *([yi] if after == "start-y-init" else [])).items
    n_ = w.node
    damp = n_(w.get(w.get(o, "_spring_system"), "damping_coefficient"))
    mods = sysmodels(2, D=D)
    P["rates"] = w.call(o, "differential_equation", w.I.wrap(w.st, xdamp(w, x, D, damp)))
    for nm, meth in (("euler", "integrate_step_euler"), ("step", "integrate_step")):
        P[nm + "/state"], P[nm + "/rate"] = w.call(o, meth, dt, w.I.wrap(w.st, xdamp(w, x, D, damp))).items
    sol = w.call(o, "analytical_solution", ts).items
    P["solution/states"], P["solution/rates"], P["forcing-terms"], P["approximations"] = sol
    P["tau"] = w.get(o, "tau")
    P["y-init"] = w.get(o, "y_init")
    tj = w.call(o, "states_as_trajectory", ts, sol[0], sol[1])
    for k in ("ts", "ys", "yds", "ydds"):
        P["trajectory/" + k] = w.get(tj, k)
    P = {k: n_(v) for k, v in P.items()}
    X, TS, YI, G = cells(w, n_(x), 4 * D + 2)[:nx], cells(w, n_(ts), T), cells(w, n_(yi), D), cells(w, n_(gn), D)

    def run(I, backwards=False):
        c = cpp.Client(I)
        ds = c.from_json("Dmp", doc) if make is None else make.cpp(c, D)
        if "set-tau" in todo:
            c.call(ds, "set_tau", term(t3.node))
        if "set-y-init" in todo:
            c.call(ds, "set_y_init", c.vec(YI))
        if "set-y-attr" in todo:
            c.call(ds, "set_y_attr", c.vec(G))
        out = {}
        v = lambda: c.empty(nx, 1, "col")

        def start():
            a, b = v(), v()
            c.call(ds, "integrateStart", *([c.vec(YI)] if after == "start-y-init" else []), a, b)
            out["start/state"], out["start/rate"] = a, b

        def rates():
            b = v()
            c.call(ds, "differentialEquation", c.vec(X), b)
            out["rates"] = b
            p, q, r = (c.empty(D, 1, "col") for _ in range(3))
            c.call(ds, "stateAsPosVelAcc", c.vec(X), b, p, q, r)
            out["pva"] = [p, q, r]

        def steps():
            for nm, meth in (("euler", "integrateStepEuler"), ("step", "integrateStep")):
                a, b = v(), v()
                c.call(ds, meth, term(dt.node), c.vec(X), a, b)
                out[nm + "/state"], out[nm + "/rate"] = a, b
            a, b = c.vec(X), v()
            c.call(ds, "integrateStep", term(dt.node), a, a, b)
            out["step-in-place/state"], out["step-in-place/rate"] = a, b

        def solution():
            a, b, f, g = c.empty(), c.empty(), c.empty(), c.empty()
            c.call(ds, "analyticalSolution", c.vec(TS), a, b, f, g)
            out["solution/states"], out["solution/rates"], out["forcing-terms"], out["approximations"] = a, b, f, g
            if nx != T:
                p, q = c.empty(nx, T), c.empty(nx, T)
                c.call(ds, "analyticalSolution", c.vec(TS), p, q, c.empty(), c.empty())
                out["transposed/states"], out["transposed/rates"] = p, q
            y, yd, ydd = c.empty(), c.empty(), c.empty()
            c.call(ds, "statesAsTrajectory", a, b, y, yd, ydd)
            out["trajectory/ys"], out["trajectory/yds"], out["trajectory/ydds"] = y, yd, ydd

        def attributes():
            out["tau"], out["dim"], out["dim-y"] = c.call(ds, "tau"), c.call(ds, "dim"), c.call(ds, "dim_y")
            out["y-init"] = c.call(ds, "y_init")
        for q in (start, rates, steps, solution, attributes) if not backwards else (attributes, solution, steps, rates, start):
            q()
        return out
    F = lambda v: ri.flat(v) if isinstance(v, np.ndarray) else ri.obj1([mpf(v)])

    def cut(k, v):
        v = ri.oarr(v)
        return v[..., :nx] if k.split("/")[-1] in ("state", "rate", "states", "rates") else v

    def compare(tr, how):
        for k in list(P) + ["step-in-place/state", "step-in-place/rate"]:
            if k == "trajectory/ts":
                continue
            ref = k.replace("step-in-place", "step")
            s.same(k + how, mods, lambda m: F(tr.value(m, k)), lambda m: F(cut(ref, m.ev(P[ref]))), f"C++ {ref.replace('/', ': ')} as in Python")
        if nx != T:
            for k in ("states", "rates"):
                s.same("transposed/" + k + how, mods, lambda m: F(np.asarray(tr.value(m, "transposed/" + k)).T), lambda m: F(cut(k, m.ev(P["solution/" + k]))), "asked for one column per time, C++ gives the Python solution transposed")
            s.same("transposed/shape" + how, mods, lambda m: ri.obj1([mpf(v) for v in tr.value(m, "transposed/states").shape]), lambda m: col(nx, T), "one column per time")
        s.same("dim" + how, mods, lambda m: F(tr.value(m, "dim")), lambda m: col(nx), "size of the C++ state")
        for i, nm in enumerate(("position", "velocity", "acceleration")):
            def want(m):
                X_, R_, t_ = ri.flat(m.ev(n_(x))), ri.flat(m.ev(P["rates"])), m.ev(P["tau"])
                return ri.obj1([(X_[k], R_[k], R_[D + k] / t_)[i] for k in range(D)])
            s.same("state-as/" + nm + how, mods, lambda m: F(tr.value(m, "pva", i)), want, f"{nm} read from state and rates")
        s.same("solution/shape" + how, mods, lambda m: ri.obj1([mpf(v) for v in tr.value(m, "solution/states").shape]), lambda m: col(T, nx), "one row per time")
    for how in ("",) if after == "start-y-init" else ("", "/asked-backwards"):
        tr = cpp_run(s, lambda I: run(I, bool(how)))
        compare(tr, how)


def xdamp(w, x, D, damp):
    """Python state with the damping coefficient of the spring in its own block."""
    e = [N.mk("index", w.node(x), N.const(i), attr="p") for i in range(3 * D + 2)]
    return w.node(w.callf_np("array", w.list(*(w.I.wrap(w.st, v) for v in e), *[w.I.wrap(w.st, damp)] * D)))


def build(chk):
    cpp.cpp_program()
    for D in (1, 2):
        for typ in TYPES:
            for after in AFTER:
                chk.scenario(f"{typ}/{D}d/{after}", case, typ, D, None, "", "trained", "fresh", after)
            for T in (1, 2, 5):
                chk.scenario(f"{typ}/{D}d/times={T}", case, typ, D, None, "", "trained", "fresh", "as-read", T)
            for before in ("reconfigured", "used"):
                for after in ("as-read", "everything"):
                    chk.scenario(f"{typ}/{D}d/{before}/{after}", case, typ, D, None, "", "trained", before, after)
            for sc in SCALINGS[1:]:
                for after in ("as-read", "everything", "start-y-init"):
                    chk.scenario(f"{typ}/{D}d/{sc}/{after}", case, typ, D, sc, "", "swapped", "fresh", after)
            for fas in ("none", "empty"):
                chk.scenario(f"{typ}/{D}d/approximators={fas}", case, typ, D, None, "", fas, "fresh", "as-read")
            for combo in ("no-goal-system", "goal-exponential", "phase-exponential", "stiff-spring", "alpha"):
                for after in ("as-read", "everything"):
                    chk.scenario(f"{typ}/{D}d/{combo}/{after}", case, typ, D, None, combo, "trained", "fresh", after)

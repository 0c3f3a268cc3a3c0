"""C27: the real-time calls of the C++ library allocate no memory."""
import math
from .cpp_common import *
from .dmp import *
from . import c23, c24, c25
from .c24 import TAU, TYPES, approximators
from .c25 import SCALINGS, Make

EXPLANATION = ("Effect analysis over clang's AST of src/: systems, DMPs and approximators are read from the JSON written by Python or made with the public constructors, given right-sized vectors, and every expression their real-time calls "
               "evaluate (including those of the functions these call) is classified by its type and the sizes it is given: constructions and copies of dynamic matrices, vectors and strings, products evaluated into temporaries, "
               "expressions bound to a Ref, matrices that change their size, growing containers and new. None may remain on any path.")
ASSUMPTIONS = ["sizes are those of 1..2 dimensions and 1..6 basis functions", "C++ is interpreted over clang's AST of src/ (default build flags); what Eigen allocates is read from the static types of its expressions and the sizes of its matrices (Eigen 3.4, products small enough to need no blocking)"]


def report(s, name, tr, ms, k, what):
    """No allocation of call k happens in any model."""
    bad = {}
    for m in ms:
        r = tr.pick(m)
        if isinstance(r, cpp.CppAbort):
            return s.ob(name, None, f"{what} (undecided: C++ aborts: {r})", rule="heap allocation")
        for dec, x, site in r[k]:
            try:
                if all(m.truth(c) == b for c, b in dec.items()):
                    bad.setdefault((x, site))
            except ri.Unknown:
                pass
    ev = "; ".join(f"{x} in {site}" for x, site in sorted(bad))
    s.ob(name, not bad, what if not bad else f"{what}: {ev}", site=sorted(bad)[0][1] if bad else None, rule="heap allocation")


def client(s, ms, build_, calls):
    """calls(c, object) lists (name, thunk) made twice in a row, in this order and backwards."""
    for order in (1, -1):
        def run(I):
            c = cpp.Client(I)
            o = build_(c)
            out = {}
            for k in (1, 2):
                for n, f in calls(c, o)[::order]:
                    if n is None:
                        f()
                    else:
                        out[n, k] = c.heap(f)
            return out
        tr = cpp_run(s, run)
        names = [k for _, r in tr.out if not isinstance(r, cpp.CppAbort) for k in r]
        for n, k in dict.fromkeys(names):
            if order == 1 or k == 1:
                report(s, f"{n}/{('first', 'second')[k - 1]}" + ("" if order == 1 else "/backwards"), tr, ms, (n, k), f"{n} allocates no memory")


def steps(c, ds, X, nx, dt):
    v = lambda: c.empty(nx, 1, "col")
    b = v()
    yield "differentialEquation", lambda: c.call(ds, "differentialEquation", c.vec(X), b)
    for meth in ("integrateStepEuler", "integrateStepRungeKutta", "integrateStep"):
        yield meth, lambda meth=meth: c.call(ds, meth, dt, c.vec(X), v(), v())

    def in_place():
        a = c.vec(X)
        c.call(ds, "integrateStep", dt, a, a, v())
    yield "integrateStep (in place)", in_place


def system(s, kind, D, json, changed):
    w = s.world()
    cls, o = c23.mk(w, kind, D)
    s.at(*(("savejson_for_cpp", cls) if json else (cls,)))
    doc = saved(w, o) if json else None
    make = None if json else c25.system(w, kind, D)
    nx = int(N.cval(w.node(w.get(o, "dim_x"))))
    x, dt, t3 = w.arr("x", nx, lo="0.1", hi="0.9"), S("dt", lo="0.01", hi="0.2"), S("tau3", **TAU)
    X, YI, G = cells(w, w.node(x), nx), cells(w, w.node(w.arr("y0new", D)), D), cells(w, w.node(w.arr("gnew", D)), D)
    goal = None if kind.startswith(("sig", "time")) else "set_x_attr" if kind.startswith("exp") else "set_y_attr"

    def make_(c):
        ds = make(c) if make else c.from_json("DynamicalSystem", doc)
        if changed:
            c.call(ds, "set_tau", term(t3.node))
            if not kind.startswith("time"):
                c.call(ds, "set_y_init", c.vec(YI))
            if goal:
                c.call(ds, goal, c.vec(G))
        return ds

    def calls(c, ds):
        return list(steps(c, ds, X, nx, term(dt.node))) + ([(goal, lambda: c.call(ds, goal, c.vec(G)))] if goal else [])
    client(s, sysmodels(2, D=D), make_, calls)


def dmp(s, typ, D, scaling, combo, fas, how, changed):
    w = s.world()
    s.at(*(("savejson_for_cpp", "Dmp") if how == "json" else ("Dmp",)))
    tau = S("tau", **TAU)
    fa = approximators(w, D, fas)
    make = None
    if how == "json":
        kw = c24.cfg(w, D, combo, tau)
        if scaling != "NO_SCALING":
            kw["forcing_term_scaling"] = strv(scaling)
        if scaling == "AMPLITUDE_SCALING":
            kw["scaling_amplitudes"] = w.arr("amp", D, pos=True)
        doc = saved(w, w.new("Dmp", tau, w.arr("y0", D), w.arr("g", D), fa, dmp_type=strv(typ), **kw))
    else:
        make = Make(typ, how, combo != "no-goal-system")
        make.python(w, D, tau)
        make.take(w, D, tau, fa, scaling)
    nx = 3 * D + 2
    x, dt, t3 = w.arr("x", nx, lo="0.1", hi="0.9"), S("dt", lo="0.01", hi="0.2"), S("tau3", **TAU)
    X, YI, G = cells(w, w.node(x), nx), cells(w, w.node(w.arr("y0new", D)), D), cells(w, w.node(w.arr("gnew", D)), D)

    def make_(c):
        ds = make.cpp(c, D) if make else c.from_json("Dmp", doc)
        if changed:
            c.call(ds, "set_tau", term(t3.node))
            c.call(ds, "set_y_init", c.vec(YI))
            c.call(ds, "set_y_attr", c.vec(G))
        return ds

    def calls(c, ds):
        v = lambda n=D: c.empty(n, 1, "col")
        return list(steps(c, ds, X, nx, term(dt.node))) + [("set_y_attr", lambda: c.call(ds, "set_y_attr", c.vec(G))),
                                                          ("stateAsPosVelAcc", lambda: c.call(ds, "stateAsPosVelAcc", c.vec(X), c.vec(X), v(), v(), v()))]
    client(s, sysmodels(2, D=D), make_, calls)


def approximator(s, kind, d, nb, json):
    w = s.world()
    s.at(*(("savejson_for_cpp", CLS[kind]) if json else (CLS[kind],)))
    n = num(nb[0]) if d == 1 else w.list(*map(num, nb))
    f = w.new(CLS[kind], n, S("height", lo="0.3", hi="0.8"), S("reg", lo="0.05", hi="0.3"))
    w.call(f, "train", *data(w, d))
    names = ("centers", "widths") + (("weights",) if kind == "RBFN" else ("slopes", "offsets"))
    k_ = math.prod(nb)
    doc = saved(w, f) if json else None
    P = None if json else [cells(w, w.node(w.item(w.get(f, "_model_params"), strv(x))), k_, 1 if x in ("weights", "offsets") else d) for x in names]
    q = cells(w, w.node(w.arr("Q", 2, d, lo="-2", hi="2")), 2, d)

    def make_(c):
        return c.from_json("FunctionApproximator", doc) if json else c.new(CLS[kind], *map(c.mat, P))

    def calls(c, fa):
        out = [("predictRealTime", lambda: c.call(fa, "predictRealTime", c.mat(q[:1], "row"), c.empty(1, 1, "col")))]
        out.append((None, lambda: c.call(fa, "predict", c.mat(q), c.empty(2, 1))))
        out.append(("predictRealTime (after predict)", lambda: c.call(fa, "predictRealTime", c.mat(q[1:], "row"), c.empty(1, 1, "col"))))
        return out
    client(s, fmods(2), make_, calls)


def build(chk):
    cpp.cpp_program()
    for how in (True, False):
        h = "json" if how else "constructor"
        for changed in (False, True):
            ch = "changed" if changed else "as-made"
            for kind in c23.KINDS:
                if kind == "sigmoid-gating" and not how:
                    continue
                for D in (1,) if kind.startswith("time") else (1, 2):
                    chk.scenario(f"system/{kind}/{D}d/{h}/{ch}", system, kind, D, how, changed)
        for kind in ("RBFN", "LWR"):
            for d in (1, 2):
                for nb in ((1,), (3,)) if d == 1 else ((1, 2), (3, 2)):
                    chk.scenario(f"approximator/{kind}/{d}d/{'x'.join(map(str, nb))}/{h}", approximator, kind, d, nb, how)
    for D in (1, 2):
        for changed in (False, True):
            ch = "changed" if changed else "as-made"
            for typ in TYPES:
                for how in ("json", "parts", "parts-unset", "type", "type-unset"):
                    for sc in SCALINGS if how in ("json", "type") or chk.thorough else SCALINGS[:1]:
                        for fas in (("trained", "swapped") if how == "json" and D == 1 else ("trained",)):
                            chk.scenario(f"dmp/{typ}/{D}d/{how}/{sc}/{fas}/{ch}", dmp, typ, D, sc, "", fas, how, changed)
                for how, combo in (("json", "no-goal-system"), ("json", "goal-exponential"), ("json", "phase-exponential"), ("json", "stiff-spring"), ("parts", "no-goal-system")):
                    chk.scenario(f"dmp/{typ}/{D}d/{how}/{combo}/{ch}", dmp, typ, D, "NO_SCALING", combo, "trained", how, changed)
                chk.scenario(f"dmp/{typ}/{D}d/json/no-approximators/{ch}", dmp, typ, D, "NO_SCALING", "", "none", "json", changed)
            for combo in ("", "no-goal-system"):
                chk.scenario(f"dmp/no-forcing/{D}d/{combo or 'goal'}/{ch}", dmp, TYPES[0], D, "NO_SCALING", combo, "none", "no-forcing", changed)

"""C06: space: moving start and goal together moves the motion; scaling them scales it."""
from .c03 import cfg
from .dmp import *

EXPLANATION = ("The terms of the closed-form solutions, rate functions and rollouts are interpreted at random leaves and again with "
               "start and goal shifted by a random vector (states must shift by it, rates must not change), and with start, goal and "
               "amplitudes multiplied by random per-dimension factors (positions, velocities and accelerations must scale). Decided for "
               "every goal-directed system and for the DMP in every type, with the forcing-term scaling for which the law is promised.")
ASSUMPTIONS = ["real arithmetic", "shape parameters other than start, goal and amplitude are unchanged by the transformation"]
SZ = dict(D=[1, 2, 3], T=[3, 4, 3])


def vecfn(op, seed):
    def f(v):
        v = ri.oarr(v)
        out = v.copy()
        for i in range(v.shape[-1]):
            c = (mpf("0.6") + ri.rnd(seed, "c06", i) * 3) * (-1 if (i + seed) % 2 else 1)
            out[..., i] = v[..., i] + c if op == "shift" else v[..., i] * c
        return out
    return f


def pairs(op, names):
    out = []
    for k in range(3):
        sizes = {a: b[k % len(b)] for a, b in SZ.items()}
        f = vecfn(op, k)
        out.append((ri.Model(600 + k, sizes=sizes), Post(600 + k, {n: f for n in names}, sizes=sizes), f))
    return out


def rel(s, oid, ps, n, kind, what, cols=None):
    def go(p):
        a, b = ri.oarr(p[0].ev(n)), ri.oarr(p[1].ev(n))
        if cols is not None:
            a, b = a[..., cols(p[0])], b[..., cols(p[1])]
        want = p[2](a) if kind == "equivariant" else a
        return ri.close(b, want), f"{ri.fmt(b)} instead of {ri.fmt(want)}"
    s.forall(oid, ps, go, what, rule="equivariance of the term")


def system(s, name, op):
    cls, mk = SYSTEMS[name]
    s.at(f"{cls}.analytical_solution", f"{cls}.differential_equation")
    w = s.world()
    D, T = size("D"), size("T", 3)
    o = mk(w, D)
    ps = pairs(op, ["x0", "g", "x", "left"])
    xs, xds = (w.node(v) for v in w.call(o, "analytical_solution", w.arr("ts", T, increasing=True)).items)
    Y = lambda m: list(range(m.sizes["D"]))
    rel(s, "states", ps, xs, "equivariant", "the states move with start and goal", Y)
    rel(s, "rates", ps, xds, "equivariant" if op == "scale" else "invariant", "the rates follow", Y)
    if cls == "SpringDamperSystem":
        Z = lambda m: list(range(m.sizes["D"], 2 * m.sizes["D"]))
        rel(s, "velocity-states", ps, xs, "equivariant" if op == "scale" else "invariant", "the velocity part follows", Z)
        rel(s, "acceleration", ps, xds, "equivariant" if op == "scale" else "invariant", "the acceleration part follows", Z)
        return
    x = w.arr("x", D, lo="0.1", hi="0.9")
    rel(s, "rate-function", ps, w.node(w.call(o, "differential_equation", x)), "equivariant" if op == "scale" else "invariant", "the rate function follows")


def dmp(s, typ, sc, op, combo, fas):
    s.at("Dmp.analytical_solution", "Dmp.integrate_step", "Dmp.integrate_start")
    w = s.world()
    D, T = size("D"), size("T", 3)
    d = mk_dmp(w, D, typ, sc, fas=fas, **cfg(w, D, combo))
    ps = pairs(op, ["y0", "g", "amp"] if op == "scale" else ["y0", "g"])
    ts = w.arr("ts", T, increasing=True)
    r = w.call(d, "analytical_solution", ts).items
    tr = w.call(d, "states_as_trajectory", ts, r[0], r[1])
    k = "equivariant" if op == "scale" else "invariant"
    rel(s, "positions", ps, w.node(w.get(tr, "ys")), "equivariant", "positions move with start and goal")
    rel(s, "velocities", ps, w.node(w.get(tr, "yds")), k, "velocities follow")
    rel(s, "accelerations", ps, w.node(w.get(tr, "ydds")), k, "accelerations follow")
    w2 = w.fork()
    x, xd = w2.call(d, "integrate_start").items
    for j in range(2):
        y, v, a = w2.call(d, "states_as_pos_vel_acc", x, xd).items
        rel(s, f"step{j}/position", ps, w2.node(y), "equivariant", "step-by-step positions move with start and goal")
        rel(s, f"step{j}/velocity", ps, w2.node(v), k, "step-by-step velocities follow")
        rel(s, f"step{j}/acceleration", ps, w2.node(a), k, "step-by-step accelerations follow")
        x, xd = w2.call(d, "integrate_step", S("dt", lo="0.01", hi="0.1"), x).items


def build(chk):
    for n in ("exponential", "exponential-shared-rate", "spring-damper", "spring-damper-per-dim", "spring-damper-mass", "richards", "richards-per-dim", "richards-left-asymptote"):
        for op in ("shift", "scale"):
            chk.scenario(f"{n}/{op}", system, n, op)
    for op in ("shift", "scale"):
        for t in DMP_TYPES:
            for sc in SCALINGS:
                if op == "scale" and sc == "NO_SCALING":
                    chk.scenario(f"dmp:{t}/{sc}/{op}/no-forcing", dmp, t, sc, op, None, False)
                    continue
                chk.scenario(f"dmp:{t}/{sc}/{op}", dmp, t, sc, op, None, True)
        for combo in ("no-goal-system", "goal-exponential", "damping-system", "phase-exponential", "stiff-spring"):
            chk.scenario(f"dmp:{combo}/{op}", dmp, "KULVICIUS_2012_JOINING", "G_MINUS_Y0_SCALING", op, combo, True)

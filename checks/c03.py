"""C03: the batch rollout and the step-by-step equation of a DMP describe the same system."""
from .dmp import *

EXPLANATION = ("For every DMP type x forcing-term scaling x history (fresh, reconfigured), the terms of the batch rollout are compared "
               "row by row with the term of the DMP's rate function at that row's state; subsystem columns with the subsystem's own closed "
               "form; the first row with the start state; the spring columns with an explicit Euler step over the elapsed time; a rollout "
               "with the forcing term suppressed with a DMP that has no approximators.")
ASSUMPTIONS = ["function approximators are unknown pointwise functions of the phase", "real arithmetic",
               "term equality by congruence, then random interpretation; 1..3 dimensions, 3..4 samples per interpretation"]
MODS = lambda: [ri.Model(300 + k, sizes=dict(D=1 + k % 3, T=3 + k % 2)) for k in range(3)]


def cfg(w, D, name):
    """subsystem combinations beyond the ready-made types"""
    if name == "no-goal-system":
        return dict(goal_system=NONEV)
    if name == "goal-exponential":
        return dict(goal_system=w.new("ExponentialSystem", S("tau", pos=True), w.arr("y0", D), w.arr("g", D), S("agoal", pos=True)))
    if name == "damping-system":
        return dict(damping_system=w.new("ExponentialSystem", S("tau", pos=True), w.arr("d0", D, pos=True), w.arr("d1", D, pos=True), S("adamp", pos=True)))
    if name == "phase-exponential":
        return dict(phase_system=w.new("ExponentialSystem", S("tau", pos=True), num(1), num(0), S("aphase", pos=True)))
    if name == "stiff-spring":
        return dict(transformation_system=w.new("SpringDamperSystem", S("tau", pos=True), w.arr("y0", D), w.arr("g", D), S("dmp", pos=True), S("k", pos=True), S("m", pos=True)))
    return {}


def history(w, dmp, D, typ, which):
    rg = dict(lo="0.1", hi="0.9") if typ and "SCT23" in typ else {}
    rg2 = dict(lo="1.1", hi="2.5") if typ and "SCT23" in typ else {}
    if which == "reconfigured":
        w.call(dmp, "analytical_solution", w.arr("ts0", size("T0", 2), increasing=True))
        w.call(dmp, "integrate_start")
        w.set(dmp, "tau", S("tau2", pos=True))
        w.set(dmp, "y_init", w.arr("y0b", D, **rg))
        w.set(dmp, "y_attr", w.arr("gb", D, **rg2))
    if which == "decoupled":
        w.call(dmp, "decouple_parameters")


def idx(m, w, dmp, name):
    return [ri.as_int(v) for v in ri.oarr(m.ev(w.node(w.get(dmp, name)))).reshape(-1)]


def scenario(s, typ, sc, combo, hist):
    s.at("Dmp.analytical_solution", "Dmp.differential_equation", "Dmp.integrate_start")
    w = s.world()
    D, T = size("D"), size("T", 3)
    dmp = mk_dmp(w, D, typ, sc, **cfg(w, D, combo))
    history(w, dmp, D, typ, hist)
    ts = w.arr("ts", T, increasing=True)
    w1 = w.fork()
    xs, xds, ft, fo = w1.call(dmp, "analytical_solution", ts).items
    nx, nxd = w1.node(xs), w1.node(xds)
    mods = MODS()
    I = lambda m, nm: idx(m, w, dmp, nm)
    # row-wise agreement with the rate function
    for j in range(3):
        w2 = w1.fork()
        nd = w2.node(w2.call(dmp, "differential_equation", w2.item(xs, j)))
        s.same(f"row{j}-obeys-rate-function", mods, lambda m: rows(m, nxd, j), lambda m: ri.flat(m.ev(nd)),
               f"rates in row {j} of the batch rollout are the rates the step-by-step equation gives for that row's state")
    # start
    m0 = [ri.Model(300 + k, sizes=dict(D=1 + k % 3, T=3), values=dict(ts=col(0, 0.4, 1.1))) for k in range(3)]
    w3 = w.fork()
    st = w3.call(dmp, "integrate_start").items
    a, b = w3.node(st[0]), w3.node(st[1])
    s.same("start-state", m0, lambda m: rows(m, nx, 0), lambda m: ri.flat(m.ev(a)), "a rollout from time zero starts in the state step-by-step integration starts in")
    s.same("start-rate", m0, lambda m: rows(m, nxd, 0), lambda m: ri.flat(m.ev(b)), "... and with the same rates")
    # euler propagation of the transformation system
    for j in (1, 2):
        def euler(m):
            X, XD, t = m.ev(nx), m.ev(nxd), m.ev(w.node(ts))
            c = I(m, "SPRING")
            got, want = X[j][c], X[j - 1][c] + (t[j] - t[j - 1]) * XD[j - 1][c]
            return ri.close(got, want), f"{ri.fmt(got)} vs {ri.fmt(want)}"
        s.forall(f"row{j}-follows-row{j-1}", mods, euler, "position and velocity advance by the previous row's rates over the elapsed time")
    # subsystem columns are the closed forms
    for nm, sysname in (("PHASE", "_phase_system"), ("GATING", "_gating_system"), ("GOAL", "_goal_system"), ("DAMPING", "_damping_system")):
        if sysname not in w.attrs(dmp):
            continue
        sub = w.get(dmp, sysname)
        if not isinstance(sub, Obj):
            continue
        w4 = w.fork()
        r = w4.call(sub, "analytical_solution", ts).items
        ca, cb = w4.node(r[0]), w4.node(r[1])
        s.same(f"{nm.lower()}-states", mods, lambda m: m.ev(nx)[:, I(m, nm)], lambda m: m.ev(ca), f"{nm.lower()} columns are the {nm.lower()} system's closed form")
        s.same(f"{nm.lower()}-rates", mods, lambda m: m.ev(nxd)[:, I(m, nm)], lambda m: m.ev(cb), f"{nm.lower()} rate columns are the {nm.lower()} system's closed form")
    # columns partition the state
    s.forall("columns-partition-state", mods, lambda m: sorted(sum((I(m, n) for n in ("SPRING_Y", "SPRING_Z", "GOAL", "PHASE", "GATING", "DAMPING")), []))
             == list(range(m.ev(nx).shape[1])), "every state column belongs to exactly one subsystem")
    # forcing term = gate * output * scale
    nf, no = w1.node(ft), w1.node(fo)

    def forcing(m):
        f = m.ev(no) * m.ev(nx)[:, I(m, "GATING")]
        if sc == "G_MINUS_Y0_SCALING":
            f = f * (ri.flat(m.ev(w1.node(w1.get(dmp, "y_attr")))) - ri.flat(m.ev(w1.node(w1.get(dmp, "y_init")))))
        if sc == "AMPLITUDE_SCALING":
            f = f * ri.flat(m.ev(N.sym("amp", (N.sym("D", (), kind="int"),), pos=True)))
        return f
    s.same("forcing-term", mods, nf, forcing, "the forcing term is the gated, scaled output of the approximators")
    # suppressed forcing term
    w5 = w.fork()
    xs5, xds5, ft5, fo5 = w5.call(dmp, "analytical_solution", ts, TRUEV).items
    w6 = s.world()
    d6 = mk_dmp(w6, D, typ, sc, fas=False, **cfg(w6, D, combo))
    history(w6, d6, D, typ, hist)
    xs6, xds6, _, _ = w6.call(d6, "analytical_solution", w6.arr("ts", T, increasing=True)).items
    s.same("suppressed/states", mods, w5.node(xs5), w6.node(xs6), "with the forcing term suppressed the DMP moves as one without approximators")
    s.same("suppressed/rates", mods, w5.node(xds5), w6.node(xds6), "with the forcing term suppressed the DMP moves as one without approximators")
    s.forall("suppressed/zero", mods, lambda m: all(v == 0 for v in ri.flat(m.ev(w5.node(ft5)))), "a suppressed forcing term is zero")
    # read-out
    w7 = w1.fork()
    tr = w7.call(dmp, "states_as_trajectory", ts, xs, xds)
    ny, nyd, nydd = (w7.node(w7.get(tr, a)) for a in ("ys", "yds", "ydds"))
    for j in (0, 2):
        p, v, a = w7.call(dmp, "states_as_pos_vel_acc", w7.item(xs, j), w7.item(xds, j)).items
        for nm, x, series in (("position", p, ny), ("velocity", v, nyd), ("acceleration", a, nydd)):
            nn = w7.node(x)
            s.same(f"readout-row{j}/{nm}", mods, lambda m: rows(m, series, j), lambda m: ri.flat(m.ev(nn)), f"{nm} read out of a single state and of a whole rollout agree")
    s.same("readout/position", mods, ny, lambda m: m.ev(nx)[:, I(m, "SPRING_Y")], "positions are the transformation system's y")
    s.same("readout/velocity", mods, nyd, lambda m: m.ev(nx)[:, I(m, "SPRING_Z")] / m.ev(w.node(w.get(dmp, "tau"))), "velocities are z/tau")
    s.same("readout/acceleration", mods, nydd, lambda m: m.ev(nxd)[:, I(m, "SPRING_Z")] / m.ev(w.node(w.get(dmp, "tau"))), "accelerations are the rate of z over tau")


def untrained(s, typ):
    """approximators that are not trained contribute nothing"""
    s.at("Dmp.analytical_solution", "Dmp.differential_equation")
    w = s.world()
    D = size("D")
    fas = fa_list(w, D, stub=fa_stub(trained=False))
    dmp = w.new("Dmp", S("tau", pos=True), w.arr("y0", D), w.arr("g", D), fas, dmp_type=strv(typ))
    r = w.call(dmp, "analytical_solution", w.arr("ts", size("T", 3), increasing=True)).items
    s.forall("no-contribution", MODS(), lambda m: all(v == 0 for v in ri.flat(m.ev(w.node(r[3])))), "untrained approximators contribute zero")


def build(chk):
    for typ in DMP_TYPES:
        for sc in SCALINGS:
            for h in ("fresh", "reconfigured", "decoupled"):
                chk.scenario(f"{typ}/{sc}/{h}", scenario, typ, sc, None, h)
        chk.scenario(f"{typ}/untrained", untrained, typ)
    for combo in ("no-goal-system", "goal-exponential", "damping-system", "phase-exponential", "stiff-spring"):
        for sc in SCALINGS if chk.thorough else SCALINGS[:2]:
            for h in ("fresh", "reconfigured"):
                chk.scenario(f"{combo}/{sc}/{h}", scenario, "KULVICIUS_2012_JOINING", sc, combo, h)

"""C11: schedules of a DMP are the bounded predictions of their approximators at the current phase."""
from .dmp import *

EXPLANATION = ("Schedule approximators are unknown pointwise functions. For every DMP type and form of bounds, the terms of batch schedules, start schedules and step schedules are compared "
               "with the clipped prediction at the phase of the returned state; the DMP part with that of a plain DMP; training calls are recorded and their inputs and targets compared with "
               "the phase and the schedule column of the same dimension.")
ASSUMPTIONS = ["schedule approximators are unknown pointwise functions of the phase", "real arithmetic", "term equality by congruence, then random interpretation"]
BOUNDS = ["none", "scalar", "array", "min-only", "max-only-array", "mixed"]
T0 = dict(T=4, T0=3, Tb=3)


def bounds(w, form, DS):
    """kwargs and oracle (lo, hi) of the bounds"""
    lo_s, hi_s = S("smin", lo="0.5", hi="0.9"), S("smax", lo="1.1", hi="1.6")
    lo_a, hi_a = w.arr("smins", DS, lo="0.5", hi="0.9"), w.arr("smaxs", DS, lo="1.1", hi="1.6")
    kw = {"none": {}, "scalar": dict(min_schedules=lo_s, max_schedules=hi_s), "array": dict(min_schedules=lo_a, max_schedules=hi_a),
          "min-only": dict(min_schedules=lo_s), "max-only-array": dict(max_schedules=hi_a), "mixed": dict(min_schedules=lo_a, max_schedules=hi_s)}[form]
    nodes = {k: w.node(v) for k, v in kw.items()}

    def clip(m, X):
        X = ri.oarr(X)
        d = X.shape[-1]
        g = lambda k: None if k not in nodes else ([m.ev(nodes[k])] * d if not N.shape_of(nodes[k]) else ri.flat(m.ev(nodes[k])))
        lo, hi = g("min_schedules"), g("max_schedules")
        out = X.copy()
        for ix in np.ndindex(*X.shape):
            v = X[ix]
            if lo is not None and v < lo[ix[-1]]:
                v = lo[ix[-1]]
            if hi is not None and v > hi[ix[-1]]:
                v = hi[ix[-1]]
            out[ix] = v
        return out
    return kw, clip


def stubs(w, n, name="sched"):
    return w.list(*[w.I.new_obj(w.st, fa_stub(name=name), {}, None, N.mk("faid", attr=(name, k))) for k in range(n)])


def base(w, typ, cls, **kw):
    D = 2
    rg, rg2 = (dict(lo="0.1", hi="0.9"), dict(lo="1.1", hi="2.5")) if "SCT23" in typ else ({}, {})
    a = [S("tau", pos=True), w.arr("y0", D, **rg), w.arr("g", D, **rg2), stubs(w, D, "fa")]
    if cls == "DmpWithSchedules":
        a.append(kw.pop("sched"))
    return w.new(cls, *a, dmp_type=strv(typ), **kw)


def predicted(w, sched, n, phase):
    """interpretation of [fa_k.predict(phase)]_k, one column per approximator"""
    cols = [w.node(w.call(w.item(sched, k), "predict", phase)) for k in range(n)]
    return lambda m: np.stack([ri.oarr(m.ev(c)).reshape(-1) for c in cols], axis=-1)


def scenario(s, typ, form, ns):
    s.at("DmpWithSchedules.analytical_solution_sched", "DmpWithSchedules.integrate_start_sched", "DmpWithSchedules.integrate_step_sched")
    w = s.world()
    kw, clip = bounds(w, form, ns)
    sched = stubs(w, ns)
    d = base(w, typ, "DmpWithSchedules", sched=sched, **kw)
    p = base(w, typ, "Dmp")
    mods = [ri.Model(5100 + k, sizes=T0) for k in range(3)]
    PH = [ri.as_int(v) for v in ri.flat(mods[0].ev(w.node(w.get(p, "PHASE"))))]
    s.ob("dim", w.node(w.call(d, "dim_schedules")) is N.const(ns), "there are as many schedules as approximators for them")
    ts = w.arr("ts", size("T", 3), increasing=True)

    def col_of(w, x, batch):
        """phase part of state(s) x as an array value"""
        n = w.node(x)
        sh = N.shape_of(n)
        return w.I.new_arr(w.st, w.node(w.I.getitem(x, Tup((Slc(NONEV, NONEV, NONEV), w.get(p, "PHASE"))) if batch else w.get(p, "PHASE"), w.st)))
    # batch
    w1 = w.fork()
    r = w1.call(d, "analytical_solution_sched", ts).items
    q = w1.call(p, "analytical_solution", ts).items
    for k, nm, j in ((0, "states", 0), (1, "rates", 1), (3, "forcing", 2), (4, "outputs", 3)):
        s.same(f"batch/{nm}", mods, w1.node(r[k]), w1.node(q[j]), "the schedules do not influence the movement (batch)")
    w2 = w1.fork()
    pred = predicted(w2, sched, ns, col_of(w2, r[0], True))
    nb = w1.node(r[2])
    s.same("batch/schedules", mods, nb, lambda m: clip(m, pred(m)), "batch schedules are the bounded predictions at the phase of each row")
    # start
    for given in (False, True):
        w3 = w.fork()
        y = [w3.arr("ynew", 2, lo="0.1", hi="0.9")] if given else []
        x, xd, sc = w3.call(d, "integrate_start_sched", *y).items
        px, pxd = w3.call(p, "integrate_start", *y).items
        lab = "start-given" if given else "start"
        s.same(f"{lab}/state", mods, w3.node(x), w3.node(px), "the start state is that of the plain DMP")
        s.same(f"{lab}/rate", mods, w3.node(xd), w3.node(pxd), "the start rate is that of the plain DMP")
        pr = predicted(w3, sched, ns, col_of(w3, x, False))
        ns_ = w3.node(sc)
        s.same(f"{lab}/schedules", mods, ns_, lambda m: clip(m, pr(m))[0], "start schedules are the bounded predictions at the start phase")
        if not given:
            m0 = [ri.Model(5200 + k, sizes=T0, values=dict(ts=col(0, 0.4, 0.9, 1.1))) for k in range(2)]
            s.same("start/batch-agrees", m0, lambda m: m.ev(nb)[0], lambda m: ri.flat(m.ev(ns_)), "a batch rollout from time zero starts with the schedules step-by-step integration starts with")
        # step
        dt = S("dt", lo="0.01", hi="0.1")
        x1, xd1, sc1 = w3.call(d, "integrate_step_sched", dt, x).items
        px1, pxd1 = w3.call(p, "integrate_step", dt, px).items
        lab = lab.replace("start", "step")
        s.same(f"{lab}/state", mods, w3.node(x1), w3.node(px1), "the schedules do not influence the step")
        s.same(f"{lab}/rate", mods, w3.node(xd1), w3.node(pxd1), "the schedules do not influence the step")
        pr1 = predicted(w3, sched, ns, col_of(w3, x1, False))
        n1 = w3.node(sc1)
        s.same(f"{lab}/schedules", mods, n1, lambda m: clip(m, pr1(m))[0], "schedules after a step are the bounded predictions at the phase of the state that is returned")
    # any state
    w4 = w.fork()
    xx = w4.arr("xstate", w4.node(w4.get(d, "dim_x")))
    x1, _, sc1 = w4.call(d, "integrate_step_sched", S("dt", lo="0.01", hi="0.1"), xx).items
    pr = predicted(w4, sched, ns, col_of(w4, x1, False))
    s.same("step-any/schedules", mods, w4.node(sc1), lambda m: clip(m, pr(m))[0], "schedules after a step from any state are the bounded predictions at the phase of the state that is returned")
    # read-out
    w5 = w1.fork()
    for nm, sc in (("batch", r[2]), ("any", w5.arr("schedany", size("T", 3), ns))):
        tr = w5.call(d, "states_as_trajectory_sched", ts, r[0], r[1], sc)
        tp = w5.call(p, "states_as_trajectory", ts, r[0], r[1])
        for a in ("ts", "ys", "yds", "ydds"):
            s.same(f"trajectory-{nm}/{a}", mods, w5.node(w5.get(tr, a)), w5.node(w5.get(tp, a)), "the trajectory of the movement is unchanged")
        s.same(f"trajectory-{nm}/misc", mods, w5.node(w5.get(tr, "misc")), w5.node(sc), "the schedules become the trajectory's extra variables")


def training(s, typ, src, entry, ns):
    s.at("DmpWithSchedules.train_sched", "DmpWithSchedules.from_traj_sched")
    w = s.world()
    T = size("T", 3)
    sched = stubs(w, ns)
    misc = w.arr("misc", T, ns)
    tr = w.new("Trajectory", w.arr("ts", T, increasing=True), w.arr("ys", T, 2, lo="0.2", hi="2"), w.arr("yds", T, 2), w.arr("ydds", T, 2), *([misc] if src != "given" else []))
    given = w.arr("given", T, ns) if src != "misc" else None
    if entry == "from_traj":
        fas = stubs(w, 2, "fa")
        kw = dict(schedules=given) if given is not None else {}
        d = w.static("DmpWithSchedules", "from_traj_sched", tr, fas, sched, dmp_type=strv(typ), **kw)
    else:
        d = base(w, typ, "DmpWithSchedules", sched=sched)
        if entry == "retrained":
            tb = size("Tb", 3)
            w.call(d, "train_sched", w.new("Trajectory", w.arr("bts", tb, increasing=True), w.arr("bys", tb, 2, lo="0.2", hi="2"), w.arr("byds", tb, 2), w.arr("bydds", tb, 2), w.arr("bmisc", tb, ns)))
            w.call(d, "integrate_start_sched")
            w.I.events.clear()
        w.call(d, "train_sched", tr, *([given] if given is not None else []))
    mods = [ri.Model(5300 + k, sizes=T0) for k in range(3)]
    per = {}
    for e in w.I.events:
        if e["name"] == "fa.train" and e["recv"].op == "faid":
            per.setdefault(e["recv"].attr, []).append(e)
    want = [("fa", k) for k in range(2)] + [("sched", k) for k in range(ns)]
    if any(e["guards"] or e["loops"] for v in per.values() for e in v):
        s.ob("trained-once", None, "training calls could not be attributed")
        return
    s.ob("trained-once", sorted(per) == sorted(want) and all(len(v) == 1 for v in per.values()), f"every approximator is trained exactly once (seen {({k: len(v) for k, v in per.items()})})")
    if sorted(per) != sorted(want):
        return
    target = w.node(given if given is not None else misc)
    xs = w.node(w.call(d, "analytical_solution", w.get(tr, "ts")).items[0])
    PH = [ri.as_int(v) for v in ri.flat(mods[0].ev(w.node(w.get(d, "PHASE"))))]
    for k in range(ns):
        e = per[("sched", k)][0]
        a, t = e["argnodes"][:2]
        s.same(f"inputs/{k}", mods, lambda m: ri.flat(m.ev(a)), lambda m: m.ev(xs)[:, PH].reshape(-1), "schedules are learned over the phase at the demonstrated times")
        s.same(f"targets/{k}", mods, lambda m: ri.flat(m.ev(t)), lambda m: m.ev(target)[:, k], "each approximator learns the schedule of its own dimension")
    # the movement is trained as that of a plain DMP
    w2 = s.world()
    tr2 = w2.new("Trajectory", w2.arr("ts", T, increasing=True), w2.arr("ys", T, 2, lo="0.2", hi="2"), w2.arr("yds", T, 2), w2.arr("ydds", T, 2))
    if entry == "from_traj":
        p = w2.static("Dmp", "from_traj", tr2, stubs(w2, 2, "fa"), dmp_type=strv(typ))
    else:
        p = base(w2, typ, "Dmp")
        w2.call(p, "train", tr2)
    ref = {e["recv"].attr: e for e in w2.I.events if e["name"] == "fa.train" and e["recv"].op == "faid"}
    for k in range(2):
        for j, nm in ((0, "inputs"), (1, "targets")):
            a, b = per[("fa", k)][0]["argnodes"][j], ref[("fa", k)]["argnodes"][j]
            s.same(f"movement/{nm}/{k}", mods, lambda m: ri.flat(m.ev(a)), lambda m: ri.flat(m.ev(b)), "the movement is trained as that of a plain DMP")
    for a in ("tau", "y_init", "y_attr"):
        s.same(f"movement/{a}", mods, w.node(w.get(d, a)), w2.node(w2.get(p, a)), "meta-parameters are those of a plain DMP trained on the demonstration")
    # without times: the times trained on
    r = w.call(d, "analytical_solution_sched").items
    r2 = w.call(d, "analytical_solution_sched", w.get(tr, "ts")).items
    for k, nm in ((0, "states"), (2, "schedules")):
        s.same(f"default-times/{nm}", mods, w.node(r[k]), w.node(r2[k]), "without times, the times of the demonstration are used")


def rejected(s):
    s.at("DmpWithSchedules.train_sched", "DmpWithSchedules.analytical_solution_sched")
    w = s.world()
    T = size("T", 3)
    d = base(w, "KULVICIUS_2012_JOINING", "DmpWithSchedules", sched=stubs(w, 2))
    tr = w.new("Trajectory", w.arr("ts", T, increasing=True), w.arr("ys", T, 2), w.arr("yds", T, 2), w.arr("ydds", T, 2))
    for nm, fn in (("no-schedules", lambda v: v.call(d, "train_sched", tr)), ("too-few", lambda v: v.call(d, "train_sched", tr, v.arr("g1", T, 1))),
                   ("too-many", lambda v: v.call(d, "train_sched", tr, v.arr("g3", T, 3))), ("no-times", lambda v: v.call(d, "analytical_solution_sched"))):
        v = w.fork()
        s.rejects(nm, v, lambda: fn(v), {"no-schedules": "a demonstration without schedules is rejected", "no-times": "an untrained DMP has no default times"}.get(nm, "another number of schedules is rejected"))


def build(chk):
    for t in DMP_TYPES:
        for b in BOUNDS:
            for ns in (1, 2, 3) if chk.thorough else (2,) if b != "array" else (1, 3):
                chk.scenario(f"{t}/{b}/{ns}", scenario, t, b, ns)
        for src in ("misc", "given", "both"):
            for e in ("train", "from_traj", "retrained"):
                for ns in (1, 2, 3) if chk.thorough else (2,):
                    chk.scenario(f"{t}/{src}/{e}/{ns}", training, t, src, e, ns)
    chk.scenario("rejected", rejected)

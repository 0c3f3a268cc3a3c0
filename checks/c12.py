"""C12: a contextual DMP is its DMP with the parameters that the policy parameter functions predict from the context."""
from .c10 import rollout
from .fa import *
from .dmp import DMP_TYPES
from .c09 import names

EXPLANATION = ("Demonstrations are symbolic; policy parameter functions are unknown functions of the context that record what they are trained on. The recorded targets are compared with the "
               "parameter vector of a plain DMP trained on the same demonstration, the recorded inputs with the contexts in order, and rollouts and start states for a context with those of the "
               "wrapped DMP after setting the predicted vector. Histories of several contexts are compared with the last context alone.")
ASSUMPTIONS = ["policy parameter functions are unknown functions of the context", "real arithmetic", "term equality by congruence, then random interpretation; 3 demonstrations of 4..6 samples, 2 dimensions"]
ND = 3


def pf_stub():
    def predict(I, st, self, args, kwargs):
        x = I.node(st, args[0])
        return I.new_arr(st, N.mk("rowfn", x, I.node(st, self), attr="ppf"))

    def train(I, st, self, args, kwargs):
        I.log_event("ppf.train", I.node(st, self), args, kwargs, None, st)
        return NONEV
    return Stub("ppf", {"predict": predict, "train": train, "is_trained": lambda I, st, self, a, k: TRUEV})


def demos(w, nd=2, ctx="vec"):
    out = []
    for k in range(ND):
        T = 4 + k
        tr = w.new("Trajectory", w.arr(f"ts{k}", T, increasing=True), w.arr(f"ys{k}", T, nd, lo="1", hi="2"), w.arr(f"yds{k}", T, nd), w.arr(f"ydds{k}", T, nd))
        c = S(f"ctx{k}", lo="0", hi="1") if ctx == "scalar" else w.arr(f"ctx{k}", 2, lo="0", hi="1")
        out.append((c, tr))
    return out


def setup(w, typ, sel, entry, ctx, as_list, fa="RBFN"):
    D = 2
    data = demos(w, D, ctx)
    pairs = w.list(*[Tup(p) for p in data])
    fl = w.list(*[mk_fa(w, fa) for _ in range(D)])
    n = D * (("weights" in sel) * 3 + ("slopes" in sel) * 3) + ("goal" in sel) * D
    ppf = w.list(*[w.I.new_obj(w.st, pf_stub(), {}, None, N.mk("faid", attr=("ppf", k))) for k in range(n)]) if as_list else w.I.new_obj(w.st, pf_stub(), {}, None, N.mk("faid", attr=("ppf", 0)))
    nm = names(w, sel)
    if entry == "from_trajs":
        c = w.static("DmpContextualTwoStep", "from_trajs", pairs, fl, nm, ppf, dmp_type=strv(typ))
    elif entry == "from_dmp":
        d = w.new("Dmp", S("tau", pos=True), w.arr("y0", D, lo="0.1", hi="0.9"), w.arr("g", D, lo="1.1", hi="2"), fl, dmp_type=strv(typ))
        c = w.static("DmpContextualTwoStep", "from_dmp", pairs, d, nm, ppf)
    else:
        c = w.new("DmpContextualTwoStep", S("tau", pos=True), w.arr("y0", D, lo="0.1", hi="0.9"), w.arr("g", D, lo="1.1", hi="2"), fl, dmp_type=strv(typ))
        if entry == "retrained":
            w.call(c, "train", w.list(Tup(data[1]), Tup(data[0])), nm, ppf)
            w.I.events.clear()
        w.call(c, "train", pairs, nm, ppf)
    return c, data, n, ppf


def training(s, typ, sel, entry, ctx, fa):
    s.at("DmpContextualTwoStep.train", "DmpContextualTwoStep.from_trajs", "DmpContextualTwoStep.from_dmp")
    w = s.world()
    c, data, n, _ = setup(w, typ, sel, entry, ctx, True, fa)
    mods = fmods(1)
    ev = [e for e in w.I.events if e["name"] == "ppf.train"]
    per = {}
    for e in ev:
        per.setdefault(e["recv"].attr if e["recv"].op == "faid" else None, []).append(e)
    if None in per or any(e["guards"] or e["loops"] for e in ev):
        s.ob("trained-once", None, "training calls could not be attributed")
        return
    ok = sorted(per) == [("ppf", k) for k in range(n)] and all(len(v) == 1 for v in per.values())
    s.ob("trained-once", ok, f"every policy parameter function is trained exactly once (seen {({k: len(v) for k, v in per.items()})})")
    if not ok:
        return
    # what a plain DMP learns from each demonstration
    vecs, metas = [], []
    for k in range(ND):
        w2 = s.world()
        fl = w2.list(*[mk_fa(w2, fa) for _ in range(2)])
        d2 = demos(w2, 2, ctx)[k][1]
        if entry == "from_trajs":
            p = w2.new("Dmp", w2.item(w2.get(demos(w2, 2, ctx)[0][1], "ts"), -1), w2.arr("y0", 2, lo="0.1", hi="0.9"), w2.arr("g", 2, lo="1.1", hi="2"), fl, dmp_type=strv(typ))
        else:
            p = w2.new("Dmp", S("tau", pos=True), w2.arr("y0", 2, lo="0.1", hi="0.9"), w2.arr("g", 2, lo="1.1", hi="2"), fl, dmp_type=strv(typ))
        w2.call(p, "set_selected_param_names", names(w2, sel))
        w2.call(p, "train", d2)
        vecs.append(w2.node(w2.call(p, "get_param_vector")))
        metas.append({a: w2.node(w2.get(p, a)) for a in ("tau", "y_init", "y_attr")})
    cn = [w.node(x) for x, _ in data]

    def contexts(m):
        return np.concatenate([ri.oarr(m.ev(x)).reshape(1, -1) for x in cn], axis=0)
    V = {m: [ri.flat(m.ev(v)) for v in vecs] for m in mods}
    for k in range(n):
        a, t = per[("ppf", k)][0]["argnodes"][:2]
        s.same(f"inputs/{k}", mods, lambda m: ri.oarr(m.ev(a)).reshape(ND, -1), contexts, "policy parameter functions are trained on the contexts of the demonstrations, in order")
        s.same(f"targets/{k}", mods, lambda m: ri.flat(m.ev(t)), lambda m: ri.obj1([v[k] for v in V[m]]),
               "the k-th policy parameter function is trained on the k-th parameter of the DMP trained on each demonstration")
    d = w.get(c, "dmp")
    for a in ("tau", "y_init", "y_attr"):
        want = lambda m: sum(ri.oarr(m.ev(q[a])) for q in metas) / ND
        s.same(f"mean/{a}", mods, lambda m: ri.oarr(m.ev(w.node(w.get(d, a)))), want, "time constant, start and goal are the means over the demonstrations")
    s.same("mean/own-tau", mods, w.node(w.get(c, "tau")), lambda m: sum(m.ev(q["tau"]) for q in metas) / ND, "the contextual DMP reports the time constant it moves with")
    s.same("dim", mods, w.node(w.call(c, "dim_dmp")), lambda m: mpf(2), "the dimensionality is that of the DMP")


def query(w, ctx, nm="q"):
    return w.arr(nm, 1, lo="0", hi="1") if ctx == "scalar" else w.arr(nm, 1, 2, lo="0", hi="1")


def using(s, typ, sel, ctx, as_list):
    s.at("DmpContextualTwoStep.analytical_solution", "DmpContextualTwoStep.integrate_start")
    w = s.world()
    c, data, n, ppf = setup(w, typ, sel, "from_trajs", ctx, as_list)
    mods = fmods(1)
    d = w.get(c, "dmp")

    def direct(v, q):
        """the wrapped DMP with the predicted parameters"""
        vec = [v.node(v.call(v.item(ppf, k) if as_list else ppf, "predict", q)) for k in range(n)]
        v.call(d, "set_param_vector", v.I.new_arr(v.st, N.mk("concat", *[N.mk("reshape", x, N.const(1)) for x in vec], attr=0)))
    ts = w.arr("tq", size("TQ", 3), increasing=True)
    a = w.fork()
    r = a.call(c, "analytical_solution", query(a, ctx), ts).items
    b = w.fork()
    direct(b, query(b, ctx))
    q = b.call(d, "analytical_solution", ts).items
    for k, nm in enumerate(("states", "rates", "forcing", "outputs")):
        s.same(f"batch/{nm}", mods, a.node(r[k]), b.node(q[k]), "a rollout for a context is the rollout of the DMP with the predicted parameters")
    # suppressed
    a0 = w.fork()
    r0 = a0.call(c, "analytical_solution", query(a0, ctx), ts, TRUEV).items
    b0 = b.fork()
    q0 = b0.call(d, "analytical_solution", ts, TRUEV).items
    s.same("batch/suppressed", mods, a0.node(r0[0]), b0.node(q0[0]), "suppressing the forcing term reaches the DMP")
    # start, step, rates, read-out
    for given in (False, True):
        a1, b1 = w.fork(), b.fork()
        y = lambda v: [v.arr("ynew", 2, lo="0.1", hi="0.9")] if given else []
        x, xd = a1.call(c, "integrate_start", query(a1, ctx), *y(a1)).items
        px, pxd = b1.call(d, "integrate_start", *y(b1)).items
        lab = "start-given" if given else "start"
        s.same(f"{lab}/state", mods, a1.node(x), b1.node(px), "integration for a context starts like the DMP with the predicted parameters")
        s.same(f"{lab}/rate", mods, a1.node(xd), b1.node(pxd), "integration for a context starts like the DMP with the predicted parameters")
        dt = S("dt", lo="0.01", hi="0.1")
        x1, xd1 = a1.call(c, "integrate_step", dt, x).items
        p1, pd1 = b1.call(d, "integrate_step", dt, px).items
        s.same(f"{lab}/step", mods, a1.node(x1), b1.node(p1), "steps follow the DMP with the predicted parameters")
        for k, nm in enumerate(("position", "velocity", "acceleration")):
            s.same(f"{lab}/{nm}", mods, a1.node(a1.call(c, "states_as_pos_vel_acc", x1, xd1).items[k]), b1.node(b1.call(d, "states_as_pos_vel_acc", p1, pd1).items[k]), "read-out is that of the DMP")
    # after another context
    for how in ("batch", "start"):
        a2 = w.fork()
        if how == "batch":
            a2.call(c, "analytical_solution", query(a2, ctx, "qother"), ts)
        else:
            y0 = a2.I.new_arr(a2.st, a2.node(a2.get(c, "y_init")))
            a2.call(c, "integrate_start", query(a2, ctx, "qother"), a2.arr("yother", 2, lo="0.1", hi="0.9"))
            a2.set(c, "y_init", y0)
        r2 = a2.call(c, "analytical_solution", query(a2, ctx), ts).items
        s.same(f"after-{how}/states", mods, a2.node(r2[0]), a.node(r[0]), "the movement for a context does not depend on contexts used before")
    # changing the time constant reaches the movement
    a3, b3 = w.fork(), b.fork()
    a3.set(c, "tau", S("taunew", pos=True))
    b3.set(d, "tau", S("taunew", pos=True))
    s.same("tau/states", mods, a3.node(a3.call(c, "analytical_solution", query(a3, ctx), ts).items[0]), b3.node(b3.call(d, "analytical_solution", ts).items[0]), "setting the time constant sets that of the DMP")
    tr, tp = a.call(c, "states_as_trajectory", ts, r[0], r[1]), b.call(d, "states_as_trajectory", ts, q[0], q[1])
    for f in ("ts", "ys", "yds", "ydds"):
        s.same(f"trajectory/{f}", mods, a.node(a.get(tr, f)), b.node(b.get(tp, f)), "read-out is that of the DMP")


def interpolating(s, typ, sel, as_list):
    """one policy parameter function handed over: separate ones are used per parameter"""
    s.at("DmpContextualTwoStep.train", "DmpContextualTwoStep.analytical_solution")
    w = s.world()
    data = demos(w, 2, "vec")
    fl = w.list(*[mk_fa(w, "RBFN") for _ in range(2)])
    n = 6 * ("weights" in sel) + 2 * ("goal" in sel)
    mk = lambda: w.new("FunctionApproximatorWLS")
    ppf = w.list(*[mk() for _ in range(n)]) if as_list else mk()
    c = w.static("DmpContextualTwoStep", "from_trajs", w.list(*[Tup(p) for p in data]), fl, names(w, sel), ppf, dmp_type=strv(typ))
    mods = fmods(1)
    for k in range(ND):
        w2 = s.world()
        p = w2.new("Dmp", S("tau", pos=True), w2.arr("y0", 2, lo="0.1", hi="0.9"), w2.arr("g", 2, lo="1.1", hi="2"), w2.list(*[mk_fa(w2, "RBFN") for _ in range(2)]), dmp_type=strv(typ))
        if "2012" in typ:
            p = w2.new("Dmp", w2.item(w2.get(demos(w2, 2)[0][1], "ts"), -1), w2.arr("y0", 2), w2.arr("g", 2), w2.list(*[mk_fa(w2, "RBFN") for _ in range(2)]), dmp_type=strv(typ))
        w2.call(p, "set_selected_param_names", names(w2, sel))
        w2.call(p, "train", demos(w2, 2)[k][1])
        want = w2.node(w2.call(p, "get_param_vector"))
        for how in ("analytical_solution", "integrate_start"):
            v = w.fork()
            q = v.I.new_arr(v.st, N.mk("reshape", v.node(data[k][0]), N.const(1), N.const(2)))
            v.call(c, how, q, *([v.arr("tq", size("TQ", 3), increasing=True)] if how[0] == "a" else []))
            got = v.node(v.call(v.get(c, "dmp"), "get_param_vector"))
            s.same(f"{how}/{k}", mods, lambda m: ri.flat(m.ev(got)), lambda m: ri.flat(m.ev(want)),
                   "with policy parameter functions that interpolate, the context of a demonstration gives the parameters learned from that demonstration")


def rejected(s):
    s.at("DmpContextualTwoStep.train")
    for k, bad in enumerate((5, 9)):
        w = s.world()
        data = demos(w, 2, "scalar")
        c = w.new("DmpContextualTwoStep", S("tau", pos=True), w.arr("y0", 2), w.arr("g", 2), w.list(mk_fa(w, "RBFN"), mk_fa(w, "RBFN")))
        ppf = w.list(*[w.I.new_obj(w.st, pf_stub(), {}, None, N.mk("faid", attr=("ppf", j))) for j in range(bad)])
        s.rejects(f"wrong-number/{k}", w, lambda: w.call(c, "train", w.list(*[Tup(p) for p in data]), names(w, ["weights"]), ppf), "a list of policy parameter functions of another length than the parameter vector is rejected")


def build(chk):
    for t in DMP_TYPES:
        for sel in (["weights"], ["weights", "goal"], ["goal"]):
            for e in ("from_trajs", "train", "from_dmp", "retrained"):
                for ctx in ("scalar", "vec"):
                    if not chk.thorough and (ctx == "scalar") != (e in ("train", "from_dmp")):
                        continue
                    chk.scenario(f"training/{t}/{'+'.join(sel)}/{e}/{ctx}", training, t, sel, e, ctx, "RBFN")
            for ctx in ("scalar", "vec"):
                chk.scenario(f"using/{t}/{'+'.join(sel)}/{ctx}", using, t, sel, ctx, ctx == "vec")
    for t in ("KULVICIUS_2012_JOINING", "IJSPEERT_2002_MOVEMENT"):
        for sel in (["weights"], ["weights", "goal"]):
            for l in (True, False):
                chk.scenario(f"interpolating/{t}/{'+'.join(sel)}/{'list' if l else 'one'}", interpolating, t, sel, l)
    chk.scenario("training/LWR", training, "KULVICIUS_2012_JOINING", ["slopes"], "from_trajs", "scalar", "LWR")
    chk.scenario("rejected", rejected)

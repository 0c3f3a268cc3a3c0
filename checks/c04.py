"""C04: training inverts the DMP equation: approximators that reproduce their targets reproduce the demonstration."""
from .c03 import cfg
from .dmp import *

EXPLANATION = ("Training is interpreted abstractly with approximators that only record what they are asked to learn. For every DMP type, "
               "scaling, dimensionality 1..3 and entry point, the recorded target term of each dimension is substituted for that "
               "approximator's prediction in the term of the DMP's rate function at the demonstration's state; the resulting "
               "acceleration must be the demonstrated one. Inputs, pairing of targets with dimensions, options passed on, and the adopted "
               "time constant / start / goal / amplitudes are decided on the same terms.")
ASSUMPTIONS = ["real arithmetic", "gating, amplitude and goal distance are non-zero at the sampled time", "term equality by congruence, then random interpretation"]


def rec_stub():
    def predict(I, st, self, args, kwargs):
        k = st.heap[self.addr].ident.attr
        return I.new_arr(st, N.sym(f"pred{k}", (N.const(1),)))

    def train(I, st, self, args, kwargs):
        I.log_event("fa.train", I.node(st, self), args, kwargs, None, st)
        return NONEV

    def is_trained(I, st, self, args, kwargs):
        return TRUEV
    return Stub("fa", {"predict": predict, "train": train, "is_trained": is_trained,
                       "get_param_vector_size": lambda I, st, self, a, k: num(1)})


def fas(w, d):
    stub = rec_stub()
    return w.list(*[w.I.new_obj(w.st, stub, {}, None, N.mk("faid", attr=k)) for k in range(d)])


def traj(w, d, T, pre=""):
    return w.new("Trajectory", w.arr(pre + "ts", T, increasing=True), w.arr(pre + "ys", T, d, lo="0.2", hi="2"), w.arr(pre + "yds", T, d), w.arr(pre + "ydds", T, d))


def scenario(s, typ, sc, d, entry, combo=None):
    s.at("Dmp.train")
    w = s.world()
    T = size("T", 3)
    fl = fas(w, d)
    tr = traj(w, d, T)
    kw = dict(dmp_type=strv(typ), forcing_term_scaling=strv(sc))
    kw.update(cfg(w, N.const(d), combo))
    if entry == "from_traj":
        dmp = w.static("Dmp", "from_traj", tr, fl, **kw)
    else:
        first = fl if entry != "fas-at-training" else w.list()
        if sc == "AMPLITUDE_SCALING":
            kw["scaling_amplitudes"] = w.arr("amp_old", d, pos=True)
        dmp = w.new("Dmp", S("tau", pos=True), w.arr("y0", d, lo="0.1", hi="0.9"), w.arr("g", d, lo="1.1", hi="2"), first, **kw)
        if entry == "after-use":
            w.call(dmp, "analytical_solution", w.arr("tsold", size("T0", 2), increasing=True))
            w.call(dmp, "integrate_start")
        if entry == "retrained":
            w.call(dmp, "train", traj(w, d, size("Tb", 3), "b"))
            w.I.events.clear()
        if entry == "fas-at-training":
            w.call(dmp, "train", tr, function_approximators=fl)
        else:
            w.call(dmp, "train", tr, save_training_data=TRUEV, my_option=num(17))
    T0 = dict(T=4, T0=3, Tb=3)
    mods = [ri.Model(400 + 7 * k + d, sizes=T0) for k in range(4)]
    nt, ny, nyd, nydd = (w.node(w.get(tr, a)) for a in ("ts", "ys", "yds", "ydds"))
    # adopted meta-parameters
    s.same("tau", mods, w.node(w.get(dmp, "tau")), lambda m: m.ev(nt)[-1], "the time constant becomes the last time of the demonstration")
    s.same("y_init", mods, w.node(w.get(dmp, "y_init")), lambda m: m.ev(ny)[0], "the start becomes the first demonstrated position")
    s.same("y_attr", mods, w.node(w.get(dmp, "y_attr")), lambda m: m.ev(ny)[-1], "the goal becomes the last demonstrated position")
    s.same("ts_train", mods, w.node(w.get(dmp, "ts_train")), nt, "the demonstration's times are remembered")
    # what the approximators were asked to learn
    ev = [e for e in w.I.events if e["name"] == "fa.train"]
    per = {}
    for e in ev:
        r = e["recv"]
        per.setdefault(r.attr if r.op == "faid" else None, []).append(e)
    if None in per or any(e["guards"] or e["loops"] for e in ev):
        s.ob("trained-once", None, "training calls could not be attributed")
        return
    s.ob("trained-once", sorted(per) == list(range(d)) and all(len(v) == 1 for v in per.values()),
         f"every dimension's approximator is trained exactly once (seen: {({k: len(v) for k, v in per.items()})})")
    if sorted(per) != list(range(d)):
        return
    xs = w.call(dmp, "analytical_solution", w.get(tr, "ts")).items
    nx = w.node(xs[0])
    inp = {k: w.I.node(w.st, v[0]["args"][0]) if False else v[0]["argnodes"][0] for k, v in per.items()}
    tgt = {k: v[0]["argnodes"][1] for k, v in per.items()}
    PH = w.node(w.get(dmp, "PHASE"))
    for k in range(d):
        s.same(f"inputs/{k}", mods, lambda m: ri.flat(m.ev(inp[k])), lambda m: m.ev(nx)[:, [ri.as_int(v) for v in ri.flat(m.ev(PH))]].reshape(-1), "inputs are the phase at the demonstrated times")
        if entry not in ("from_traj", "fas-at-training"):
            s.ob(f"options/{k}", "my_option" in per[k][0]["kwnodes"] and "save_training_data" in per[k][0]["kwnodes"], "training options are passed on to every approximator")
    # invert
    state = {}
    for nm in ("SPRING_Y", "SPRING_Z", "GOAL", "PHASE", "GATING", "DAMPING"):
        state[nm] = w.node(w.get(dmp, nm))
    x = w.arr("xstate", w.node(w.get(dmp, "dim_x")))
    w2 = w.fork()
    nxd = w2.node(w2.call(dmp, "differential_equation", x))
    tau = w.node(w.get(dmp, "tau"))
    for j in range(3):
        def go(m):
            base = ri.Model(m.seed, sizes=T0)
            X = base.ev(nx)
            ix = {k: [ri.as_int(v) for v in ri.flat(base.ev(n))] for k, n in state.items()}
            xv = X[j].copy()
            xv[ix["SPRING_Y"]] = base.ev(ny)[j]
            xv[ix["SPRING_Z"]] = base.ev(nyd)[j] * base.ev(tau)
            vals = dict(xstate=xv)
            for k in range(d):
                vals[f"pred{k}"] = col(ri.flat(base.ev(tgt[k]))[j])
            m2 = ri.Model(m.seed, sizes=T0, values=vals)
            xd = ri.flat(m2.ev(nxd))
            acc = xd[ix["SPRING_Z"]] / base.ev(tau)
            ok = ri.close(acc, base.ev(nydd)[j]) and ri.close(xd[ix["SPRING_Y"]], base.ev(nyd)[j])
            return ok, f"acceleration {ri.fmt(acc)} but demonstrated {ri.fmt(base.ev(nydd)[j])}"
        s.forall(f"reproduces-demonstration/{j}", mods, go, "with approximators that reproduce their targets the DMP reproduces the demonstrated acceleration in the demonstrated state")
    if sc == "AMPLITUDE_SCALING":
        w3 = w.fork()
        fo = w3.call(dmp, "analytical_solution", w.get(tr, "ts")).items
        nf, no = w3.node(fo[2]), w3.node(fo[3])

        def amp(m):
            Y = m.ev(ny)
            G = m.ev(nx)[:, [ri.as_int(v) for v in ri.flat(m.ev(state["GATING"]))]]
            rngs = ri.obj1([max(Y[:, k]) - min(Y[:, k]) for k in range(d)])
            return ri.close(m.ev(nf), m.ev(no) * G * rngs), "amplitude differs from the demonstrated range"
        s.forall("amplitude-is-range", mods, amp, "amplitude scaling uses the demonstrated range of each dimension")


def wrong_dim(s):
    s.at("Dmp.train")
    w = s.world()
    dmp = w.new("Dmp", S("tau0", pos=True), w.arr("y00", 2), w.arr("g0", 2), fas(w, 2))
    s.rejects("wrong-dimension", w, lambda: w.call(dmp, "train", traj(w, 3, size("T", 3))), "a demonstration of another dimensionality is rejected")


def build(chk):
    for typ in DMP_TYPES:
        for sc in SCALINGS:
            for d in (1, 2, 3) if chk.thorough else (1, 2):
                for e in ("train", "from_traj", "after-use", "retrained", "fas-at-training"):
                    if not chk.thorough and d == 1 and e in ("after-use", "fas-at-training"):
                        continue
                    chk.scenario(f"{typ}/{sc}/{d}d/{e}", scenario, typ, sc, d, e)
    for combo in ("no-goal-system", "goal-exponential", "damping-system", "phase-exponential", "stiff-spring"):
        for d in (1, 2):
            chk.scenario(f"{combo}/{d}d", scenario, "KULVICIUS_2012_JOINING", "NO_SCALING", d, "train", combo)
    chk.scenario("wrong-dimension", wrong_dim)

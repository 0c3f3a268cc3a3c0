"""C21: step-by-step optimization does what the optimization loop does, one update at a time, also across restarts."""
from .c20 import *

EXPLANATION = ("prepare_optimization and update_step are executed abstractly with unknown roll-outs told by the client, an unknown task and an unknown or real updater, with one session or one reopened from its directory before "
               "every step. Draws, evaluations and updates are effects with the terms of their arguments; parameters of the movements to roll out, costs, updates and new samples must be the terms that follow from them.")
ASSUMPTIONS = ["costs have at least one component; the first is the total", "1..3 updates, 1..3 samples, 1..2 dimensions", "numpy.savetxt/loadtxt keep the values of vectors and of matrices with more than one row and column; jsonpickle restores an equal object"]


def dmp_params(w, d):
    return w.node(w.call(d, "get_param_vector"))


def steps(s, D, n, U, K, mode, updater=None, bounded=False):
    s.at("prepare_optimization", "update_step", "LearningSessionTask.tell")
    w = s.world()
    w.I.unroll_arrays = True
    d, mean, covar, _, _ = setup(w, D, n, bounded)
    given = w.node(mean), w.node(covar)
    ms = mods(3)
    ses, dmp = prepare(w, d, D, n, K, DIR, w.new(updater) if updater else None)
    given_dmp = None
    again = lambda: w.static("LearningSessionTask", "from_dir", strv(DIR)) if mode == "reopened" else ses
    q = again()
    cur = given
    p0 = dmp_params(w, dmp)
    ref = s.world()
    rd = line_dmp(ref, D)
    s.same("caller/dmp", ms, p0, dmp_params(ref, rd), "the initial DMP of the caller is not modified")
    for i in range(U + 1):
        o = f"update{i}"
        dr = draws(w)
        if any(e["name"] != "numpy.random.multivariate_normal" for e in dr):
            s.ob(f"{o}/one-draw", None, "samples are drawn with a generator that is not modelled")
            return
        s.ob(f"{o}/one-draw", len(dr) == i + 1, "samples are drawn once per update")
        if len(dr) != i + 1:
            return
        e = dr[-1]
        x = e["node"]
        s.same(f"{o}/draw/mean", ms, argof(e, 0, "mean"), cur[0], "samples are drawn from the distribution of this update")
        s.same(f"{o}/draw/covar", ms, argof(e, 1, "cov"), cur[1], "samples are drawn from the distribution of this update")
        sz = argof(e, 2, "size")
        s.same(f"{o}/draw/size", ms, (lambda m: mpf(1)) if sz is None else (lambda m: ri.flat(m.ev(sz))[0]), lambda m: mpf(n), "as many samples are drawn as were asked for")
        smp = w.node(ask(w, q, "samples", i))
        drawn = (lambda m, x=x: limited(m.ev(x), *[ri.obj1([m.ev(N.mk("index", N.sym(b, (N.const(D),), lo=lo, hi=hi), N.const(k), attr="p")) for k in range(D)]) for b, lo, hi in (("lower", "-5", "-4"), ("upper", "4", "5"))])) if bounded else x
        s.same(f"{o}/samples", ms, smp, drawn, "the session holds the samples that were drawn (limited to the bounds)", flat=True)
        dd = dist_nodes(w, ask(w, q, "distribution", i))
        s.same(f"{o}/distribution/mean", ms, dd[0], cur[0], "the session holds the distribution of this update")
        s.same(f"{o}/distribution/covar", ms, dd[1], cur[1], "the session holds the distribution of this update")
        row = lambda k: cur[0] if k == "eval" else N.mk("index", smp, N.const(k), attr="p")
        for k in list(range(n)) + ["eval"]:
            t = ask(w, q, "dmp", i, k)
            s.same(f"{o}/dmp/{k}", ms, dmp_params(w, t), row(k), "the movement to roll out has the parameters of its sample (or of the mean, for evaluation)", flat=True)
            if k in (0, "eval"):
                w.clobber(w.call(t, "get_param_vector"))
        if i == U:
            break
        before = len(w.I.events)
        cvs = tell_rollouts(w, q, i, n)
        q = again()
        step(w, q, i)
        q = again()
        ev = w.I.events[before:]
        val = {k: N.mk("call", cvs[k], row(k), attr=("task.evaluate_rollout", K)) for k in list(range(n)) + ["eval"]}
        for k in val:
            s.same(f"{o}/costs/{k}", ms, w.node(ask(w, q, "costs", i, k)), val[k], "the cost of every roll-out is that of its cost variables and its own parameters", flat=True)
        ks = list(val)
        want = lambda m: [ri.flat(m.ev(row(k))) for k in ks]
        s.forall(f"{o}/evaluations", ms, lambda m, ev=ev, want=want: same_bag([v for _, v in evaluated(m, ev, ("task.evaluate_rollout",), 1)], want(m)), "every roll-out, and that of the mean, is evaluated exactly once per update")
        total = lambda m, val=val: ri.obj1([ri.flat(m.ev(val[k]))[0] for k in range(n)])
        dn = dist_nodes(w, ask(w, q, "distribution_new", i))
        wts = w.node(ask(w, q, "weights", i))
        ups = [e for e in ev if e["name"] == "updater.update"]
        if updater:
            wn = lambda m, wts=wts: list(ri.flat(m.ev(wts)))
            s.same(f"{o}/new/mean", ms, dn[0], lambda m, wn=wn, smp=smp: wmean(m, smp, wn(m)), "the new mean is the weighted average of the samples of this update")
            s.same(f"{o}/weights", ms, wts, lambda m, total=total: prescribed("PI-BB", list(total(m)), mpf(10)), "weights follow from the total costs of the samples of this update, not that of the evaluation")
        else:
            s.ob(f"{o}/one-update", len(ups) == 1, "the distribution is updated once")
            if len(ups) != 1:
                return
            a = ups[0]["argnodes"]
            s.same(f"{o}/updater/mean", ms, a[0], cur[0], "the updater gets the distribution of this update")
            s.same(f"{o}/updater/covar", ms, a[1], cur[1], "the updater gets the distribution of this update")
            s.same(f"{o}/updater/samples", ms, a[2], smp, "the updater gets the samples of this update", flat=True)
            s.same(f"{o}/updater/costs", ms, lambda m, a=a: ri.obj1([ri.flat(c)[0] for c in ri.oarr(m.ev(a[3]))]), total, "the updater gets the total costs in the order of the samples, without that of the evaluation")
            exp = [N.mk("call", *a, attr=("upd." + f,)) for f in ("mean", "covar", "weights")]
            s.same(f"{o}/new/mean", ms, dn[0], exp[0], "the distribution after the update is the updater's")
            s.same(f"{o}/new/covar", ms, dn[1], exp[1], "the distribution after the update is the updater's")
            s.same(f"{o}/weights", ms, wts, exp[2], "the weights are the updater's", flat=True)
        cur = dn
    # nothing of the past has changed
    s.same("initial/mean", ms, dist_nodes(w, d)[0], given[0], "the initial distribution is not modified")
    s.same("initial/covar", ms, dist_nodes(w, d)[1], given[1], "the initial distribution is not modified")
    s.same("initial/told/mean", ms, dist_nodes(w, ask(w, q, "distribution_initial"))[0], given[0], "the session keeps the initial distribution")
    s.same("initial/told/dmp", ms, dmp_params(w, ask(w, q, "dmp_initial")), p0, "the session keeps the initial DMP")
    s.same("caller/dmp-after", ms, dmp_params(w, dmp), p0, "the initial DMP of the caller is not modified")


def late_changes(s, what, mode):
    """what a client does with its own objects afterwards has no effect"""
    s.at("prepare_optimization", "update_step")
    w = s.world()
    w.I.unroll_arrays = True
    D, n, K = 2, 2, 2
    d, mean, covar, _, _ = setup(w, D, n)
    given = w.node(mean), w.node(covar)
    ses, dmp = prepare(w, d, D, n, K, DIR)
    ms = mods(3)
    x = draws(w)[-1]["node"]
    if what == "distribution":
        w.set(d, "mean", w.arr("othermean", D))
    elif what == "dmp":
        w.call(dmp, "set_param_vector", w.arr("otherparams", D))
    elif what == "samples":
        w.clobber(ask(w, ses, "samples", 0))
    elif what == "movement":
        w.call(ask(w, ses, "dmp", 0, 0), "set_param_vector", w.arr("otherparams", D))
    q = w.static("LearningSessionTask", "from_dir", strv(DIR)) if mode == "reopened" else ses
    cvs = tell_rollouts(w, q, 0, n)
    step(w, q, 0)
    ups = [e for e in w.I.events if e["name"] == "updater.update"]
    s.ob("one-update", len(ups) == 1, "the distribution is updated once")
    a = ups[0]["argnodes"]
    s.same("updater/mean", ms, a[0], given[0], "the updater gets the distribution of this update")
    s.same("updater/samples", ms, a[2], x, "the updater gets the samples of this update", flat=True)
    for k in range(n):
        s.same(f"costs/{k}", ms, w.node(ask(w, q, "costs", 0, k)), N.mk("call", cvs[k], N.mk("index", x, N.const(k), attr="p"), attr=("task.evaluate_rollout", K)), "the cost of every roll-out is that of its cost variables and its own parameters", flat=True)


def trained(w, D, n=4):
    """a DMP trained on a demonstration, with its slopes as parameters"""
    tr = w.new("Trajectory", w.arr("ts", n, increasing=True), w.arr("ys", n, D), w.arr("yds", n, D), w.arr("ydds", n, D))
    d = w.static("Dmp", "from_traj", tr, w.list(*[mk_fa(w, "WLS", reg=S(f"reg{k}", lo="0.05", hi="0.3")) for k in range(D)]))
    w.call(d, "set_selected_param_names", w.list(strv("slope")))
    return d


def trajectories(s, D, n, mode):
    """the movements to roll out as trajectories"""
    s.at("prepare_optimization", "update_step")
    w = s.world()
    w.I.unroll_arrays = True
    d, mean, covar, _, _ = setup(w, D, n)
    ms = mods(2)
    dmp = trained(w, D)
    ses = w.callf("dmpbbo.bbo_of_dmps.step_by_step_optimization.prepare_optimization", strv(DIR), env_obj(w, task_stub(2)), NONEV, d, num(n), env_obj(w, updater_stub()), dmp, save_trajectory=Sc(N.TRUE))
    q = w.static("LearningSessionTask", "from_dir", strv(DIR)) if mode == "reopened" else ses
    tell_rollouts(w, q, 0, n)
    w.callf("dmpbbo.bbo_of_dmps.step_by_step_optimization.update_step", q, num(0), save_trajectory=Sc(N.TRUE))
    q = w.static("LearningSessionTask", "from_dir", strv(DIR)) if mode == "reopened" else ses
    ref = s.world()
    rd = trained(ref, D)
    ts = ref.arr("ts", 4, increasing=True)
    for i in (0, 1):
        smp = w.node(ask(w, q, "samples", i))
        mu = dist_nodes(w, ask(w, q, "distribution", i))[0]
        for k in list(range(n)) + ["eval"]:
            x = mu if k == "eval" else N.mk("index", smp, N.const(k), attr="p")
            s.same(f"{i}/dmp/{k}", ms, dmp_params(w, ask(w, q, "dmp", i, k)), x, "the movement to roll out has the parameters of its sample (or of the mean, for evaluation)", flat=True)
            ref.call(rd, "set_param_vector", ref.I.new_arr(ref.st, x))
            r = ref.call(rd, "analytical_solution", ts)
            exp = ref.node(ref.call(ref.call(rd, "states_as_trajectory", ts, ref.item(r, 0), ref.item(r, 1)), "as_matrix"))
            s.same(f"{i}/traj/{k}", ms, w.node(ask(w, q, "traj", i, k)), exp, "the trajectory saved is that of the movement to roll out, at the times of the demonstration")


def build(chk):
    for mode in ("disk", "reopened"):
        for D, n in ((1, 2), (2, 2)):
            if mode == "reopened" and D == 1:
                continue
            chk.scenario(f"trajectories/{mode}/{D}d", trajectories, D, n, mode)
    for mode in ("disk", "reopened"):
        for D, n, U, K in ((2, 3, 2, 2), (2, 2, 3, 1), (2, 2, 1, 3), (1, 3, 2, 2), (2, 1, 2, 2)):
            if mode == "reopened" and 1 in (D, n):
                continue
            chk.scenario(f"steps/{mode}/{D}d/{n}x{U}/{K}", steps, D, n, U, K, mode)
        for up in ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation"):
            chk.scenario(f"steps/{mode}/{up}", steps, 2, 3, 2, 2, mode, up)
        chk.scenario(f"steps/{mode}/bounded", steps, 2, 3, 2, 2, mode, "UpdaterCovarDecay", True)
        for what in ("distribution", "dmp", "samples", "movement"):
            if what != "distribution":
                chk.scenario(f"late/{mode}/{what}", late_changes, what, mode)

"""C18: the optimization loops sample, evaluate, update and record consistently."""
import itertools

from .c17 import *

EXPLANATION = ("The optimization loops are executed abstractly with an unknown cost function (or task and task solver) and an unknown updater. Draws, evaluations and updates are effects with the terms "
               "of their arguments; what the session returns for every update is compared with them: each update samples once from the current distribution, evaluates its mean and every sample "
               "exactly once, hands samples and costs in the same order to the updater, and continues with the distribution the updater returned.")
ASSUMPTIONS = ["cost function, task and task solver are functions of their arguments", "1..3 updates, 1..4 samples, 1..3 dimensions, 1..3 cost components",
               "term equality by congruence, then random interpretation"]

N.declare_call_shape("cost.evaluate", lambda n: (N.const(n.attr[1]),) if n.attr[1] else ())
N.declare_call_shape("task.evaluate_rollout", lambda n: (N.const(n.attr[1]),) if n.attr[1] else ())
N.declare_call_shape("solver.perform_rollout", lambda n: (N.const(n.attr[1]), N.const(n.attr[2])))
N.declare_call_shape("upd.mean", lambda n: N.shape_of(n.args[0]))
N.declare_call_shape("upd.covar", lambda n: N.shape_of(n.args[1]))
N.declare_call_shape("upd.weights", lambda n: (N.shape_of(n.args[2]) or (None,))[:1] if N.shape_of(n.args[2]) else None)


def labels(K):
    return lambda I, st, self, a, k: I.list_of(st, [strv(f"label{i}") for i in range(K)])


def cost_stub(K):
    def evaluate(I, st, self, args, kwargs):
        n = N.mk("call", I.node(st, args[0]), attr=("cost.evaluate", K))
        I.log_event("cost.evaluate", None, args, kwargs, n, st)
        return I.new_arr(st, n) if K else Sc(n, True)
    return Stub("cost", {"evaluate": evaluate, "get_cost_labels": labels(K)}, isa=("CostFunction",))


def task_stub(K):
    def evaluate(I, st, self, args, kwargs):
        n = N.mk("call", I.node(st, args[0]), I.node(st, args[1]), attr=("task.evaluate_rollout", K))
        I.log_event("task.evaluate_rollout", None, args, kwargs, n, st)
        return I.new_arr(st, n) if K else Sc(n, True)
    return Stub("task", {"evaluate_rollout": evaluate, "get_cost_labels": labels(K)}, isa=("Task",))


def solver_stub(T=3, V=2):
    def perform(I, st, self, args, kwargs):
        n = N.mk("call", I.node(st, args[0]), attr=("solver.perform_rollout", T, V))
        I.log_event("solver.perform_rollout", None, args, kwargs, n, st)
        return I.new_arr(st, n)
    return Stub("solver", {"perform_rollout": perform}, isa=("TaskSolver",))


def updater_stub():
    def update(I, st, self, args, kwargs):
        d, samples, costs = [args[k] if len(args) > k else kwargs[nm] for k, nm in enumerate(("distribution", "samples", "costs"))]
        ns = [I.node(st, I.getattr(d, "mean", st)), I.node(st, I.getattr(d, "covar", st)), I.node(st, samples), I.node(st, costs)]
        I.log_event("updater.update", None, [Sc(n) for n in ns], {}, None, st)
        mean, covar, wts = [N.mk("call", *ns, attr=("upd." + x,)) for x in ("mean", "covar", "weights")]
        new = I.new(st, "DistributionGaussian", [I.new_arr(st, mean), I.new_arr(st, covar)])
        return Tup([new, I.new_arr(st, wts)])
    return Stub("updater", {"update_distribution": update}, isa=("Updater",))


def env_obj(w, stub):
    return w.I.new_obj(w.st, stub, {}, None, N.mk("fa", N.const(0), attr=stub.name))


def occurrences(m, e):
    """environments in which a logged effect happens"""
    def go(keys, env):
        if not keys:
            yield dict(env)
            return
        L = ri.LOOPS[keys[0]]
        for i in range(ri.as_int(m.ev(L["lo"], env)), ri.as_int(m.ev(L["hi"], env))):
            yield from go(keys[1:], {**env, keys[0]: i})
    for env in go(list(e["loops"]), {}):
        if all(g.op == "inloop" or m.truth(g, env) for g in e["guards"]):
            yield env


def evaluated(m, events, names, k=0):
    """argument values of the calls, in order of the log"""
    return [(e["name"], ri.flat(m.ev(e["argnodes"][k], env))) for e in events if e["name"] in names for env in occurrences(m, e)]


def same_bag(xs, ys):
    ys = list(ys)
    for x in xs:
        j = next((j for j, y in enumerate(ys) if ri.close(x, y)), None)
        if j is None:
            return False, "an argument is evaluated that is none of the samples (or a sample more than once)"
        del ys[j]
    return (True, "") if not ys else (False, f"{len(ys)} of the samples are not evaluated")


def rows_of(vs):
    vs = [ri.flat(v) for v in vs]
    out = np.empty((len(vs), len(vs[0])), dtype=object)
    for k, v in enumerate(vs):
        out[k, :] = v
    return out


def ask(w, s, name, *k):
    return w.call(s, "ask", strv(name), *[num(i) if isinstance(i, int) else strv(i) for i in k])


def dist_nodes(w, d):
    return w.node(w.get(d, "mean")), w.node(w.get(d, "covar"))


def run_loop(w, kind, D, n, U, K, updater=None, directory=None, bounded=False):
    d, mean, covar, _, _ = setup(w, D, max(n, 1), bounded)
    up = w.new(updater) if updater else env_obj(w, updater_stub())
    extra = [strv(directory)] if directory else []
    if kind == "cost":
        s = w.callf("dmpbbo.bbo.run_optimization.run_optimization", env_obj(w, cost_stub(K)), d, up, num(U), num(n), *extra)
    else:
        s = w.callf("dmpbbo.bbo_of_dmps.run_optimization_task.run_optimization_task", env_obj(w, task_stub(K)), env_obj(w, solver_stub()), d, up, num(U), num(n), *extra)
    return s, d, mean, covar


def value_of(kind, K, x):
    """term of the cost of parameters x (a node)"""
    if kind == "cost":
        return N.mk("call", x, attr=("cost.evaluate", K))
    return N.mk("call", N.mk("call", x, attr=("solver.perform_rollout", 3, 2)), x, attr=("task.evaluate_rollout", K))


def loop(s, kind, D, n, U, K, updater=None, directory=None, bounded=False):
    s.at("run_optimization" if kind == "cost" else "run_optimization_task")
    w = s.world()
    w.I.unroll_arrays = True
    ses, d0, mean, covar = run_loop(w, kind, D, n, U, K, updater, directory, bounded)
    ms = mods(3)
    given = w.node(mean), w.node(covar)
    ev = list(w.I.events)
    dr = draws(w)
    s.same("initial/mean", ms, dist_nodes(w, d0)[0], given[0], "the initial distribution is not modified")
    s.same("initial/covar", ms, dist_nodes(w, d0)[1], given[1], "the initial distribution is not modified")
    ups = [e for e in ev if e["name"] == "updater.update"]
    if not updater:
        s.ob("updates", len(ups) == U, f"the updater is called once per update (seen {len(ups)} calls for {U} updates)")
    if any(e["name"] != "numpy.random.multivariate_normal" for e in dr):
        s.ob("draws", None, "samples are drawn with a generator that is not modelled")
        return
    s.ob("draws", len(dr) == U and all(e["name"] == "numpy.random.multivariate_normal" for e in dr), f"one batch of samples is drawn per update (seen {len(dr)} draws for {U} updates)")
    if len(dr) != U or not updater and len(ups) != U:
        return
    if directory:
        ses = w.static("LearningSession" if kind == "cost" else "LearningSessionTask", "from_dir", strv(directory))
    wanted = []
    cur = given
    for i in range(U):
        o = f"update{i}"
        di, ni = dist_nodes(w, ask(w, ses, "distribution", i)), dist_nodes(w, ask(w, ses, "distribution_new", i))
        s.same(f"{o}/distribution/mean", ms, di[0], cur[0], "an update starts from the distribution the previous update ended with")
        s.same(f"{o}/distribution/covar", ms, di[1], cur[1], "an update starts from the distribution the previous update ended with")
        e = dr[i]
        s.same(f"{o}/draw/mean", ms, argof(e, 0, "mean"), cur[0], "samples are drawn from the current distribution")
        s.same(f"{o}/draw/covar", ms, argof(e, 1, "cov"), cur[1], "samples are drawn from the current distribution")
        sz = argof(e, 2, "size")
        s.same(f"{o}/draw/size", ms, (lambda m: mpf(1)) if sz is None else (lambda m: ri.flat(m.ev(sz))[0]), lambda m: mpf(n), "as many samples are drawn as were asked for")
        x = e["node"]
        s.same(f"{o}/samples", ms, w.node(ask(w, ses, "samples", i)), x, "the session holds the samples that were drawn", flat=True)
        costs = lambda m, x=x: rows_of(m.ev(value_of(kind, K, N.mk("index", x, N.const(k), attr="p"))) for k in range(n))
        s.same(f"{o}/costs", ms, w.node(ask(w, ses, "costs", i)), costs, "the cost of every sample is recorded in the order of the samples", flat=True)
        s.same(f"{o}/eval-cost", ms, w.node(ask(w, ses, "eval_cost", i)), value_of(kind, K, cur[0]), "the mean of the distribution is evaluated before the update", flat=True)
        s.same(f"{o}/eval-sample", ms, w.node(ask(w, ses, "eval_sample", i)), cur[0], "the mean of the distribution is recorded", flat=True)
        wts = w.node(ask(w, ses, "weights", i))
        if updater:
            wn = lambda m: list(ri.flat(m.ev(wts)))
            s.same(f"{o}/new/mean", ms, ni[0], lambda m: wmean(m, x, wn(m)), "the new mean is the weighted average of the samples of this update")
            s.same(f"{o}/weights", ms, wts, lambda m: prescribed("PI-BB", [r[0] for r in costs(m)], mpf(10)), "weights follow from the total costs of the samples of this update")
        else:
            a = ups[i]["argnodes"]
            s.same(f"{o}/updater/mean", ms, a[0], cur[0], "the updater gets the current distribution")
            s.same(f"{o}/updater/covar", ms, a[1], cur[1], "the updater gets the current distribution")
            s.same(f"{o}/updater/samples", ms, a[2], x, "the updater gets the samples that were drawn")
            s.same(f"{o}/updater/costs", ms, a[3], costs, "the updater gets the costs in the order of the samples", flat=True)
            exp = [N.mk("call", *a, attr=("upd." + f,)) for f in ("mean", "covar", "weights")]
            s.same(f"{o}/new/mean", ms, ni[0], exp[0], "the distribution after the update is the updater's")
            s.same(f"{o}/new/covar", ms, ni[1], exp[1], "the distribution after the update is the updater's")
            s.same(f"{o}/weights", ms, wts, exp[2], "the weights are the updater's", flat=True)
        if kind == "task":
            for k in list(range(n)):
                xk = N.mk("index", x, N.const(k), attr="p")
                roll = N.mk("call", xk, attr=("solver.perform_rollout", 3, 2))
                s.same(f"{o}/{k}/sample", ms, w.node(ask(w, ses, "sample", i, k)), xk, "the sample of every roll-out is recorded", flat=True)
                s.same(f"{o}/{k}/cost_vars", ms, w.node(ask(w, ses, "cost_vars", i, k)), roll, "the roll-out of every sample is recorded", flat=True)
                s.same(f"{o}/{k}/cost", ms, w.node(ask(w, ses, "cost", i, k)), value_of(kind, K, xk), "the cost of every roll-out is recorded", flat=True)
            s.same(f"{o}/eval/cost_vars", ms, w.node(ask(w, ses, "cost_vars", i, "eval")), N.mk("call", cur[0], attr=("solver.perform_rollout", 3, 2)), "the roll-out of the mean is recorded", flat=True)
        wanted.append((cur[0], x))
        cur = ni
    names, k = (("cost.evaluate",), 0) if kind == "cost" else (("task.evaluate_rollout",), 1)
    want = lambda m: [ri.flat(v) for mu, x in wanted for v in [m.ev(mu), *ri.oarr(m.ev(x))]]
    s.forall("evaluations", ms, lambda m: same_bag([v for _, v in evaluated(m, ev, names, k)], want(m)), "the mean and every sample are evaluated exactly once per update")
    if kind == "task":
        s.forall("rollouts", ms, lambda m: same_bag([v for _, v in evaluated(m, ev, ("solver.perform_rollout",))], want(m)), "one roll-out is performed for the mean and for every sample")


def frac(t):
    return Sc(N.const(Fraction(t)), True)


def task_dmp(w, D, typ="KULVICIUS_2012_JOINING", pre="", tau=1):
    fas = []
    for k in range(D):
        f = mk_fa(w, "RBFN", reg=S(f"{pre}reg{k}", lo="0.05", hi="0.3"))
        x, t = data(w, 1, n=4, pre=f"{pre}fa{k}")
        w.call(f, "train", x, t)
        fas.append(f)
    kw = dict(lo="0.1", hi="0.9"), dict(lo="1.1", hi="2")
    d = w.new("Dmp", frac(tau), w.arr(pre + "y0", D, **kw[0]), w.arr(pre + "g", D, **kw[1]), w.list(*fas), dmp_type=strv(typ))
    w.call(d, "set_selected_param_names", w.list(strv("weights")))
    return d


def rollout_of(w, d, sample, T, steps):
    """matrix of the movement of a DMP with other parameters (the DMP is the caller's own)"""
    w.call(d, "set_param_vector", sample)
    r = w.callf_np("linspace", num(0), T, num(steps))
    x = w.call(d, "analytical_solution", r)
    return w.node(w.call(w.call(d, "states_as_trajectory", r, w.item(x, 0), w.item(x, 1)), "as_matrix"))


def solver(s, D, typ, form, hist):
    s.at("TaskSolverDmp.perform_rollout", "TaskSolverDmp.__init__")
    w = s.world()
    tau, F, dt, steps = {"exact": ("1", "3/2", "1/4", 7), "shorter": ("2", "1/2", "3/10", 4), "longer": ("4/5", "5/2", "1/3", 7), "once": ("1/2", "1", "1/8", 5)}[form]
    d = task_dmp(w, D, typ, tau=tau)
    T = Fraction(tau) * Fraction(F)
    given = [w.node(v) for v in (w.call(d, "get_param_vector"),)]
    sol = w.new("TaskSolverDmp", d, frac(dt), frac(F))
    n = D * 3
    a, b = w.arr("sampleA", n, lo="-3", hi="3"), w.arr("sampleB", n, lo="-3", hi="3")
    an, bn = w.node(a), w.node(b)
    s.same("callers-dmp", mods(2), w.node(w.call(d, "get_param_vector")), given[0], "the caller's DMP is not modified")
    if hist == "dmp-changed":
        w.call(d, "set_param_vector", w.arr("other", n))
        w.set(d, "tau", num(5))
        w.set(d, "y_attr", w.arr("g2", D, lo="1.1", hi="2"))
    ref = s.world()
    rd = task_dmp(ref, D, typ, tau=tau)
    ms = mods(2)
    before = w.node(w.call(d, "get_param_vector"))
    r1 = w.call(sol, "perform_rollout", a)
    if hist == "clobber":
        w.clobber(r1)
    r2 = w.call(sol, "perform_rollout", b)
    r3 = w.call(sol, "perform_rollout", a)
    exp = []
    for x in ("sampleA", "sampleB"):
        exp.append(rollout_of(ref, rd, ref.arr(x, n, lo="-3", hi="3"), frac(T), steps))
    if hist != "clobber":
        s.same("first", ms, w.node(r1), exp[0], "a roll-out is the movement of the DMP with the sample as its parameters")
    s.same("second", ms, w.node(r2), exp[1], "a roll-out depends on its own sample only")
    s.same("again", ms, w.node(r3), exp[0], "roll-outs of the same sample are the same")
    s.same("callers-dmp-after", ms, w.node(w.call(d, "get_param_vector")), before, "roll-outs do not change the caller's DMP")
    s.same("sample/a", ms, w.node(a), an, "samples are not modified")
    s.same("sample/b", ms, w.node(b), bn, "samples are not modified")
    mat = w.node(r2)
    s.same("times", ms, lambda m: ri.oarr(m.ev(mat))[:, 0], lambda m: ri.obj1([mpf(T.numerator) / T.denominator * k / (steps - 1) for k in range(steps)]), "a roll-out lasts as long as the solver was told to integrate")


def build(chk):
    for kind in ("cost", "task"):
        for D, n, U, K in ((2, 3, 3, 2), (1, 2, 2, 1), (3, 4, 2, 3), (2, 1, 2, 1), (2, 3, 2, 0)):
            chk.scenario(f"{kind}/{D}d/{n}x{U}/{K}", loop, kind, D, n, U, K)
        for up in ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation"):
            chk.scenario(f"{kind}/{up}", loop, kind, 2, 3, 2, 2, up)
        chk.scenario(f"{kind}/directory", loop, kind, 2, 3, 2, 2, None, "/data/session")
    for D in (1, 2):
        for typ in ("KULVICIUS_2012_JOINING", "IJSPEERT_2002_MOVEMENT", "SCT23_DAMPING"):
            for form in ("exact", "shorter", "longer", "once"):
                chk.scenario(f"solver/{typ}/{form}/{D}d", solver, D, typ, form, "")
            for hist in ("dmp-changed", "clobber"):
                chk.scenario(f"solver/{typ}/{hist}/{D}d", solver, D, typ, "exact", hist)

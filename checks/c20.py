"""C20: what a learning session reports about an optimization is what happened."""
from .c19 import *

EXPLANATION = ("Sessions are filled by abstract runs of the optimization loops, step by step or by hand, then queried in memory or reopened over the file-system model. Number of updates, sample costs, evaluation "
               "costs, learning curve and cost ratio must be the terms that follow from what was stored; queries must leave everything stored, and every later query, unchanged.")
ASSUMPTIONS = ["1..3 updates, 2..4 samples, 1..3 cost components given as vectors, or scalar costs (then in memory or still open sessions only)", "numpy.savetxt/loadtxt keep the values of vectors and of matrices with more than one row and column; jsonpickle restores an equal object"]


def filled(w, how, mode, U, n, K, evals=True):
    """-> session, per update (sample costs node, eval cost node or None)"""
    d = [strv(DIR)] if mode in ("disk", "reopened") else []
    cls = "LearningSession"
    if how in ("cost", "task"):
        s, *_ = run_loop(w, how, 2, n, U, K, None, DIR if d else None)
        x = [e["node"] for e in draws(w)]
        mu = [e["argnodes"][0] for e in draws(w)]
        data = [([value_of(how, K, N.mk("index", x[i], N.const(k), attr="p")) for k in range(n)], value_of(how, K, mu[i])) for i in range(U)]
        cls = cls if how == "cost" else "LearningSessionTask"
    elif how == "steps":
        cls = "LearningSessionTask"
        s, data = run_steps(w, 2, n, U, K, DIR if d else None)
    else:
        s = w.new(cls, num(n), *d)
        data = []
        for i in range(U):
            cs = w.arr(f"costs{i}", n, K) if how != "by-hand-list" else w.list(*[w.arr(f"costs{i}_{k}", K) for k in range(n)])
            if how == "by-hand-each":
                w.call(s, "tell", w.arr(f"wts{i}", n), strv("weights"), num(i))
                for k in range(n):
                    w.call(s, "tell", w.item(cs, k), strv("costs"), num(i), num(k))
            else:
                w.call(s, "add_update", num(i), make(w, "distribution", f"d{i}"), w.arr(f"smp{i}", n, 2), cs, w.arr(f"wts{i}", n), make(w, "distribution", f"e{i}"))
            e = None
            if evals:
                e = w.arr(f"eval{i}", K)
                w.call(s, "add_eval", num(i), w.arr(f"x{i}", 2), e)
                e = w.node(e)
            cn = w.node(cs)
            data.append(([N.mk("index", cn, N.const(k), attr="p") for k in range(n)], e))
    return settle(w, s, mode, cls), data


def run_steps(w, D, n, U, K, directory):
    """step-by-step optimization whose roll-outs are told by the client"""
    d, mean, covar, _, _ = setup(w, D, n)
    s, cvs = prepare(w, d, D, n, K, directory)
    data = []
    for i in range(U):
        cvs = tell_rollouts(w, s, i, n)
        x = draws(w)[-1]["node"]
        mu = argof(draws(w)[-1], 0, "mean")
        step(w, s, i)
        val = lambda k, p: N.mk("call", cvs[k], p, attr=("task.evaluate_rollout", K))
        data.append(([val(k, N.mk("index", x, N.const(k), attr="p")) for k in range(n)], val("eval", mu)))
    return s, data


def line_dmp(w, D, pre="dmp"):
    """a DMP with as many parameters as there are dimensions"""
    fas = []
    for k in range(D):
        f = mk_fa(w, "WLS", reg=S(f"{pre}reg{k}", lo="0.05", hi="0.3"))
        x, t = data(w, 1, n=3, pre=f"{pre}fa{k}")
        w.call(f, "train", x, t)
        fas.append(f)
    dmp = w.new("Dmp", S(pre + "tau", pos=True), w.arr(pre + "y0", 2), w.arr(pre + "g", 2), w.list(*fas))
    w.call(dmp, "set_selected_param_names", w.list(strv("slope")))
    return dmp


def prepare(w, d, D, n, K, directory, updater=None):
    dmp = line_dmp(w, D)
    s = w.callf("dmpbbo.bbo_of_dmps.step_by_step_optimization.prepare_optimization", strv(directory) if directory else NONEV, env_obj(w, task_stub(K)), NONEV, d, num(n),
                updater or env_obj(w, updater_stub()), dmp)
    return s, dmp


def tell_rollouts(w, s, i, n):
    out = {}
    for k in list(range(n)) + ["eval"]:
        cv = w.arr(f"cv{i}_{k}", 3, 2)
        tell(w, s, cv, "cost_vars", (i, k))
        out[k] = w.node(cv)
    return out


def step(w, s, i):
    w.callf("dmpbbo.bbo_of_dmps.step_by_step_optimization.update_step", s, num(i))


def query(s, how, mode, U, n, K, evals=True, early=False):
    s.at("LearningSession.get_n_updates", "LearningSession.get_learning_curve", "LearningSession.get_eval_costs")
    w = s.world()
    w.I.unroll_arrays = True
    q, data = filled(w, how, mode, U, n, K, evals)
    ms = mods(3)
    ev = lambda i: (lambda m: ri.flat(m.ev(data[i][1]))) if data[i][1] is not None else (lambda m: mean_of([m.ev(c) for c in data[i][0]]))
    pos = lambda i: Fraction(i) * n if data[i][1] is not None else (Fraction(i) + Fraction(1, 2)) * n
    for rnd in ("", "again/"):
        if early and not rnd:
            continue
        s.same(f"{rnd}n_updates", ms, w.node(w.call(q, "get_n_updates")), lambda m: mpf(U), "the number of updates is the number of updates performed")
        for i in range(U):
            s.same(f"{rnd}{i}/sample-costs", ms, w.node(w.call(q, "get_sample_costs", num(i))), lambda m: rows_of([m.ev(c) for c in data[i][0]]), "the costs of all samples of the update, in order", flat=True)
            r = w.call(q, "get_eval_costs", num(i))
            s.same(f"{rnd}{i}/eval-cost", ms, w.node(w.item(r, 0)), ev(i), "the cost of the mean of the distribution (or the mean cost of the samples) of the update", flat=True)
            s.same(f"{rnd}{i}/eval-position", ms, w.node(w.item(r, 1)), lambda m: mpf(pos(i).numerator) / pos(i).denominator, "evaluations happen before, mean costs in the middle of the samples of the update")
        lc, lab = w.call(q, "get_learning_curve").items
        cn = w.node(lc)
        s.same(f"{rnd}curve", ms, cn, lambda m: rows_of([[mpf(pos(i).numerator) / pos(i).denominator, *ev(i)(m)] for i in range(U)]), "the learning curve has one row per update: number of samples, then costs", flat=True)
        if how in ("cost", "task") and mode == "memory":
            ln = w.I.concrete_items(lab, w.st)
            s.ob(f"{rnd}labels", ln is not None and [w.node(x) for x in ln] == [N.const(f"label{k}") for k in range(K)] if ln is not None else None, "the labels are those of the cost function")
        s.same(f"{rnd}ratio", ms, w.node(w.call(q, "get_cost_ratio")), lambda m: ri.obj1([ev(U - 1)(m)[0] / ev(0)(m)[0]]), "the cost ratio compares the total costs of the last and the first evaluation", flat=True)
        ba = w.call(q, "get_eval_cost_before_after")
        s.same(f"{rnd}before", ms, w.node(w.item(ba, 0)), ev(0), "the evaluation before learning is the first one", flat=True)
        s.same(f"{rnd}after", ms, w.node(w.item(ba, 1)), ev(U - 1), "the evaluation after learning is that of the last update", flat=True)
        for x in (lc, w.item(ba, 0), w.item(ba, 1), w.call(q, "get_sample_costs", num(0))):
            x = w.I.resolve(x, w.st)
            for y in (w.I.concrete_items(x, w.st) or [] if isinstance(x, Lst) else [x]):
                w.clobber(y)


def mean_of(vs):
    vs = [ri.flat(v) for v in vs]
    return ri.obj1([sum(v[k] for v in vs) / len(vs) for k in range(len(vs[0]))])


def growing(s, mode, how):
    """queries between updates"""
    s.at("LearningSession.get_n_updates")
    w = s.world()
    w.I.unroll_arrays = True
    cls = "LearningSession"
    if how == "steps":
        d, *_ = setup(w, 2, 3)
        ses, _ = prepare(w, d, 2, 3, 2, DIR if mode != "memory" else None)
        cls = "LearningSessionTask"
    else:
        ses = session(w, mode)
    for i in range(3):
        q = settle(w, ses, mode, cls)
        s.ob(f"{i}", w.node(w.call(q, "get_n_updates")) is N.const(i), "the number of updates is the number of updates performed so far")
        if how == "steps":
            tell_rollouts(w, ses, i, 3)
            step(w, ses, i)
        else:
            w.call(ses, "add_update", num(i), make(w, "distribution", f"d{i}"), w.arr(f"smp{i}", 3, 2), w.arr(f"c{i}", 3, 2), w.arr(f"wts{i}", 3), make(w, "distribution", f"e{i}"))


def build(chk):
    for mode in MODES:
        for how in ("cost", "task", "by-hand", "by-hand-list", "by-hand-each", "steps"):
            if how == "steps" and mode in ("memory", "save_all"):
                continue
            for U, n, K in ((3, 3, 2), (2, 4, 3), (1, 2, 2), (2, 3, 1), (2, 2, 4), (1, 12, 2), (11, 2, 2), (2, 3, 0)):
                if (U * n > 12 or n == 12) and how in ("cost", "task", "steps") or n == 12 and mode != "memory" and how != "by-hand-each":
                    continue
                if not K and (how not in ("cost", "task") or mode in ("reopened", "save_all")):
                    continue
                chk.scenario(f"query/{how}/{mode}/{n}x{U}/{K}", query, how, mode, U, n, K)
            if how.startswith("by-hand"):
                for U, n, K in ((3, 3, 2), (2, 4, 3), (2, 2, 4)):
                    chk.scenario(f"query/{how}-without-evaluations/{mode}/{n}x{U}/{K}", query, how, mode, U, n, K, False)
        if mode != "save_all":
            for how in ("by-hand", "steps"):
                if how == "steps" and mode == "memory":
                    continue
                chk.scenario(f"growing/{how}/{mode}", growing, mode, how)

"""C17: samples come from the current distribution, respect its bounds, and nothing else is random."""
from .c16 import *
from .fa import mk_fa, data, KINDS, CLS
from .dmp import mk_dmp, DMP_TYPES

EXPLANATION = ("Draws are effects of the abstract interpreter: every call into a random generator is logged with the terms of its arguments. Sampling must consist of one multivariate normal draw with "
               "the terms of the current mean, covariance and number of samples, returned as it is or limited to the bounds. Training, integration, prediction, updates, evaluation and trajectory "
               "operations must log no draw on any path.")
ASSUMPTIONS = ["NumPy's multivariate_normal samples the distribution it is given", "term equality by congruence, then random interpretation"]


def draws(w, since=0):
    return [e for e in w.I.events[since:] if e["name"].startswith(("numpy.random.", "random."))]


def argof(e, k, nm):
    return e["kwnodes"].get(nm) if nm in e["kwnodes"] else (e["argnodes"][k] if len(e["argnodes"]) > k else None)


def check_draw(s, oid, w, ev, mean, covar, n, ms):
    """the one draw of a sampling call"""
    if any(e["name"] != "numpy.random.multivariate_normal" for e in ev):
        s.ob(f"{oid}/draw", None, "samples are drawn with a generator that is not modelled")
        return None
    s.ob(f"{oid}/draw", len(ev) == 1, f"samples are drawn once from the distribution (seen {len(ev)} draws)")
    if len(ev) != 1:
        return None
    e = ev[0]
    s.same(f"{oid}/mean", ms, argof(e, 0, "mean"), mean, "samples are drawn around the current mean")
    s.same(f"{oid}/covar", ms, argof(e, 1, "cov"), covar, "samples are drawn with the current covariance")
    sz = argof(e, 2, "size")
    s.same(f"{oid}/size", ms, (lambda m: mpf(1)) if sz is None else (lambda m: ri.flat(m.ev(sz))[0]), n if callable(n) else (lambda m: mpf(n)), "as many samples are drawn as were asked for")
    return e["node"]


def bounds(w, D, form):
    """-> lower, upper (values), models' bounds (m -> list or None)"""
    out = []
    for nm, lo, hi in (("lower", "-0.3", "0"), ("upper", "0.1", "0.5")):
        if form in ("none", "only-" + ("upper" if nm == "lower" else "lower")):
            out += [(NONEV, lambda m: None)]
        elif form == "scalar":
            v = S(nm, lo=lo, hi=hi)
            out += [(v, lambda m, v=v: [m.ev(v.node)] * D)]
        elif form == "list":
            v = w.list(*[S(f"{nm}{i}", lo=lo, hi=hi) for i in range(D)])
            out += [(v, lambda m, v=v: list(ri.flat(m.ev(w.node(v)))))]
        else:
            v = w.arr(nm, D, lo=lo, hi=hi)
            out += [(v, lambda m, v=v: list(ri.flat(m.ev(w.node(v)))))]
    return out


def limited(x, lo, hi):
    x = ri.oarr(x).copy()
    for i, j in np.ndindex(*x.shape):
        if lo is not None:
            x[i, j] = max(x[i, j], lo[j])
        if hi is not None:
            x[i, j] = min(x[i, j], hi[j])
    return x


def sampling(s, D, n, form, hist):
    cls = "DistributionGaussianBounded" if form else "DistributionGaussian"
    s.at(f"{cls}.generate_samples")
    w = s.world()
    mean, covar = w.arr("mean", D, lo="-1", hi="1"), w.arr("covar", D, D)
    args, lo, hi = [], (lambda m: None), (lambda m: None)
    if form and form != "default":
        (lv, lo), (hv, hi) = bounds(w, D, form)
        args = [lv, hv]
    d = w.new(cls, mean, covar, *args)
    ms = mods(3)
    if hist.startswith("after-sampling"):
        w.call(d, "generate_samples", num(4))
        w.get(d, "mean"), w.call(d, "max_eigen_value"), w.call(d, "__str__")
        hist = hist.replace("sampling+", "")
    if hist == "after-assignment":
        mean, covar = w.arr("mean2", D, lo="-1", hi="1"), w.arr("covar2", D, D)
        w.set(d, "mean", mean)
        w.set(d, "covar", covar)
    elif hist.startswith("after-Updater"):
        up = w.new(hist[6:])
        d = w.item(w.call(up, "update_distribution", d, w.arr("samples", 3, D, lo="-1", hi="1"), w.arr("costs", 3)), 0)
    mn, cn = w.node(w.get(d, "mean")), w.node(w.get(d, "covar"))
    if not hist.startswith("after-Updater"):
        mn, cn = w.node(mean), w.node(covar)
    k = len(w.I.events)
    nv = num(n) if isinstance(n, int) else S("n", kind="int") if n else None
    smp = w.call(d, "generate_samples", *([nv] if nv is not None else []))
    ev = draws(w, k)
    out = w.node(smp)
    x = check_draw(s, "first", w, ev, mn, cn, n or 1, ms)
    if x is not None:
        what = "samples are returned as drawn, limited to the bounds of each dimension" if form else "samples are returned as drawn"
        s.same("first/samples", ms, out, lambda m: limited(m.ev(x), lo(m), hi(m)), what)
        s.same("first/shape", ms, lambda m: mpf(ri.oarr(m.ev(out)).shape[0] * 100 + ri.oarr(m.ev(out)).shape[1]), lambda m: mpf((n or 1) * 100 + D), "one row per sample, one column per dimension")
    for f, nd in (("mean", mn), ("covar", cn)):
        s.same(f"unchanged/{f}", ms, w.node(w.get(d, f)), nd, "sampling does not change the distribution")
    # the caller may overwrite the samples; the next draw is another one
    w.clobber(smp)
    for f, nd in (("mean", mn), ("covar", cn)):
        s.same(f"separate/{f}", ms, w.node(w.get(d, f)), nd, "samples are not shared with the distribution")
    k = len(w.I.events)
    smp2 = w.call(d, "generate_samples", num(2))
    y = check_draw(s, "second", w, draws(w, k), mn, cn, 2, ms)
    if y is not None:
        s.same("second/samples", ms, w.node(smp2), lambda m: limited(m.ev(y), lo(m), hi(m)), "samples are those of a new draw")
        s.ob("fresh", y is not x, "every call draws new samples")


def quiet(s, what):
    """an operation that must not draw"""
    w = s.world()
    if what in CLS:
        s.at(f"{CLS[what]}.train", f"{CLS[what]}.predict")
        f = mk_fa(w, what)
        x, t = data(w, 1)
        w.call(f, "train", x, t)
        w.call(f, "predict", w.arr("q", 3, 1, lo="-2", hi="2"))
        w.call(f, "get_param_vector")
    elif what in DMP_TYPES:
        s.at("Dmp.train", "Dmp.analytical_solution", "Dmp.integrate_step")
        d = w.new("Dmp", S("tau", pos=True), w.arr("y0", 2, lo="0.1", hi="0.9"), w.arr("g", 2, lo="1.1", hi="2"), w.list(mk_fa(w, "RBFN"), mk_fa(w, "WLS")), dmp_type=strv(what))
        tr = w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 5, 2, lo="0", hi="2"), w.arr("yds", 5, 2), w.arr("ydds", 5, 2))
        w.call(d, "train", tr)
        x0 = w.item(w.call(d, "integrate_start"), 0)
        w.call(d, "integrate_step", S("dt", pos=True), x0)
        r = w.call(d, "analytical_solution", w.arr("tt", 4, increasing=True))
        w.call(d, "states_as_trajectory", w.arr("tt", 4, increasing=True), w.item(r, 0), w.item(r, 1))
    elif what.startswith("Updater"):
        s.at(f"{what}.update_distribution")
        d, mean, covar, samples, costs = setup(w, 2, 3)
        w.call(w.new(what), "update_distribution", d, samples, costs)
    elif what == "Trajectory":
        s.at("Trajectory.append", "Trajectory.from_polynomial")
        t = w.static("Trajectory", "from_min_jerk", w.arr("ts", 5, increasing=True), w.arr("a", 2), w.arr("b", 2))
        w.call(t, "append", w.static("Trajectory", "from_min_jerk", w.arr("ts2", 5, increasing=True), w.arr("a", 2), w.arr("b", 2)))
        w.call(t, "apply_low_pass_filter", S("cutoff", lo="0.2", hi="0.4"))
    else:
        s.at(f"{SYSTEMS[what][0]}.integrate_start", f"{SYSTEMS[what][0]}.analytical_solution")
        o = SYSTEMS[what][1](w, N.const(2))
        x0 = w.item(w.call(o, "integrate_start"), 0)
        w.call(o, "integrate_step", S("dt", pos=True), x0)
        w.call(o, "analytical_solution", w.arr("tt", 4, increasing=True))
    ev = draws(w)
    s.ob("no-draw", not ev, "training, prediction, integration and updates are deterministic" + (f": {ev[0]['name']} at {ev[0]['site']}" if ev else ""), ev[0]["site"] if ev else None, "effect analysis")


def build(chk):
    U = ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation")
    H = ("fresh", "after-sampling", "after-assignment", "after-UpdaterMean", "after-UpdaterCovarDecay", "after-UpdaterCovarAdaptation", "after-sampling+assignment") + tuple("after-sampling+" + u for u in U)
    for D in (1, 2, 3):
        for n in (1, 3, None):
            chk.scenario(f"gaussian/{D}d/{n}", sampling, D, n, None, "fresh")
            for form in ("default", "none", "scalar", "array", "list", "only-lower", "only-upper"):
                chk.scenario(f"bounded/{form}/{D}d/{n}", sampling, D, n, form, "fresh")
        for h in H[1:]:
            for form in (None, "scalar", "array"):
                chk.scenario(f"history/{h}/{form or 'gaussian'}/{D}d", sampling, D, 3, form, h)
    for k in KINDS + DMP_TYPES + ["UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation", "Trajectory"] + list(SYSTEMS):
        chk.scenario(f"deterministic/{k}", quiet, k)

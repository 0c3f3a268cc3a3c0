"""C16: reward-weighted averaging updates the search distribution."""
from fractions import Fraction

from .c15 import *

EXPLANATION = ("Mean and covariance of the distribution returned by every updater are terms over the mean and covariance before, the samples and the costs; they are compared with the weighted mean of the "
               "samples and the prescribed covariance (kept, decayed, or weighted outer products low-pass filtered with the previous covariance, diagonal only if asked, diagonal limited). "
               "The heap shows that the distribution before, samples and costs are neither modified nor shared.")
ASSUMPTIONS = ["real arithmetic", "term equality by congruence, then random interpretation; 2..5 samples, 1..3 dimensions", "positive definiteness of a covariance whose diagonal was limited is not claimed"]


def setup(w, D, n, bounded=False):
    mean, covar = w.arr("mean", D), w.arr("covar", D, D)
    if bounded:
        d = w.new("DistributionGaussianBounded", mean, covar, w.arr("lower", D, lo="-5", hi="-4"), w.arr("upper", D, lo="4", hi="5"))
    else:
        d = w.new("DistributionGaussian", mean, covar)
    return d, mean, covar, w.arr("samples", n, D), w.arr("costs", n)


def wmean(m, samples, wt):
    x = ri.oarr(m.ev(samples))
    return ri.obj1([sum(wt[i] * x[i, d] for i in range(len(wt))) for d in range(x.shape[1])])


def rank_mu(m, samples, mean, wt):
    x, mu = ri.oarr(m.ev(samples)), ri.flat(m.ev(mean))
    D = x.shape[1]
    out = np.empty((D, D), dtype=object)
    for a in range(D):
        for b in range(D):
            out[a, b] = sum(wt[i] * (x[i, a] - mu[a]) * (x[i, b] - mu[b]) for i in range(len(wt)))
    return out


def same_before(s, oid, ms, w, d, samples, costs, D, n, given):
    s.same(f"{oid}/mean", ms, w.node(w.get(d, "mean")), given[0], "the distribution before the update is unchanged")
    s.same(f"{oid}/covar", ms, w.node(w.get(d, "covar")), given[1], "the distribution before the update is unchanged")
    s.same(f"{oid}/samples", ms, w.node(samples), given[2], "samples are not modified")
    s.same(f"{oid}/costs", ms, w.node(costs), given[3], "costs are not modified")


def update(s, kind, method, D, n, bounded, diag_only=None, lr=None, dmax=None, dmin=None, decay=None):
    s.at(f"{kind}.update_distribution")
    w = s.world()
    d, mean, covar, samples, costs = setup(w, D, n, bounded)
    given = [w.node(x) for x in (mean, covar, samples, costs)]
    h = 2 if method != "PI-BB" else 5
    kw = dict(eliteness=num(h), weighting_method=strv(method))
    if diag_only is not None:
        kw["diag_only"] = TRUEV if diag_only else FALSEV
    lrn = None
    if lr is not None:
        lrs = S("lr", lo="0.1", hi="0.9") if lr == "sym" else num(int(lr))
        kw["learning_rate"] = lrs
        lrn = lrs.node
    fac = None
    if decay:
        fac = S("decay", lo="0.3", hi="0.99")
        kw["covar_decay_factor"] = fac
    lim = {}
    for nm, form, lo, hi in (("diagonal_max", dmax, "0.9", "1.2"), ("diagonal_min", dmin, "0.5", "0.8")):
        if form == "scalar":
            v = S(nm, lo=lo, hi=hi)
            lim[nm] = (lambda m, v=v: [m.ev(v.node)] * D)
        elif form == "array":
            v = w.arr(nm, D, lo=lo, hi=hi)
            lim[nm] = (lambda m, v=v: list(ri.flat(m.ev(w.node(v)))))
        elif form == "list":
            v = w.list(*[S(f"{nm}{i}", lo=lo, hi=hi) for i in range(D)])
            lim[nm] = (lambda m, v=v: list(ri.flat(m.ev(w.node(v)))))
        if form:
            kw[nm] = v
    up = w.new(kind, **kw)
    r = w.call(up, "update_distribution", d, samples, costs)
    new, wts = w.item(r, 0), w.item(r, 1)
    ms = mods(5)
    wt = lambda m: prescribed(method, list(ri.flat(m.ev(given[3]))), mpf(h))
    s.same("mean", ms, w.node(w.get(new, "mean")), lambda m: wmean(m, given[2], wt(m)), "the new mean is the average of the samples, weighted by their costs")
    s.same("weights", ms, w.node(wts), wt, "the weights are returned with the distribution")

    def cov(m):
        C0 = ri.oarr(m.ev(given[1]))
        if kind == "UpdaterMean":
            return C0
        if kind == "UpdaterCovarDecay":
            f = m.ev(fac.node) if fac else mpf("0.8")
            return C0 * (f * f)
        C = rank_mu(m, given[2], given[0], wt(m))
        if diag_only:
            C = np.array([[C[a, b] if a == b else mpf(0) for b in range(D)] for a in range(D)], dtype=object)
        if lrn is not None:
            l = m.ev(lrn)
            C = C0 * (1 - l) + C * l
        C = C.copy()
        for nm, f in (("diagonal_max", min), ("diagonal_min", max)):
            if nm in lim:
                for a in range(D):
                    C[a, a] = f(C[a, a], lim[nm](m)[a] ** 2)
        return C
    what = {"UpdaterMean": "the covariance is kept", "UpdaterCovarDecay": "the covariance decays by the square of the decay factor",
            "UpdaterCovarAdaptation": "the covariance is the weighted mean of outer products of deviations from the old mean, low-pass filtered, its diagonal limited"}[kind]
    s.same("covar", ms, w.node(w.get(new, "covar")), cov, what)
    same_before(s, "before", ms, w, d, samples, costs, D, n, given)
    if bounded:
        for b in ("lower_bound", "upper_bound"):
            s.same(f"bounds/{b}", ms, w.node(w.get(new, b)), w.node(w.get(d, b)), "bounds are passed on")
    # exchange by value: the new distribution does not share arrays with the old one, the samples or the costs
    nodes = [w.node(w.get(new, f)) for f in ("mean", "covar")]
    for nm, v in (("mean", w.get(d, "mean")), ("covar", w.get(d, "covar")), ("samples", samples), ("costs", costs), ("weights", wts)):
        w.clobber(v, "overwritten_" + nm)
    for f, nd in zip(("mean", "covar"), nodes):
        s.same(f"separate/{f}", ms[:2], w.node(w.get(new, f)), nd, "the new distribution does not change with the old one, samples, costs or weights")


def fixed_points(s, kind, D):
    s.at(f"{kind}.update_distribution")
    w = s.world()
    n = 4
    d, mean, covar, samples, costs = setup(w, D, n)
    up = w.new(kind, **({"learning_rate": num(1)} if kind == "UpdaterCovarAdaptation" else {}))
    ms = mods(3)
    # a permutation of samples with their costs
    r1 = w.item(w.call(up, "update_distribution", d, samples, costs), 0)
    rowsL = [w.item(samples, i) for i in (2, 0, 3, 1)]
    ps = w.I.new_arr(w.st, N.mk("mklist", *[w.node(x) for x in rowsL]))
    pc = w.list(*[w.item(costs, i) for i in (2, 0, 3, 1)])
    r2 = w.item(w.call(up, "update_distribution", d, ps, pc), 0)
    for f in ("mean", "covar"):
        s.same(f"permuted/{f}", ms, w.node(w.get(r2, f)), w.node(w.get(r1, f)), "the order of the samples (with their costs) does not matter")
    lo = lambda m: [min(c) for c in ri.oarr(m.ev(w.node(samples))).T]
    hi = lambda m: [max(c) for c in ri.oarr(m.ev(w.node(samples))).T]
    mn = w.node(w.get(r1, "mean"))
    s.forall("inside", ms, lambda m: all(a - mpf(10) ** -25 <= x <= b + mpf(10) ** -25 for a, x, b in zip(lo(m), ri.flat(m.ev(mn)), hi(m))), "the new mean lies within the range of the samples")
    # equal costs: plain average
    eq = w.arr("eq", n)
    r3 = w.item(w.call(up, "update_distribution", d, samples, eq), 0)
    m3 = [ri.Model(7700 + k, values={"eq": col(*[2] * n)}) for k in range(2)]
    s.same("equal", m3, w.node(w.get(r3, "mean")), lambda m: ri.obj1([sum(c) / n for c in ri.oarr(m.ev(w.node(samples))).T]), "equal costs: the plain average of the samples")
    cv = w.node(w.get(r1, "covar"))
    if kind == "UpdaterCovarAdaptation":
        s.same("symmetric", ms, cv, lambda m: ri.oarr(m.ev(cv)).T, "the covariance is symmetric")
    # repeated updates with one updater: no state is carried over
    r4 = w.item(w.call(up, "update_distribution", r1, w.arr("samples2", 3, D), w.arr("costs2", 3)), 0)
    r5 = w.item(w.call(up, "update_distribution", d, samples, costs), 0)
    for f in ("mean", "covar"):
        s.same(f"stateless/{f}", ms, w.node(w.get(r5, f)), w.node(w.get(r1, f)), "an update depends only on the distribution, samples and costs it is given")
    fresh = w.new(kind, **({"learning_rate": num(1)} if kind == "UpdaterCovarAdaptation" else {}))
    nd = w.new("DistributionGaussian", w.get(r1, "mean"), w.get(r1, "covar"))
    r6 = w.item(w.call(fresh, "update_distribution", nd, w.arr("samples2", 3, D), w.arr("costs2", 3)), 0)
    for f in ("mean", "covar"):
        s.same(f"chained/{f}", ms, w.node(w.get(r4, f)), w.node(w.get(r6, f)), "an update depends only on the distribution, samples and costs it is given")


def rejected(s):
    s.at("UpdaterCovarAdaptation.__init__")
    for nm, v in (("above", "1.5"), ("below", "-0.1")):
        w = s.world()
        s.rejects(f"learning-rate/{nm}", w, lambda: w.new("UpdaterCovarAdaptation", learning_rate=Sc(N.const(Fraction(v)))), "a learning rate outside [0,1] is rejected")
    s.at("DistributionGaussian.__init__")
    w = s.world()
    s.rejects("dims", w, lambda: w.new("DistributionGaussian", w.arr("mean", 2), w.arr("covar", 3, 3)), "mean and covariance of different dimension are rejected")


def build(chk):
    K = ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation")
    for D in (1, 2, 3):
        for kind in K:
            for method in METHODS:
                chk.scenario(f"{kind}/{method}/{D}d", update, kind, method, D, 4, D == 2)
            chk.scenario(f"laws/{kind}/{D}d", fixed_points, kind, D)
        chk.scenario(f"UpdaterCovarDecay/decay/{D}d", update, "UpdaterCovarDecay", "PI-BB", D, 3, False, None, None, None, None, True)
        for diag in (False, True):
            for lr in (None, "sym", "0", "1"):
                for dmax, dmin in ((None, None), ("scalar", None), (None, "scalar"), ("scalar", "scalar"), ("array", "array"), ("list", "list")):
                    if not chk.thorough and (lr in ("0", "1") and dmax or D == 3 and diag):
                        continue
                    chk.scenario(f"adaptation/{D}d/{'diag' if diag else 'full'}/lr-{lr}/max-{dmax}/min-{dmin}", update, "UpdaterCovarAdaptation", "PI-BB", D, 4, False, diag, lr, dmax, dmin)
    chk.scenario("rejected", rejected)

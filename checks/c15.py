"""C15: costs become weights of reward-weighted averaging."""
from .common import *

EXPLANATION = ("Weights are read from the result of every kind of distribution update (and from costs_to_weights itself) for symbolic costs in every form the interface accepts. Their terms are "
               "compared with the prescribed weighting of the total cost, and under permutation, shift and scaling of the costs; non-negativity, sum and order are decided on the same terms.")
ASSUMPTIONS = ["real arithmetic", "term equality by congruence, then random interpretation; 1..7 samples, with and without ties", "rank-based weights of tied costs may be assigned in any order"]
METHODS = ("PI-BB", "CEM", "CMA-ES")


def prescribed(method, c, h):
    """weights of total costs c (no ties for the rank-based methods)"""
    n = len(c)
    if method == "PI-BB":
        lo, hi = min(c), max(c)
        w = [mpf(1)] * n if lo == hi else [mpmath.exp(-h * (x - lo) / (hi - lo)) for x in c]
    else:
        mu = int(h)
        order = sorted(range(n), key=lambda i: c[i])
        w = [mpf(0)] * n
        for r, i in enumerate(order[:mu]):
            w[i] = mpf(1) if method == "CEM" else mpmath.log(mu + mpf("0.5")) - mpmath.log(r + 1)
    s = sum(w)
    return ri.obj1([x / s for x in w])


def cost_forms(w, n, K):
    """every form of n costs with K components; -> (value passed, total costs of a model)"""
    if K == 0:
        c = w.arr("costs", n)
        el = [S(f"c{i}") for i in range(n)]
        return {"array": (c, lambda m: list(ri.flat(m.ev(w.node(c))))),
                "list": (w.list(*el), lambda m: [m.ev(x.node) for x in el])}
    c = w.arr("costs", n, K)
    rws = [w.arr(f"row{i}", K) for i in range(n)]
    el = [[S(f"c{i}_{j}") for j in range(K)] for i in range(n)]
    col0 = lambda m: [x for x in ri.oarr(m.ev(w.node(c)))[:, 0]]
    return {"matrix": (c, col0),
            "list-of-arrays": (w.list(*rws), lambda m: [ri.flat(m.ev(w.node(r)))[0] for r in rws]),
            "list-of-lists": (w.list(*[w.list(*r) for r in el]), lambda m: [m.ev(r[0].node) for r in el])}


def updaters(w, **kw):
    kw = {k: v for k, v in kw.items() if v is not None}
    for nm in ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation"):
        yield nm, w.new(nm, **kw)


def dist(w, D):
    return w.new("DistributionGaussian", w.arr("mean", D), w.arr("covar", D, D))


def weights_of(w, up, n, costs, D=2):
    r = w.call(up, "update_distribution", dist(w, D), w.arr("samples", n, D), costs)
    return w.item(r, 1)


def laws(s, oid, ms, n, wn, total, method, h):
    s.forall(f"{oid}/non-negative", ms, lambda m: all(x >= 0 for x in ri.flat(m.ev(wn))), "weights are non-negative")
    s.same(f"{oid}/sum", ms, lambda m: sum(ri.flat(m.ev(wn))), lambda m: mpf(1), "weights sum to one")
    s.forall(f"{oid}/order", ms, lambda m: antitone(total(m), list(ri.flat(m.ev(wn)))), "a sample with a lower total cost never has a smaller weight")
    s.same(f"{oid}/shape", ms, lambda m: mpf(len(ri.flat(m.ev(wn)))), lambda m: mpf(n), "one weight per sample, in order")


def antitone(c, w):
    return all(not (c[i] < c[j]) or w[i] >= w[j] for i in range(len(c)) for j in range(len(c)))


def mods(n=4, **kw):
    return [ri.Model(7100 + k + 1000 * int(os.environ.get("VERIF_SEED") or 1), **kw) for k in range(n * (3 if thorough() else 1))]


def weights(s, method, n, K, h):
    s.at("costs_to_weights")
    w = s.world()
    hs = S("h", lo="2", hi="12") if h is None else num(h)
    hv = (lambda m: m.ev(hs.node)) if h is None else (lambda m: mpf(h))
    for form, (costs, total) in cost_forms(w, n, K).items():
        ms = mods()
        for nm, up in updaters(w, eliteness=hs, weighting_method=strv(method)):
            wn = w.node(weights_of(w, up, n, costs))
            s.same(f"{form}/{nm}", ms, wn, lambda m: prescribed(method, total(m), hv(m)), "weights follow the weighting method, from the total costs only")
        wn = w.node(w.callf("dmpbbo.bbo.updaters.costs_to_weights", costs, strv(method), hs))
        s.same(f"{form}/direct", ms, wn, lambda m: prescribed(method, total(m), hv(m)), "weights follow the weighting method, from the total costs only")
        laws(s, form, ms, n, wn, total, method, h)


def ties(s, method, n, h):
    s.at("costs_to_weights")
    w = s.world()
    costs = w.arr("costs", n)
    wn = w.node(w.callf("dmpbbo.bbo.updaters.costs_to_weights", costs, strv(method), num(h)))
    pats = [[3] * n, [i % 2 for i in range(n)], [min(i, 2) for i in range(n)], [-i // 2 for i in range(n)]]
    for k, p in enumerate(pats):
        ms = [ri.Model(7200, values={"costs": col(*p)})]
        laws(s, f"pattern{k}", ms, n, wn, lambda m: [mpf(x) for x in p], method, h)
        if method == "PI-BB":
            s.same(f"pattern{k}/weights", ms, wn, lambda m: prescribed(method, [mpf(x) for x in p], mpf(h)), "equal costs have equal weights; all costs equal: uniform weights")
        else:
            s.same(f"pattern{k}/sorted", ms, lambda m: ri.obj1(sorted(ri.flat(m.ev(wn)))), lambda m: ri.obj1(sorted(prescribed(method, [mpf(i) for i in range(n)], mpf(h)))), "tied costs: the weights are those of the ranks")


SCALES = {"large-spread": ["1", "1000", "9000", "1e7"], "tiny": ["1e-9", "3e-9", "2e-9", "9e-9"], "negative": ["-5", "-1", "-300", "-2"], "mixed": ["-2", "0", "5", "1e4"],
          "offset": ["1e6", "1000001", "1000003", "1000002"], "huge": ["1e12", "3e12", "2e12", "7e12"]}


def scales(s, method):
    s.at("costs_to_weights")
    w = s.world()
    for n in (2, 3, 4):
        costs = w.arr("costs", n)
        for h in (1, 2, 10, 50) if method == "PI-BB" else (1, 2, 3):
            wn = w.node(w.callf("dmpbbo.bbo.updaters.costs_to_weights", costs, strv(method), num(h)))
            for nm, v in SCALES.items():
                for rev in (False, True):
                    c = [mpf(x) for x in (v[:n][::-1] if rev else v[:n])]
                    m = [ri.Model(7300, values={"costs": ri.obj1(c)})]
                    s.same(f"{nm}/{n}/{h}{'/reversed' if rev else ''}", m, wn, lambda m: prescribed(method, c, mpf(h)), "weights follow the weighting method for costs of any magnitude")


def equivariance(s, method, n, h):
    s.at("costs_to_weights")
    w = s.world()
    f = lambda c: w.node(w.callf("dmpbbo.bbo.updaters.costs_to_weights", c, strv(method), num(h)))
    el = [S(f"c{i}") for i in range(n)]
    a, b = S("shift", lo="-3", hi="3"), S("scale", lo="0.2", hi="6")
    base = f(w.list(*el))
    perm = list(range(1, n)) + [0]
    ms = mods()
    s.same("permutation", ms, f(w.list(*[el[i] for i in perm])), lambda m: ri.flat(m.ev(base))[perm], "reordering the samples reorders the weights")
    s.same("affine", ms, f(w.list(*[Sc(N.add(N.mul(x.node, b.node), a.node)) for x in el])), base, "shifting and scaling all costs changes nothing")


def defaults(s):
    s.at("UpdaterMean.__init__", "UpdaterCovarDecay.__init__", "UpdaterCovarAdaptation.__init__")
    w = s.world()
    c = w.arr("costs", 5)
    for nm, up in updaters(w):
        s.same(nm, mods(2), w.node(weights_of(w, up, 5, c)), lambda m: prescribed("PI-BB", list(ri.flat(m.ev(w.node(c)))), mpf(10)), "without arguments PI-BB weighting with eliteness 10 is used")
    for nm, up in updaters(w, weighting_method=strv("CEM"), eliteness=num(2)):
        s.same(f"repeat/{nm}", mods(2), w.node(weights_of(w, up, 5, c)), lambda m: prescribed("CEM", list(ri.flat(m.ev(w.node(c)))), mpf(2)), "weights do not depend on earlier updates")
        c2 = w.arr("other", 4)
        weights_of(w, up, 4, c2)
        s.same(f"repeat/{nm}/again", mods(2), w.node(weights_of(w, up, 5, c)), lambda m: prescribed("CEM", list(ri.flat(m.ev(w.node(c)))), mpf(2)), "weights do not depend on earlier updates")
    s.same("costs", mods(2), w.node(c), N.sym("costs", (N.const(5),)), "costs are not modified")


def build(chk):
    for method in METHODS:
        for K in (0, 1, 3):
            if method == "PI-BB":
                for n in (1, 2, 5) if not chk.thorough else (1, 2, 3, 5, 7):
                    chk.scenario(f"{method}/{n}samples/{K}components", weights, method, n, K, None)
            else:
                for n, mu in ((1, 1), (5, 1), (5, 3), (5, 5), (4, 10)) if not chk.thorough else ((1, 1), (1, 3), (2, 1), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5), (4, 10), (7, 3)):
                    chk.scenario(f"{method}/{n}samples/mu{mu}/{K}components", weights, method, n, K, mu)
        for n, h in ((2, 2), (4, 3), (6, 2)):
            chk.scenario(f"ties/{method}/{n}/{h}", ties, method, n, h)
            chk.scenario(f"equivariance/{method}/{n}/{h}", equivariance, method, n, h)
        chk.scenario(f"magnitudes/{method}", scales, method)
    chk.scenario("defaults", defaults)

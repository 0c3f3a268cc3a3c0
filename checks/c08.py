"""C08: every function approximator makes the predictions its model defines."""
from .fa import *

EXPLANATION = ("For every approximator kind, one and two input dimensions, with and without offset, sample weights and regularisation, the "
               "term of the prediction at fresh query points (obtained by interpreting training and prediction on symbolic data) is compared "
               "with the defining criterion, solved independently on the same symbolic data: regularised weighted normal equations, radial "
               "basis network, locally weighted lines, Gaussian-process interpolation. Locality, retraining, and input-shape handling are decided on the same terms.")
ASSUMPTIONS = ["real arithmetic; the linear systems are non-singular", "term equality by random interpretation (5..8 samples, 2..6 basis functions, 4 queries)"]


def solve(A, b):
    n = len(b)
    M = mpmath.matrix(n, n)
    for i in range(n):
        for j in range(n):
            M[i, j] = A[i][j]
    x = mpmath.lu_solve(M, mpmath.matrix([mpf(v) for v in b]))
    return [x[i] for i in range(n)]


def wls(X, t, w, reg, offset=True):
    """argmin sum_i w_i (t_i - x_i.b)^2 + reg |b|^2 (X without the constant column)."""
    R = [[x for x in row] + ([mpf(1)] if offset else []) for row in X]
    p = len(R[0])
    A = [[sum(w[i] * R[i][a] * R[i][b] for i in range(len(R))) + (reg if a == b else 0) for b in range(p)] for a in range(p)]
    return solve(A, [sum(w[i] * R[i][a] * t[i] for i in range(len(R))) for a in range(p)])


def grid(X, n, h):
    """Product grid: centers (list of points) and one width per point and dimension."""
    d = len(X[0])
    cs, ws = [], []
    for j in range(d):
        lo, hi = min(r[j] for r in X), max(r[j] for r in X)
        c = [lo + (hi - lo) * k / (n[j] - 1) for k in range(n[j])] if n[j] > 1 else [lo]
        w = (c[1] - c[0]) / mpmath.sqrt(-8 * mpmath.log(h)) if n[j] > 1 else mpf(1)
        cs.append(c)
        ws.append(w)
    pts = [[]]
    for c in cs:
        pts = [p + [x] for p in pts for x in c]
    return pts, ws


def act(x, p, w):
    return mpmath.exp(-sum((a - b) ** 2 / (2 * s * s) for a, b, s in zip(x, p, w)))


NBF = {1: [3], 2: [2, 3]}


def oracle(kind, d, X, t, w, Q, reg, height, cov, ln, nbf=None):
    n = nbf or (NBF[d] if kind != "LWR-1" else [1] * d)
    ones = [mpf(1)] * len(t)
    if kind.startswith("WLS"):
        off = kind == "WLS"
        b = wls(X, t, w or ones, reg, off)
        return [sum(q[j] * b[j] for j in range(d)) + (b[d] if off else 0) for q in Q]
    if kind == "RBFN":
        P, s = grid(X, n, height)
        A = [[act(x, p, s) for p in P] for x in X]
        b = wls(A, t, ones, reg, False)
        return [sum(act(q, p, s) * bb for p, bb in zip(P, b)) for q in Q]
    if kind.startswith("LWR"):
        P, s = grid(X, n, height)

        def na(x):
            a = [act(x, p, s) for p in P]
            return [v / sum(a) for v in a]
        A = [na(x) for x in X]
        B = [wls(X, t, [r[k] for r in A], reg, True) for k in range(len(P))]
        return [sum(a * (sum(q[j] * b[j] for j in range(d)) + b[d]) for a, b in zip(na(q), B)) for q in Q]
    K = [[cov * act(x, y, ln) for y in X] for x in X]
    al = solve(K, t)
    return [sum(cov * act(q, x, ln) * a for x, a in zip(X, al)) for q in Q]


def lst(v):
    v = ri.oarr(v)
    return [list(r) for r in v] if v.ndim == 2 else [[x] for x in v]


def predict_ok(s, w, oid, fa, kind, d, X, t, weights=None, reg=None, q=None, nbf=None, what="predictions are those of the defining model"):
    q = q if q is not None else w.arr("Q", 4, d, lo="-2", hi="2")
    n, nq, nX, nt = w.node(w.call(fa, "predict", q)), w.node(q), w.node(X), w.node(t)
    nw = w.node(weights) if weights is not None else None
    leaves = dict(reg=w.node(reg) if reg is not None else None, h=S("height", lo="0.3", hi="0.8").node, cov=S("cov", lo="0.5", hi="2").node)

    def go(m):
        got = ri.flat(m.ev(n))
        ln = list(ri.flat(m.ev(w.node(w.arr("lens", 2, lo="0.5", hi="1"))))) if kind == "GPR-per-dim" else [m.ev(S("len", lo="0.5", hi="1").node)] * d
        want = oracle(kind.replace("-per-dim", ""), d, lst(m.ev(nX)), list(ri.flat(m.ev(nt))), list(ri.flat(m.ev(nw))) if nw is not None else None, lst(m.ev(nq)),
                      m.ev(leaves["reg"]) if leaves["reg"] is not None else mpf(0), m.ev(leaves["h"]), m.ev(leaves["cov"]), ln, nbf)
        want = ri.obj1(want)
        return ri.close(got, want), f"{ri.fmt(got)} instead of {ri.fmt(want)}"
    s.forall(oid, fmods(), go, what, rule="term equality with the defining criterion")


def trained(s, kind, d, form):
    s.at(f"{CLS[kind]}.train", f"{CLS[kind]}.predict")
    w = s.world()
    reg = S("reg", lo="0.05", hi="0.3")
    X, t = data(w, d, flat=(form == "flat"), tcol=form == "target-column")
    weights = None
    if form == "default-regularization":
        reg = None
        mk = {"WLS": lambda: w.new("FunctionApproximatorWLS"), "WLS-no-offset": lambda: w.new("FunctionApproximatorWLS", FALSEV),
              "RBFN": lambda: w.new("FunctionApproximatorRBFN", nb(w, d), S("height", lo="0.3", hi="0.8")),
              "LWR": lambda: w.new("FunctionApproximatorLWR", nb(w, d), S("height", lo="0.3", hi="0.8"))}[kind]
        fa = mk()
    else:
        fa = mk_fa(w, kind, d)
    kw = {}
    if form == "weighted":
        weights = w.arr("wts", NS[d], lo="0.1", hi="2")
        kw["weights"] = weights
    if form == "retrained":
        X0, t0 = data(w, d, pre="old")
        w.call(fa, "train", X0, t0)
        w.call(fa, "predict", X0)
    w.call(fa, "train", X, t, **kw)
    predict_ok(s, w, "prediction", fa, kind, d, X, t, weights, reg)
    if form in ("column", "flat"):
        s.ob("is-trained", w.call(fa, "is_trained").node is N.TRUE, "a trained approximator says so")
        s.same("dim-input", fmods(1), w.node(w.call(fa, "dim_input")), N.const(d), "the input dimensionality is the one trained on")
    # locality: each prediction depends on its own query only
    q = w.arr("Q", 4, d, lo="-2", hi="2")
    p_all = w.node(w.call(fa, "predict", q))
    q1 = w.I.getitem(q, SliceV(Sc(N.const(2)), Sc(N.const(3)), NONEV), w.st) if False else None
    one = w.arr("Qone", 1, d, lo="-2", hi="2")
    p_one = w.node(w.call(fa, "predict", one))

    def loc(m):
        qv = ri.oarr(m.ev(w.node(q)))[2:3]
        m2 = ri.Model(m.seed, values={"Qone": lambda mm, sh: qv})
        return ri.close(ri.flat(m.ev(p_all))[2:3], ri.flat(m2.ev(p_one)))
    s.forall("prediction-is-local", fmods(2), loc, "a prediction depends on its own query point only", rule="dependence")
    if d == 1:
        qf = w.arr("Qf", 3, lo="-2", hi="2")
        predict_ok(s, w, "flat-query", fa, kind, d, X, t, weights, reg, q=qf, what="queries without a second dimension are treated as a column")


def nb(w, d):
    return {1: num(3), 2: w.list(num(2), num(3))}[d]


def rejects(s, kind, d):
    s.at(f"{CLS[kind]}.predict")
    w = s.world()
    fa = mk_fa(w, kind, d)
    s.ob("untrained", w.call(fa, "is_trained").node is N.FALSE, "a fresh approximator is untrained")
    s.rejects("predict-untrained", w, lambda: (lambda v: v.call(fa, "predict", v.arr("Q", 4, d)))(w.fork()), "predicting before training is rejected")
    X, t = data(w, d)
    w.call(fa, "train", X, t)
    s.rejects("predict-wrong-dimension", w, lambda: (lambda v: v.call(fa, "predict", v.arr("Qw", 4, d + 1)))(w.fork()), "queries of the wrong dimensionality are rejected")
    if d == 2:
        s.rejects("predict-flat", w, lambda: (lambda v: v.call(fa, "predict", v.arr("Qg", 4)))(w.fork()), "queries of the wrong dimensionality are rejected")


def shared_count(s, kind):
    """A single number of basis functions applies to every input dimension."""
    s.at(f"{CLS[kind]}.train")
    w = s.world()
    reg = S("reg", lo="0.05", hi="0.3")
    fa = w.new(CLS[kind], num(2), S("height", lo="0.3", hi="0.8"), reg)
    X, t = data(w, 2)
    w.call(fa, "train", X, t)
    predict_ok(s, w, "prediction", fa, kind, 2, X, t, None, reg, nbf=[2, 2])


def gpr(s, d, per_dim):
    s.at("FunctionApproximatorGPR.train", "FunctionApproximatorGPR.predict")
    w = s.world()
    if per_dim:
        fa = w.new("FunctionApproximatorGPR", S("cov", lo="0.5", hi="2"), w.arr("lens", 2, lo="0.5", hi="1"))
    else:
        fa = mk_fa(w, "GPR", d)
    X, t = data(w, d)
    w.call(fa, "train", X, t)
    predict_ok(s, w, "prediction", fa, "GPR-per-dim" if per_dim else "GPR", d, X, t)
    n = w.node(w.call(fa, "predict", X))
    s.same("interpolates", fmods(), n, w.node(t), "the training targets are reproduced at the training inputs", flat=True)


def grid_check(s, d, nbf):
    s.at("Gaussian.get_centers_and_widths")
    w = s.world()
    X, _ = data(w, d)
    a = num(nbf[0]) if len(nbf) == 1 else w.list(*[num(k) for k in nbf])
    h = S("height", lo="0.3", hi="0.8")
    c, wd = (w.node(v) for v in w.static("Gaussian", "get_centers_and_widths", X, a, h).items)
    full = nbf * d if len(nbf) == 1 else nbf

    def go(m):
        P, s_ = grid(lst(m.ev(w.node(X))), full, m.ev(h.node))
        got = sorted((tuple(r), tuple(q)) for r, q in zip(lst(m.ev(c)), lst(m.ev(wd))))
        want = sorted((tuple(p), tuple(s_)) for p in P)
        ok = len(got) == len(want) and all(ri.close(a, b) for g, e in zip(got, want) for u, v in zip(g, e) for a, b in zip(u, v))
        return ok, f"{[[ri.fmt(x) for x in g[0]] for g in got][:6]} widths {[ri.fmt(x) for x in got[0][1]]}"
    s.forall("grid", fmods(), go, "centers form the product grid from the smallest to the largest input; widths make neighbours cross at the requested height")

    # meaning of the height: activation of neighbours half way between them
    if full[0] > 1 and d == 1:
        q = w.arr("mid", 1, 1)
        for norm in (False, True):
            an = w.node(w.static("Gaussian", "activations", q, centers=Arr_of(w, c), widths=Arr_of(w, wd), normalized=Sc(N.const(norm))))

            def mid(m):
                cc = ri.flat(m.ev(c))
                m2 = ri.Model(m.seed, values={"mid": lambda mm, sh: ri.obj1([(cc[0] + cc[1]) / 2]).reshape(1, 1)})
                v = ri.flat(m2.ev(an))
                if norm:
                    return ri.close(sum(v), mpf(1)) and ri.close(v[0], v[1])
                return ri.close(v[0], m.ev(h.node)) and ri.close(v[1], m.ev(h.node)), ri.fmt(v)
            s.forall(f"crossing/{'normalized' if norm else 'plain'}", fmods(2), mid, "half way between two neighbours both have the requested activation (the same share when normalised)")


def Arr_of(w, n):
    return w.I.new_arr(w.st, n)


def activations(s, d, n, norm):
    s.at("Gaussian.activations")
    w = s.world()
    Q = w.arr("Q", size("K", 2), d)
    C, W = w.arr("C", n, d), w.arr("W", n, d, lo="0.5", hi="2")
    a = w.node(w.static("Gaussian", "activations", Q, centers=C, widths=W, normalized=Sc(N.const(norm))))

    def go(m):
        q, c, wd = (lst(m.ev(w.node(x))) for x in (Q, C, W))
        want = [[act(x, p, s_) for p, s_ in zip(c, wd)] for x in q]
        if norm:
            want = [[v / sum(r) for v in r] for r in want]
        got = ri.oarr(m.ev(a))
        return got.shape == (len(q), n) and ri.close(ri.flat(got), ri.obj1([v for r in want for v in r])), ri.fmt(got)
    s.forall("values", [ri.Model(2500 + k, sizes=dict(K=2 + k)) for k in range(3)], go,
             "activations are the Gaussian of the distance to the center" + (", normalised to sum to one" if norm else ""))


def build(chk):
    for k in ("WLS", "WLS-no-offset", "RBFN", "LWR", "LWR-1"):
        for d in (1, 2):
            for form in ("column", "flat", "target-column", "weighted", "retrained", "default-regularization"):
                if form == "flat" and d == 2 or form == "weighted" and not k.startswith("WLS") or form == "default-regularization" and k == "LWR-1":
                    continue
                chk.scenario(f"{k}/{d}d/{form}", trained, k, d, form)
    for k in KINDS:
        for d in (1, 2):
            chk.scenario(f"{k}/{d}d/rejects", rejects, k, d)
    for d in (1, 2):
        chk.scenario(f"GPR/{d}d", gpr, d, False)
    chk.scenario("GPR/2d-per-dim-length", gpr, 2, True)
    for k in ("RBFN", "LWR"):
        chk.scenario(f"{k}/one-count-for-all-dims", shared_count, k)
    for d, nbf in ((1, [4]), (1, [1]), (1, [2]), (2, [2, 3]), (2, [3, 1]), (2, [2]), (3, [2, 1, 2])):
        if d == 3:
            NS[3] = 8
        chk.scenario(f"grid/{d}d/{'x'.join(map(str, nbf))}", grid_check, d, nbf)
    for d in (1, 2):
        for n in (1, 3):
            for norm in (False, True):
                chk.scenario(f"activations/{d}d/{n}/{'normalized' if norm else 'plain'}", activations, d, n, norm)

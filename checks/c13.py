"""C13: a trajectory stays an aligned time series under every operation."""
from .common import *

EXPLANATION = ("The series of a trajectory (times, positions, velocities, accelerations, extra variables) are symbolic arrays. The terms of every series after construction, matrix conversion, "
               "cropping, padding, appending, prepending, recomputing, filtering and sequences of them are compared with the rows of the operands that must appear; derivatives with central "
               "differences over the mean time step of the resulting times.")
ASSUMPTIONS = ["real arithmetic", "the Butterworth filter is an unknown function of data, cut-off over sampling frequency and order", "term equality by congruence, then random interpretation; 2..9 samples, 1..2 dimensions"]
F = ("ts", "ys", "yds", "ydds", "misc")


def traj(w, T=5, D=2, M=0, pre="", derivs=True):
    a = [w.arr(pre + "ts", T, increasing=True), w.arr(pre + "ys", T, D)]
    if derivs:
        a += [w.arr(pre + "yds", T, D), w.arr(pre + "ydds", T, D)]
    kw = dict(misc=w.arr(pre + "misc", T, M)) if M else {}
    return w.new("Trajectory", *a, **kw)


def fields(w, t):
    ns = {f: w.node(w.get(t, f)) for f in F}
    return {f: (None if n is N.NONE else n) for f, n in ns.items()}


def mods(n=4, **kw):
    return [ri.Model(6100 + k + 1000 * int(os.environ.get("VERIF_SEED") or 1), **kw) for k in range(n * (3 if thorough() else 1))]


def two(m, n):
    v = ri.oarr(m.ev(n))
    return v.reshape(v.shape[0], -1)


def central(x, dt):
    """central differences, first and last copied from their neighbours"""
    out = x.copy()
    for i in range(1, len(x) - 1):
        out[i] = (x[i + 1] - x[i - 1]) / (2 * dt)
    out[0], out[-1] = out[1], out[-2]
    return out


def dtm(t):
    t = ri.flat(t)
    return (t[-1] - t[0]) / (len(t) - 1)


def construct(s, D, M, flat):
    s.at("Trajectory.__init__")
    w = s.world()
    T = 6
    ms = mods()
    sh = (T,) if flat else (T, D)
    ts, ys, yds, ydds = w.arr("ts", T, increasing=True), w.arr("ys", *sh), w.arr("yds", *sh), w.arr("ydds", *sh)
    misc = w.arr("misc", *((T,) if flat else (T, M))) if M else None
    kw = dict(misc=misc) if M else {}
    for lab, args in (("positions", [ys]), ("velocities", [ys, yds]), ("all", [ys, yds, ydds])):
        t = w.new("Trajectory", ts, *args, **kw)
        f = fields(w, t)
        s.same(f"{lab}/ts", ms, f["ts"], w.node(ts), "times are kept")
        s.same(f"{lab}/ys", ms, lambda m: m.ev(f["ys"]), lambda m: two(m, w.node(ys)), "positions are kept, one column per dimension")
        dt = lambda m: dtm(m.ev(w.node(ts)))
        v = (lambda m: two(m, w.node(yds))) if len(args) > 1 else (lambda m: central(two(m, w.node(ys)), dt(m)))
        a = (lambda m: two(m, w.node(ydds))) if len(args) > 2 else (lambda m: central(v(m), dt(m)))
        s.same(f"{lab}/yds", ms, lambda m: m.ev(f["yds"]), v, "velocities are those given, or central differences of the positions")
        s.same(f"{lab}/ydds", ms, lambda m: m.ev(f["ydds"]), a, "accelerations are those given, or central differences of the velocities")
        s.same(f"{lab}/yddds", ms, w.node(w.call(t, "yddds")), lambda m: central(a(m), dt(m)), "jerks are central differences of the accelerations")
        s.same(f"{lab}/dt_mean", ms, w.node(w.get(t, "dt_mean")), dt, "dt_mean is the mean time step")
        s.same(f"{lab}/length", ms, w.node(w.get(t, "length")), lambda m: mpf(T), "length is the number of samples")
        s.same(f"{lab}/duration", ms, w.node(w.get(t, "duration")), lambda m: m.ev(w.node(ts))[-1] - m.ev(w.node(ts))[0], "duration is last minus first time")
        s.same(f"{lab}/dim", ms, w.node(w.get(t, "dim")), lambda m: mpf(D), "dim is the number of columns")
        s.same(f"{lab}/dim_misc", ms, w.node(w.get(t, "dim_misc")), lambda m: mpf(M), "dim_misc is the number of extra columns")
        if M:
            s.same(f"{lab}/misc", ms, lambda m: m.ev(f["misc"]), lambda m: two(m, w.node(misc)), "extra variables are kept")
        s.same(f"{lab}/y_init", ms, w.node(w.get(t, "y_init")), lambda m: two(m, w.node(ys))[0], "y_init is the first position")
        s.same(f"{lab}/y_final", ms, w.node(w.get(t, "y_final")), lambda m: two(m, w.node(ys))[-1], "y_final is the last position")
        s.same(f"{lab}/range", ms, w.node(w.call(t, "get_range_per_dim")), lambda m: ri.obj1([max(c) - min(c) for c in two(m, w.node(ys)).T]), "range is maximum minus minimum per dimension")
    # replaced extra variables
    t = w.new("Trajectory", ts, ys, yds, ydds, **kw)
    new = w.arr("miscnew", T, 3)
    w.set(t, "misc", new)
    s.same("misc-replaced", ms, w.node(w.get(t, "misc")), w.node(new), "extra variables can be replaced")
    s.same("misc-replaced/dim", ms, w.node(w.get(t, "dim_misc")), lambda m: mpf(3), "... and dim_misc follows")


def rejected(s):
    s.at("Trajectory.__init__")
    for nm, fn in (
        ("positions-length", lambda w: w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 4, 2))),
        ("velocities-length", lambda w: w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 5, 2), w.arr("yds", 4, 2), w.arr("ydds", 5, 2))),
        ("velocities-dim", lambda w: w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 5, 2), w.arr("yds", 5, 3), w.arr("ydds", 5, 2))),
        ("accelerations-length", lambda w: w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 5, 2), w.arr("yds", 5, 2), w.arr("ydds", 6, 2))),
        ("accelerations-dim", lambda w: w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 5, 2), w.arr("yds", 5, 2), w.arr("ydds", 5, 1))),
        ("misc-length", lambda w: traj_misc(w, 4)),
        ("misc-set-length", lambda w: w.set(traj(w), "misc", w.arr("m", 6, 1))),
        ("crop-empty", lambda w: w.call(traj(w), "crop", num(3), num(3))),
        ("crop-reversed", lambda w: w.call(traj(w), "crop", num(3), num(1))),
    ):
        w = s.world()
        s.rejects(nm, w, lambda: fn(w), "series of different lengths or dimensions, and empty crops, are rejected")


def traj_misc(w, n):
    return w.new("Trajectory", w.arr("ts", 5, increasing=True), w.arr("ys", 5, 2), w.arr("yds", 5, 2), w.arr("ydds", 5, 2), w.arr("misc", n, 1))


def matrix(s, D, M):
    s.at("Trajectory.as_matrix", "Trajectory.from_matrix")
    w = s.world()
    ms = mods()
    t = traj(w, 5, D, M)
    f = fields(w, t)
    mat = w.call(t, "as_matrix")
    s.same("layout", ms, w.node(mat), lambda m: np.concatenate([ri.oarr(m.ev(f["ts"])).reshape(-1, 1)] + [m.ev(f[k]) for k in F[1:] if f[k] is not None], axis=1),
           "rows of the matrix are time, positions, velocities, accelerations, extra variables")
    u = w.static("Trajectory", "from_matrix", mat, *([num(M)] if M else []))
    g = fields(w, u)
    for k in F:
        if f[k] is not None:
            s.same(f"round-trip/{k}", ms, g[k], f[k], "converting to a matrix and back gives the same trajectory")
    for k, a in (("dim", D), ("dim_misc", M), ("length", 5)):
        s.same(f"round-trip/{k}", ms, w.node(w.get(u, k)), lambda m: mpf(a), "converting to a matrix and back gives the same trajectory")
    # a trajectory read back can be used like the original: converted again, cropped
    s.same("round-trip/again", ms, w.node(w.call(u, "as_matrix")), w.node(mat), "converting back and forth twice changes nothing")
    x = w.arr("mat", 5, 1 + 3 * D + M)
    u = w.static("Trajectory", "from_matrix", x, *([num(M)] if M else []))
    s.same("inverse", ms, w.node(w.call(u, "as_matrix")), w.node(x), "a trajectory made from a matrix gives that matrix")


def rows_are(s, oid, w, t, ms, want, what):
    """want(m, field) -> expected rows"""
    g = fields(w, t)
    for k in F:
        if g[k] is None:
            s.ob(f"{oid}/{k}", want(ms[0], k) is None, what)
            continue
        s.same(f"{oid}/{k}", ms, lambda m: m.ev(g[k]), lambda m: want(m, k), what)
    if len(want(ms[0], "ts")) > 1:
        s.same(f"{oid}/dt_mean", ms, w.node(w.get(t, "dt_mean")), lambda m: dtm(want(m, "ts")), "dt_mean is the mean time step of the resulting times")
        s.same(f"{oid}/length", ms, w.node(w.get(t, "length")), lambda m: mpf(len(want(m, "ts"))), "length is the number of samples")
        s.same(f"{oid}/duration", ms, w.node(w.get(t, "duration")), lambda m: ri.flat(want(m, "ts"))[-1] - ri.flat(want(m, "ts"))[0], "duration is last minus first time")
        s.same(f"{oid}/y_init", ms, w.node(w.get(t, "y_init")), lambda m: want(m, "ys")[0], "y_init is the first position")
        s.same(f"{oid}/y_final", ms, w.node(w.get(t, "y_final")), lambda m: want(m, "ys")[-1], "y_final is the last position")


def crop(s, M, as_times, lo, hi):
    s.at("Trajectory.crop")
    w = s.world()
    T = 7
    t = traj(w, T, 2, M)
    f = fields(w, t)
    if not as_times:
        w.call(t, "crop", num(lo), num(hi))
        rows_are(s, "rows", w, t, mods(), lambda m, k: None if f[k] is None else m.ev(f[k])[lo:hi], "cropping by index keeps exactly the samples from start up to end, in every series")
        return
    a, b = S("from"), S("to")
    w.call(t, "crop", a, b, TRUEV)
    ms = [ri.Model(6200 + k, values={"ts": col("0.1", "0.3", "0.35", "0.8", "1.0", "1.7", "1.9"), "from": mpf(lo), "to": mpf(hi)}) for k in range(2)]

    def want(m, k):
        if f[k] is None:
            return None
        tt = m.ev(f["ts"])
        keep = [i for i in range(T) if tt[i] >= mpf(lo) and (tt[i] < mpf(hi) or mpf(hi) >= tt[-1])]
        if mpf(lo) > tt[-1] or mpf(hi) < tt[0]:
            keep = list(range(T))
        return m.ev(f[k])[keep]
    rows_are(s, "rows", w, t, ms, want, "cropping by time keeps exactly the samples between start and end, in every series")


def join(s, how, M, D, which=1):
    s.at(f"Trajectory.{how}")
    w = s.world()
    a, b = traj(w, 4, D, M), traj(w, 3, D, M, "b")
    fa, fb = fields(w, a), fields(w, b)
    if how == "append":
        w.call(a, "append", b)
    else:
        w.call(a, "prepend", b)
    ms = mods()

    def want(m, k):
        if fa[k] is None:
            return None
        x, y = m.ev(fa[k]), m.ev(fb[k])
        if k == "ts":
            if how == "append":
                return np.concatenate([x, y - y[0] + x[-1] + dtm(x)])
            return np.concatenate([y, x - x[0] + y[-1] + dtm(y)])
        return np.concatenate([x, y] if how == "append" else [y, x])
    rows_are(s, "rows", w, a, ms, want, "both trajectories appear in full, in order, one mean time step apart")
    g = fields(w, b)
    for k in F:
        if fb[k] is not None:
            s.same(f"other/{k}", ms, g[k], fb[k], "the other trajectory is unchanged")
    t = w.node(w.get(a, "ts"))
    s.forall("times-increase", ms, lambda m: all(x < y for x, y in zip(list(m.ev(t)), list(m.ev(t))[1:])), "times increase")


def pad(s, how, n):
    s.at(f"Trajectory.{how}")
    w = s.world()
    T = 4
    t = traj(w, T, 2)
    f = fields(w, t)
    w.call(t, how, num(n))

    def want(m, k):
        if f[k] is None:
            return None
        x = m.ev(f[k])
        if k == "ts":
            dt = dtm(x)
            ext = ri.obj1([dt * i for i in range(n)])
            return np.concatenate([x, x[-1] + dt + ext]) if how == "pad_end" else np.concatenate([ext, x - x[0] + dt * n])
        row = x[-1 if how == "pad_end" else 0] if k == "ys" else x[0] * 0
        z = np.stack([row] * n)
        return np.concatenate([x, z] if how == "pad_end" else [z, x])
    rows_are(s, "rows", w, t, mods(), want, "padding holds the first or last position at zero velocity and acceleration, at the mean time step")


def derived(s, op, hist):
    s.at("Trajectory.recompute_derivatives", "Trajectory.apply_low_pass_filter")
    w = s.world()
    t = traj(w, 6, 2, 1)
    if hist == "append":
        w.call(t, "append", traj(w, 4, 2, 1, "b"))
    if hist == "crop":
        w.call(t, "crop", num(1), num(5))
    if hist == "prepend":
        w.call(t, "prepend", traj(w, 4, 2, 1, "b"))
    if hist == "zero":
        w.call(t, "set_start_time_to_zero")
    f = fields(w, t)
    w.call(t, op, *([S("cutoff", lo="0.2", hi="0.4"), num(2)] if op == "apply_low_pass_filter" else []))
    g = fields(w, t)
    ms = mods()
    s.same("ts", ms, g["ts"], f["ts"], "times are unchanged")
    s.same("misc", ms, g["misc"], f["misc"], "extra variables are unchanged")
    if op == "recompute_derivatives":
        s.same("ys", ms, g["ys"], f["ys"], "positions are unchanged")
    s.same("yds", ms, g["yds"], lambda m: central(m.ev(g["ys"]), dtm(m.ev(g["ts"]))), "velocities become the central differences of the positions over the mean time step of the current times")
    s.same("ydds", ms, g["ydds"], lambda m: central(m.ev(g["yds"]), dtm(m.ev(g["ts"]))), "accelerations become the central differences of the velocities")


def start_zero(s):
    s.at("Trajectory.set_start_time_to_zero")
    w = s.world()
    t = traj(w, 5, 2, 1)
    f = fields(w, t)
    w.call(t, "set_start_time_to_zero")
    rows_are(s, "rows", w, t, mods(), lambda m, k: m.ev(f[k]) - m.ev(f[k])[0] if k == "ts" else m.ev(f[k]), "only the times are shifted")


def caller(s, op, args):
    """operations replace the series of the trajectory, they never write into the arrays it was made from or into copies read earlier"""
    s.at(f"Trajectory.{op}")
    w = s.world()
    a = [w.arr("ts", 6, increasing=True), w.arr("ys", 6, 2), w.arr("yds", 6, 2), w.arr("ydds", 6, 2), w.arr("misc", 6, 1)]
    before = [w.node(x) for x in a]
    t = w.new("Trajectory", *a)
    mat = w.call(t, "as_matrix")
    m0 = w.node(mat)
    twin = w.new("Trajectory", *a)
    w.call(t, op, *[traj(w, 4, 2, 1, "b") if x == "other" else x for x in args])
    ms = mods(2)
    for k, x, b in zip(F, a, before):
        s.same(f"input/{k}", ms, w.node(x), b, "the arrays a trajectory was made from are not written")
        s.same(f"twin/{k}", ms, w.node(w.get(twin, k)), b, "another trajectory made from the same arrays is unchanged")
    s.same("matrix", ms, w.node(mat), m0, "a matrix obtained earlier is unchanged")


def build(chk):
    for op, args in (("append", ("other",)), ("prepend", ("other",)), ("crop", (num(1), num(4))), ("pad_front", (num(3),)), ("pad_end", (num(3),)),
                     ("recompute_derivatives", ()), ("apply_low_pass_filter", (S("cutoff", lo="0.2", hi="0.4"), num(2))), ("set_start_time_to_zero", ()), ("as_matrix", ()), ("yddds", ())):
        chk.scenario(f"caller/{op}", caller, op, args)
    for D, M, flat in ((1, 0, True), (1, 1, True), (1, 0, False), (2, 1, False), (3, 2, False)):
        chk.scenario(f"construct/{D}d/{M}misc{'/flat' if flat else ''}", construct, D, M, flat)
    for D, M in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (2, 3), (1, 3), (3, 2)):
        chk.scenario(f"matrix/{D}d/{M}misc", matrix, D, M)
    for M in (0, 2):
        for lo, hi in ((0, 3), (2, 5), (1, 7), (0, 7), (6, 7), (2, 20)):
            chk.scenario(f"crop/{lo}-{hi}/{M}misc", crop, M, False, lo, hi)
        for lo, hi in (("0.05", "0.9"), ("0.3", "1.2"), ("0.32", "1.95"), ("0.9", "5"), ("0.01", "1.9"), ("-1", "3"), ("2.5", "4"), ("-3", "0.05"), ("1.75", "2")):
            chk.scenario(f"crop-time/{lo}-{hi}/{M}misc", crop, M, True, lo, hi)
        for how in ("append", "prepend"):
            for D in (1, 2):
                chk.scenario(f"{how}/{D}d/{M}misc", join, how, M, D)
    for how in ("pad_front", "pad_end"):
        for n in (1, 2, 5):
            chk.scenario(f"{how}/{n}", pad, how, n)
    for op in ("recompute_derivatives", "apply_low_pass_filter"):
        for h in ("fresh", "append", "prepend", "crop", "zero"):
            chk.scenario(f"{op}/{h}", derived, op, h)
    chk.scenario("start-zero", start_zero)
    chk.scenario("rejected", rejected)

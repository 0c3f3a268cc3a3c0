"""C26: a trajectory in C++ is the aligned time series, with the profiles, that it is in Python."""
import re
from fractions import Fraction
from sa.cpp import Line
from .cpp_common import *
from .c14 import expect, mods
from .c13 import fields

EXPLANATION = ("The C++ trajectory generators are interpreted over clang's AST with symbolic times and boundary states, and compared at every sample with the unique quintic polynomial through these states and its derivatives; "
               "append, set_misc, asMatrix, range, duration and copies are compared row by row with the data they were given; files are followed from the rows written (by Python's savetxt or C++ saveToFile) to the trajectory readFromFile makes of them.")
ASSUMPTIONS = ["real arithmetic; term equality by random interpretation; 1..7 samples, 1..3 dimensions, 0..9 extra columns", "C++ is interpreted over clang's AST of src/ (default build flags), with Eigen and streams modelled natively; asserts are enabled",
               "numbers are read back from text as printed (at least six decimals)"]

F = lambda v: ri.flat(v) if isinstance(v, np.ndarray) else ri.obj1([mpf(v)])
GET = ("ts", "ys", "yds", "ydds", "misc")


def parts(c, t):
    out = {k: c.call(t, k) for k in GET}
    out["length"], out["dim"], out["dim_misc"], out["duration"] = c.call(t, "length"), c.call(t, "dim"), c.call(t, "dim_misc"), c.call(t, "duration")
    m = c.empty()
    c.call(t, "asMatrix", m)
    out["matrix"] = m
    if out["length"]:
        out["initial"], out["final"] = c.call(t, "initial_y"), c.call(t, "final_y")
    return {k: c.I.copy(v) for k, v in out.items()}


def raw(w, nm, T, D, K, ts=None):
    """Python arrays of a trajectory (symbolic)."""
    a = dict(ts=ts or w.arr(nm + "t", T, increasing=True), ys=w.arr(nm + "y", T, D), yds=w.arr(nm + "v", T, D), ydds=w.arr(nm + "a", T, D), misc=w.arr(nm + "m", T, K) if K else None)
    return {k: w.node(v) if v is not None else None for k, v in a.items()}


def rows_(w, n, T, D):
    return [[N.mk("index", N.mk("index", n, N.const(i), attr="p"), N.const(j), attr="p") for j in range(D)] for i in range(T)]


def terms(w, a, T, D, K):
    """C++ constructor arguments of that trajectory."""
    return dict(ts=[N.mk("index", a["ts"], N.const(i), attr="p") for i in range(T)], misc=rows_(w, a["misc"], T, K) if K else [[] for _ in range(T)], **{k: rows_(w, a[k], T, D) for k in ("ys", "yds", "ydds")})


def make(c, t, K):
    args = [c.vec(t["ts"])] + [c.mat(t[k]) for k in ("ys", "yds", "ydds")]
    return c.new("Trajectory", *args, *([c.mat(t["misc"])] if K else []), like=("Vector", "Matrix"))


def value(ms, rows):
    """Expected value of a list (of lists) of terms."""
    return lambda m: ri.obj1([m.ev(x) for r in rows for x in (r if isinstance(r, list) else [r])])


def same_series(s, pre, ms, tr, path, want, D, K, what):
    """All views of the C++ trajectory at `path` equal the rows of terms in `want`."""
    T = len(want["ts"])
    v = lambda *p: lambda m: F(tr.value(m, *path, *p))
    for k in GET:
        if k == "misc" and not K:
            continue
        s.same(f"{pre}{k}", ms, v(k), value(ms, want[k]), what)
        n = {"ts": 1, "misc": K}.get(k, D)
        s.same(f"{pre}{k}/shape", ms, lambda m: ri.obj1([mpf(x) for x in tr.value(m, *path, k).shape]), lambda m: col(T, n), "one row per time")
    full = [[t] + sum((list(want[k][i]) for k in ("ys", "yds", "ydds", "misc")), []) for i, t in enumerate(want["ts"])]
    s.same(f"{pre}matrix", ms, v("matrix"), value(ms, full), "the matrix has columns time, positions, velocities, accelerations, misc")
    for k, x in (("length", T), ("dim", D), ("dim_misc", K)):
        s.same(f"{pre}{k}", ms, v(k), lambda m: col(x), f"{k} of the trajectory")
    s.same(f"{pre}duration", ms, v("duration"), lambda m: ri.obj1([m.ev(want["ts"][-1]) - m.ev(want["ts"][0])]), "duration from first to last time")
    s.same(f"{pre}initial", ms, v("initial"), value(ms, want["ys"][0]), "initial position")
    s.same(f"{pre}final", ms, v("final"), value(ms, want["ys"][-1]), "final position")


def generated(s, D, T, jerk):
    w = s.world()
    s.at("Trajectory::generateMinJerkTrajectory" if jerk else "Trajectory::generatePolynomialTrajectory")
    ts = w.arr("ts", T, increasing=True)
    a = [w.arr(x, D, lo="-1", hi="2") for x in ("p0", "v0", "a0", "p1", "v1", "a1")]
    n = [w.node(x) for x in a]
    TS, A = cells(w, w.node(ts), T), [cells(w, x, D) for x in n]
    ms = mods(3)

    def run(I):
        c = cpp.Client(I)
        if jerk:
            t = c.static("Trajectory", "generateMinJerkTrajectory", c.vec(TS), c.vec(A[0]), c.vec(A[3]))
        else:
            t = c.static("Trajectory", "generatePolynomialTrajectory", c.vec(TS), *[c.vec(x) for x in A])
        return parts(c, t)
    tr = cpp_run(s, run)

    def exp(m):
        v = [ri.flat(m.ev(x)) for x in n]
        z = mpf(0)
        b = [[(v[i][d], z, z) if jerk else (v[i][d], v[i + 1][d], v[i + 2][d]) for d in range(D)] for i in (0, 3)]
        return expect(list(ri.flat(m.ev(w.node(ts)))), *b)
    s.same("times", ms, lambda m: F(tr.value(m, "ts")), lambda m: F(m.ev(w.node(ts))), "the trajectory is sampled at the given times")
    for k, x in enumerate(("ys", "yds", "ydds")):
        s.same(x, ms, lambda m: F(tr.value(m, x)), lambda m: F(exp(m)[k]), "positions follow the quintic through the boundary states, velocities and accelerations are its derivatives")
    s.same("matrix", ms, lambda m: F(tr.value(m, "matrix")), lambda m: F(np.hstack([m.ev(w.node(ts)).reshape(-1, 1)] + exp(m))), "the matrix has columns time, positions, velocities, accelerations")
    s.same("length", ms, lambda m: F(tr.value(m, "length")), lambda m: col(T), "one row per time")
    s.same("dim_misc", ms, lambda m: F(tr.value(m, "dim_misc")), lambda m: col(0), "no extra variables are made up")


def viapoint(s, D, tv, off, uniform):
    w = s.world()
    s.at("Trajectory::generatePolynomialTrajectoryThroughViapoint")
    T = 7
    grid = [Fraction(off) + Fraction(k, 5) + (0 if uniform else Fraction(k * k, 50)) for k in range(T)]
    tv = grid[0] + Fraction(tv)
    v = next(i for i in range(T) if grid[i] >= tv)
    n = [w.node(w.arr("p0", D, lo="-1", hi="2")), w.node(w.arr("via", 3 * D, lo="-1", hi="2")), w.node(w.arr("p1", D, lo="-1", hi="2"))]
    A = [cells(w, n[0], D), cells(w, n[1], 3 * D), cells(w, n[2], D)]
    ms = mods(2)
    tr = cpp_run(s, lambda I: (lambda c: parts(c, c.static("Trajectory", "generatePolynomialTrajectoryThroughViapoint", c.vec([N.const(g) for g in grid]), c.vec(A[0]), c.vec(A[1]), N.const(tv), c.vec(A[2]))))(cpp.Client(I)))
    g = [mpf(x.numerator) / x.denominator for x in grid]

    def exp(m):
        z = mpf(0)
        a, b, c = (ri.flat(m.ev(x)) for x in n)
        b0, b1 = [(a[d], z, z) for d in range(D)], [(c[d], z, z) for d in range(D)]
        bv = [(b[d], b[D + d], b[2 * D + d]) for d in range(D)]
        e1, e2 = expect(g[:v + 1], b0, bv), expect(g[v:], bv, b1)
        return [np.concatenate([x, y[1:]]) for x, y in zip(e1, e2)]
    s.same("times", ms, lambda m: F(tr.value(m, "ts")), lambda m: ri.obj1(g), "the trajectory is sampled at the given times")
    for k, x in enumerate(("ys", "yds", "ydds")):
        s.same(f"{x}/viapoint", ms, lambda m: ri.flat(tr.value(m, x)[v]), lambda m: ri.flat(m.ev(n[1]))[k * D:(k + 1) * D], "at the first sample at or after the viapoint time the trajectory is in the viapoint state")
        s.same(x, ms, lambda m: F(tr.value(m, x)), lambda m: F(exp(m)[k]), "both parts follow the quintic through their boundary states, velocities and accelerations are its derivatives")


def operations(s, op, D, T, K):
    w = s.world()
    ms = mods(3)
    a, b = raw(w, "a", T, D, K), raw(w, "b", T, D, K)
    A, B = terms(w, a, T, D, K), terms(w, b, T, D, K)
    s.at(f"Trajectory::{op}")
    what = "rows stay aligned by time"
    if op == "construct":
        def run(I):
            c = cpp.Client(I)
            t = make(c, A, K)
            u = I.copy(t)
            first = parts(c, t)
            if K:
                c.call(u, "set_misc", c.mat(B["misc"]))
            return first, parts(c, t), parts(c, u)
        tr = cpp_run(s, run)
        same_series(s, "", ms, tr, (0,), A, D, K, "what was given to the constructor")
        same_series(s, "later/", ms, tr, (1,), A, D, K, "a copy is a copy")
        same_series(s, "copy/", ms, tr, (2,), {**A, "misc": B["misc"]}, D, K, "set_misc replaces the extra variables only")
    elif op == "append":
        # the appended trajectory starts with the last row of the first one
        for k in ("ts", "ys", "yds", "ydds"):
            B[k] = [A[k][-1]] + B[k][1:]
        B["ts"] = [A["ts"][-1]] + [N.add(A["ts"][-1], x) for x in cells(w, w.node(w.arr("later", T, increasing=True, lo="0.1", hi="3")), T)][1:]

        def run(I):
            c = cpp.Client(I)
            t, u = make(c, A, K), make(c, B, K)
            c.call(t, "append", u)
            return parts(c, t), parts(c, u)
        tr = cpp_run(s, run)
        same_series(s, "", ms, tr, (0,), {k: A[k] + B[k][1:] for k in GET}, D, K, "the rows of both, the shared one only once")
        same_series(s, "appended/", ms, tr, (1,), B, D, K, "the appended trajectory does not change")
    elif op == "set_misc":
        one = rows_(w, w.node(w.arr("o", 1, 2)), 1, 2)

        def run(I):
            c = cpp.Client(I)
            t = make(c, A, K)
            c.call(t, "set_misc", c.mat(one))
            return [parts(c, t)]
        tr = cpp_run(s, run)
        same_series(s, "", ms, tr, (0,), {**A, "misc": [one[0]] * T}, D, 2, "one row of extra variables holds for all times")
    elif op == "getRangePerDim":
        tr = cpp_run(s, lambda I: (lambda c: [c.call(make(c, A, K), "getRangePerDim")])(cpp.Client(I)))
        s.same("range", ms, lambda m: F(tr.value(m, 0)), lambda m: ri.obj1([max(m.ev(r[d]) for r in A["ys"]) - min(m.ev(r[d]) for r in A["ys"]) for d in range(D)]), "difference between largest and smallest position")


def files(s, how, D, T, K):
    w = s.world()
    ms = mods(2)
    a = raw(w, "a", T, D, K)
    A = terms(w, a, T, D, K)
    s.at("Trajectory::readFromFile", *(("Trajectory.savetxt",) if how == "python" else ("Trajectory::saveToFile",)))
    old = [Line([N.const(7)] * 3)] * 9
    if how == "python":
        wr = lambda n: w.I.wrap(w.st, n)
        t = w.new("Trajectory", *[wr(a[k]) for k in ("ts", "ys", "yds", "ydds")], *([wr(a["misc"])] if K else []))
        w.call(t, "savetxt", strv("traj.txt"))
        v = fsmodel.lookup(w.I, w.st, "traj.txt")
        if not isinstance(v, Tup):
            raise Bad("savetxt wrote no file")
        n = w.node(v.items[1])
        if n.op == "fmtnum":
            d = re.fullmatch(r"%1?\.(\d+)[ef]", str(n.attr))
            if not d:
                raise ri.Unknown(f"format {n.attr}")
            if int(d.group(1)) < 6:
                raise Bad(f"savetxt prints {d.group(1)} digits")
            n = n.args[0]
        sh = N.shape_of(n)
        if sh is None or len(sh) != 2 or any(N.cval(d) is None for d in sh):
            raise ri.Unknown("matrix written by savetxt")
        lines = [Line(r) for r in rows_(w, n, *(int(N.cval(d)) for d in sh))]

    def run(I):
        c = cpp.Client(I)
        name, out = "traj.txt", {}
        if how == "python":
            I.files[name] = lines
        else:
            t = make(c, A, K)
            if how == "file":
                out["saved"] = c.call(t, "saveToFile", name, False, pick=lambda r: len(r.params) == 2)
            elif how == "overwrite":
                I.files[name] = list(old)
                out["saved"] = c.call(t, "saveToFile", name, True)
            elif how == "directory":
                out["saved"] = c.call(t, "saveToFile", "some/where", name, False)
                name = "some/where/" + name
            elif how == "keep":
                I.files[name] = list(old)
                I.dirs.add("there")
                I.files["there/" + name] = list(old)
                out["saved"] = c.call(t, "saveToFile", name, False)
                out["saved-dir"] = c.call(t, "saveToFile", "there", name, False)
                out["kept"] = all([tuple(l.tok) for l in I.files[f]] == [tuple(l.tok) for l in old] for f in (name, "there/" + name))
                return out
        out["read"] = parts(c, c.static("Trajectory", "readFromFile", name, K))
        return out
    tr = cpp_run(s, run)
    yes = lambda k: lambda m: ri.obj1([mpf(int(tr.pick_ok(m)[k]))])
    if how == "keep":
        s.same("reported", ms, yes("saved"), lambda m: col(0), "an existing file is not overwritten unless asked for, and this is reported")
        s.same("reported/directory", ms, yes("saved-dir"), lambda m: col(0), "an existing file is not overwritten unless asked for, and this is reported")
        s.same("kept", ms, yes("kept"), lambda m: col(1), "an existing file is not overwritten unless asked for")
        return
    if how != "python":
        s.same("reported", ms, yes("saved"), lambda m: col(1), "saving succeeds")
    same_series(s, "", ms, tr, ("read",), A, D, K, "what was saved is read back")


def absent(s, kind):
    w = s.world()
    ms = mods(1)
    s.at("Trajectory::readFromFile")
    if kind == "file":
        tr = cpp_run(s, lambda I: (lambda c: [c.call(c.static("Trajectory", "readFromFile", "none.txt", 0), "length")])(cpp.Client(I)))
    else:
        z = [N.const(0)] * 2
        tr = cpp_run(s, lambda I: (lambda c: [c.call(c.static("Trajectory", "generatePolynomialTrajectoryThroughViapoint", c.vec([N.const(x) for x in range(4)]), c.vec(z), c.vec(z * 3), N.const(4), c.vec(z)), "length")])(cpp.Client(I)))
    s.same("empty", ms, lambda m: F(tr.value(m, 0)), lambda m: col(0), "an empty trajectory says that there is none")


def build(chk):
    chk.scenario("absent/file", absent, "file")
    chk.scenario("absent/viapoint", absent, "viapoint")
    cpp.cpp_program()
    for D in (1, 2, 3):
        for T in (2, 5) if D < 3 else (5,):
            for jerk in (False, True):
                chk.scenario(f"{'min-jerk' if jerk else 'polynomial'}/{D}d/{T}", generated, D, T, jerk)
        for tv in ("0.2", "0.5", "0.8"):
            for off in ("0", "0.5"):
                for u in (True, False):
                    chk.scenario(f"viapoint/{D}d/{tv}/{off}/{'uniform' if u else 'non-uniform'}", viapoint, D, tv, off, u)
        for op in ("construct", "append", "set_misc", "getRangePerDim"):
            for T in (1, 2, 4):
                for K in (0, 1, 2):
                    if T == 1 and op in ("append",):
                        continue
                    chk.scenario(f"{op}/{D}d/{T}/misc={K}", operations, op, D, T, K)
        for how in ("python", "file", "overwrite", "directory", "keep"):
            for T in (2, 3):
                for K in (0, 1, 3 * D):
                    chk.scenario(f"saved-{how}/{D}d/{T}/misc={K}", files, how, D, T, K)

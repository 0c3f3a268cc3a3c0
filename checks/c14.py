"""C14: generated trajectories meet their boundary conditions and are consistent with their derivatives."""
from .c13 import *

EXPLANATION = ("The terms of positions, velocities and accelerations of generated trajectories are compared at every sample with the unique quintic polynomial through the prescribed boundary "
               "states in real time (and its first and second derivatives), the minimum-jerk profile being the one at rest at both ends; boundary states and the viapoint are compared directly.")
ASSUMPTIONS = ["real arithmetic", "term equality by congruence, then random interpretation; 5..9 samples, 1..3 dimensions", "viapoint: sample times are concrete, everything else symbolic"]


def quintic(t, T, p0, v0, a0, p1, v1, a1):
    """position, velocity, acceleration at time t of the quintic through (p0,v0,a0) at 0 and (p1,v1,a1) at T; solved as a linear system"""
    M = mpmath.matrix(6, 6)
    for j in range(6):
        M[0, j] = 1 if j == 0 else 0
        M[1, j] = 1 if j == 1 else 0
        M[2, j] = 2 if j == 2 else 0
        M[3, j] = T ** j
        M[4, j] = j * T ** (j - 1) if j else 0
        M[5, j] = j * (j - 1) * T ** (j - 2) if j > 1 else 0
    c = mpmath.lu_solve(M, mpmath.matrix([p0, v0, a0, p1, v1, a1]))
    return (sum(c[j] * t ** j for j in range(6)), sum(j * c[j] * t ** (j - 1) for j in range(1, 6)), sum(j * (j - 1) * c[j] * t ** (j - 2) for j in range(2, 6)))


def expect(ts, b0, b1):
    """series of the quintic for times ts; b0, b1: per dimension (p, v, a)"""
    out = [[], [], []]
    for t in ts:
        r = [quintic(t - ts[0], ts[-1] - ts[0], *x, *y) for x, y in zip(b0, b1)]
        for k in range(3):
            out[k].append([q[k] for q in r])
    return [np.array(o, dtype=object) for o in out]


def polynomial(s, D, T, start, jerk):
    s.at("Trajectory.from_polynomial" if not jerk else "Trajectory.from_min_jerk")
    w = s.world()
    ts = w.arr("ts", T, increasing=True)
    nm = ("p0", "v0", "a0", "p1", "v1", "a1")
    a = [w.arr(x, D, lo="-1", hi="2") for x in nm]
    t = w.static("Trajectory", "from_polynomial", ts, *a) if not jerk else w.static("Trajectory", "from_min_jerk", ts, a[0], a[3])
    f = fields(w, t)
    ms = mods(3)
    if start == "zero":
        ms = [ri.Model(6300 + k, values=dict(ts=ri.obj1([mpf(0)] + [mpf(j + 1) * mpf("0.31") + mpf(k) / 7 * j * j / 9 for j in range(T - 1)]))) for k in range(3)]
    N_ = [w.node(x) for x in a]
    cache = {}

    def exp(m):
        if id(m) not in cache:
            v = [ri.flat(m.ev(n)) for n in N_]
            z = mpf(0)
            b0 = [(v[0][d], v[1][d], v[2][d]) if not jerk else (v[0][d], z, z) for d in range(D)]
            b1 = [(v[3][d], v[4][d], v[5][d]) if not jerk else (v[3][d], z, z) for d in range(D)]
            cache[id(m)] = expect(list(m.ev(w.node(ts))), b0, b1)
        return cache[id(m)]
    s.same("times", ms, f["ts"], w.node(ts), "the trajectory is sampled at the given times")
    for k, x in enumerate(("ys", "yds", "ydds")):
        for lab, sl in (("start", 0), ("end", -1)):
            s.same(f"{x}/{lab}", ms, lambda m: m.ev(f[x])[sl], lambda m: exp(m)[k][sl], "the trajectory starts and ends in the prescribed state")
        s.same(f"{x}/all", ms, f[x], lambda m: exp(m)[k], "positions follow the quintic through the boundary states, velocities and accelerations are its derivatives")
    s.ob("no-misc", f["misc"] is None, "no extra variables are made up")


def viapoint(s, D, tv, at, uniform, off):
    s.at("Trajectory.from_viapoint_polynomial")
    w = s.world()
    T = 9
    off = mpf(off)
    from fractions import Fraction
    grid = [Fraction(int(off * 10), 10) + (Fraction(k, 5) if uniform else Fraction(k, 5) + Fraction(k * k, 50)) for k in range(T)]
    ts = w.I.new_arr(w.st, N.mk("mklist", *[N.const(g) for g in grid]))
    tv = Fraction(tv) + grid[0]
    v = next(i for i in range(T) if grid[i] >= tv)
    p0, via, p1 = w.arr("p0", D, lo="-1", hi="2"), w.arr("via", 3 * D, lo="-1", hi="2"), w.arr("p1", D, lo="-1", hi="2")
    t = w.static("Trajectory", "from_viapoint_polynomial", ts, p0, via, Sc(N.const(tv)), p1)
    f = fields(w, t)
    ms = mods(2)
    g = [mpf(x.numerator) / x.denominator for x in grid]
    cache = {}

    def exp(m):
        if id(m) not in cache:
            z = mpf(0)
            a, b, c = (ri.flat(m.ev(w.node(x))) for x in (p0, via, p1))
            b0 = [(a[d], z, z) for d in range(D)]
            bv = [(b[d], b[D + d], b[2 * D + d]) for d in range(D)]
            b1 = [(c[d], z, z) for d in range(D)]
            e1, e2 = expect(g[:v], b0, bv), expect(g[v:], bv, b1)
            cache[id(m)] = [np.concatenate([x, y]) for x, y in zip(e1, e2)]
        return cache[id(m)]
    if uniform:
        s.same("times", ms, f["ts"], lambda m: ri.obj1(g), "the trajectory is sampled at the given times")
    for k, x in enumerate(("ys", "yds", "ydds")):
        s.same(f"{x}/start", ms, lambda m: m.ev(f[x])[0], lambda m: exp(m)[k][0], "the trajectory starts at rest in the given position")
        s.same(f"{x}/end", ms, lambda m: m.ev(f[x])[-1], lambda m: exp(m)[k][-1], "the trajectory ends at rest in the given position")
        s.same(f"{x}/viapoint", ms, lambda m: m.ev(f[x])[v], lambda m: ri.flat(m.ev(w.node(via)))[k * D:(k + 1) * D], "at the first sample at or after the viapoint time the trajectory is in the viapoint state")
        s.same(f"{x}/all", ms, f[x], lambda m: exp(m)[k], "both parts follow the quintic through their boundary states, velocities and accelerations are its derivatives")


def build(chk):
    for D in (1, 2, 3):
        for start in ("zero", "any"):
            for jerk in (False, True):
                for T in (5, 9) if chk.thorough else (6,):
                    chk.scenario(f"{'min-jerk' if jerk else 'polynomial'}/{D}d/{start}/{T}", polynomial, D, T, start, jerk)
        for tv, at in (("0.8", "on"), ("0.7", "between"), ("1.0", "on")):
            for u in (True, False):
                for off in ("0", "0.5"):
                    chk.scenario(f"viapoint/{D}d/{tv}/{'uniform' if u else 'non-uniform'}/{off}", viapoint, D, tv, at, u, off)

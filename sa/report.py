"""Scenarios, obligations, known findings, evidence and exit codes."""
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from . import nodes as N
from . import ri
from .interp import Dead
from .lib import World, program
from .program import AnchorError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCENARIO_SECONDS = 180
CHECK_SECONDS = {"quick": 500}       # scenarios not started by then count as undecided
DEADLINE = [None]


class Timeout(BaseException):
    pass


class Scn:
    """One most-general-client scenario: builds worlds and states obligations about them."""

    def __init__(self, chk, sid):
        self.chk, self.sid = chk, sid
        self.obs, self.worlds, self.cpp = [], [], []
        self.default_site = None
        self.models = None
        self.wellformed = True
        self.allow_raises = True

    # -- building
    def world(self, **kw):
        w = World(**kw)
        self.worlds.append(w)
        return w

    def at(self, *quals):
        """Public construct(s) the scenario is about (file:line in qual)."""
        out = []
        p = program()
        for q in quals:
            try:
                if "." in q:
                    c, m = q.split(".", 1)
                    r = p.cls(c).find(m)[0]
                    fi = r[1] if r else None
                else:
                    try:
                        fi = p.func(q)
                    except AnchorError:
                        fi = None
                    if fi is None:
                        ci = p.cls(q)
                        out.append(f"{ci.module.rel}:{ci.node.lineno} in {q}")
                        continue
                out.append(f"{fi.module.rel}:{fi.node.lineno} in {fi.qual}" if fi is not None else q)
            except AnchorError:
                raise
            except Exception:
                out.append(q)
        self.default_site = "; ".join(out)
        return self

    # -- obligations
    def ob(self, oid, verdict, what, site=None, rule=""):
        v = {True: "holds", False: "fails", None: "unknown"}.get(verdict, verdict) if not isinstance(verdict, str) else verdict
        self.obs.append(dict(id=f"{self.sid}/{oid}", verdict=v, what=what, site=site or self.default_site or "", rule=rule))
        return v

    def eq(self, oid, w, a, b, what, site=None, models=None, flat=False):
        """Terms a and b denote the same function (over all models)."""
        a = a if isinstance(a, N.Node) else w.node(a)
        b = b if isinstance(b, N.Node) else w.node(b)
        v = ri.compare(a, b, models or self.models, shape_insensitive=flat)
        msg = what if v.status != "fails" else f"{what}: code denotes {v.detail}"
        if v.status == "unknown":
            if v.detail.startswith("error:"):
                return self.ob(oid, False, f"{what}: {v.detail}", site, "term equality")
            msg = f"{what} (undecided: {v.detail})"
        return self.ob(oid, v.status, msg, site, "term equality by " + (v.how or ""))

    def num(self, oid, vals_a, vals_b, what, site=None, rule="term interpretation"):
        """Already interpreted values agree."""
        try:
            ok = ri.close(vals_a, vals_b)
        except ri.Unknown as u:
            return self.ob(oid, None, f"{what} (undecided: {u})", site, rule)
        return self.ob(oid, ok, what if ok else f"{what}: {ri.fmt(vals_a)} vs {ri.fmt(vals_b)}", site, rule)

    def check(self, oid, fn, what, site=None, rule="term interpretation"):
        """fn() -> bool | (bool, detail); Unknown -> undecided."""
        try:
            r = fn()
        except ri.Unknown as u:
            if getattr(u, "error", False):
                return self.ob(oid, False, f"{what}: the code cannot evaluate: {u}", site, rule)
            return self.ob(oid, None, f"{what} (undecided: {u})", site, rule)
        d = ""
        if isinstance(r, tuple):
            r, d = r
        return self.ob(oid, r, what if r or not d else f"{what}: {d}", site, rule)

    def forall(self, oid, models, fn, what, site=None, rule="term interpretation"):
        """fn(model) -> bool | (bool, detail) must hold for every model; undecided when no model decides."""
        ok, why = 0, ""
        for m in models:
            try:
                r = fn(m)
            except ri.Unknown as u:
                if getattr(u, "error", False):
                    return self.ob(oid, False, f"{what}: the code cannot evaluate: {u}", site, rule)
                why = str(u)
                continue
            d = ""
            if isinstance(r, tuple):
                r, d = r
            if r is None:
                continue
            if not r:
                return self.ob(oid, False, f"{what}: {d}" if d else what, site, rule)
            ok += 1
        return self.ob(oid, True if ok else None, what if ok else f"{what} (undecided: {why})", site, rule)

    def same(self, oid, models, fa, fb, what, site=None, rule="term equality", flat=False):
        """fa(m) and fb(m) are interpretations that must agree in every model (nodes accepted)."""
        def ev(f, m):
            v = m.ev(f) if isinstance(f, N.Node) else f(m)
            return ri.flat(v) if flat else v

        def go(m):
            a, b = ev(fa, m), ev(fb, m)
            if ri.close(a, b):
                return True
            return False, f"{ri.fmt(a)} vs expected {ri.fmt(b)}"
        return self.forall(oid, models, go, what, site, rule)

    def rejects(self, oid, w, fn, what, site=None):
        """Every path of fn raises."""
        try:
            fn()
        except Dead:
            return self.ob(oid, True, what, site, "must-raise")
        return self.ob(oid, False, what + ": some path returns normally", site, "must-raise")

    def never(self, fn):
        """The driver's call must be accepted; Dead -> False."""
        try:
            fn()
            return False
        except Dead:
            return True


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.scenarios = []

    def scenario(self, sid, fn, *args, models=None):
        self.scenarios.append((sid, fn, args, models))

    thorough = property(lambda self: self.tier == "thorough")


def feasible(w, guards, ms):
    for m in ms or [ri.Model(77), ri.Model(78)]:
        try:
            if all(m.truth(g) for g in guards):
                return True
        except ri.Unknown:
            continue
        except Exception:
            continue
    return not guards


def run_one(chk, k):
    sid, fn, args, models = chk.scenarios[k]
    s = Scn(chk, sid)
    s.models = models
    t0 = time.time()
    err = None

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    left = SCENARIO_SECONDS if DEADLINE[0] is None else min(SCENARIO_SECONDS, DEADLINE[0] - t0)
    signal.alarm(max(1, int(left)))
    try:
        if left < 1:
            raise Timeout()
        fn(s, *args)
    except AnchorError as e:
        err = ("anchor", str(e))
    except Dead as d:
        sites = []
        for w in s.worlds:
            sites += [r["site"] for r in w.I.raises]
        s.ob("completes", False, f"every path of the scenario raises ({'; '.join(sites[-2:])})", sites[-1] if sites else None, "must-return")
    except ri.Unknown as u:
        if getattr(u, "error", False):
            s.ob("evaluates", False, f"the code cannot evaluate: {u}", None, "shape/index rules")
        else:
            err = ("unknown", str(u))
    except Timeout:
        err = ("timeout", f"{SCENARIO_SECONDS}s")
    except RecursionError:
        err = ("engine", "recursion")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = ("engine", f"{type(e).__name__}: {e} @ " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:])))
    finally:
        signal.alarm(0)
    fns, cs, unk = {}, 0, {}
    diags = []
    for w in s.worlds:
        for q, n in w.I.functions.items():
            fns[q] = fns.get(q, 0) + n
        cs += w.I.callsites
        unk.update(w.I.unknown_calls)
        if s.wellformed:
            for d in w.I.diags:
                if d["kind"] in ("missing-attribute", "missing-argument", "extra-argument", "no-setter", "ambiguous-truth"):
                    if feasible(w, d["guards"], s.models):
                        diags.append(d)
    for tr in s.cpp:
        for q, n in tr.fns.items():
            fns[q] = fns.get(q, 0) + n
        cs += tr.callsites
    if s.wellformed:
        seen = set()
        for d in diags:
            key = (d["kind"], d.get("cls") or d.get("func") or "", d.get("name") or "")
            if key in seen:
                continue
            seen.add(key)
            s.ob("wellformed/" + "/".join(x for x in key if x), False,
                 f"{d['kind']} {d.get('cls') or d.get('func') or ''} {d.get('name') or ''}".strip(), d["site"], "every attribute, argument and branch condition is defined")
        if not diags and not err:
            s.ob("wellformed", True, "every attribute, argument and branch condition reached is defined", None, "definedness")
    return dict(sid=sid, obs=s.obs, err=err, fns=fns, callsites=cs, unknown=list(unk)[:20], wall=round(time.time() - t0, 2))


_CHK = [None]


def _work(k):
    sys.setrecursionlimit(30000)
    return run_one(_CHK[0], k)


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) obligation=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


def run(pid, tier, build, explanation, assumptions, jobs=None, verbose=False, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ri.SEED = seed
    chk = Check(pid, tier)
    DEADLINE[0] = t0 + CHECK_SECONDS[tier] if tier in CHECK_SECONDS else None
    fatal = None
    results = []
    try:
        program()
        build(chk)
    except (AnchorError, SyntaxError) as e:
        fatal = f"{type(e).__name__}: {e}"
    if only:
        chk.scenarios = [x for x in chk.scenarios if only in x[0]]
    _CHK[0] = chk
    if not fatal:
        n = jobs or min(8, os.cpu_count() or 1)
        if n == 1 or len(chk.scenarios) <= 1:
            results = [_work(k) for k in range(len(chk.scenarios))]
        else:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(n, maxtasksperchild=20) as pool:
                results = pool.map(_work, range(len(chk.scenarios)), chunksize=1)
    known = load_known(pid)
    obs = [o for r in results for o in r["obs"]]
    fails = [o for o in obs if o["verdict"] == "fails"]
    und = [o for o in obs if o["verdict"] == "unknown"]
    errs = [(r["sid"],) + r["err"] for r in results if r["err"]]
    new = [o for o in fails if o["id"] not in known]
    old = [o for o in fails if o["id"] in known]
    fns = {}
    for r in results:
        for q, k in r["fns"].items():
            fns[q] = fns.get(q, 0) + k
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=explanation,
            scenarios=len(results), obligations=len(obs), discharged=len(obs) - len(fails) - len(und),
            undecided=len(und) + len(errs),
            functions_analysed=len(fns), function_analyses=sum(fns.values()), call_sites=sum(r["callsites"] for r in results),
            functions=sorted(fns)[:400],
            undecided_list=[dict(id=o["id"], what=o["what"][:200]) for o in und][:60] + [dict(id=e[0], what=f"{e[1]}: {e[2]}"[:200]) for e in errs][:60],
            samples=[dict(id=o["id"], what=o["what"][:160], rule=o["rule"], at=o["site"], verdict=o["verdict"]) for o in obs[:: max(1, len(obs) // 25)]][:30],
            findings=[dict(id=o["id"], what=o["what"][:600], rule=o["rule"], at=o["site"], known=o["id"] in known) for o in fails],
        ),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    evdir = os.environ.get("DMPBBO_EVIDENCE") or os.path.join(VERIF, "evidence")      # elsewhere when mutants are analysed
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    for o in old:
        print(f"KNOWN-FINDING: property={pid} {o['id']}: {known[o['id']]}")
    for o in new[:40]:
        print(f"  {o['id']}: {o['what'][:300]} [{o['site']}]")
    if verbose:
        for o in und:
            print("  ?", o["id"], o["what"][:200])
        for e in errs:
            print("  E", *[str(x)[:250] for x in e])
        for r in sorted(results, key=lambda r: -r["wall"])[:3]:
            print("   slow", r["sid"], r["wall"], r["unknown"][:5])
    print(f"{pid} [{tier}] {len(results)} scenarios, {len(obs)} obligations: {len(obs)-len(fails)-len(und)} discharged, "
          f"{len(und)+len(errs)} undecided, {len(old)} known, {len(new)} violations; {len(fns)} functions, {ev['wall_s']}s")
    if new:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if fatal or not obs:
        print(f"ERROR: nothing decided: {fatal or errs[:3]}")
        return 2
    return 0

"""C10: parameter vectors, training data, demonstrations and returned states are exchanged by value."""
from .c09 import *
from .dmp import DMP_TYPES

EXPLANATION = ("The client overwrites, after the call, every array it handed over or received (parameter vectors in both directions, training inputs, targets and weights, demonstrations, "
               "start states, integration results, predictions, rollouts). Heap and views are explicit in the analysis, so a kept reference or view shows as a changed term: the terms of "
               "predictions, parameter vectors and rollouts with and without the overwriting are compared. Setting must not write into the vector it is given.")
ASSUMPTIONS = ["goal and shape parameters handed to constructors and goal setters are kept by reference by design and not covered"]


def obs_fa(w, fa, X):
    return [w.node(w.call(fa, "predict", X)), w.node(w.call(fa, "get_param_vector"))]


def differs(s, oid, mods, w0, w1, obs, what):
    a, b = obs(w0.fork()), obs(w1)
    for k, (x, y) in enumerate(zip(a, b)):
        s.same(f"{oid}/{k}" if len(a) > 1 else oid, mods, y, x, what)


def fa_case(s, kind, d):
    s.at(f"{CLS[kind]}.train", f"{CLS[kind]}.get_param_vector", f"{CLS[kind]}.set_param_vector", f"{CLS[kind]}.predict")
    w = s.world()
    fa = mk_fa(w, kind, d)
    X, t = data(w, d)
    kw = {}
    if kind.startswith("WLS"):
        kw["weights"] = w.arr("wt", NS[d], pos=True)
    w.call(fa, "train", X, t, **kw)
    w.call(fa, "set_selected_param_names", names(w, PARAMS[kind]))
    Q = w.arr("Q", 4, d, lo="-2", hi="2")
    obs = lambda v: obs_fa(v, fa, Q)
    mods = fmods(1)
    for nm, a in [("inputs", X), ("targets", t)] + list(kw.items()):
        w1 = w.fork()
        w1.clobber(a)
        differs(s, "training-" + nm, mods, w, w1, obs, "overwriting the training data afterwards changes nothing")
    # read
    w1 = w.fork()
    v = w1.call(fa, "get_param_vector")
    w2 = w1.fork()
    w2.clobber(v)
    differs(s, "vector-read", mods, w1, w2, obs, "overwriting a vector that was read changes nothing")
    # predictions
    w1 = w.fork()
    p = w1.call(fa, "predict", Q)
    w2 = w1.fork()
    w2.clobber(p)
    differs(s, "predictions", mods, w1, w2, obs, "overwriting predictions changes nothing")
    # set, in every single selection and in the full one
    for sel in [[x] for x in PARAMS[kind]] + ([PARAMS[kind]] if len(PARAMS[kind]) > 1 else []):
        w1 = w.fork()
        w1.call(fa, "set_selected_param_names", names(w1, sel))
        sz = w1.node(w1.call(fa, "get_param_vector_size"))
        v = w1.arr("newvals", sz, lo="0.5", hi="1.5")
        before = w1.node(v)
        w1.call(fa, "set_param_vector", v)
        s.same(f"set-writes-nothing/{'+'.join(sel)}", mods, w1.node(v), before, "setting does not write into the vector")
        w2 = w1.fork()
        w2.clobber(v)
        differs(s, f"vector-set/{'+'.join(sel)}", mods, w1, w2, obs, "overwriting a vector after it was set changes nothing")
        # read, overwrite the vector, set another, read again: the first vector is untouched
        w2 = w1.fork()
        got = w2.call(fa, "get_param_vector")
        gb = w2.node(got)
        w2.call(fa, "set_param_vector", w2.arr("again", sz, lo="0.5", hi="1.5"))
        s.same(f"vector-read-is-kept/{'+'.join(sel)}", mods, w2.node(got), gb, "a vector that was read does not change when others are set")
        # two approximators given the same vector stay independent
        w3 = w.fork()
        o2 = mk_fa(w3, kind, d)
        w3.call(o2, "train", *data(w3, d, pre="o"))
        for o in (fa, o2):
            w3.call(o, "set_selected_param_names", names(w3, sel))
            w3.call(o, "set_param_vector", v3 if o is o2 else (v3 := w3.arr("newvals", sz, lo="0.5", hi="1.5")))
        q0 = w3.node(w3.call(o2, "predict", Q))
        w3.call(fa, "set_param_vector", w3.arr("again", sz, lo="0.5", hi="1.5"))
        s.same(f"independent/{'+'.join(sel)}", mods, w3.node(w3.call(o2, "predict", Q)), q0, "an approximator given the same vector as another one stays independent of it")


def rollout(w, d, D):
    ts = w.arr("tsq", 3, increasing=True)
    r = w.call(d, "analytical_solution", ts).items
    return [w.node(r[0]), w.node(r[1])]


def dmp_case(s, t, sel):
    s.at("Dmp.get_param_vector", "Dmp.set_param_vector", "Dmp.integrate_start")
    D = 2
    rg, rg2 = (dict(lo="0.1", hi="0.9"), dict(lo="1.1", hi="2.5")) if "SCT23" in t else ({}, {})
    w = s.world()
    fl = w.list(*[trained(w, "RBFN", 1, f"fa{k}") for k in range(D)])
    d = w.new("Dmp", S("tau", pos=True), w.arr("y0", D, **rg), w.arr("g", D, **rg2), fl, dmp_type=strv(t))
    w.call(d, "set_selected_param_names", names(w, sel))
    mods = [ri.Model(4100)]
    obs = lambda v: rollout(v, d, D) + [v.node(v.call(d, "get_param_vector")), v.node(v.get(d, "y_attr")), v.node(v.get(d, "y_init"))]
    sz = w.node(w.call(d, "get_param_vector_size"))
    w1 = w.fork()
    v = w1.arr("newvals", sz, lo="1.2", hi="1.5")
    before = w1.node(v)
    w1.call(d, "set_param_vector", v)
    s.same("set-writes-nothing", mods, w1.node(v), before, "setting does not write into the vector")
    w2 = w1.fork()
    w2.clobber(v)
    differs(s, "vector-set", mods, w1, w2, obs, "overwriting a vector after it was set changes nothing")
    # what a later integration does to the object does not reach the vector
    w2 = w1.fork()
    w2.call(d, "integrate_start")
    w2.call(d, "analytical_solution", w2.arr("ts2", 3, increasing=True))
    s.same("vector-is-kept", mods, w2.node(v), before, "using the DMP does not write into the vector")
    w1 = w.fork()
    v = w1.call(d, "get_param_vector")
    w2 = w1.fork()
    w2.clobber(v)
    differs(s, "vector-read", mods, w1, w2, obs, "overwriting a vector that was read changes nothing")


def integration(s, nm, mk):
    s.at("DynamicalSystem.integrate_start", "DynamicalSystem.integrate_step")
    for given in (False, True):
        w = s.world()
        o = mk(w, N.const(2))
        is_dmp = nm.startswith("dmp")
        if given and nm.startswith("time"):
            continue
        rg = dict(lo="0.1", hi="0.9")
        w1 = w.fork()
        y = w1.arr("start", 2, **rg) if given else None
        x, xd = w1.call(o, "integrate_start", *([y] if given else [])).items
        mods = [ri.Model(4200)]

        def obs(v):
            ts = v.arr("tsq", 3, increasing=True)
            r = v.call(o, "analytical_solution", ts).items
            q = v.call(o, "integrate_start").items
            return [v.node(r[0]), v.node(r[1]), v.node(q[0]), v.node(q[1])]
        lab = "given" if given else "own"
        for k, a in (("state", x), ("rate", xd)):
            w2 = w1.fork()
            w2.clobber(a)
            differs(s, f"{lab}-start/{k}", mods, w1, w2, obs, "overwriting what integrate_start returned does not move the start of the system")
        # one step, in place
        w2 = w1.fork()
        x2, xd2 = w2.call(o, "integrate_step", S("dt", pos=True), x).items
        xb = w2.node(x)
        w3 = w2.fork()
        w3.clobber(x2)
        w3.clobber(xd2)
        s.same(f"{lab}-step/argument", mods, w3.node(x), xb, "overwriting the result of a step leaves the state it started from alone")
        differs(s, f"{lab}-step/system", mods, w2, w3, obs, "overwriting the result of a step changes nothing in the system")
        if given and not is_dmp:
            pass


def rollouts(s, nm, mk):
    s.at("DynamicalSystem.analytical_solution")
    w = s.world()
    o = mk(w, N.const(2))
    ts = w.arr("ts", 3, increasing=True)
    r = w.call(o, "analytical_solution", ts).items
    tsb = w.node(ts)
    w1 = w.fork()
    for a in r:
        w1.clobber(a)
    mods = [ri.Model(4300)]
    s.same("times", mods, w1.node(ts), tsb, "overwriting a rollout leaves the times alone")

    def obs(v):
        q = v.call(o, "analytical_solution", v.arr("tsq", 3, increasing=True)).items
        return [v.node(q[0]), v.node(q[1])]
    differs(s, "rollout", mods, w, w1, obs, "overwriting a rollout changes nothing in the system")


def demo(s, t, how):
    """Training a DMP from a demonstration the caller then overwrites."""
    s.at("Dmp.train", "Dmp.from_traj")
    w = s.world()
    T, D = 4, 2
    rg = dict(lo="1", hi="2")
    ts, ys = w.arr("ts", T, increasing=True), w.arr("ys", T, D, **rg)
    yds, ydds = w.arr("yds", T, D), w.arr("ydds", T, D)
    tr = w.new("Trajectory", ts, ys, yds, ydds)
    fl = w.list(*[w.I.new_obj(w.st, fa_stub(), {}, None, N.mk("fa", N.const(k), attr="fas")) for k in range(D)])
    if how == "from_traj":
        d = w.static("Dmp", "from_traj", tr, fl, **({"dmp_type": strv(t)}))
    else:
        d = w.new("Dmp", S("tau", pos=True), w.arr("y0", D), w.arr("g", D), fl, dmp_type=strv(t))
        w.call(d, "train", tr)
    mods = [ri.Model(4400)]
    obs = lambda v: rollout(v, d, D) + [v.node(v.get(d, "y_attr")), v.node(v.get(d, "y_init")), v.node(v.call(d, "integrate_start").items[0])]
    for nm, a in (("positions", ys), ("velocities", yds), ("accelerations", ydds), ("times", ts)):
        w1 = w.fork()
        w1.clobber(a)
        differs(s, nm, mods, w, w1, obs, "overwriting the demonstration afterwards changes nothing")


def build(chk):
    for k in PARAMS:
        for d in (1, 2):
            chk.scenario(f"{k}/{d}d", fa_case, k, d)
    for t in DMP_TYPES:
        for sel in (["weights", "goal"], ["goal"]):
            chk.scenario(f"dmp/{t}/{'+'.join(sel)}", dmp_case, t, sel)
    allsys = [(nm, mk) for nm, (_, mk) in SYSTEMS.items()] + [("dmp-" + t, (lambda t: lambda w, D: mk_dmp(w, D, t))(t)) for t in DMP_TYPES]
    for nm, mk in allsys:
        chk.scenario(f"integration/{nm}", integration, nm, mk)
        chk.scenario(f"rollout/{nm}", rollouts, nm, mk)
    for t in DMP_TYPES:
        for how in ("from_traj", "train"):
            chk.scenario(f"demonstration/{t}/{how}", demo, t, how)

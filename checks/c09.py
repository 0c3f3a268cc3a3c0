"""C09: size, getter and setter of the parameter vector agree for every selection."""
from itertools import combinations

from .fa import *
from .dmp import mk_dmp

EXPLANATION = ("For every approximator kind and every non-empty selection (subset, order, single name) of its parameters, and for DMPs (with and "
               "without schedules, goal selected or not, trained and untrained approximators), the terms returned by size, get and predict before and after "
               "setting a fresh symbolic vector are compared: length, read-back, block order, unselected parameters untouched, predictions of the object whose "
               "parameters were transplanted, rejection of vectors of any other length.")
ASSUMPTIONS = ["selections name parameters the trained model has", "term equality by congruence, then random interpretation"]
PARAMS = {"WLS": ["slope", "offset"], "WLS-no-offset": ["slope"], "RBFN": ["centers", "widths", "weights"],
          "LWR": ["centers", "widths", "slopes", "offsets"], "GPR": ["gram_inv_targets"]}


def names(w, l):
    return strv(l) if isinstance(l, str) else w.list(*[strv(x) for x in l])


def length(w, v):
    return w.I.length(v, w.st)


def trained(w, kind, d, pre=""):
    fa = mk_fa(w, kind, d)
    w.call(fa, "train", *data(w, d, pre=pre))
    return fa


def roundtrip(s, w, o, mods, oid="", what="function approximator"):
    """Common obligations; returns the vector that was set."""
    sz = w.node(w.call(o, "get_param_vector_size"))
    got = w.call(o, "get_param_vector")
    s.same(oid + "size-is-length", mods, lambda m: mpf(ri.as_int(m.ev(sz))), lambda m: mpf(len(ri.flat(m.ev(w.node(got))))), "the reported size is the length of the returned vector")
    n = N.declare_atleast(N.sym("np", (), kind="int"), 1) if N.cval(sz) is None else sz
    v = w.arr(oid + "newvals", sz, lo="0.5", hi="1.5")
    for k, extra in (("longer", 1), ("shorter", -1)):
        dim = N.add(sz, N.const(extra))
        if N.cval(dim) is not None and N.cval(dim) < 0:
            continue
        s.rejects(oid + "rejects-" + k, w, lambda: (lambda x: x.call(o, "set_param_vector", x.arr("bad" + k, dim)))(w.fork()), "a vector of any other length is rejected")
    before = w.node(got)
    w0 = w.fork()
    w0.call(o, "set_param_vector", w0.call(o, "get_param_vector"))
    s.same(oid + "get-set-is-identity", mods, w0.node(w0.call(o, "get_param_vector")), before, "setting what was read changes nothing", flat=True)
    w.call(o, "set_param_vector", v)
    after = w.call(o, "get_param_vector")
    s.same(oid + "set-get-is-identity", mods, w.node(after), w.node(v), "what was set is read back", flat=True)
    s.same(oid + "size-unchanged", mods, w.node(w.call(o, "get_param_vector_size")), sz, "setting values does not change the size")
    return v


def selection(s, kind, d, sel):
    s.at(f"{CLS[kind]}.get_param_vector", f"{CLS[kind]}.set_param_vector", f"{CLS[kind]}.get_param_vector_size")
    w = s.world()
    fa = trained(w, kind, d)
    mods = fmods(2)
    # individually
    blocks = {}
    for p in PARAMS[kind]:
        w.call(fa, "set_selected_param_names", strv(p))
        blocks[p] = w.node(w.call(fa, "get_param_vector"))
        sz = w.node(w.call(fa, "get_param_vector_size"))
        s.same("single-size/" + p, mods, lambda m: mpf(ri.as_int(m.ev(sz))), lambda m: mpf(len(ri.flat(m.ev(blocks[p])))), "the size of a single selected parameter is its number of values")
    w.call(fa, "set_selected_param_names", names(w, sel))
    lab = [sel] if isinstance(sel, str) else sel
    s.same("blocks-in-selection-order", mods, w.node(w.call(fa, "get_param_vector")),
           lambda m: np.concatenate([ri.flat(m.ev(blocks[p])) for p in lab]), "the vector is the concatenation of the selected parameters in the order of the selection")
    X = w.arr("Q", 4, d, lo="-2", hi="2")
    pred = w.node(w.call(fa, "predict", X))
    w1 = w.fork()
    w1.call(fa, "set_param_vector", w1.call(fa, "get_param_vector"))
    s.same("identity-keeps-predictions", mods, w1.node(w1.call(fa, "predict", X)), pred, "setting what was read keeps the predictions")
    v = roundtrip(s, w, fa, mods)
    # others untouched; selected ones are the blocks of v
    off = 0
    at = {}
    for p in lab:
        at[p] = lambda m, p=p, o=list(at): ri.flat(m.ev(w.node(v)))[sum(len(ri.flat(m.ev(blocks[q]))) for q in o):][:len(ri.flat(m.ev(blocks[p])))]
    for p in PARAMS[kind]:
        w.call(fa, "set_selected_param_names", names(w, [p]))
        want = at.get(p, lambda m, p=p: ri.flat(m.ev(blocks[p])))
        s.same("after-set/" + p, mods, lambda m: ri.flat(m.ev(w.node(w.call(fa, "get_param_vector")))), want,
               "selected parameters take their part of the vector" if p in lab else "parameters that are not selected keep their values")


def transplant(s, kind, d):
    """The full parameter vector determines the predictions."""
    s.at(f"{CLS[kind]}.set_param_vector", f"{CLS[kind]}.predict")
    w = s.world()
    a, b = trained(w, kind, d), trained(w, kind, d, "other")
    for o in (a, b):
        w.call(o, "set_selected_param_names", names(w, PARAMS[kind]))
    X = w.arr("Q", 4, d, lo="-2", hi="2")
    w.call(a, "predict", X)
    w.call(a, "set_param_vector", w.call(b, "get_param_vector"))
    s.same("predictions-follow-parameters", fmods(2), w.node(w.call(a, "predict", X)), w.node(w.call(b, "predict", X)),
           "an approximator given all parameters of another one predicts what the other one predicts")


def nothing(s, kind):
    s.at(f"{CLS[kind]}.get_param_vector", f"{CLS[kind]}.get_param_vector_size")
    for form in ("default", "empty"):
        w = s.world()
        fa = trained(w, kind, 1)
        if form == "empty":
            w.call(fa, "set_selected_param_names", w.list())
        X = w.arr("Q", 4, 1)
        before = w.node(w.call(fa, "predict", X))
        g = w.call(fa, "get_param_vector")
        s.same(f"{form}/size", fmods(1), w.node(w.call(fa, "get_param_vector_size")), N.const(0), "without a selection the size is zero")
        s.forall(f"{form}/empty", fmods(1), lambda m: (len(ri.flat(m.ev(w.node(g)))) == 0, ri.fmt(m.ev(w.node(g)))), "without a selection the vector is empty")
        s.rejects(f"{form}/rejects", w, lambda: (lambda v: v.call(fa, "set_param_vector", v.arr("bad1", 1)))(w.fork()), "without a selection no value can be set")
        w.call(fa, "set_param_vector", w.call(fa, "get_param_vector"))
        s.same(f"{form}/identity", fmods(1), w.node(w.call(fa, "predict", X)), before, "setting the empty vector changes nothing")


# ------------------------------------------------------------------ DMP
DM = lambda: [ri.Model(900 + k, sizes=dict(D=1 + k % 3)) for k in range(3)]


def dmp_stub(s, goal, trained_, fas):
    """Unknown approximators: which part of the vector reaches which approximator."""
    s.at("Dmp.get_param_vector", "Dmp.set_param_vector", "Dmp.get_param_vector_size")
    w = s.world()
    D = N.const(2) if fas == "two" else size("D")
    if fas == "none":
        fl = NONEV
    else:
        fl = w.list(*[w.I.new_obj(w.st, fa_stub(trained=t), {}, None, N.mk("fa", N.const(k), attr="fas")) for k, t in enumerate(trained_)])
    d = w.new("Dmp", S("tau", pos=True), w.arr("y0", D), w.arr("g", D), fl)
    sel = (["weights"] if fas != "none" else []) + (["goal"] if goal else [])
    w.call(d, "set_selected_param_names", w.list(strv("goal"), strv("weights")))
    w.call(d, "set_selected_param_names", names(w, sel))
    v = w.call(d, "get_param_vector")
    blocks = []
    if fas != "none":
        for k, t in enumerate(trained_):
            if t:
                blocks.append(w.node(w.call(w.I.getitem(fl, num(k), w.st), "get_param_vector")))
    if goal:
        blocks.append(w.node(w.get(d, "y_attr")))
    cat = lambda m: np.concatenate([ri.flat(m.ev(b)) for b in blocks]) if blocks else ri.obj1([])
    s.same("layout", DM(), lambda m: ri.flat(m.ev(w.node(v))), cat, "the vector lists the approximators' parameters in order of dimension, then the goal")
    sz = w.node(w.call(d, "get_param_vector_size"))
    s.same("size", DM(), sz, lambda m: mpf(len(cat(m))), "the reported size is the number of selected values")
    for k, e in (("longer", 1), ("shorter", -1)):
        if blocks or e > 0:
            s.rejects("rejects-" + k, w, lambda: (lambda x: x.call(d, "set_param_vector", x.arr("bad" + k, N.add(sz, N.const(e)))))(w.fork()), "a vector of any other length is rejected")
    new = w.arr("new", sz)
    y0 = w.node(w.get(d, "y_attr"))
    n0 = len(w.I.events)
    w.call(d, "set_param_vector", new)
    ev = [e for e in w.I.events[n0:] if e["name"] == "fa.set_param_vector"]
    want = [k for k, t in enumerate(trained_) if t] if fas != "none" else []
    s.ob("reaches-every-approximator", [e["recv"] for e in ev] == [N.mk("fa", N.const(k), attr="fas") for k in want],
         "each trained approximator is given its part once, untrained ones are left alone")
    for k, e in zip(want, ev):
        lo = lambda m, k=k: sum(len(ri.flat(m.ev(b))) for b in blocks[:want.index(k)])
        s.same(f"part/{k}", DM(), lambda m: ri.flat(m.ev(e["argnodes"][0])), lambda m: ri.flat(m.ev(w.node(new)))[lo(m):lo(m) + len(ri.flat(m.ev(blocks[want.index(k)])))],
               "each approximator is given the part of the vector that it contributes when reading")
    if goal:
        s.same("goal", DM(), w.node(w.get(d, "y_attr")), lambda m: ri.flat(m.ev(w.node(new)))[len(cat(m)) - len(ri.flat(m.ev(blocks[-1]))):], "the goal takes the last values", flat=True)
    else:
        s.same("goal", DM(), w.node(w.get(d, "y_attr")), y0, "a goal that is not selected keeps its value")


SELS = [["weights"], ["goal"], ["weights", "goal"], ["goal", "widths", "weights"], "weights", "goal", []]


def dmp_real(s, sel, D):
    s.at("Dmp.get_param_vector", "Dmp.set_param_vector")
    w = s.world()
    fl = w.list(*[trained(w, "RBFN", 1, f"fa{k}") for k in range(D)])
    d = w.new("Dmp", S("tau", pos=True), w.arr("y0", D), w.arr("g", D), fl)
    w.call(d, "set_selected_param_names", names(w, sel))
    mods = fmods(2)
    v = roundtrip(s, w, d, mods)
    if "goal" in sel:
        s.same("goal", mods, w.node(w.get(d, "y_attr")), lambda m: ri.flat(m.ev(w.node(v)))[-D:], "the goal takes the last values")
    # equals a DMP that was built with the goal and whose approximators were set one by one
    if sel in ("weights", ["weights"], ["weights", "goal"]):
        w2 = s.world()
        fl2 = [trained(w2, "RBFN", 1, f"fa{k}") for k in range(D)]
        vv = w2.arr("newvals", w.node(w.call(d, "get_param_vector_size")), lo="0.5", hi="1.5")
        for k, f in enumerate(fl2):
            w2.call(f, "set_selected_param_names", strv("weights"))
            w2.call(f, "set_param_vector", w2.I.getitem(vv, Slc(num(3 * k), num(3 * k + 3), NONEV), w2.st))
        g = w2.I.getitem(vv, Slc(num(3 * D), num(4 * D), NONEV), w2.st) if "goal" in sel else w2.arr("g", D)
        d2 = w2.new("Dmp", S("tau", pos=True), w2.arr("y0", D), g, w2.list(*fl2))
        ts, ts2 = w.arr("ts", 3, increasing=True), w2.arr("ts", 3, increasing=True)
        a, b = w.call(d, "analytical_solution", ts).items, w2.call(d2, "analytical_solution", ts2).items
        for k, nm in enumerate(("states", "rates", "forcing")):
            s.same("rollout-" + nm, mods, w.node(a[k]), w2.node(b[k]), "the rollout is that of a DMP whose approximators and goal have these values")


def sched(s, sel):
    s.at("DmpWithSchedules.get_param_vector", "DmpWithSchedules.set_param_vector", "DmpWithSchedules.get_param_vector_size")
    w = s.world()
    f = [trained(w, "RBFN", 1, f"fa{k}") for k in range(2)]
    g = [trained(w, "LWR", 1, f"sc{k}") for k in range(2)]
    d = w.new("DmpWithSchedules", S("tau", pos=True), w.arr("y0", 2), w.arr("g", 2), w.list(*f), w.list(*g))
    w.call(d, "set_selected_param_names", names(w, sel))
    mods = fmods(2)
    lab = [sel] if isinstance(sel, str) else sel
    d_sel, s_sel = [x for x in lab if not x.startswith("sched_")], [x[6:] for x in lab if x.startswith("sched_")]
    blocks = []
    for o, l in [(o, [x for x in d_sel if x != "goal"]) for o in f] + [("goal", None)] + [(o, s_sel) for o in g]:
        if o == "goal":
            if "goal" in d_sel:
                blocks.append(w.node(w.get(d, "y_attr")))
            continue
        for p in l:
            x = w.fork()
            x.call(o, "set_selected_param_names", strv(p))
            blocks.append(x.node(x.call(o, "get_param_vector")))
    s.same("layout", mods, lambda m: ri.flat(m.ev(w.node(w.call(d, "get_param_vector")))),
           lambda m: np.concatenate([ri.flat(m.ev(b)) for b in blocks]), "the vector lists the DMP's values, then those of the schedules")
    roundtrip(s, w, d, mods)


def build(chk):
    for k in PARAMS:
        for d in (1, 2):
            ps = PARAMS[k]
            sels = [list(c) for r in range(1, len(ps) + 1) for c in combinations(ps, r)]
            sels += [list(reversed(c)) for c in sels if len(c) > 1] + [ps[0]]
            for sel in sels:
                chk.scenario(f"{k}/{d}d/{sel if isinstance(sel, str) else '+'.join(sel)}{'(name)' if isinstance(sel, str) else ''}", selection, k, d, sel)
            if k not in ("GPR",):
                chk.scenario(f"{k}/{d}d/transplant", transplant, k, d)
        chk.scenario(f"{k}/nothing-selected", nothing, k)
    for goal in (False, True):
        for t in ((True, True), (True, False), (False, True), (False, False)):
            chk.scenario(f"dmp/goal={goal}/trained={''.join('yn'[not x] for x in t)}", dmp_stub, goal, t, "two")
        chk.scenario(f"dmp/goal={goal}/no-approximators", dmp_stub, goal, (), "none")
    for sel in SELS:
        for D in (1, 2):
            if sel != []:
                chk.scenario(f"dmp-rbfn/{D}d/{sel if isinstance(sel, str) else '+'.join(sel)}{'(name)' if isinstance(sel, str) else ''}", dmp_real, sel, D)
    for sel in (["weights", "sched_slopes"], ["goal", "sched_offsets", "weights"], ["sched_slopes", "sched_offsets"], ["weights"], "sched_slopes", "goal", ["goal", "weights", "widths", "sched_widths"]):
        chk.scenario(f"schedules/{sel if isinstance(sel, str) else '+'.join(sel)}{'(name)' if isinstance(sel, str) else ''}", sched, sel)

"""C19: what is told to a learning session can be asked back, unchanged and unmixed."""
from .c18 import *

EXPLANATION = ("Telling and asking are executed abstractly over a model of the file system (dictionary of known paths, text matrices, JSON pickles). For every kind of value and key, in memory, "
               "on disk, reopened from disk and saved at the end, the term of what is asked must be the term of what was told last under that key; the heap shows that neither told nor asked objects are shared.")
ASSUMPTIONS = ["numpy.savetxt/loadtxt keep the values of vectors and of matrices with more than one row and column; jsonpickle restores an equal object", "only the session writes to its directory",
               "key sets and histories as listed in the scenarios"]

DIR = "/data/session"
MODES = ("memory", "disk", "reopened", "save_all")


def session(w, mode, cls="LearningSession", n=3, **kw):
    return w.new(cls, num(n), *([strv(DIR)] if mode in ("disk", "reopened") else []), **kw)


def settle(w, s, mode, cls="LearningSession"):
    """the session in which questions are asked"""
    if mode == "save_all":
        w.call(s, "save_all", strv(DIR))
    if mode in ("reopened", "save_all"):
        return w.static(cls, "from_dir", strv(DIR))
    return s


def make(w, kind, pre=""):
    if kind == "matrix":
        return w.arr(pre + "matrix", 3, 2)
    if kind == "square":
        return w.arr(pre + "square", 2, 2)
    if kind == "square-3":
        return w.arr(pre + "square3", 3, 3)
    if kind == "wide":
        return w.arr(pre + "wide", 2, 5)
    if kind == "vector":
        return w.arr(pre + "vector", 4)
    if kind == "long-vector":
        return w.arr(pre + "longvector", 9)
    if kind == "int":
        return num(7 if pre else 5)
    if kind == "float":
        return S(pre + "float")
    if kind == "list":
        return w.list(*[S(f"{pre}l{i}") for i in range(3)])
    if kind == "list-of-vectors":
        return w.list(*[w.arr(f"{pre}v{i}", 2) for i in range(3)])
    if kind == "distribution":
        return w.new("DistributionGaussian", w.arr(pre + "mean", 2), w.arr(pre + "covar", 2, 2))
    if kind == "updater":
        return w.new("UpdaterCovarDecay", eliteness=S(pre + "elite", pos=True), weighting_method=strv("PI-BB"), covar_decay_factor=S(pre + "decay", lo="0.3", hi="0.9"))
    if kind == "dmp":
        return mk_real_dmp(w, pre)
    if kind == "text":
        return strv(pre + "text")
    raise KeyError(kind)


def mk_real_dmp(w, pre=""):
    fas = []
    for k in range(2):
        f = mk_fa(w, "WLS", reg=S(f"{pre}reg{k}", lo="0.05", hi="0.3"))
        x, t = data(w, 1, n=3, pre=f"{pre}fa{k}")
        w.call(f, "train", x, t)
        fas.append(f)
    d = w.new("Dmp", S(pre + "tau", pos=True), w.arr(pre + "y0", 2), w.arr(pre + "g", 2), w.list(*fas))
    w.call(d, "set_selected_param_names", w.list(strv("slope")))
    return d


def seen(w, kind, v):
    """terms a client sees of a stored object"""
    if kind == "distribution":
        return list(dist_nodes(w, v))
    if kind == "updater":
        d = w.new("DistributionGaussian", w.arr("sm", 2), w.arr("sc", 2, 2))
        r = w.item(w.call(v, "update_distribution", d, w.arr("ss", 3, 2), w.arr("sk", 3)), 0)
        return list(dist_nodes(w, r))
    if kind == "dmp":
        d = w.I.deepcopy(v, w.st)
        r = w.call(d, "analytical_solution", w.arr("tt", 3, increasing=True))
        return [w.node(w.call(d, "get_param_vector")), w.node(w.item(r, 0)), w.node(w.get(d, "tau"))]
    if kind == "list-of-vectors":
        return [w.node(v)]
    return [w.node(v)]


def same_value(s, oid, w, kind, v, exp, what, ms=None):
    try:
        got = seen(w, kind, v)
    except Dead:
        s.ob(oid, False, what + ": what is returned cannot be used")
        return
    for j, (a, b) in enumerate(zip(got, exp)):
        if a.op in ("str", "none", "missingkey") or b.op in ("str", "none"):
            s.ob(f"{oid}/{j}", a is b, what)
        else:
            s.same(f"{oid}/{j}", ms or mods(2), a, b, what, flat=True)


def scramble(w, kind, v):
    """the client goes on using an object it told or asked"""
    v = w.I.resolve(v, w.st)
    if isinstance(v, Arr):
        w.clobber(v)
    elif isinstance(v, Lst):
        items = w.I.concrete_items(v, w.st) or []
        for x in items:
            w.clobber(x)
        if items:
            w.I.setitem(v, num(0), S("scrambled"), w.st)
    elif kind == "distribution":
        w.set(v, "mean", w.arr("other_mean", 2))
        w.set(v, "covar", w.arr("other_covar", 2, 2))
    elif kind == "dmp":
        w.call(v, "set_param_vector", w.arr("other_params", 2))
        w.set(v, "tau", S("other_tau", pos=True))


KEYS = {"plain": (), "update": (0,), "update-12": (12,), "sample": (0, 0), "sample-2": (3, 2), "eval": (1, "eval")}


def tell(w, s, v, name, key=()):
    return w.call(s, "tell", v, strv(name), *[num(k) if isinstance(k, int) else strv(k) for k in key])


def store(s, cls, mode, kind, key, name="thing"):
    s.at("LearningSession.tell", "LearningSession.ask")
    w = s.world()
    w.I.unroll_arrays = True
    ses = session(w, mode, cls)
    k = KEYS[key]
    v = make(w, kind)
    exp = seen(w, kind, v)
    tell(w, ses, v, name, k)
    same_value(s, "told", w, kind, v, exp, "telling does not change the object")
    if kind not in ("int", "float", "text", "updater"):
        scramble(w, kind, v)
    q = settle(w, ses, mode, cls)
    r = ask(w, q, name, *k)
    same_value(s, "value", w, kind, r, exp, "what was told is what is asked")
    if kind not in ("int", "float", "text", "updater"):
        scramble(w, kind, r)
    same_value(s, "again", w, kind, ask(w, q, name, *k), exp, "what is asked is not changed by what the caller does with it")
    if mode == "disk":
        q2 = w.static(cls, "from_dir", strv(DIR))
        same_value(s, "reopened", w, kind, ask(w, q2, name, *k), exp, "the files hold what was told")


def retell(s, mode, a, b, key):
    s.at("LearningSession.tell", "LearningSession.ask")
    w = s.world()
    w.I.unroll_arrays = True
    ses = session(w, mode)
    k = KEYS[key]
    tell(w, ses, make(w, a), "thing", k)
    ask(w, ses, "thing", *k)
    v = make(w, b, "second_")
    exp = seen(w, b, v)
    tell(w, ses, v, "thing", k)
    same_value(s, "same-session", w, b, ask(w, ses, "thing", *k), exp, "the object told last is the one that is asked")
    q = settle(w, ses, mode)
    same_value(s, "value", w, b, ask(w, q, "thing", *k), exp, "the object told last is the one that is asked")
    if mode != "memory":
        # a session that was reopened, then told something else
        v = make(w, a, "third_")
        exp = seen(w, a, v)
        tell(w, q, v, "thing", k)
        same_value(s, "third", w, a, ask(w, q, "thing", *k), exp, "the object told last is the one that is asked")
        if mode != "save_all":
            same_value(s, "third-reopened", w, a, ask(w, w.static("LearningSession", "from_dir", strv(DIR)), "thing", *k), exp, "the object told last is the one in the directory")


ALLKEYS = [("thing",), ("thing", 0), ("thing", 1), ("thing", 10), ("thing", 100), ("thing", 0, 0), ("thing", 0, 1), ("thing", 1, 0), ("thing", 0, 10), ("thing", 10, 0), ("thing", 0, "eval"), ("thing", 1, "eval"),
           ("eval_thing",), ("eval_thing", 3), ("eval_thing", 0, "eval"), ("eval_thing", 0, 0), ("eval", 0), ("evaluation", 0), ("update", 0), ("update0", 0), ("thing", 0, 11), ("thing", 11, 0), ("thing", 0, 100), ("thing", 1000, 0),
           ("things", 0), ("something", 0), ("thin", 0), ("thing_new", 0), ("cost", 0, 0), ("costs", 0, 0), ("costs", 0), ("cost_vars", 0, 0), ("sample", 0, 0), ("samples", 0), ("distribution", 0), ("distribution_new", 0)]


def distinct(s, cls, mode, order):
    s.at("LearningSession.get_base_name", "LearningSession.tell", "LearningSession.ask")
    w = s.world()
    w.I.unroll_arrays = True
    ses = session(w, mode, cls)
    ks = ALLKEYS if order == "forward" else list(reversed(ALLKEYS))
    vals = {}
    absent = [("nothing",), ("thing", 2), ("thing", 0, 2), ("thing", 2, 0), ("thing", 2, "eval"), ("thin",), ("hing", 0)]
    for key in ks:
        s.ob(f"absent/{key}", w.node(exists(w, ses, *key)) is N.FALSE, "what was not told does not exist")
        vals[key] = w.arr("v_" + "_".join(map(str, key)), 3)
        tell(w, ses, vals[key], key[0], key[1:])
    q = settle(w, ses, mode, cls)
    for key in ks:
        s.ob(f"exists/{key}", w.node(exists(w, q, *key)) is N.TRUE, "what was told exists")
        same_value(s, f"value/{key}", w, "vector", ask(w, q, *key), [w.node(vals[key])], "objects told under different keys do not mix")
    for key in absent:
        s.ob(f"still-absent/{key}", w.node(exists(w, q, *key)) is N.FALSE, "what was not told does not exist")
        f = w.fork()
        s.rejects(f"rejects/{key}", f, lambda: ask(f, q, *key), "asking for what was not told is refused")


def exists(w, s, name, *k):
    return w.call(s, "exists", strv(name), *[num(i) if isinstance(i, int) else strv(i) for i in k])


def numpy_keys(s, cls):
    s.at("LearningSession.get_base_name")
    w = s.world()
    ses = w.new(cls, num(3))
    i = S("i", kind="npint", lo=0)
    a, b, c, d = (w.arr(x, 3) for x in "abcd")
    t = lambda v, *k: w.call(ses, "tell", v, strv("thing"), *k)
    q = lambda *k: w.call(ses, "ask", strv("thing"), *k)
    t(a, i)
    t(b)
    t(c, i, i)
    t(d, num(3), i)
    ms = [ri.Model(5 + k, values={"i": mpf(k)}) for k in range(3)]
    for nm, v, k in (("update", a, (i,)), ("none", b, ()), ("both", c, (i, i)), ("sample", d, (num(3), i))):
        s.same(nm, ms, w.node(q(*k)), w.node(v), "numpy integers are update and sample numbers like any others", flat=True)


def init(s, cls, mode):
    """what is passed to the constructor"""
    s.at(f"{cls}.__init__", "LearningSession.from_dir")
    w = s.world()
    w.I.unroll_arrays = True
    d = make(w, "distribution")
    exp = seen(w, "distribution", d)
    ses = session(w, mode, cls, 4, distribution_initial=d, updater=make(w, "updater"), threshold=S("thr"))
    scramble(w, "distribution", d)
    q = settle(w, ses, mode, cls)
    same_value(s, "distribution_initial", w, "distribution", ask(w, q, "distribution_initial"), exp, "what is passed to the constructor can be asked")
    same_value(s, "threshold", w, "float", ask(w, q, "threshold"), [N.sym("thr", (), kind="float")], "what is passed to the constructor can be asked")
    same_value(s, "n", w, "int", ask(w, q, "n_samples_per_update"), [N.const(4)], "the number of samples per update can be asked")


def updates(s, cls, mode):
    """add_eval, add_update, add_rollout store under the names that are asked"""
    s.at("LearningSession.add_update", "LearningSession.add_eval")
    w = s.world()
    w.I.unroll_arrays = True
    ses = session(w, mode, cls)
    names = ("distribution", "samples", "costs", "weights", "distribution_new")
    exp = {}
    for i in (0, 1, 2):
        vs = dict(distribution=make(w, "distribution", f"d{i}"), samples=w.arr(f"s{i}", 3, 2), costs=w.arr(f"c{i}", 3, 2), weights=w.arr(f"w{i}", 3), distribution_new=make(w, "distribution", f"e{i}"))
        if i == 2:
            vs.pop("distribution_new")
        w.call(ses, "add_update", num(i), *vs.values())
        for nm, v in vs.items():
            exp[nm, i] = seen(w, "distribution" if nm.startswith("dist") else "matrix", v)
        x, c = w.arr(f"x{i}", 2), w.arr(f"k{i}", 2)
        if cls == "LearningSessionTask":
            cv = w.arr(f"cv{i}", 4, 3)
            w.call(ses, "add_eval_task", num(i), x, cv, c)
            exp["eval_cost_vars", i] = exp["cost_vars", i, "eval"] = [w.node(cv)]
            for k in range(3):
                r = (w.arr(f"rs{i}{k}", 2), w.arr(f"rv{i}{k}", 4, 3), w.arr(f"rc{i}{k}", 2))
                w.call(ses, "add_rollout", num(i), num(k), *r)
                for nm, v in zip(("sample", "cost_vars", "cost"), r):
                    exp[nm, i, k] = [w.node(v)]
        else:
            w.call(ses, "add_eval", num(i), x, c)
        exp["eval_sample", i] = exp["sample", i, "eval"] = [w.node(x)]
        exp["eval_cost", i] = exp["cost", i, "eval"] = [w.node(c)]
    q = settle(w, ses, mode, cls)
    for key, e in exp.items():
        same_value(s, "/".join(map(str, key)), w, "distribution" if key[0].startswith("dist") else "matrix", ask(w, q, *key), e, "everything about an update is stored under its own name")
    s.ob("no-new", w.node(exists(w, q, "distribution_new", 2)) is N.FALSE, "an update without a new distribution stores none")


def build(chk):
    kinds = ("matrix", "vector", "int", "float", "list", "list-of-vectors", "distribution", "updater", "dmp", "text", "long-vector", "square", "square-3", "wide")
    for cls in ("LearningSession", "LearningSessionTask"):
        for mode in MODES:
            for kind in kinds:
                for key in KEYS:
                    if cls == "LearningSession" or kind in ("matrix", "distribution", "dmp", "square"):
                        chk.scenario(f"store/{cls}/{mode}/{kind}/{key}", store, cls, mode, kind, key)
            if cls == "LearningSessionTask":
                for key in KEYS:
                    chk.scenario(f"store/{cls}/{mode}/named-dmp/{key}", store, cls, mode, "dmp", key, "dmp")
            for order in ("forward", "backward"):
                chk.scenario(f"keys/{cls}/{mode}/{order}", distinct, cls, mode, order)
            chk.scenario(f"init/{cls}/{mode}", init, cls, mode)
            chk.scenario(f"updates/{cls}/{mode}", updates, cls, mode)
        chk.scenario(f"numpy-keys/{cls}", numpy_keys, cls)
    for mode in MODES:
        for a in ("matrix", "distribution", "float", "int"):
            for b in ("vector", "distribution", "list", "text", "float"):
                chk.scenario(f"retell/{mode}/{a}/{b}", retell, mode, a, b, "update")
        chk.scenario(f"retell/{mode}/plain", retell, mode, "matrix", "distribution", "plain")
        chk.scenario(f"retell/{mode}/sample", retell, mode, "distribution", "matrix", "sample")

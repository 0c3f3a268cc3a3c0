"""C22: a function approximator saved for C++ predicts there what it predicts in Python."""
import math
from .cpp_common import *

EXPLANATION = ("Training, prediction and savejson_for_cpp are interpreted abstractly over symbolic data; the JSON document they denote is given to the C++ reader and predictors, interpreted over clang's AST of src/. "
               "For every approximator the C++ side reads, one and two input dimensions and several numbers of basis functions, the terms C++ predict() and predictRealTime() denote must equal the Python prediction.")
ASSUMPTIONS = ["term equality by random interpretation (5..8 training samples, 1..6 basis functions, 1..4 queries)", "C++ is interpreted over clang's AST of src/ (default build flags), with Eigen and nlohmann::json modelled natively; asserts are enabled"]


def agrees(s, kind, d, nq, nb, how):
    s.at(*(("savejson_for_cpp", CLS[kind]) if how != "constructor" else (CLS[kind],)))
    w = s.world()
    h, reg = S("height", lo="0.3", hi="0.8"), S("reg", lo="0.05", hi="0.3")
    n = num(nb[0]) if d == 1 else w.list(*map(num, nb))
    f = w.new(CLS[kind], n, h, reg)
    X, t = data(w, d, flat=how == "flat", tcol=how == "target-column")
    w.call(f, "train", X, t, **({"save_training_data": TRUEV} if how == "training-data" else {}))
    if how == "parameters":
        w.call(f, "set_selected_param_names", w.list(strv("weights" if kind == "RBFN" else "offsets")))
        w.call(f, "set_param_vector", w.arr("newp", math.prod(nb)))
    if nq == "ties":  # consecutive queries which differ in one coordinate only
        a, b, c, e = (S(x, lo="-2", hi="2") for x in "abce")
        rows = [(a, b), (a, c), (e, c), (e, b), (a, b), (b, a)] if d == 2 else [(a,), (b,), (a,), (a,), (num(0),)]
        q, nq = w.callf_np("array", w.list(*(w.list(*r) for r in rows))), len(rows)
    else:
        q = w.arr("Q", nq, d, lo="-2", hi="2")
    ms = fmods(3)
    py = w.node(w.call(f, "predict", q))
    doc = saved(w, f) if how != "constructor" else None
    names = ("centers", "widths") + (("weights",) if kind == "RBFN" else ("slopes", "offsets"))
    k_ = math.prod(nb)
    P = [cells(w, w.node(w.item(w.get(f, "_model_params"), strv(x))), k_, 1 if x in ("weights", "offsets") else d) for x in names] if doc is None else None
    Q = cells(w, w.node(q), nq, d)

    def run(I):
        c = cpp.Client(I)
        fa = c.from_json("FunctionApproximator", doc) if doc is not None else c.new(CLS[kind], *map(c.mat, P))
        out, again = c.empty(), c.empty(nq, 1)
        c.call(fa, "predict", c.mat(Q), out)
        rt = c.empty(1, 1, "col")
        one = []
        for row in list(Q) + [Q[0]]:
            c.call(fa, "predictRealTime", c.mat([row], "row"), rt)
            one.append(I.copy(rt))
        c.call(fa, "predict", c.mat(Q), again)
        return out, again, one
    tr = cpp_run(s, run)
    F = ri.flat
    s.same("predict", ms, lambda m: F(tr.value(m, 0)), lambda m: F(m.ev(py)), "C++ predict returns the Python predictions")
    s.same("predict-again", ms, lambda m: F(tr.value(m, 1)), lambda m: F(m.ev(py)), "C++ predict returns the Python predictions, also when asked again")
    s.same("shape", ms, lambda m: ri.obj1([mpf(x) for x in tr.value(m, 0).shape]), lambda m: ri.obj1([mpf(nq), mpf(1)]), "one prediction per query")
    for k in range(nq + 1):
        s.same(f"real-time/{k}", ms, lambda m: F(tr.value(m, 2, k)), lambda m: F(m.ev(py))[k % nq:k % nq + 1], "C++ predictRealTime returns the Python prediction for the query it is given")


def build(chk):
    cpp.cpp_program()
    for kind in ("RBFN", "LWR"):
        for d in (1, 2):
            sizes = [(1,), (2,), (3,)] + [(5,)] * chk.thorough if d == 1 else [(1, 1), (1, 2), (2, 2), (3, 2)] + [(2, 4)] * chk.thorough
            for nb in sizes:
                for nq in (1, 3, "ties"):
                    for how in ("columns", "flat", "target-column", "parameters", "training-data"):
                        if how == "flat" and d == 2 or nq != 3 and how != "columns":
                            continue
                        chk.scenario(f"{kind}/{d}d/{'x'.join(map(str, nb))}/{nq}/{how}", agrees, kind, d, nq, nb, how)

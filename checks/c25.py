"""C25: systems, approximators and DMPs made with the C++ constructors behave as those made in Python of the same parts."""
from fractions import Fraction
from .cpp_common import *
from .c23 import KINDS, mk
from . import c22, c23, c24
from .c24 import TAU, TYPES, SCALINGS, approximators

EXPLANATION = ("Objects made with the public C++ constructors are compared with Python objects made of the same parameters: rates, starts, integration steps, batch solutions, forcing terms and predictions, as constructed and after time constant, "
               "start and goal were changed, over clang's AST of src/ and the abstract interpretation of the Python classes.")
ASSUMPTIONS = ["term equality by random interpretation (1..2 dimensions, 3..4 times)", "C++ is interpreted over clang's AST of src/ (default build flags), with Eigen and nlohmann::json modelled natively; asserts are enabled"]


class Make:
    """One way to construct a DMP in C++, and the parts Python makes the same DMP of."""

    def __init__(self, typ, how, goal):
        self.typ, self.how, self.goal = typ, how, goal

    def python(self, w, D, tau):
        one, zero = w.callf_np("ones", num(1)), w.callf_np("zeros", num(1))
        y0, g = w.arr("y0", D), w.arr("g", D)
        exp = lambda x0, xa, a: w.new("ExponentialSystem", tau, x0, xa, a)
        if self.how.startswith("type"):
            return {} if self.typ.startswith("IJS") else dict(gating_system=w.new("SigmoidSystem", tau, one, num(-10), Sc(N.const(Fraction(9, 10)))))
        kw = dict(goal_system=exp(y0, g, S("agoal", pos=True)) if self.goal else NONEV)
        self.alpha = S("aspring", pos=True)
        kw["alpha_spring_damper"] = self.alpha
        if self.how == "no-forcing":
            kw["phase_system"], kw["gating_system"] = exp(one, zero, num(4)), exp(one, zero, num(4))
        elif self.typ.startswith("IJS"):
            kw["phase_system"], kw["gating_system"] = exp(one, zero, S("aphase", pos=True)), exp(one, zero, S("agate", pos=True))
        else:
            kw["phase_system"] = w.new("TimeSystem", tau, Sc(N.const(self.typ.startswith("COUNT"))))
            kw["gating_system"] = w.new("SigmoidSystem", tau, one, S("rate", hi="-1", lo="-20"), S("infl", lo="0.5", hi="1.2"))
        return kw

    def take(self, w, D, tau, fa, scaling):
        self.tau = tau.node
        self.y0, self.g = cells(w, w.node(w.arr("y0", D)), D), cells(w, w.node(w.arr("g", D)), D)
        self.amp = cells(w, w.node(w.arr("amp", D, pos=True)), D) if scaling == "AMPLITUDE_SCALING" else []
        self.scaling = scaling or "NO_SCALING"
        self.docs = []
        if fa is not NONEV:
            for k, f in enumerate(w.I.concrete_items(fa, w.st)):
                self.docs.append(saved(w, f, f"fa{k}.json"))

    def cpp(self, c, D):
        unset = self.how.endswith("unset")
        tau = 1.0 if unset else term(self.tau)
        V = lambda *x: c.vec([term(v) if not isinstance(v, (int, float)) else float(v) for v in x])
        y0, g = (V(*[0.0] * D), V(*[1.0] * D)) if unset else (c.vec(self.y0), c.vec(self.g))
        n = lambda v: v.node if isinstance(v, Sc) else v
        exp = lambda x0, xa, a: c.new("ExponentialSystem", tau, x0, xa, term(n(a)))
        fas = cpp.CVec([c.from_json("FunctionApproximator", d) for d in self.docs])
        tail = [] if self.scaling == "NO_SCALING" else [self.scaling] + ([c.vec(self.amp)] if self.amp else [])
        if self.how == "no-forcing":
            goal = exp(y0, g, S("agoal", pos=True)) if self.goal else None
            return c.new("Dmp", tau, y0, g, term(self.alpha.node), goal, like=("double", "Vector", "Vector", "double"))
        head = [D, fas] if unset else [tau, y0, g, fas]
        like = ("int", "vector") if unset else ("double", "Vector", "Vector", "vector")
        if self.how.startswith("type"):
            ds = c.new("Dmp", *head, self.typ, *tail, like=like + ("string",))
        else:
            goal = exp(y0, g, S("agoal", pos=True)) if self.goal else None
            if self.typ.startswith("IJS"):
                ph, ga = exp(V(1), V(0), S("aphase", pos=True)), exp(V(1), V(0), S("agate", pos=True))
            else:
                ph = c.new("TimeSystem", tau, *([True] if self.typ.startswith("COUNT") else []))
                ga = c.new("SigmoidSystem", tau, V(1), term(S("rate", hi="-1", lo="-20").node), term(S("infl", lo="0.5", hi="1.2").node))
            ds = c.new("Dmp", *head, term(self.alpha.node), goal, ph, ga, *tail, like=like + ("double",))
        if unset:
            c.call(ds, "set_tau", term(self.tau))
            c.call(ds, "set_y_init", c.vec(self.y0))
            c.call(ds, "set_y_attr", c.vec(self.g))
        return ds


def system(w, kind, D):
    """The C++ constructor call corresponding to c23.mk."""
    tau = S("tau", **TAU).node
    x0, g = cells(w, w.node(w.arr("x0", D)), D), cells(w, w.node(w.arr("g", D)), D)
    d, m, k = S("damp", pos=True).node, S("mass", pos=True).node, S("stiff", pos=True).node

    def go(c):
        t, a, b = term(tau), c.vec(x0), c.vec(g)
        if kind == "exponential":
            return c.new("ExponentialSystem", t, a, b, term(S("alpha", pos=True).node))
        if kind == "exponential-integer":
            return c.new("ExponentialSystem", 1.0, a, b, 4.0)
        if kind == "sigmoid":
            return c.new("SigmoidSystem", t, a, term(S("rate").node), term(S("infl", lo="0.3", hi="1.2").node))
        if kind == "spring-damper":
            return c.new("SpringDamperSystem", t, a, b, term(d))
        if kind == "spring-damper-mass":
            return c.new("SpringDamperSystem", t, a, b, term(d), term(N.div(N.mul(d, d), N.mul(N.const(4), m))), term(m))
        if kind == "spring-damper-loose":
            return c.new("SpringDamperSystem", t, a, b, term(d), term(k), term(m))
        if kind == "spring-damper-default-loose":
            return c.new("SpringDamperSystem", t, a, b, term(d), -1.0, term(m))
        return c.new("TimeSystem", t, *([True] if kind == "time-down" else []))
    return go


def build(chk):
    cpp.cpp_program()
    for kind in KINDS:
        if kind != "sigmoid-gating":
            for D in ((1,) if kind.startswith("time") else (1, 2)):
                for after in ("as-read", "tau-and-start", "goal", "set-x-init", "start-y-init", "set-tau"):
                    if c23.allowed(kind, "fresh", after):
                        chk.scenario(f"system/{kind}/{D}d/{after}", c23.case, kind, D, "fresh", after, system)
    for kind in ("RBFN", "LWR"):
        for d in (1, 2):
            for nb in ((1,), (3,)) if d == 1 else ((1, 2), (3, 2)):
                for nq in (1, 3, "ties"):
                    chk.scenario(f"approximator/{kind}/{d}d/{'x'.join(map(str, nb))}/{nq}", c22.agrees, kind, d, nq, nb, "constructor")
    for D in (1, 2):
        for typ in TYPES:
            for how in ("parts", "parts-unset", "type", "type-unset"):
                for goal in ((True, False) if how.startswith("parts") else (True,)):
                    for sc in SCALINGS:
                        if sc != "NO_SCALING" and (not goal or typ.startswith("KUL")):
                            continue
                        for after in ("as-read", "everything"):
                            chk.scenario(f"dmp/{typ}/{how}/{D}d/goal={goal}/{sc}/{after}", c24.case, typ, D, sc, "", "trained", "fresh", after, 3, Make(typ, how, goal))
        for goal in (True, False):
            for after in ("as-read", "everything"):
                chk.scenario(f"dmp/no-forcing/{D}d/goal={goal}/{after}", c24.case, TYPES[0], D, None, "", "none", "fresh", after, 3, Make(TYPES[0], "no-forcing", goal))

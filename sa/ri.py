"""Random interpretation of value-graph terms (Gulwani & Necula).

Two terms are compared by interpreting both over random models: every free symbol receives a random
high-precision value (sizes receive small integers), uninterpreted functions receive random
congruent values, and the term algebra is evaluated exactly as denoted.  Different results are a
witness that the two terms denote different functions; equal results at independent random points
establish the identity up to the usual (negligible) probability of polynomial-identity testing.
Only terms are interpreted - repository code is never executed.  Dual numbers give derivatives."""
import hashlib

import mpmath
import numpy as np
from mpmath import mp, mpf

from . import nodes as N

mp.dps = 40
TOL = mpf(10) ** -18


# operators standing for something the code computes that is not modelled
IMPRECISE = {"opaque", "npcall", "listmeth", "dictmeth", "strop", "listop", "pop", "listindex", "listcount", "dynattr", "hasattr",
             "exists_iter", "lookup", "type", "sorted", "likefill", "map", "fmt", "norm", "method"}
# operators whose index / shape errors are NumPy's own (an error the program would raise)
SHAPE_OPS = {"index", "store", "mapstore", "reshape", "concat", "concatlist", "matmul", "add", "sub", "mul", "div", "pow", "tile", "alloc", "diffl", "maplist", "mklist"}
PURELIB = ("numpy.", "math.", "itertools.", "functools.", "operator.", "re.", "scipy.", "statistics.", "collections.", "builtins.", "copy.", "string.")
# NumPy functions that only move, select or linearly combine elements: evaluated by NumPy on arrays of term values
NP_GENERIC = {"einsum", "tensordot", "cumsum", "cumprod", "take", "roll", "rot90", "swapaxes", "moveaxis", "expand_dims", "broadcast_to", "kron", "triu", "tril",
              "flip", "flipud", "fliplr", "vander", "meshgrid", "split", "array_split", "hsplit", "vsplit", "atleast_3d", "dstack", "cross", "trapz", "ediff1d",
              "inner", "vdot", "compress", "extract", "take_along_axis", "resize", "block", "nonzero", "flatnonzero", "argwhere", "searchsorted", "diag_indices",
              "convolve", "gradient", "ptp", "polyval", "count_nonzero", "array_equal", "allclose", "isclose", "unique", "interp", "diff", "argsort", "sort",
              "lexsort", "indices", "ix_", "ravel_multi_index", "unravel_index", "logspace", "nan_to_num", "heaviside", "hypot", "fmax", "fmin", "mean", "average",
              "cov", "linalg.norm", "linalg.det", "linalg.lstsq", "fromiter", "select", "choose", "piecewise", "apply_along_axis", "insert", "delete", "pad", "linspace", "diag", "diagflat", "linalg.matrix_power", "tri", "math.isclose", "percentile", "quantile", "lcm", "gcd", "trim_zeros", "corrcoef"}


class Unknown(Exception):
    pass


LIMIT = 60      # iterations followed of a loop without a known number of iterations


class Token:
    """Value of a term outside the numeric fragment; equality only."""
    __slots__ = ("key", "imp")

    def __init__(self, key, imp=False):
        self.key = key
        self.imp = imp      # stands for something the code computes but the analysis does not model (as opposed to the environment)

    def __eq__(self, o):
        return isinstance(o, Token) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"<{str(self.key)[:60]}>"

    def _no(self, *a):
        raise Unknown("arithmetic on opaque value " + repr(self))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __pow__ = __rpow__ = __neg__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __bool__ = _no


class Dual:
    __slots__ = ("v", "d")

    def __init__(self, v, d=0):
        self.v, self.d = v, d

    def __repr__(self):
        return f"Dual({self.v},{self.d})"

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x, mpf(0))

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.v + o.v, self.d + o.d)
    __radd__ = __add__

    def __sub__(self, o):
        o = Dual.of(o)
        return Dual(self.v - o.v, self.d - o.d)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        if o.v == 0:
            raise Unknown("division by zero")
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __pow__(self, o):
        return d_pow(self, o)

    def __rpow__(self, o):
        return d_pow(Dual.of(o), self)

    def __lt__(self, o):
        return self.v < Dual.of(o).v

    def __le__(self, o):
        return self.v <= Dual.of(o).v

    def __gt__(self, o):
        return self.v > Dual.of(o).v

    def __ge__(self, o):
        return self.v >= Dual.of(o).v

    def __eq__(self, o):
        return self.v == Dual.of(o).v if isinstance(o, (Dual, mpf, int)) else NotImplemented

    def __hash__(self):
        return hash(self.v)


def d_pow(a, b):
    b = Dual.of(b)
    v = p_pow(a.v, b.v)
    d = mpf(0)
    if a.d != 0:
        d += b.v * p_pow(a.v, b.v - 1) * a.d
    if b.d != 0:
        d += v * mpmath.log(a.v) * b.d
    return Dual(v, d)


def p_pow(a, b):
    if isinstance(b, mpf) and b == int(b):
        b = int(b)
        if a == 0 and b < 0:
            raise Unknown("0**-n")
        return a ** b
    if isinstance(a, (mpf, int)) and a < 0:
        raise Unknown("negative base")
    return mpf(a) ** b


def un(f, df):
    def g(x):
        if isinstance(x, Dual):
            return Dual(f(x.v), df(x.v) * x.d)
        return f(x)
    return g


def _log(x):
    if x <= 0:
        raise Unknown("log of non-positive")
    return mpmath.log(x)


def _sqrt(x):
    if x < 0:
        raise Unknown("sqrt of negative")
    return mpmath.sqrt(x)


UN = {
    "exp": un(mpmath.exp, mpmath.exp), "log": un(_log, lambda x: 1 / x), "sqrt": un(_sqrt, lambda x: 1 / (2 * mpmath.sqrt(x))),
    "sin": un(mpmath.sin, mpmath.cos), "cos": un(mpmath.cos, lambda x: -mpmath.sin(x)), "tan": un(mpmath.tan, lambda x: 1 + mpmath.tan(x) ** 2),
    "tanh": un(mpmath.tanh, lambda x: 1 - mpmath.tanh(x) ** 2), "arctan": un(mpmath.atan, lambda x: 1 / (1 + x * x)),
    "abs": un(abs, lambda x: mpf(1 if x > 0 else -1)), "floor": un(mpmath.floor, lambda x: mpf(0)), "ceil": un(mpmath.ceil, lambda x: mpf(0)),
    "degrees": un(mpmath.degrees, lambda x: 180 / mpmath.pi), "sign": un(mpmath.sign, lambda x: mpf(0)),
    "log10": un(lambda x: _log(x) / mpmath.log(10), lambda x: 1 / (x * mpmath.log(10))), "float": lambda x: x, "copy": lambda x: x,
    "int": un(lambda x: mpf(int(x)), lambda x: mpf(0)), "round": un(mpmath.nint, lambda x: mpf(0)),
    "expm1": un(mpmath.expm1, mpmath.exp), "log1p": un(lambda x: _log(1 + x), lambda x: 1 / (1 + x)),
}


def vec(f, a):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        for i, x in np.ndenumerate(a):
            out[i] = f(x)
        return out
    return f(a)


def vec2(f, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a2, b2 = np.broadcast_arrays(oarr(a), oarr(b))
        out = np.empty(a2.shape, dtype=object)
        for i in np.ndindex(*a2.shape):
            out[i] = f(a2[i], b2[i])
        return out
    return f(a, b)


def oarr(a):
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, list) and not a:
        return np.empty((0,), dtype=object)
    out = np.empty((), dtype=object)
    out[()] = a
    return out


def put(base, t, v):
    """base[t] = v; a size-1 array assigned to a single element is converted, as NumPy does."""
    if isinstance(v, np.ndarray) and v.ndim and len(t) == base.ndim and all(isinstance(x, (int, np.integer)) for x in t):
        if v.size != 1:
            u = Unknown(f"setting an array element with a sequence of {v.size} values")
            u.error = True
            raise u
        v = v.reshape(-1)[0]
    base[t] = v


def h(*key):
    return int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:16], "big")


def rnd(*key):
    """Uniform in (0,1), 100 bits."""
    return mpf(h(*key) % (1 << 100) + 1) / mpf((1 << 100) + 1)


def as_int(x):
    if isinstance(x, Dual):
        x = x.v
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, mpf) and x == int(x):
        return int(x)
    raise Unknown("non-integer index")


LOOPS = {}   # loop key -> {'mus': {mu name: (init node, next node)}, 'lo','hi'}


class Model:
    """One random model. overrides: {node id: value (number / ndarray)}; scale: fn(name, kw)->factor."""

    def __init__(self, seed, values=None, sizes=None, dual=None, conds=None, maxsize=4):
        self.seed = seed
        self.values = dict(values or {})    # name -> python number/ndarray or callable(model, shape)
        self.sizes = dict(sizes or {})      # name -> int
        self.dual = dual                    # name of the leaf with derivative 1
        self.conds = dict(conds or {})      # node id -> bool
        self.memo = {}
        self.maxsize = maxsize
        self.depth = 0
        self._free = {}

    # -------------------------------------------------------------- leaves
    def leaf(self, n):
        name, shape, kw = n.attr
        kw = dict(kw)
        if name in self.sizes:
            return mpf(self.sizes[name])
        if name in self.values:
            v = self.values[name]
            if callable(v):
                sh = None if shape is None else tuple(as_int(self.ev(d)) for d in shape)
                v = v(self, sh)
            if self.dual == name:
                v = vec(lambda x: Dual(x, mpf(1)), v)
            return v
        if kw.get("bool") or kw.get("kind") == "bool":
            return bool(h(self.seed, "b", name) & 1)
        if kw.get("kind") == "str":
            return Token(("str", name))
        if kw.get("kind") in ("int", "npint"):
            return mpf(2 + h(self.seed, "i", name) % (self.maxsize - 1))
        if shape is None:
            return Token(("sym", name))
        sh = tuple(as_int(self.ev(d)) for d in shape)
        v = self.rand(name, sh, kw)
        if self.dual == name:
            v = vec(lambda x: Dual(x, mpf(1)), v)
        return v

    def rand(self, name, sh, kw):
        def one(idx):
            u = rnd(self.seed, name, idx)
            v = mpf("0.2") + u * mpf("1.7")
            if "lo" in kw:
                v = mpf(kw["lo"]) + u * (mpf(kw["hi"]) - mpf(kw["lo"]))
            elif not kw.get("pos"):
                if h(self.seed, name, idx, "s") & 1:
                    v = -v
            return v
        if sh == ():
            return one(())
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = one(i)
        if kw.get("increasing"):
            a = mpf(0)
            for i in range(sh[0]):
                a = a + abs(out[i])
                out[i] = a
        if kw.get("sym") and len(sh) == 2:
            out = out + out.T
        return out

    # -------------------------------------------------------------- evaluation
    def free(self, n):
        """Loop keys (idx / mu) the value of n depends on."""
        f = self._free.get(n.id)
        if f is not None:
            return f
        # iterative post-order
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in self._free:
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in self._free]
            if todo:
                stack.extend(todo)
                continue
            s = frozenset()
            for a in x.args:
                s |= self._free[a.id]
            if x.op == "idx":
                s = s | {x.attr}
            elif x.op in ("mu", "mulen"):
                s = s | {x.attr[0]}
                if x.attr[0] in LOOPS:
                    s = s | LOOPS[x.attr[0]].get("outer", frozenset())
            elif x.op in ("mapstore",):
                s = s - {x.attr[0]}
                if x.attr[0] in LOOPS:
                    s = s | LOOPS[x.attr[0]].get("outer", frozenset())
            elif x.op == "maplist":
                k = x.attr.attr if isinstance(x.attr, N.Node) else x.attr
                s = s - {k}
            elif x.op == "brk":
                s = s | {x.attr[0]} | LOOPS.get(x.attr[0], {}).get("outer", frozenset())
            elif x.op in ("rec", "anybrk", "anyret", "atfirst"):
                s = (s - {x.attr[0]})
                if x.attr[0] in LOOPS:
                    s = s | LOOPS[x.attr[0]].get("outer", frozenset())
            self._free[x.id] = s
            stack.pop()
        return self._free[n.id]

    def ev(self, n, env=None):
        env = env or {}
        fr = self.free(n)
        key = (n.id, tuple(sorted((k, env[k]) for k in fr if k in env))) if fr else (n.id, ())
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Unknown):
                raise r
            return r
        self.depth += 1
        if self.depth > 900:
            self.depth = 0
            raise Unknown("depth")
        try:
            r = self._ev(n, env)
        except Unknown as u:
            self.memo[key] = u
            raise
        except (ValueError, IndexError, TypeError, ZeroDivisionError, OverflowError, KeyError, AttributeError) as e:
            u = Unknown(f"{n.op}: {type(e).__name__} {e}")
            u.error = isinstance(e, (ValueError, IndexError)) and n.op in SHAPE_OPS
            self.memo[key] = u
            raise u
        finally:
            self.depth -= 1
        self.memo[key] = r
        return r

    def truth(self, n, env=None):
        if n.id in self.conds:
            return self.conds[n.id]
        if n.op in ("not",):
            return not self.truth(n.args[0], env)
        if n.op == "and":
            return self.truth(n.args[0], env) and self.truth(n.args[1], env)
        if n.op == "or":
            return self.truth(n.args[0], env) or self.truth(n.args[1], env)
        v = self.ev(n, env)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                v = v.reshape(-1)[0]
            else:
                raise Unknown("ambiguous truth")
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, Token):
            if v.imp:
                raise Unknown("condition outside the model")
            return bool(h(self.seed, "truth", v.key) & 1)
        if v is None:
            return False
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Dual):
            v = v.v
        return v != 0

    def _ev(self, n, env):
        op = n.op
        m = getattr(self, "o_" + op, None)
        if m is not None:
            return m(n, env)
        if op in ("add", "sub", "mul", "div", "pow", "floordiv", "mod"):
            a, b = self.ev(n.args[0], env), self.ev(n.args[1], env)
            return arith(op, a, b)
        if op in ("unset", "missing", "unbound", "undef"):
            raise Unknown(op)
        # uninterpreted operator
        sh = N.shape_of(n)
        vals = [self.ev_soft(a, env) for a in n.args]
        imp = op in IMPRECISE or (op == "call" and str(n.attr[0]).startswith(PURELIB)) or any(isinstance(v, Token) and v.imp for v in vals)
        k = (op, n.attr if not isinstance(n.attr, N.Node) else n.attr.id, tuple(canon(v) for v in vals))
        if op == "opaque":
            k = (op, n.attr)
        return self.unint(k, None if sh is None else tuple(as_int(self.ev(d, env)) for d in sh), imp)

    def ev_soft(self, n, env):
        try:
            return self.ev(n, env)
        except Unknown:
            return Token(("unk", n.id), True)

    def unint(self, key, sh, imp=False):
        if imp and sh is not None:
            raise Unknown("outside the model: " + str(key[0]))
        if sh is None:
            return Token(key, imp)
        kk = h(key)
        if sh == ():
            return mpf("0.2") + rnd(self.seed, kk) * 2
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = mpf("0.2") + rnd(self.seed, kk, i) * 2
        return out

    def o_const(self, n, env):
        return mpf(n.attr.numerator) / mpf(n.attr.denominator)

    def o_bool(self, n, env):
        return n.attr

    def o_str(self, n, env):
        return n.attr

    def o_none(self, n, env):
        return None

    def o_special(self, n, env):
        return {"inf": mpf("inf"), "-inf": mpf("-inf"), "nan": mpf("nan")}[n.attr]

    def o_sym(self, n, env):
        return self.leaf(n)

    def o_uninit(self, n, env):
        return mpf("0.1") + rnd(self.seed, "uninit") * 7

    def o_idx(self, n, env):
        if n.attr in env:
            return mpf(env[n.attr])
        if n.attr in self.values:
            return self.values[n.attr]
        raise Unknown("free index")

    def o_neg(self, n, env):
        return vec(lambda x: -x, self.num(n.args[0], env))

    def num(self, n, env):
        v = self.ev(n, env)
        if v is None or isinstance(v, (str, Token)):
            raise Unknown("not numeric")
        if isinstance(v, bool):
            return mpf(int(v))
        return v

    def o_phi(self, n, env):
        return self.ev(n.args[1] if self.truth(n.args[0], env) else n.args[2], env)

    def o_not(self, n, env):
        v = self.ev(n.args[0], env)
        if isinstance(v, np.ndarray):
            return vec(lambda x: not x, v)
        return not self.truth(n.args[0], env)

    def o_and(self, n, env):
        a = self.ev(n.args[0], env)
        if isinstance(a, np.ndarray):
            return vec2(lambda x, y: x and y, a, self.ev(n.args[1], env))
        return self.truth(n.args[0], env) and self.truth(n.args[1], env)

    def o_or(self, n, env):
        a = self.ev(n.args[0], env)
        if isinstance(a, np.ndarray):
            return vec2(lambda x, y: x or y, a, self.ev(n.args[1], env))
        return self.truth(n.args[0], env) or self.truth(n.args[1], env)

    def o_truth(self, n, env):
        return self.truth(n.args[0], env)

    def o_cmp(self, n, env):
        if n.id in self.conds:
            return self.conds[n.id]
        a, b = self.ev(n.args[0], env), self.ev(n.args[1], env)
        o = n.attr
        if o == "is":
            if a is None or b is None:
                if isinstance(a, Token) or isinstance(b, Token):
                    t = a if isinstance(a, Token) else b
                    if t.imp:
                        raise Unknown("None-ness outside the model")
                    return bool(h(self.seed, "isnone", t.key) & 1)
                return a is None and b is None
            return canon(a) == canon(b)
        if o == "in":
            if isinstance(a, str) and isinstance(b, (str, list, tuple)):
                return a in b
            if any(isinstance(x, Token) and x.imp for x in (a, b)):
                raise Unknown("membership outside the model")
            return bool(h(self.seed, "in", canon(a), canon(b)) & 1)
        if o == "==":
            if any(isinstance(x, Token) and x.imp for x in (a, b)) and not (isinstance(a, Token) and isinstance(b, Token) and a.key == b.key):
                raise Unknown("equality outside the model")
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                if isinstance(a, (str, Token)) or isinstance(b, (str, Token)) or a is None or b is None:
                    return False
                return vec2(eqv, a, b)
            return eqv(a, b)
        f = (lambda x, y: x < y) if o == "<" else (lambda x, y: x <= y)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise Unknown("ordering")
        return vec2(f, a, b)

    def o_isinst(self, n, env):
        v = self.ev_soft(n.args[0], env)
        at = str(n.attr)
        if isinstance(v, np.ndarray):
            return "ndarray" in at
        if isinstance(v, str):
            return at in ("str", "builtins.str")
        if v is None:
            return False
        if isinstance(v, list):
            return at.endswith(("list", "tuple", "Sequence"))
        if at in ("num", "numbers.Number"):
            if isinstance(v, (mpf, Dual)):
                return True
        elif at not in ("int", "float", "bool") and isinstance(v, (mpf, Dual)):
            return False
        if isinstance(v, Token) and v.imp or n.args[0].op != "sym" and isinstance(v, (mpf, Dual)):
            raise Unknown("type outside the model")
        return bool(h(self.seed, "isinst", canon(v), n.attr) & 1)

    def o_strop(self, n, env):
        vals = [self.ev_soft(a, env) for a in n.args]
        if all(isinstance(v, str) for v in vals) and n.attr != "format" and hasattr("", n.attr):
            r = getattr(vals[0], n.attr)(*vals[1:])
            return mpf(r) if isinstance(r, int) and not isinstance(r, bool) else r
        return Token(("strop", n.attr, tuple(canon(v) for v in vals)), not any(isinstance(v, Token) and not v.imp for v in vals))

    def o_fn(self, n, env):
        name = n.attr
        args = [self.ev(a, env) for a in n.args]
        if name in UN:
            if args[0] is None or isinstance(args[0], (str,)):
                raise Unknown("fn")
            return vec(UN[name], args[0])
        if name in ("maximum", "minimum"):
            f = (lambda x, y: x if x >= y else y) if name == "maximum" else (lambda x, y: x if x <= y else y)
            return vec2(f, args[0], args[1])
        if name == "clip":
            r = args[0]
            if args[1] is None and args[2] is None:
                u = Unknown("clip without bounds")
                u.error = True
                raise u
            if args[1] is not None:
                r = vec2(lambda x, y: x if x >= y else y, r, args[1])
            if args[2] is not None:
                r = vec2(lambda x, y: x if x <= y else y, r, args[2])
            return r
        if name == "where":
            c, a, b = np.broadcast_arrays(*[oarr(x) for x in args])
            out = np.empty(c.shape, dtype=object)
            for i in np.ndindex(*c.shape):
                out[i] = a[i] if c[i] else b[i]
            return out if out.shape else out[()]
        if name == "isnan":
            return vec(lambda x: mpmath.isnan(x), args[0])
        if name == "isfinite":
            return vec(lambda x: mpmath.isfinite(x), args[0])
        raise Unknown("fn " + str(name))

    def o_alloc(self, n, env):
        sh = tuple(as_int(self.ev(d, env)) for d in n.args[1:])
        fill = self.ev(n.args[0], env)
        out = np.empty(sh, dtype=object)
        if n.args[0].op == "uninit":
            for i in np.ndindex(*sh):
                out[i] = mpf("0.1") + rnd(self.seed, "uninit", n.id, i) * 7
            return out
        out[...] = np.broadcast_to(oarr(fill), sh) if isinstance(fill, np.ndarray) else fill
        return out

    def o_likefill(self, n, env):
        x = oarr(self.ev(n.args[1], env))
        out = np.empty(x.shape, dtype=object)
        f = self.ev(n.args[0], env)
        out[...] = f
        return out

    def o_size(self, n, env):
        v = self.ev(n.args[0], env)
        if isinstance(v, np.ndarray):
            if n.attr == "all":
                return mpf(v.size)
            return mpf(v.shape[n.attr])
        if isinstance(v, (str, list)):
            return mpf(len(v))
        if isinstance(v, Token):
            return mpf(2 + h(self.seed, "size", v.key, n.attr) % 3)
        if n.attr == "all":
            return mpf(1)
        raise Unknown("size of scalar")

    def o_ndim(self, n, env):
        return mpf(oarr(self.ev(n.args[0], env)).ndim)

    def o_mklist(self, n, env):
        vals = [self.ev(a, env) for a in n.args]
        return pack(vals)

    def o_maplist(self, n, env):
        key = n.attr.attr if isinstance(n.attr, N.Node) else n.attr
        lo, hi = as_int(self.ev(n.args[1], env)), as_int(self.ev(n.args[2], env))
        return pack([self.ev(n.args[0], {**env, key: i}) for i in range(lo, hi)])

    def o_seqparts(self, n, env):
        out = []
        for a in n.args:
            if a.op == "mapparts":
                key = a.attr.attr if isinstance(a.attr, N.Node) else a.attr
                lo, hi = as_int(self.ev(a.args[1], env)), as_int(self.ev(a.args[2], env))
                for i in range(lo, hi):
                    v = self.ev(a.args[0], {**env, key: i})
                    out.extend(list(v))
            elif a.op == "ifparts":
                v = self.ev(a.args[1] if self.truth(a.args[0], env) else a.args[2], env)
                out.extend(list(v))
            else:
                out.append(self.ev(a, env))
        return pack(out)

    def o_arange(self, n, env):
        lo, hi = as_int(self.ev(n.args[0], env)), as_int(self.ev(n.args[1], env))
        return obj1([mpf(i) for i in range(lo, hi)])

    def o_arange3(self, n, env):
        a, b, s = (self.ev(x, env) for x in n.args)
        k = int(mpmath.ceil((b - a) / s))
        return obj1([a + s * i for i in range(k)])

    def o_linspace(self, n, env):
        a, b = self.ev(n.args[0], env), self.ev(n.args[1], env)
        k = as_int(self.ev(n.args[2], env))
        if k == 1:
            return obj1([a])
        return obj1([a + (b - a) * mpf(i) / (k - 1) for i in range(k)])

    def idx_tuple(self, attr, args, env):
        out = []
        for it in N.split_index(attr, args):
            c = it[0]
            if c == "s" or c == "S":
                v = [self.ev(x, env) for x in it[1:]]
                out.append(slice(*[None if x is None else as_int(x) for x in v]))
            elif c == "p":
                out.append(self.pt(it[1], env))
            elif c == "n":
                out.append(None)
            elif c == "e":
                out.append(Ellipsis)
            else:
                v = self.ev(it[1], env)
                if isinstance(v, np.ndarray):
                    if v.size and isinstance(v.reshape(-1)[0], (bool, np.bool_)):
                        v = v.astype(bool)
                    else:
                        v = np.array([as_int(x) for x in v.reshape(-1)], dtype=int).reshape(v.shape)
                else:
                    v = as_int(v)
                out.append(v)
        return tuple(out)

    def pt(self, n, env):
        v = self.ev(n, env)
        if isinstance(v, (str, Token)):
            raise Unknown("key index")
        return as_int(v)

    def o_index(self, n, env):
        base = self.ev(n.args[0], env)
        if isinstance(base, Token) or isinstance(base, (str, type(None))):
            if N.shape_of(n) is not None:
                sh = tuple(as_int(self.ev(d, env)) for d in N.shape_of(n))
            else:
                sh = None
            k = ("index", base.key if isinstance(base, Token) else base, n.attr, tuple(canon(self.ev_soft(a, env)) for a in n.args[1:]))
            return self.unint(k, sh)
        t = self.idx_tuple(n.attr, n.args[1:], env)
        if isinstance(base, list):
            if len(t) == 1 and not any(isinstance(x, Token) and x.imp for x in base):
                return base[t[0]]
            raise Unknown("list index")
        if not isinstance(base, np.ndarray):
            if all(x is None or x is Ellipsis for x in t):
                return oarr(base)[t]
            raise Unknown("index of scalar")
        return base[t]

    def o_store(self, n, env):
        base = np.array(self.ev(n.args[0], env), dtype=object, copy=True)
        t = self.idx_tuple(n.attr, n.args[1:-1], env)
        put(base, t, self.ev(n.args[-1], env))
        return base

    def o_mapstore(self, n, env):
        key, attr = n.attr
        base = np.array(self.ev(n.args[0], env), dtype=object, copy=True)
        lo, hi = as_int(self.ev(n.args[-2], env)), as_int(self.ev(n.args[-1], env))
        for i in range(lo, hi):
            e = {**env, key: i}
            t = self.idx_tuple(attr, n.args[1:-3], e)
            put(base, t, self.ev(n.args[-3], e))
        return base

    def o_mapouter(self, n, env):
        raise Unknown("mapouter")

    def o_rec(self, n, env):
        key, name, broke = n.attr
        if broke:
            lo, hi = self.bounds(n.args[2], n.args[3], env)
            if hi <= lo:
                return self.ev(n.args[0], env)
            i = self.first(key, "brk", lo, hi, env)
            if i is None and hi - lo >= LIMIT:
                raise Unknown("loop too long")
            return self.ev(n.args[1], {**env, key: hi - 1 if i is None else i})
        lo, hi = as_int(self.ev(n.args[2], env)), as_int(self.ev(n.args[3], env))
        if hi <= lo:
            return self.ev(n.args[0], env)
        return self.ev(n.args[1], {**env, key: hi - 1})

    def bounds(self, lo, hi, env):
        lo = as_int(self.ev(lo, env))
        return lo, lo + LIMIT if hi.op == "trip" else as_int(self.ev(hi, env))

    def first(self, key, what, lo, hi, env, which=None):
        """First iteration that leaves the loop early (by exit `which`, when given), or None."""
        conds = LOOPS.get(key, {}).get(what)
        if not conds:
            raise Unknown("early exit of a loop")
        for i in range(lo, hi):
            for j, c in enumerate(conds):
                if self.truth(c, {**env, key: i}):
                    return i if which is None or which == j else None
        return None

    def o_brk(self, n, env):
        key, j = n.attr
        if key not in env:
            raise Unknown("early exit of a loop")
        return self.truth(LOOPS[key]["brk"][j], env)

    def o_anybrk(self, n, env):
        lo, hi = self.bounds(n.args[0], n.args[1], env)
        return self.first(n.attr[0], "brk", lo, hi, env) is not None

    def o_anyret(self, n, env):
        lo, hi = self.bounds(n.args[0], n.args[1], env)
        return self.first(n.attr[0], "ret", lo, hi, env, n.attr[1]) is not None

    def o_atfirst(self, n, env):
        lo, hi = self.bounds(n.args[1], n.args[2], env)
        i = self.first(n.attr[0], "ret", lo, hi, env, n.attr[1])
        if i is None:
            raise Unknown("early exit of a loop")
        return self.ev(n.args[0], {**env, n.attr[0]: i})

    def o_trip(self, n, env):
        raise Unknown("number of iterations")

    def o_mu(self, n, env):
        key, name = n.attr[0], n.attr[1]
        L = LOOPS.get(key)
        if L is None or name not in L["mus"] or key not in env:
            raise Unknown("loop state " + name)
        i = env[key]
        init, nxt = L["mus"][name]
        lo = as_int(self.ev(L["lo"], env))
        if i <= lo:
            e = {k: v for k, v in env.items() if k != key}
            return self.ev(init, e)
        return self.ev(nxt, {**env, key: i - 1})

    def o_reshape(self, n, env):
        v = oarr(self.ev(n.args[0], env))
        sh = tuple(as_int(self.ev(d, env)) for d in n.args[1:])
        r = v.reshape(sh)
        return r if r.shape else r[()]

    def o_ravel(self, n, env):
        return oarr(self.ev(n.args[0], env)).reshape(-1)

    def o_squeeze(self, n, env):
        r = oarr(self.ev(n.args[0], env)).squeeze()
        return r if r.shape else r[()]

    def o_atleast(self, n, env):
        v = oarr(self.ev(n.args[0], env))
        return np.atleast_1d(v) if n.attr == 1 else np.atleast_2d(v)

    def o_transpose(self, n, env):
        v = self.ev(n.args[0], env)
        return v.T if isinstance(v, np.ndarray) else v

    def o_tile(self, n, env):
        reps = tuple(as_int(self.ev(d, env)) for d in n.args[1:])
        return np.tile(oarr(self.ev(n.args[0], env)), reps)

    def o_repeat(self, n, env):
        return np.repeat(oarr(self.ev(n.args[0], env)), as_int(self.ev(n.args[1], env)), axis=n.attr)

    def o_concat(self, n, env):
        return np.concatenate([oarr(self.ev(a, env)) for a in n.args], axis=n.attr or 0)

    def o_concatlist(self, n, env):
        name, ax = n.attr
        vals = [self.ev(a, env) for a in n.args]
        if len(n.args) == 1:
            vals = list(vals[0])
        vals = [oarr(v) for v in vals]
        if name == "concatenate":
            return np.concatenate(vals, axis=0 if ax is None else ax)
        if name == "stack":
            return np.stack(vals, axis=ax or 0)
        return getattr(np, name)(vals)

    def o_matmul(self, n, env):
        a, b = self.num(n.args[0], env), self.num(n.args[1], env)
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
            return a * b
        return np.dot(a, b)

    def o_outer(self, n, env):
        return np.outer(self.ev(n.args[0], env), self.ev(n.args[1], env))

    def o_eye(self, n, env):
        k = as_int(self.ev(n.args[0], env))
        out = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                out[i, j] = mpf(int(i == j))
        return out

    def o_diagflat(self, n, env):
        v = oarr(self.ev(n.args[0], env)).reshape(-1)
        k = len(v)
        out = np.empty((k, k), dtype=object)
        out[...] = mpf(0)
        for i in range(k):
            out[i, i] = v[i]
        return out

    def o_diagonal(self, n, env):
        v = self.ev(n.args[0], env)
        return obj1([v[i, i] for i in range(min(v.shape))])

    def o_diag(self, n, env):
        v = oarr(self.ev(n.args[0], env))
        return self.o_diagflat(n, env) if v.ndim == 1 else self.o_diagonal(n, env)

    def o_inv(self, n, env):
        v = self.ev(n.args[0], env)
        k = v.shape[0]
        m = mpmath.matrix(k, k)
        for i in range(k):
            for j in range(k):
                m[i, j] = v[i, j]
        try:
            r = m ** -1
        except ZeroDivisionError:
            raise Unknown("singular")
        out = np.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                out[i, j] = r[i, j]
        return out

    def o_reduce(self, n, env):
        kind, ax = n.attr
        v = oarr(self.ev(n.args[0], env))
        if ax == "sym":
            ax = as_int(self.ev(n.args[1], env))
        if v.dtype != object:
            v = v.astype(object)
        if kind == "sum":
            return np.sum(v, axis=ax)
        if kind == "prod":
            return np.prod(v, axis=ax)
        if kind == "mean":
            return np.sum(v, axis=ax) / (v.size if ax is None else v.shape[ax])
        if kind in ("max", "min"):
            return getattr(np, kind)(v, axis=ax)
        if kind in ("argmax", "argmin"):
            f = getattr(np, kind)(v.astype(float), axis=ax)
            return vec(lambda x: mpf(int(x)), f.astype(object)) if isinstance(f, np.ndarray) else mpf(int(f))
        if kind in ("any", "all"):
            return bool(getattr(np, kind)(v.astype(bool))) if ax is None else getattr(np, kind)(v.astype(bool), axis=ax).astype(object)
        if kind in ("std", "var"):
            k = v.size if ax is None else v.shape[ax]
            mu = np.sum(v, axis=ax, keepdims=True) / k
            r = np.sum((v - mu) ** 2, axis=ax) / k
            return r if kind == "var" else vec(_sqrt, r)
        raise Unknown("reduce " + kind)

    def o_average(self, n, env):
        x, w = self.ev(n.args[0], env), self.ev(n.args[1], env)
        if w.ndim == 1 and n.attr is not None:
            return np.tensordot(w, x, axes=([0], [n.attr])) / np.sum(w)
        return np.sum(x * w, axis=n.attr) / np.sum(w, axis=n.attr)

    def o_diff(self, n, env):
        v = self.ev(n.args[0], env)
        return v[1:] - v[:-1]

    def o_npcall(self, n, env):
        name = n.attr[0]
        args = [self.ev(a, env) for a in n.args]
        kwn = n.attr[1:]
        kw = dict(zip(kwn, args[len(args) - len(kwn):])) if kwn else {}
        pos = args[:len(args) - len(kwn)] if kwn else args
        if name.startswith("method."):
            name = name[7:] if name != "method.tolist" else name
        if name == "inplace.sort":
            name = "sort"
        if name == "method.tolist":
            return pos[0]
        if name in ("fill_diagonal",):
            r = pos[0].copy()
            v = np.ravel(pos[1]) if isinstance(pos[1], np.ndarray) and pos[1].ndim else None
            if v is not None and not v.size:
                raise Unknown("fill_diagonal with no values")
            for i in range(min(r.shape)):
                r[i, i] = pos[1] if v is None else v[i % v.size]
            return r
        if name in NP_GENERIC:
            r = np_generic(name, pos, kw)
            if r is not None:
                return r
        return Token(("npcall", n.attr, tuple(canon(a) for a in args)), True)

    def o_rowfn(self, n, env):
        """Uninterpreted function applied to every row of the inputs."""
        x = oarr(self.ev(n.args[0], env))
        extra = tuple(canon(self.ev_soft(a, env)) for a in n.args[1:])
        if x.ndim == 0:
            x = x.reshape(1, 1)
        if x.ndim == 1:
            x = x.reshape(-1, 1)
        return obj1([mpf("0.2") + rnd(self.seed, n.attr, canon(x[i]), extra) * 2 for i in range(x.shape[0])])

    def o_copy(self, n, env):
        return self.ev(n.args[0], env)
    o_asarray = o_deepcopy = o_cast = o_copy

    def o_fstr(self, n, env):
        out, k = [], 0
        for t in n.attr:
            if t[0] == "t":
                out.append(t[1])
            else:
                v = self.ev(n.args[k], env)
                k += 1
                if isinstance(v, mpf) and v == int(v):
                    v = int(v)
                try:
                    out.append(format(v, t[1]) if not isinstance(v, Token) else f"<{h(v.key)}>")
                except Exception:
                    out.append(str(v))
        return "".join(out)

    def o_strcat(self, n, env):
        return "".join(str(self.ev(a, env)) for a in n.args)

    def o_lookup(self, n, env):
        return Token(("lookup", n.id))

    def o_isscalar(self, n, env):
        v = self.ev(n.args[0], env)
        return not isinstance(v, (np.ndarray, list))

    def o_exists_iter(self, n, env):
        raise Unknown("exists_iter")

    def o_shape(self, n, env):
        return list(mpf(x) for x in oarr(self.ev(n.args[0], env)).shape)


def _ints(x):
    """integers inside (nested) argument values -> Python ints"""
    if isinstance(x, mpf) and mpmath.isfinite(x) and x == int(x):
        return int(x)
    if isinstance(x, list):
        return [_ints(v) for v in x]
    if isinstance(x, np.ndarray):
        return [_ints(v) for v in x] if x.ndim else _ints(x[()])
    return x


def _plain(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object or r.dtype == bool:
            return r.astype(object)
        return vec(lambda x: mpf(int(x)) if float(x).is_integer() else mpf(float(x)), r.astype(object))
    if isinstance(r, (list, tuple)):
        return [_plain(x) for x in r]
    if isinstance(r, (int, np.integer)) and not isinstance(r, (bool, np.bool_)):
        return mpf(int(r))
    if isinstance(r, np.bool_):
        return bool(r)
    return r


_STRUCT1 = {"cumsum", "cumprod", "take", "roll", "rot90", "swapaxes", "moveaxis", "expand_dims", "broadcast_to", "triu", "tril", "flip", "flipud", "fliplr",
            "split", "array_split", "hsplit", "vsplit", "resize", "diff", "compress", "repeat"}
_STRUCTN = {"kron", "atleast_3d", "dstack", "cross", "ediff1d", "inner", "vdot", "convolve", "polyval", "meshgrid", "ix_"}


def _zeros(r):
    return vec(lambda x: mpf(0) if isinstance(x, (int, float)) and x == 0 else x, r)


def _nest(x):
    return [_nest(v) for v in x] if isinstance(x, list) else oarr(x)


def np_generic(name, pos, kw):
    """NumPy functions that only move, select or combine elements, on arrays of term values; None: not modelled."""
    if any(isinstance(v, Token) for v in list(pos) + list(kw.values())):
        return None
    if any(isinstance(v, np.ndarray) and v.size and isinstance(v.reshape(-1)[0], Token) for v in pos):
        return None
    if name == "einsum":
        return _plain(np.einsum(pos[0], *[oarr(v) for v in pos[1:]]))
    if name == "tensordot":
        ax = pos[2] if len(pos) > 2 else kw.get("axes", 2)
        return _plain(np.tensordot(oarr(pos[0]), oarr(pos[1]), axes=_ints(ax)))
    if name in _STRUCT1:
        return _plain(getattr(np, name)(pos[0] if isinstance(pos[0], np.ndarray) else oarr(pos[0]), *[_ints(v) for v in pos[1:]], **{k: _ints(v) for k, v in kw.items()}))
    if name in _STRUCTN:
        return _plain(getattr(np, name)(*[v if isinstance(v, np.ndarray) else oarr(v) for v in pos], **{k: _ints(v) for k, v in kw.items()}))
    if name in ("argsort", "sort"):
        ax = _ints(kw.get("axis", pos[1] if len(pos) > 1 else -1))
        return _plain(getattr(np, name)(oarr(pos[0]), axis=ax))
    if name in ("array_equal", "allclose", "isclose"):
        a, b = oarr(pos[0]), oarr(pos[1])
        if name != "isclose" and a.shape != b.shape and name == "array_equal":
            return False
        if name == "array_equal":
            r = vec2(lambda x, y: x == y, a, b)
        else:
            rtol, atol = kw.get("rtol", mpf("1e-5")), kw.get("atol", mpf("1e-8"))
            ab = lambda x: -x if x < 0 else x
            r = vec2(lambda x, y: x == y or ab(x - y) <= atol + rtol * ab(y), a, b)
        return r if name == "isclose" else bool(np.all(r.astype(bool)) if isinstance(r, np.ndarray) else r)
    if name in ("flatnonzero", "nonzero", "argwhere"):
        m = vec(lambda x: bool(x != 0), oarr(pos[0])).astype(bool)
        return _plain(getattr(np, name)(m))
    if name == "count_nonzero":
        return mpf(int(np.count_nonzero(vec(lambda x: bool(x != 0), oarr(pos[0])).astype(bool))))
    if name == "searchsorted":
        a, right = oarr(pos[0]), kw.get("side", pos[2] if len(pos) > 2 else "left") == "right"
        return vec(lambda x: mpf(sum(1 for y in a if (y <= x if right else y < x))), pos[1])
    if name == "ptp":
        return np.max(pos[0], axis=_ints(kw.get("axis"))) - np.min(pos[0], axis=_ints(kw.get("axis")))
    if name == "trapz":
        y = pos[0]
        ax = _ints(kw.get("axis", mpf(-1)))
        if len(pos) > 2 or set(kw) - {"x", "dx", "axis"}:
            return None
        y = np.moveaxis(y, ax, 0)
        x = pos[1] if len(pos) > 1 else kw.get("x")
        if x is None:
            x = [kw.get("dx", mpf(1)) * i for i in range(len(y))]
        return sum((x[i + 1] - x[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(y) - 1))
    if name == "interp":
        xs, ys = pos[1], pos[2]
        if kw or len(pos) > 3:
            return None

        def one(x):
            if x <= xs[0]:
                return ys[0]
            if x >= xs[-1]:
                return ys[-1]
            for i in range(len(xs) - 1):
                if xs[i] <= x <= xs[i + 1]:
                    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
        return vec(one, pos[0])
    if name == "gradient":
        return _gradient(pos, kw)
    if name == "linalg.lstsq":
        a, b = pos[0], pos[1]
        at = a.T
        if a.shape[0] >= a.shape[1]:
            sol = np.dot(_inv(np.dot(at, a)), np.dot(at, b))
        else:
            sol = np.dot(at, np.dot(_inv(np.dot(a, at)), b))
        return [sol, Token(("lstsq-residuals",), True), Token(("lstsq-rank",), True), Token(("lstsq-sv",), True)]
    if name == "linalg.norm":
        o = kw.get("ord", pos[1] if len(pos) > 1 else None)
        x = oarr(pos[0])
        if o is not None and not (o == "fro" and x.ndim == 2):
            if x.ndim != 1 and kw.get("axis") is None or kw.get("keepdims"):
                return None
            ax = _ints(kw["axis"]) if kw.get("axis") is not None else None
            ab = vec(lambda t: -t if t < 0 else t, x)
            if isinstance(o, str) or not isinstance(o, mpf) and not isinstance(o, (int, float)):
                return None
            if o == 1:
                return np.sum(ab, axis=ax)
            if o == mpmath.inf:
                return np.max(ab, axis=ax)
            if o != 2:
                return None
        if set(kw) - {"axis", "keepdims", "ord"} or len(pos) > 2:
            return None
        return vec(_sqrt, np.sum(oarr(pos[0]) ** 2, axis=_ints(kw.get("axis")), keepdims=bool(kw.get("keepdims", False))))
    if name == "linalg.det":
        k = pos[0].shape[0]
        return mpmath.det(mpmath.matrix(k, k) + mpmath.matrix(pos[0].tolist()))
    if name == "cov" and len(pos) == 1 and not (set(kw) - {"rowvar", "bias", "ddof", "aweights"}):
        x = oarr(pos[0])
        if x.ndim != 2:
            return None
        if kw.get("rowvar", True):
            x = x.T
        if kw.get("aweights") is not None:
            if not kw.get("bias") and kw.get("ddof") != 0:
                return None
            w = kw["aweights"] / np.sum(kw["aweights"])
            d = x - np.dot(w, x)
            return np.dot((d.T * w), d)
        d = x - np.sum(x, axis=0) / x.shape[0]
        dd = _ints(kw["ddof"]) if kw.get("ddof") is not None else (0 if kw.get("bias") else 1)
        return np.dot(d.T, d) / (x.shape[0] - dd)
    if name == "math.isclose":
        ab = lambda x: -x if x < 0 else x
        x, y = pos[:2]
        return bool(ab(x - y) <= max(kw.get("rel_tol", mpf("1e-9")) * max(ab(x), ab(y)), kw.get("abs_tol", mpf(0))))
    if name in ("insert", "delete"):
        pos = [oarr(pos[0])] + [_ints(v) for v in pos[1:2]] + list(pos[2:])
        if len(pos) > 3 or name == "delete" and len(pos) > 2:
            pos[-1] = _ints(pos[-1])
        if name == "insert" and isinstance(pos[2], list):
            pos[2] = oarr(pos[2])
        return _plain(getattr(np, name)(*pos, **{k: _ints(v) for k, v in kw.items()}))
    if name == "pad":
        mode = kw.get("mode", pos[2] if len(pos) > 2 else "constant")
        if mode == "constant":
            return _plain(np.pad(oarr(pos[0]), _ints(pos[1]), constant_values=kw.get("constant_values", mpf(0))))
        return _plain(np.pad(oarr(pos[0]), _ints(pos[1]), mode=mode)) if mode in ("edge", "wrap", "reflect", "symmetric") else None
    if name == "select":
        conds, vals = list(pos[0]), list(pos[1])
        out = pos[2] if len(pos) > 2 else kw.get("default", mpf(0))
        for c, v in reversed(list(zip(conds, vals))):
            out = vec2(lambda z, y: y if z is None else z, vec2(lambda t, x: x if t else None, c, v), out)
        return out
    if name == "linspace":
        a, b, k = pos[0], pos[1], _ints(pos[2])
        return np.array([oarr(a + (b - a) * (mpf(i) / (k - 1) if k > 1 else 0)) for i in range(k)], dtype=object)
    if name in ("diag", "diagflat"):
        return _zeros(np.diag(oarr(pos[0]), _ints(pos[1])) if name == "diag" else np.diagflat(oarr(pos[0]), _ints(pos[1])))
    if name == "linalg.matrix_power" and _ints(pos[1]) >= 1:
        r = pos[0]
        for _ in range(_ints(pos[1]) - 1):
            r = np.dot(r, pos[0])
        return r
    if name == "tri":
        return _plain(np.tri(*[_ints(v) for v in pos], **{k: _ints(v) for k, v in kw.items()}))
    if name in ("percentile", "quantile") and not kw and len(pos) == 2 and not isinstance(pos[1], np.ndarray):
        x = sorted(oarr(pos[0]).reshape(-1))
        t = pos[1] * (len(x) - 1) / (100 if name == "percentile" else 1)
        i = min(int(mpmath.floor(t)), len(x) - 2) if len(x) > 1 else 0
        return x[i] + (x[i + 1] - x[i]) * (t - i) if len(x) > 1 else x[0]
    if name == "hypot":
        return vec2(lambda x, y: _sqrt(x * x + y * y), pos[0], pos[1])
    if name in ("fmax", "fmin"):
        return vec2((lambda x, y: x if x >= y else y) if name == "fmax" else (lambda x, y: x if x <= y else y), pos[0], pos[1])
    if name == "nan_to_num":
        return pos[0]
    if name == "vander":
        k = _ints(pos[1]) if len(pos) > 1 else _ints(kw.get("N", mpf(len(pos[0]))))
        inc = bool(kw.get("increasing", False))
        out = np.empty((len(pos[0]), k), dtype=object)
        for i, x in enumerate(pos[0]):
            for j in range(k):
                out[i, j] = x ** (j if inc else k - 1 - j)
        return out
    return None


def _inv(v):
    k = v.shape[0]
    try:
        r = mpmath.matrix(v.tolist()) ** -1
    except ZeroDivisionError:
        raise Unknown("singular")
    out = np.empty((k, k), dtype=object)
    for i in range(k):
        for j in range(k):
            out[i, j] = r[i, j]
    return out


def _gradient(pos, kw):
    """numpy.gradient along one axis, first-order edges (the default)."""
    f = oarr(pos[0])
    if set(kw) - {"axis"} or len(pos) > 2:
        return None
    ax = _ints(kw.get("axis", mpf(0)))
    if f.ndim != 1 and "axis" not in kw:
        return None
    h = pos[1] if len(pos) > 1 else mpf(1)
    k = f.shape[ax]
    if k < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient")
    x = [h * i for i in range(k)] if not isinstance(h, np.ndarray) or h.ndim == 0 else list(h)
    f = np.moveaxis(f, ax, 0)
    out = np.empty(f.shape, dtype=object)
    for i in range(k):
        if i == 0:
            out[i] = (f[1] - f[0]) / (x[1] - x[0])
        elif i == k - 1:
            out[i] = (f[k - 1] - f[k - 2]) / (x[k - 1] - x[k - 2])
        else:
            hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
            out[i] = (hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i] - hd * hd * f[i - 1]) / (hs * hd * (hd + hs))
    return np.moveaxis(out, 0, ax)


def obj1(l):
    out = np.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        out[i] = x
    return out


def pack(vals):
    """list of values -> stacked ndarray when numeric of equal shape, else python list"""
    if vals and all(isinstance(v, np.ndarray) for v in vals) and len({v.shape for v in vals}) == 1:
        return np.stack(vals) if vals[0].shape else obj1([v[()] for v in vals])
    if vals and all(isinstance(v, (mpf, Dual, int, bool)) for v in vals):
        return obj1(vals)
    return list(vals)


def arith(op, a, b):
    if a is None or b is None or isinstance(a, (str, Token, list)) or isinstance(b, (str, Token, list)):
        raise Unknown("arith " + op + " " + repr(a)[:60] + " | " + repr(b)[:60])
    if isinstance(a, bool):
        a = mpf(int(a))
    if isinstance(b, bool):
        b = mpf(int(b))
    try:
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            return vec2(_div, a, b)
        if op == "pow":
            return vec2(_pow, a, b)
        if op == "floordiv":
            return vec2(lambda x, y: mpmath.floor(_finite(_div(x, y))), a, b)
        if op == "mod":
            return vec2(lambda x, y: x - y * mpmath.floor(_finite(_div(x, y))), a, b)
    except ValueError as e:
        u = Unknown("shape mismatch in " + op)
        u.error = True
        raise u


def _finite(x):
    if not isinstance(x, Dual) and not mpmath.isfinite(x):
        raise Unknown("division by zero")
    return x


def _div(x, y):
    yv = y.v if isinstance(y, Dual) else y
    if yv == 0:
        if isinstance(x, Dual) or isinstance(y, Dual):
            raise Unknown("division by zero")
        return mpf("nan") if x == 0 or mpmath.isnan(x) else mpf("inf") if x > 0 else mpf("-inf")     # IEEE
    return x / y


def _pow(x, y):
    if isinstance(x, Dual) or isinstance(y, Dual):
        return d_pow(Dual.of(x), y)
    return p_pow(x, y)


def eqv(a, b):
    if isinstance(a, Token) or isinstance(b, Token):
        return a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b


def canon(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, tuple(canon(x) for x in v.reshape(-1)))
    if isinstance(v, list):
        return ("list", tuple(canon(x) for x in v))
    if isinstance(v, Token):
        return v.key
    if isinstance(v, Dual):
        return ("dual", mpmath.nstr(v.v, 25), mpmath.nstr(v.d, 25))
    if isinstance(v, mpf):
        if v == int(v) if mpmath.isfinite(v) else False:
            return int(v)
        return mpmath.nstr(v, 25)
    return v


def close(a, b):
    """True / False; raises Unknown when not comparable."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None or isinstance(a, (str, Token)) or isinstance(b, (str, Token)):
            if isinstance(a, Token) or isinstance(b, Token):
                raise Unknown("opaque vs array")
            return False
        a, b = oarr(a) if not isinstance(a, list) else pack(a), oarr(b) if not isinstance(b, list) else pack(b)
        if isinstance(a, list) or isinstance(b, list):
            raise Unknown("list vs array")
        if a.shape != b.shape:
            if any(isinstance(x, Token) for y in (a, b) for x in y.reshape(-1)):
                raise Unknown("opaque")
            return False
        return all(close(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, Token) or isinstance(b, Token):
        if isinstance(a, Token) and isinstance(b, Token) and a.key == b.key:
            return True
        raise Unknown("opaque")
    if isinstance(a, (str, bool, np.bool_)) or isinstance(b, (str, bool, np.bool_)) or a is None or b is None:
        return a == b
    if isinstance(a, Dual) or isinstance(b, Dual):
        a, b = Dual.of(a), Dual.of(b)
        return close(a.v, b.v) and close(a.d, b.d)
    if mpmath.isnan(a) or mpmath.isnan(b):
        return bool(mpmath.isnan(a) and mpmath.isnan(b))
    if mpmath.isinf(a) or mpmath.isinf(b):
        return a == b
    return abs(a - b) <= TOL * (1 + abs(a) + abs(b))


def values(x):
    return vec(lambda t: t.v if isinstance(t, Dual) else t, x)


def derivs(x):
    return vec(lambda t: t.d if isinstance(t, Dual) else mpf(0), x)


class Verdict:
    def __init__(self, status, detail="", how=""):
        self.status, self.detail, self.how = status, detail, how   # 'holds' | 'fails' | 'unknown'

    def __repr__(self):
        return f"{self.status} {self.detail}"


def compare(a, b, models, shape_insensitive=False):
    """Decide whether nodes a and b denote the same function."""
    if a is b and not any(x.op == "opaque" for x in N.leaves(a).values()):
        return Verdict("holds", how="congruence")
    ok, why = 0, ""
    for m in models:
        try:
            x, y = m.ev(a), m.ev(b)
            if shape_insensitive:
                x, y = flat(x), flat(y)
            if not close(x, y):
                return Verdict("fails", f"{fmt(x)} vs {fmt(y)}")
            ok += 1
        except Unknown as u:
            why = str(u)
            if getattr(u, "error", False):
                why = "error:" + why
    if ok:
        return Verdict("holds", how="random interpretation")
    return Verdict("unknown", why)


def flat(x):
    x = oarr(x) if not isinstance(x, list) else pack(x)
    return x.reshape(-1) if isinstance(x, np.ndarray) else x


def fmt(x):
    if isinstance(x, np.ndarray):
        return f"array{x.shape}[" + ", ".join(fmt(v) for v in x.reshape(-1)[:6]) + ("…" if x.size > 6 else "") + "]"
    if isinstance(x, mpf):
        return mpmath.nstr(x, 8)
    if isinstance(x, Dual):
        return mpmath.nstr(x.v, 8) + "+e*" + mpmath.nstr(x.d, 8)
    if isinstance(x, list):
        return "[" + ", ".join(fmt(v) for v in x[:6]) + "]"
    return str(x)

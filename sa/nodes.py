"""Hash-consed gated value graph.

A node denotes an abstract value: (op, args, attr).  Nothing in this package executes code of the
repository; nodes are produced by the abstract interpreter in interp.py.
"""
from fractions import Fraction

_TABLE = {}
_BYID = {}
_COUNT = [0]


class Node:
    __slots__ = ("op", "args", "attr", "id", "_sz")

    def __init__(self, op, args, attr, nid):
        self.op, self.args, self.attr, self.id = op, args, attr, nid

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def mk(op, *args, attr=None):
    key = (op, tuple(a.id for a in args), attr)
    n = _TABLE.get(key)
    if n is None:
        _COUNT[0] += 1
        n = Node(op, args, attr, _COUNT[0])
        _TABLE[key] = n
        _BYID[n.id] = n
    return n


_FRESH = [0]


def fresh_id():
    _FRESH[0] += 1
    return _FRESH[0]


def const(v):
    if isinstance(v, bool):
        return mk("bool", attr=v)
    if isinstance(v, int):
        return mk("const", attr=Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("special", attr=repr(v))
        return mk("const", attr=Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk("const", attr=v)
    if isinstance(v, str):
        return mk("str", attr=v)
    if v is None:
        return mk("none")
    raise TypeError(v)


TRUE = mk("bool", attr=True)
FALSE = mk("bool", attr=False)
NONE = mk("none")


def sym(name, shape=None, **kw):
    """A leaf. shape: tuple of nodes (axis lengths) or None when unknown, () for scalars."""
    attr = (name, shape, tuple(sorted(kw.items())))
    return mk("sym", attr=attr)


def opaque(tag="?"):
    return mk("opaque", attr=(tag, fresh_id()))


def is_const(n, v=None):
    return n.op == "const" and (v is None or n.attr == v)


def cval(n):
    return n.attr if n.op == "const" else None


# ------------------------------------------------------------------ arithmetic, lightly folded
def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.attr + b.attr)
    if is_const(b, 0):
        return a
    if is_const(a, 0):
        return b
    return mk("add", a, b)


def neg(a):
    if a.op == "const":
        return const(-a.attr)
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def sub(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.attr - b.attr)
    if is_const(b, 0):
        return a
    if a is b and a.op != "opaque":
        return mk("sub", a, b) if shape_rank(a) not in (0, None) else const(0)
    return mk("sub", a, b)


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.attr * b.attr)
    if is_const(b, 1):
        return a
    if is_const(a, 1):
        return b
    return mk("mul", a, b)


def div(a, b):
    if a.op == "const" and b.op == "const" and b.attr != 0:
        return const(a.attr / b.attr)
    if is_const(b, 1):
        return a
    return mk("div", a, b)


def power(a, b):
    if a.op == "const" and b.op == "const" and b.attr.denominator == 1 and (a.attr != 0 or b.attr > 0):
        return const(a.attr ** int(b.attr))
    if is_const(b, 1):
        return a
    return mk("pow", a, b)


def floordiv(a, b):
    if a.op == "const" and b.op == "const" and b.attr != 0:
        return const(Fraction(a.attr // b.attr))
    if is_const(b, 1):
        return a
    return mk("floordiv", a, b)


def phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("phi", c, a, b)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "cmp":
        inv = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "==", "is": "is not",
               "is not": "is", "in": "not in", "not in": "in"}[c.attr]
        return mk("cmp", *c.args, attr=inv) if inv in ("<", "<=", "==", "is", "in") else mk("not", c)
    return mk("not", c)


def and_(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return mk("and", a, b)


def or_(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    return mk("or", a, b)


def ground_path(n):
    return n.op in ("const", "str", "none", "bool") or n.op == "path" and len(n.args) == 1 and n.args[0].op == "str"


def cmp(op, a, b):
    """Canonical comparisons: only <, <=, ==, is, in remain (others through not / swap)."""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return not_(cmp("==", a, b))
    if op == "is not":
        return not_(cmp("is", a, b))
    if op == "not in":
        return not_(cmp("in", a, b))
    if op in ("==", "is"):
        if a is b and a.op not in ("opaque",):
            return TRUE
        ground = ("const", "str", "none", "bool")
        if a.op in ground and b.op in ground:
            return TRUE if a is b else FALSE
        if (a.op == "path" or b.op == "path") and ground_path(a) and ground_path(b):
            return TRUE if a is b else FALSE
        if a.id > b.id:
            a, b = b, a
        if a.op in ("const", "bool", "none", "str") and b.op in ("const", "bool", "none", "str"):
            return TRUE if a is b else FALSE
        if a.op == "bool":
            return b if a is TRUE else not_(b)
    if op in ("<", "<=") and a.op == "const" and b.op == "const":
        r = a.attr < b.attr if op == "<" else a.attr <= b.attr
        return TRUE if r else FALSE
    if op in ("<", "<="):
        d = lin_sub(b, a)
        if d is not None:
            sg = lin_sign(d)
            if sg is not None:
                if op == "<":
                    if sg == "+":
                        return TRUE
                    if sg in ("-", "0", "-0"):
                        return FALSE
                else:
                    if sg in ("+", "0", "+0"):
                        return TRUE
                    if sg == "-":
                        return FALSE
        # a<b kept; (b<=a) is not(a<b): canonicalise <= to not <
        if op == "<=":
            return not_(mk("cmp", b, a, attr="<")) if False else mk("cmp", a, b, attr="<=")
    return mk("cmp", a, b, attr=op)


# ------------------------------------------------------------------ polynomials over size atoms
def lin(n):
    """Polynomial normal form of an integer-valued node: {monomial(tuple of atom ids): coef}."""
    if n.op == "const":
        return {(): n.attr} if n.attr else {}
    if n.op == "add":
        return _padd(lin(n.args[0]), lin(n.args[1]), 1)
    if n.op == "sub":
        return _padd(lin(n.args[0]), lin(n.args[1]), -1)
    if n.op == "neg":
        return _padd({}, lin(n.args[0]), -1)
    if n.op == "mul":
        p, q, r = lin(n.args[0]), lin(n.args[1]), {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + c1 * c2
        return {k: v for k, v in r.items() if v}
    if n.op == "div" and n.args[1].op == "const":
        return {k: v / n.args[1].attr for k, v in lin(n.args[0]).items()}
    return {(n.id,): Fraction(1)}



def _padd(p, q, s):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def lin_sub(a, b):
    return _padd(lin(a), lin(b), -1)


_POSITIVE = {}  # node id -> lower bound (int) for size atoms


def declare_atleast(n, k):
    _POSITIVE[n.id] = k
    return n


def lower_bound(nid):
    return _POSITIVE.get(nid)


def lin_sign(p):
    """'+' (>0), '0', '-', '+0' (>=0), '-0' (<=0) or None, from declared lower bounds of atoms."""
    if not p:
        return "0"

    def low(p):
        tot = Fraction(0)
        for m, c in p.items():
            if not m:
                tot += c
                continue
            if c < 0:
                return None
            prod = Fraction(1)
            for a in m:
                lb = _POSITIVE.get(a)
                if lb is None or lb < 0:
                    return None
                prod *= lb
            tot += c * prod
        return tot

    l1 = low(p)
    if l1 is not None:
        if l1 > 0:
            return "+"
        if l1 == 0:
            return "+0"
    l2 = low({k: -v for k, v in p.items()})
    if l2 is not None:
        if l2 > 0:
            return "-"
        if l2 == 0:
            return "-0"
    return None


def same_size(a, b):
    return a is b or not lin_sub(a, b)


def shape_rank(n):
    s = shape_of(n)
    return None if s is None else len(s)


# ------------------------------------------------------------------ shapes
_SHAPE = {}


def shape_of(n):
    if n.id in _SHAPE:
        return _SHAPE[n.id]
    _SHAPE[n.id] = None
    s = _shape(n)
    if s is not None:
        s = tuple(d if d.op in ("sym", "const") else lin_node(d) for d in s)
    _SHAPE[n.id] = s
    return s


def _bcast(shapes):
    if any(s is None for s in shapes):
        return None
    r = max(len(s) for s in shapes)
    out = []
    for k in range(1, r + 1):
        dims = [s[-k] for s in shapes if len(s) >= k]
        nz = [d for d in dims if not is_const(d, 1)]
        out.append(nz[0] if nz else dims[0])
    return tuple(reversed(out))


ELEMENTWISE = {"add", "sub", "mul", "div", "pow", "neg", "cmp", "not", "and", "or", "floordiv", "mod"}
ELEM_FN = {"exp", "log", "sqrt", "abs", "square", "clip", "minimum", "maximum", "floor", "ceil",
           "sin", "cos", "tan", "where", "isnan", "sign", "float", "copy", "round", "int"}


def _shape(n):
    op = n.op
    if op in ("const", "bool", "special"):
        return ()
    if op == "sym":
        return n.attr[1]
    if op in ("idx", "size"):
        return ()
    if op in ELEMENTWISE:
        return _bcast([shape_of(a) for a in n.args])
    if op == "fn" and n.attr in ELEM_FN:
        return _bcast([shape_of(a) for a in n.args if a is not NONE]) if n.args else None
    if op == "alloc":
        return n.args[1:]
    if op in ("store", "mapstore", "mapouter"):
        return shape_of(n.args[0])
    if op == "rowfn":
        s = shape_of(n.args[0])
        return None if s is None else ((s[0],) if s else (const(1),))
    if op == "diagflat":
        s = shape_of(n.args[0])
        if s is None:
            return None
        tot = const(1)
        for d in s:
            tot = mul(tot, d)
        return (tot, tot)
    if op == "diagonal":
        s = shape_of(n.args[0])
        return (s[0],) if s else None
    if op == "likefill":
        return shape_of(n.args[1])
    if op == "npcall":
        nm = n.attr[0].replace("method.", "")
        if nm in ("argsort", "sort", "fill_diagonal", "inplace.sort", "flip", "flipud", "fliplr", "roll", "triu", "tril", "gradient", "isclose", "nan_to_num"):
            return shape_of(n.args[0])
        if nm in ("cumsum", "cumprod"):
            s = shape_of(n.args[0])
            return s if s is not None and (len(s) == 1 or "axis" in n.attr) else None
        if nm in ("trapz", "percentile", "quantile") and "axis" not in n.attr and shape_rank(n.args[0]) == 1 and (nm == "trapz" or shape_rank(n.args[1]) == 0):
            return ()
        if nm == "insert" and "axis" not in n.attr and len(n.args) == 3 and shape_rank(n.args[0]) == 1 and shape_rank(n.args[1]) == 0 and shape_rank(n.args[2]) == 0:
            return (add(shape_of(n.args[0])[0], const(1)),)
        if nm == "delete" and "axis" not in n.attr and len(n.args) == 2 and shape_rank(n.args[0]) == 1 and shape_rank(n.args[1]) == 0:
            return (sub(shape_of(n.args[0])[0], const(1)),)
        if nm == "pad" and len(n.args) == 2 and shape_rank(n.args[0]) == 1:
            k = n.args[1]
            if shape_rank(k) == 0:
                return (add(shape_of(n.args[0])[0], mul(const(2), k)),)
            if k.op == "mklist" and len(k.args) == 2 and all(shape_rank(x) == 0 for x in k.args):
                return (add(shape_of(n.args[0])[0], add(*k.args)),)
        if nm == "linspace":
            s = shape_of(n.args[0]) or shape_of(n.args[1])
            return (n.args[2],) + s if s is not None else None
        if nm == "linalg.matrix_power":
            return shape_of(n.args[0])
        if nm in ("math.isclose", "hypot", "fmod", "atan2", "copysign") and all(shape_rank(a) == 0 for a in n.args):
            return ()
        if nm in ("allclose", "array_equal", "count_nonzero", "vdot", "linalg.det") or (nm in ("ptp", "linalg.norm") and "axis" not in n.attr and len(n.args) == 1):
            return ()
        if nm in ("interp", "searchsorted"):
            return shape_of(n.args[0 if nm == "interp" else 1])
        if nm == "einsum" and n.args and n.args[0].op == "str" and "->" in n.args[0].attr and "." not in n.args[0].attr:
            ins, out = n.args[0].attr.replace(" ", "").split("->")
            dims = {}
            for sub_, a in zip(ins.split(","), n.args[1:]):
                s = shape_of(a)
                if s is None or len(s) != len(sub_):
                    return None
                dims.update(zip(sub_, s))
            return tuple(dims[c] for c in out) if all(c in dims for c in out) else None
        return None
    if op == "phi":
        a, b = shape_of(n.args[1]), shape_of(n.args[2])
        if a is not None and b is not None and len(a) == len(b) and all(same_size(x, y) for x, y in zip(a, b)):
            return a
        return None
    if op == "reshape":
        s = list(n.args[1:])
        neg1 = [i for i, d in enumerate(s) if is_const(d, -1)]
        if neg1:
            src = shape_of(n.args[0])
            if src is None:
                return None
            rest = [d for i, d in enumerate(s) if i not in neg1]
            src = list(src)
            # cancel equal factors
            for d in rest:
                for j, e in enumerate(src):
                    if same_size(d, e):
                        src.pop(j)
                        break
                else:
                    if not is_const(d, 1):
                        return None
            tot = const(1)
            for e in src:
                tot = mul(tot, e)
            s[neg1[0]] = tot
        return tuple(s)
    if op == "transpose":
        s = shape_of(n.args[0])
        return None if s is None else tuple(reversed(s))
    if op == "atleast":
        s = shape_of(n.args[0])
        if s is None:
            return None
        k = n.attr
        return s if len(s) >= k else tuple([const(1)] * (k - len(s))) + s
    if op == "arange":
        return (sub(n.args[1], n.args[0]),)
    if op == "linspace":
        return (n.args[2],)
    if op == "index":
        return _index_shape(shape_of(n.args[0]), n.attr, n.args[1:])
    if op == "rec":
        return shape_of(n.args[0])
    if op == "undef":
        return n.attr[1]
    if op == "outer":
        a, b = shape_of(n.args[0]), shape_of(n.args[1])
        if a is None or b is None or len(a) > 1 or len(b) > 1:
            return None
        return ((a or (const(1),))[0], (b or (const(1),))[0])
    if op == "mu":
        return n.attr[2] if len(n.attr) > 2 else None
    if op == "tile":
        s = shape_of(n.args[0])
        reps = n.args[1:]
        if s is None:
            return None
        s = tuple([const(1)] * (len(reps) - len(s))) + s
        reps = tuple([const(1)] * (len(s) - len(reps))) + tuple(reps)
        return tuple(mul(a, b) for a, b in zip(reps, s))
    if op == "concat":
        ss = [shape_of(a) for a in n.args]
        if any(s is None for s in ss):
            return None
        ax = n.attr or 0
        if ax >= len(ss[0]) or any(len(s) != len(ss[0]) for s in ss):
            return None
        tot = ss[0][ax]
        for s in ss[1:]:
            tot = add(tot, s[ax])
        return ss[0][:ax] + (tot,) + ss[0][ax + 1:]
    if op == "column_stack":
        ss = [shape_of(a) for a in n.args]
        if any(s is None for s in ss):
            return None
        ss = [s if len(s) >= 2 else s + (const(1),) for s in ss]
        tot = ss[0][1]
        for s in ss[1:]:
            tot = add(tot, s[1])
        return (ss[0][0], tot)
    if op == "matmul":
        a, b = shape_of(n.args[0]), shape_of(n.args[1])
        if a is None or b is None:
            return None
        if len(a) == 0 or len(b) == 0:
            return a or b
        if len(b) == 1:
            return a[:-1]
        return a[:-1] + b[:-2] + b[-1:]
    if op == "reduce":
        s = shape_of(n.args[0])
        ax = n.attr[1]
        if ax is None:
            return ()
        if s is None or ax >= len(s):
            return None
        return s[:ax] + s[ax + 1:]
    if op == "diff":
        s = shape_of(n.args[0])
        return None if not s else (sub(s[0], const(1)),) + s[1:]
    if op == "squeeze":
        s = shape_of(n.args[0])
        return None if s is None else tuple(d for d in s if not is_const(d, 1))
    if op in ("inv", "identity_like", "copy", "asarray"):
        return shape_of(n.args[0])
    if op == "eye":
        return (n.args[0], n.args[0])
    if op == "cast":
        return shape_of(n.args[0])
    if op == "mklist":
        if not n.args:
            return (const(0),)
        s = shape_of(n.args[0])
        return None if s is None else (const(len(n.args)),) + s
    if op == "maplist":
        s = shape_of(n.args[0])
        lo, hi = n.args[1], n.args[2]
        return None if s is None else (sub(hi, lo),) + s
    if op == "call" and n.attr and n.attr[0] in _CALL_SHAPES:
        return _CALL_SHAPES[n.attr[0]](n)
    return None


_CALL_SHAPES = {}


def declare_call_shape(name, fn):
    _CALL_SHAPES[name] = fn


# index attr: tuple of per-axis codes: "s" (slice; uses 2 args lo,hi — NONE for open), "p" (point,1 arg),
# "a" (array index,1 arg), "n" (newaxis), "e" (ellipsis), "S" (slice with step; 3 args)
def split_index(attr, args):
    out, k = [], 0
    for c in attr:
        m = {"s": 2, "p": 1, "a": 1, "n": 0, "e": 0, "S": 3}[c]
        out.append((c,) + tuple(args[k:k + m]))
        k += m
    return out


def _norm_bound(b, length, default):
    if b is NONE:
        return default
    if b.op == "const" and b.attr < 0:
        return None if length is None else add(length, b)
    return b


def _index_shape(s, attr, args):
    if s is None:
        return None
    items = split_index(attr, args)
    out, ax = [], 0
    n_ax = sum(1 for it in items if it[0] not in "ne")
    for it in items:
        c = it[0]
        if c == "n":
            out.append(const(1))
            continue
        if c == "e":
            while len(s) - ax > n_ax:
                out.append(s[ax])
                ax += 1
            continue
        if ax >= len(s):
            return None
        n_ax -= 1
        if c == "s":
            lo = _norm_bound(it[1], s[ax], const(0))
            hi = _norm_bound(it[2], s[ax], s[ax])
            if lo is None or hi is None:
                return None
            if s[ax].op == "const":
                # out-of-range bounds are clipped
                n = s[ax].attr
                lo, hi = (const(max(0, min(b.attr, n))) if b.op == "const" else b for b in (lo, hi))
            if lo.op == hi.op == "const" and hi.attr < lo.attr:
                hi = lo
            out.append(lin_node(sub(hi, lo)))
        elif c == "S":
            return None
        elif c == "a":
            sh = shape_of(it[1])
            if sh is None:
                return None
            if it[1].op in ("cmp", "and", "or", "not"):
                return None
            out.extend(sh)
        ax += 1
    out.extend(s[ax:])
    return tuple(out)


def lin_node(n):
    """Rebuild an integer node in canonical polynomial order."""
    p = lin(n)
    tot = const(0)
    for m in sorted(p):
        t = const(p[m])
        for a in m:
            t = mul(t, node_by_id(a))
        tot = add(tot, t)
    return tot


def node_by_id(i):
    return _BYID[i]


# ------------------------------------------------------------------ traversal
def leaves(n, seen=None):
    """All nodes reachable from n."""
    seen = {} if seen is None else seen
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(x.args)
    return seen


def subst(n, mapping, memo=None):
    """Replace nodes (by id) in the graph."""
    memo = {} if memo is None else memo
    if n.id in mapping:
        return mapping[n.id]
    if n.id in memo:
        return memo[n.id]
    if not n.args:
        return n
    new = tuple(subst(a, mapping, memo) for a in n.args)
    r = n if all(x is y for x, y in zip(new, n.args)) else rebuild(n, new)
    memo[n.id] = r
    return r


def rebuild(n, args):
    op = n.op
    if op in ("add", "sub", "mul", "div"):
        return {"add": add, "sub": sub, "mul": mul, "div": div}[op](*args)
    if op == "pow":
        return power(*args)
    if op == "neg":
        return neg(*args)
    if op == "phi":
        return phi(*args)
    if op == "not":
        return not_(*args)
    if op == "cmp":
        return cmp(n.attr, *args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    return mk(op, *args, attr=n.attr)


def show(n, depth=6):
    if depth == 0:
        return "…"
    a = [show(x, depth - 1) for x in n.args]
    if n.op == "const":
        f = n.attr
        return str(f) if f.denominator < 1000 else f"{float(f):g}"
    if n.op in ("str", "bool"):
        return repr(n.attr)
    if n.op == "none":
        return "None"
    if n.op == "sym":
        return n.attr[0]
    if n.op == "idx":
        return f"i{n.attr}"
    if n.op in ("add", "sub", "mul", "div", "pow"):
        return "(" + {"add": " + ", "sub": " - ", "mul": "*", "div": "/", "pow": "**"}[n.op].join(a) + ")"
    if n.op == "neg":
        return f"-{a[0]}"
    if n.op == "cmp":
        return f"({a[0]} {n.attr} {a[1]})"
    if n.op == "index":
        return f"{a[0]}[{index_str(n.attr, a[1:])}]"
    if n.op == "phi":
        return f"φ({a[0]} ? {a[1]} : {a[2]})"
    if n.op in ("fn", "call"):
        nm = n.attr if isinstance(n.attr, str) else n.attr[0]
        return f"{nm}({', '.join(a)})"
    at = "" if n.attr is None else f"<{n.attr}>" if not isinstance(n.attr, tuple) else f"<{n.attr[0]}>"
    return f"{n.op}{at}({', '.join(a)})"


def index_str(attr, a):
    out, k = [], 0
    for c in attr:
        if c == "s":
            lo, hi = a[k], a[k + 1]
            out.append(("" if lo == "None" else lo) + ":" + ("" if hi == "None" else hi))
            k += 2
        elif c in "pa":
            out.append(a[k])
            k += 1
        elif c == "S":
            out.append(":".join(a[k:k + 3]))
            k += 3
        else:
            out.append({"n": "None", "e": "..."}[c])
    return ", ".join(out)

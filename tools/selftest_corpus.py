CORPUS = r"""
np.stack([v, u], axis=1)
---
np.stack([v, u])
---
np.stack([c for c in a.T], axis=1)
---
np.stack([np.ravel(c) for c in a.T], axis=1)
---
np.stack([np.zeros(v.size) if c is None else c for c in [None, v]], axis=1)
---
fas = [] or [None] * k
return len(fas)
---
fas = None or [None] * k
return np.stack([np.zeros(v.size) if f is None else u for f in fas[:k]], axis=1)
---
np.ones((3, 1)) * (np.ones(2) * r)
---
x = np.ones((a.shape[0], 1)) * (np.ones(2) * r)
return (x, 0.0 * x)
---
blocks = {}
for name, val in (("p", v), ("q", u)):
    blocks[name] = val
return blocks["p"] + blocks["q"]
---
np.asarray(r) + np.ones(2)
---
x = np.zeros_like(v)
x[np.arange(1, 3)] = u[1:]
return x
---
f = a[:, 0].reshape(-1)
return f * v
---
x = np.empty(5)
x[np.arange(0, 3)] = v
x[np.arange(3, 5)] = r
return x
---
d = dict(p=np.arange(0, 2), q=np.arange(2, 3))
xs = np.zeros((3, 3))
xds = np.zeros((3, 3))
for name, idx in d.items():
    xs[:, idx], xds[:, idx] = (a, 2 * a) if name == "p" else (v.reshape(-1, 1), u[:, None])
return [xs, xds]
---
xs, *rest = (v, u, r)
return [xs, len(rest), rest[0]]
---
first, *_, last = (v, u, a, r)
return [first, last]
---
rows = [(v, u)]
for x in range(2):
    rows.append((v * x, u + x))
p, q = zip(*rows)
return [np.vstack(p), np.vstack(q)]
---
np.array([1.0, 2.0, 2.0, 1.0]) / 6.0
---
out = []
for h in (0.5, 0.5, 1.0):
    out.append(v * h)
return out[-1] + out[0]
---
x = np.array(v, dtype=float)
for w, z in zip(np.array([1.0, 2.0]), [v, u]):
    x += w * z
return x
---
np.diff(v)
---
[x * 2 for x in np.diff(v)]
---
np.outer(v, r)
---
np.exp(-np.outer(v, 2 * np.ones(2)))
---
np.broadcast_to(s, (3,))
---
np.broadcast_to(r, (3, 2))
---
np.broadcast_to(r, (2,)).reshape(1, 2)
---
np.reshape(v, (-1, 1)) * r.reshape(1, 2)
---
np.split(v[:2], 2)
---
y, z = np.split(np.concatenate((v, u)), 2)
return y - z
---
np.hstack([v, u]) / s
---
np.hstack([a, a])
---
np.hstack((v, s))
---
np.vstack((v, u))
---
np.vstack((a, a))
---
np.vstack([v, a.T])
---
np.column_stack((v, u))
---
np.column_stack((a, v))
---
np.concatenate((a, a), axis=1)
---
np.concatenate([a, a])
---
np.concatenate([a.T, b], axis=0)
---
np.append(v, u)
---
np.append(v, s)
---
np.append(a, a, axis=0)
---
np.insert(v, 0, s)
---
np.r_[v, u]
---
np.c_[v, u]
---
np.c_[a, v]
---
v[::-1]
---
v[1:] - v[:-1]
---
a[1:, :] - a[:-1, :]
---
a[:, ::-1]
---
a[-1]
---
a[-1, :]
---
a[:, -1]
---
a[[0, 2]]
---
a[[0, 2], :]
---
a[:, [1, 0]]
---
a[np.array([0, 1]), np.array([1, 0])]
---
v[v > 0]
---
v[np.argsort(v)]
---
a[np.argsort(v)]
---
np.sort(v)
---
np.sort(v)[::-1]
---
sorted(v)
---
sorted([float(x) for x in v], reverse=True)
---
sorted(range(3), key=lambda i: v[i])
---
np.argsort(-v)
---
np.argmin(v)
---
np.argmax(v)
---
v.argmin()
---
np.max(v) - np.min(v)
---
v.max()
---
np.max(a, axis=0)
---
a.max(axis=1)
---
np.amin(a, 0)
---
np.ptp(v)
---
a.min(0)
---
max(v)
---
min(v[0], v[1], v[2])
---
max(s, 0.5)
---
sum(v)
---
sum(x * y for x, y in zip(v, u))
---
sum([v, u])
---
np.sum(a)
---
np.sum(a, axis=1)
---
np.sum(a, axis=1, keepdims=True)
---
a / a.sum(axis=1)[:, None]
---
a / a.sum(axis=1, keepdims=True)
---
np.mean(a, axis=0)
---
a.mean()
---
np.average(v, weights=np.abs(u))
---
np.average(a, axis=0, weights=np.abs(v))
---
np.var(v)
---
np.std(v)
---
np.median(v)
---
np.cumsum(v)
---
np.prod(v)
---
np.prod(a, axis=1)
---
np.dot(v, u)
---
v @ u
---
a @ r
---
a.T @ v
---
np.dot(a, r)
---
a.dot(b)
---
np.matmul(a, b)
---
np.inner(v, u)
---
np.einsum("ij,j->i", a, r)
---
np.einsum("i,ij->j", v, a)
---
np.einsum("ij,ij->i", a, a)
---
np.einsum("i,j->ij", v, r)
---
np.tensordot(a, r, axes=1)
---
np.linalg.norm(v)
---
np.linalg.inv(b @ a)
---
np.linalg.solve(b @ a, r)
---
np.linalg.pinv(b @ a) @ r
---
np.linalg.lstsq(b @ a, r, rcond=None)[0]
---
np.linalg.det(b @ a)
---
np.diag(v)
---
np.diag(b @ a)
---
np.diag(np.diag(b @ a))
---
np.diagonal(b @ a)
---
np.eye(3)
---
np.identity(2) * s
---
np.trace(b @ a)
---
np.full((3,), s)
---
np.full((3, 2), r)
---
np.full_like(v, s)
---
np.ones_like(a)
---
np.zeros(3) + s
---
np.zeros((3, 2)) + r
---
np.tile(r, (3, 1))
---
np.tile(v, 2)
---
np.repeat(v, 2)
---
np.repeat(r[np.newaxis, :], 3, axis=0)
---
np.arange(3) * s
---
np.arange(1, 4)
---
np.linspace(0.0, s, 5)
---
np.linspace(v[0], v[1], 3)
---
np.linspace(0, 1, k)
---
np.clip(v, 0.0, None)
---
np.clip(v, -0.1, 0.2)
---
np.clip(a, r, r + 1)
---
v.clip(0.1)
---
v.clip(min=0.1, max=0.3)
---
np.minimum(v, u)
---
np.maximum(v, s)
---
np.maximum.reduce([v, u, v * 2])
---
np.fmin(v, 0.1)
---
np.where(v > u, v, u)
---
np.where(v > 0.3, 1.0, 0.0)
---
np.abs(v - u)
---
abs(v)
---
np.square(v)
---
np.power(v, 2)
---
v ** 2
---
np.sqrt(np.abs(v))
---
np.log(np.abs(v) + 1)
---
np.log1p(np.abs(v))
---
np.expm1(v)
---
np.exp(v)
---
math.exp(s)
---
math.sqrt(abs(s))
---
np.sign(v)
---
np.cos(v)
---
np.tanh(v)
---
np.floor(s * 10)
---
int(np.floor(abs(s) * 10))
---
round(abs(s) * 10)
---
int(abs(s) * 10)
---
np.ceil(v)
---
np.negative(v)
---
np.multiply(v, u)
---
np.divide(v, u)
---
np.true_divide(v, s)
---
np.subtract(v, u)
---
np.reciprocal(v)
---
np.hypot(v, u)
---
np.squeeze(v.reshape(3, 1))
---
np.squeeze(a[:, :1])
---
np.squeeze(a[:, :1], axis=1)
---
a[:, :1].ravel()
---
a.flatten()
---
a.ravel(order="F")
---
a.reshape(-1)
---
a.reshape(2, 3)
---
a.reshape((2, -1))
---
np.atleast_2d(v)
---
np.atleast_2d(v).T
---
np.atleast_1d(s)
---
v[np.newaxis, :]
---
v[:, None]
---
np.expand_dims(v, 1)
---
np.expand_dims(v, axis=0)
---
a.T
---
a.transpose()
---
np.transpose(a)
---
np.swapaxes(a, 0, 1)
---
a.shape
---
a.size
---
a.ndim
---
len(a)
---
v.shape[0]
---
np.shape(a)[1]
---
np.size(v)
---
np.ndim(a)
---
np.isscalar(s)
---
np.isscalar(v)
---
isinstance(v, np.ndarray)
---
isinstance(s, (int, float))
---
isinstance([v], list)
---
type(v) == np.ndarray
---
hasattr(v, "shape")
---
np.any(v > 0.3)
---
np.all(v > -100)
---
(v > 0).any()
---
(v > u).all()
---
all(x > -100 for x in v)
---
any(x > 0.2 for x in v)
---
np.count_nonzero(v > 0.2)
---
np.flatnonzero(v > 0.2)
---
np.nonzero(v > -1)[0]
---
np.searchsorted(np.sort(v), s)
---
np.argmax(v > 0.1)
---
np.array_equal(v, v)
---
np.allclose(v, v + 1)
---
np.isnan(v)
---
np.isfinite(v).all()
---
np.array([v, u])
---
np.array([s, s + 1])
---
np.array([[s, 1.0], [2.0, s]])
---
np.array([x + 1 for x in v])
---
np.array([f(s) for f in (np.sin, np.cos)])
---
np.array(list(map(lambda x: x * 2, v)))
---
list(map(float, v))
---
[float(x) for x in v]
---
v.tolist()
---
np.asarray(v.tolist()) + 1
---
np.fromiter((x * s for x in v), dtype=float)
---
np.vectorize(lambda x: x * s)(v)
---
np.apply_along_axis(lambda x: x.sum(), 1, a)
---
np.meshgrid(v, r)
---
np.meshgrid(v, r, indexing="ij")
---
[list(t) for t in itertools.product([1, 2], [3, 4])]
---
np.array(list(itertools.product(v, r)))
---
list(itertools.chain([1, 2], [3]))
---
list(itertools.accumulate([1, 2, 3]))
---
[x + y for x, y in zip(v, u)]
---
[i * x for i, x in enumerate(v)]
---
[i * x for i, x in enumerate(v, start=1)]
---
[[x * y for x in v] for y in r]
---
{i: x for i, x in enumerate(v)}[1]
---
dict(zip(["p", "q"], [v, u]))["q"]
---
d = {"p": v}
d.update(q=u)
return d["q"]
---
d = {"p": v}
return d.get("z", u)
---
d = dict(p=v, q=u)
d.pop("p")
return list(d.keys())
---
d = defaultdict(list)
d["p"].append(v)
return d["p"][0]
---
d = {**{"p": v}, "q": u}
return d["p"] + d["q"]
---
d = {}
d.setdefault("p", []).append(s)
return d["p"]
---
x = [v]
x.extend([u, v])
x.insert(0, u)
return x
---
x = [1, 2, 3]
x.reverse()
return x
---
x = [1, 2, 3]
return x[::-1]
---
x = [3, 1, 2]
x.sort()
return x
---
x = [1, 2, 3]
y = x.pop()
return [x, y]
---
x = [1, 2] + [3]
x += [4]
return x
---
x = [1, 2, 3]
del x[0]
return x
---
list(reversed([1, 2, 3]))
---
x = v.copy()
x[0] = s
return [x, v]
---
x = v
x[0] = s
return v
---
x = v[1:]
x += 1
return v
---
x = v.copy()
x += u
x *= 2
x -= 1
x /= s
return x
---
x = a.copy()
x[:, 0] = v
return x
---
x = a.copy()
x[1] = r
return x
---
x = a.copy()
x[1:] = 0
return x
---
x = a.copy()
x[:, 1] *= v
return x
---
x = a.copy()
x[a > 0.2] = 0.0
return x
---
x = a.copy()
for i in range(x.shape[0]):
    for j in range(x.shape[1]):
        x[i, j] = v[i] * r[j]
return x
---
x = np.zeros((3, 2))
for row, (vv, uu) in enumerate(zip(v, u)):
    x[row] = vv, uu
return x
---
x = a.T.copy()
x[0, :] = v
return x
---
x = np.empty(3)
x.fill(s)
return x
---
i = 0
x = 0.0
while i < 3:
    x += v[i]
    i += 1
return x
---
x = 0
for e in v:
    if e < 0.2:
        continue
    x += e
return x
---
for i, e in enumerate(v):
    if e > 0.2:
        break
else:
    i = -1
return i
---
x = v if s > 0 else u
return x
---
x = s and 3
return x
---
(lambda p, q=2: p * q)(v)
---
f = functools.partial(np.clip, a_min=0.0, a_max=0.2)
return f(v)
---
functools.reduce(lambda p, q: p * q, [v, u, v])
---
functools.reduce(operator.add, [v, u])
---
def inner(x, *args, scale=1, **kw):
    return x * scale + sum(args)
return inner(v, 1, 2, scale=s)
---
def gen():
    for x in v:
        yield x * 2
return list(gen())
---
def gen():
    yield v
    yield u
p, q = gen()
return p + q
---
try:
    x = v + u
except ValueError:
    x = None
finally:
    y = 1
return x
---
try:
    raise ValueError("x")
except (ValueError, TypeError):
    return v
---
if not (n := v.size) == 3:
    return 0
return n
---
x, y = v, u
x, y = y, x
return [x, y]
---
(p, q), t = (v, u), r
return [p, q, t]
---
f"{k:03d}_{'x'}"
---
"a_%d" % k
---
"{}_{}".format("p", k)
---
"_".join(["a", "b"])
---
"SCT23_DAMPING".split("_")
---
"abc".startswith("a") and "xyz".endswith("z")
---
"a" in ["a", "b"]
---
"x" in {"x": 1}
---
"abc".replace("a", "z").upper()
---
str(k) + "x"
---
np.nan_to_num(v)
---
v.astype(float)
---
np.float64(s) * 2
---
v.item(0)
---
a[0].item(1)
---
np.take(v, [0, 2])
---
np.delete(v, 0)
---
np.roll(v, 1)
---
np.flip(v)
---
np.flipud(a)
---
np.unique(np.array([1, 2, 2]))
---
np.triu(b @ a)
---
np.gradient(v)
---
np.interp(0.5, np.array([0.0, 1.0]), np.array([s, 2.0]))
---
np.polyval([1.0, 2.0, s], v)
---
np.add.reduce(v)
---
np.multiply.outer(v, r)
---
np.subtract.outer(v, u)
---
(v[:, None] - u[None, :]) ** 2
---
np.exp(-0.5 * ((v.reshape(-1, 1) - u.reshape(1, -1)) / s) ** 2)
---
np.array([np.outer(x, x) for x in a])
---
sum(w * np.outer(x, x) for w, x in zip(v, a))
---
(a * v[:, None]).T @ a
---
a.T @ np.diag(v) @ a
---
np.vander(v, 3)
---
np.pad(v, (1, 1), mode="edge")
---
np.pad(v, (0, 2))
---
divmod(7, 2)
---
7 // 2 + 7 % 2
---
v[len(v) - 1]
---
v[slice(0, 2)]
---
a[slice(1, None), :]
---
a[..., 0]
---
a[np.ix_([0, 2], [1])]
---
np.array([1, 2, 3])[[True, False, True]]
---
np.logical_and(v > 0, u > 0)
---
(v > 0) & (u > 0)
---
~(v > 0)
---
np.logical_not(v > 0.2)
---
bool(k)
---
not k
---
k == 2 and s is not None
---
x = None
return x is None
---
x = [None] * 2
x[1] = v
return x[1]
---
[0.0] * 3
---
[[s] * 2 for _ in range(3)]
---
np.array([[s] * 2 for _ in range(3)])
---
tuple(v)
---
(v, u)[k - 1]
---
[v, u][-1]
---
list(range(3))[1:]
---
np.array(range(3)) + 1
---
[x for x in range(5) if x % 2 == 0]
---
[x for x in [v, None, u] if x is not None]
---
list(filter(None, [1, 0, 2]))
---
set([1, 2]) == {2, 1}
---
len({"a", "b", "a"})
---
copy.deepcopy([v, u])[0]
---
x = copy.copy(v)
x[0] = 0
return v
---
x = [v, u]
y = x.copy()
y[0] = None
return x
---
np.mean([v, u], axis=0)
---
np.mean(np.array([v, u]), 0)
---
np.mean([1.0, s])
---
np.dot(v, a)
---
np.sum([x ** 2 for x in v])
---
np.cov(a.T)
---
np.linalg.cholesky(b @ b.T)
---
np.linalg.eigh(b @ b.T)[0]
---
v.dot(u)
---
v.sum()
---
v.mean()
---
a.prod(axis=1)
---
a.cumsum(axis=0)
---
np.diff(a, axis=0)
---
np.add(v, u, out=None)
---
np.array(v, ndmin=2)
---
np.array(v, copy=True)
---
np.array_split(v, 2)[0]
---
np.hsplit(a, 2)[1]
---
np.kron(v, r)
---
a.sum(axis=-1)
---
a.std(axis=0)
---
class P_N:
    def __init__(self, x):
        self.x = x

    def __add__(self, o):
        return P_N(self.x + o.x)

    @property
    def twice(self):
        return 2 * self.x

    @staticmethod
    def st(x):
        return x + 1

    @classmethod
    def make(cls, x):
        return cls(x)
###
return (P_N(v) + P_N.make(u)).twice + P_N.st(1)
---
@dataclass
class Q_N:
    x: object
    y: float = 2.0
###
q = Q_N(v)
return q.x * q.y
---
T_N = namedtuple("T_N", ["p", "q"])
###
t = T_N(v, u)
p, q = t
return t.p - q
---
CONST_N = {"p": 2.0, "q": 3.0}
###
return v * CONST_N["p"]
---
HALF_N = 0.5
OPS_N = {"a": np.add, "b": lambda p, q: p - q}
###
return OPS_N["a"](v, u) * HALF_N + OPS_N["b"](v, u)
---
def deco_N(f):
    @functools.wraps(f)
    def g(*args, **kwargs):
        return f(*args, **kwargs) * 2
    return g


@deco_N
def fun_N(x):
    return x + 1
###
return fun_N(v)
---
class B_N:
    def go(self, x):
        return self.step(x) + 1

    def step(self, x):
        return x


class C_N(B_N):
    def step(self, x):
        return super().step(x) * 2
###
return C_N().go(v)
---
x = {"a": 1, "b": 2}
return [key + str(val) for key, val in x.items()]
---
x = {"a": v, "b": u}
return [val for val in x.values()]
---
getattr(v, "size")
---
x = v.copy()
np.clip(x, 0.0, 0.2, out=x)
return x
---
x = v.copy()
np.add(x, u, out=x)
return x
---
x = a.copy()
x[:, :1] = v[:, None]
return x
---
x = np.zeros((2, 3, 2))
x[1] = a
return x
---
x = np.zeros((2, 3, 2))
x[0, :, 1] = v
return x.sum(axis=0)
---
np.where(v > 0.2)[0]
---
np.ma.average(v)
---
np.sum(v * u) / np.sum(u)
---
np.linalg.norm(a, axis=1)
---
v.reshape(1, -1) @ a
---
1 - v
---
-v + +u
---
2 ** v
---
s // 0.1
---
v % 0.1
---
v > u
---
v.any()
---
v == u
---
(v != u).sum()
---
float(np.sum(v))
---
int(True) + 1
---
str(1.5)
---
x = 0
for i in reversed(range(3)):
    x = x * 2 + v[i]
return x
---
i = iter([1, 2, 3])
return [next(i), next(i)]
---
next(x for x in [1, 2, 3] if x > 1)
---
next((x for x in [1] if x > 1), None)
---
any([]) or all([])
---
np.array([])
---
np.zeros(0).size
---
np.concatenate(([0.0], np.cumsum(v)))
---
np.concatenate([v[:1], u, v[2:]])
---
np.concatenate((v, [s]))
---
np.concatenate([[s], v, [1.0]])
---
np.hstack([v[:, None], a])
---
np.stack((v, u), axis=-1)
---
np.dstack((v, u)).shape
---
x = list(v)
x.append(s)
return np.array(x)
---
np.array(v)[..., np.newaxis]
---
assert v.size == 3
return v
---
x: float = s
return x * v
---
global_x = [0]
def bump():
    global_x[0] += 1
bump()
bump()
return global_x[0]
---
c = 0
def bump():
    nonlocal c
    c += 1
bump()
bump()
return c
---
import numpy as onp
return onp.sum(v)
---
from math import pi
return pi * s
---
np.pi * v
---
np.inf > s
---
x = slice(0, 2)
return v[x] + u[x]
---
idx = np.arange(3)
return v[idx[:2]]
---
mask = np.zeros(3, dtype=bool)
mask[1] = True
return v[mask]
---
mask = v > 0.2
x = v.copy()
x[mask] = u[mask]
return x
---
np.select([v > 0.3, v > 0.1], [v, u], 0.0)
---
np.piecewise(v, [v < 0.2, v >= 0.2], [0.0, 1.0])
---
np.choose([0, 1, 0], [v, u])
---
np.heaviside(v, 0.5)
---
np.digitize(s, [0.1, 0.2])
---
np.histogram(v, 2)[0]
---
(v.T @ u).item()
---
sum(1 for x in v if x > 0.2)
---
sum(len(x) for x in [v, u])
---
max([v, u], key=lambda x: x[0])
---
min(range(3), key=lambda i: u[i])
---
[*v[:2], s]
---
[*range(2), 5]
---
{"a": 1} | {"b": 2} == {"a": 1, "b": 2}
---
np.array([v.min(), v.max()])
---
np.array(v).reshape(v.shape[0], -1)
---
np.array_equal(a.shape, (3, 2))
---
a.shape == (3, 2)
---
(v.shape[0],) + (2,)
---
np.zeros(v.shape + (2,)) + 1
---
np.zeros((*v.shape, 2)) + 1
---
np.empty_like(v) * 0 + 1
---
def acc_N(x, out=[]):
    out.append(x)
    return len(out)
###
acc_N(v)
return acc_N(u)
---
class K_N:
    items = []

    def add(self, x):
        self.items.append(x)
###
p, q = K_N(), K_N()
p.add(v)
q.add(u)
return len(p.items)
---
MEMO_N = {}


def f_N(x):
    if "p" not in MEMO_N:
        MEMO_N["p"] = x * 2
    return MEMO_N["p"]
###
f_N(v)
return f_N(u)
---
COUNT_N = 0


def f_N():
    global COUNT_N
    COUNT_N += 1
    return COUNT_N
###
f_N()
return f_N()
---
class K_N:
    n = 0

    def __init__(self):
        K_N.n += 1
###
K_N()
K_N()
return K_N.n - (K_N.n - 2)
---
class K_N:
    def __init__(self, x):
        self.x = x

    @functools.cached_property
    def twice(self):
        return self.x * 2
###
p = K_N(v)
y = p.twice
p.x = u
return [y, p.twice]
---
class K_N:
    def __init__(self, x):
        self.x = x

    @functools.lru_cache(maxsize=None)
    def twice(self, n):
        return self.x * n
###
p = K_N(v)
y = p.twice(2)
p.x = u
return [y, p.twice(2), p.twice(3)]
---
x = v
def f():
    return x * 2
x = u
return f()
---
fs = [lambda: i * s for i in range(3)]
return fs[0]()
---
fs = [lambda i=i: i * s for i in range(3)]
return fs[0]()
---
q = 3.0
def f(x, w=q):
    return x * w
q = 5.0
return f(v)
---
class M_N:
    def __enter__(self):
        self.x = 2.0
        return self

    def __exit__(self, *args):
        self.x = 5.0
        return False
###
m = M_N()
with m as c:
    y = c.x
return [y, m.x]
---
class K_N:
    def __init__(self):
        self._d = {}

    def __getitem__(self, key):
        return self._d[key]

    def __setitem__(self, key, val):
        self._d[key] = val

    def __len__(self):
        return len(self._d)

    def __contains__(self, key):
        return key in self._d

    def __iter__(self):
        return iter(self._d)

    def __call__(self, x):
        return x * 2
###
q = K_N()
q["a"] = v
return [q["a"], len(q), "a" in q, "b" in q, q(u), [x for x in q]]
---
class K_N:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return self.x == o.x

    def __bool__(self):
        return self.x > 100

    def __mul__(self, o):
        return K_N(self.x * o)

    __rmul__ = __mul__

    def __neg__(self):
        return K_N(-self.x)
###
return [K_N(1) == K_N(1), K_N(1) != K_N(2), 1 if K_N(3) else 0, (2 * K_N(s)).x, (-K_N(s)).x]
---
class K_N:
    def __getattr__(self, name):
        return name + "!"
###
return K_N().foo
---
class K_N:
    __slots__ = ("x",)
    def __init__(self, x):
        self.x = x
###
return K_N(v).x
---
class K_N:
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)
###
return K_N(p=v).p
---
class K_N:
    def __init__(self, **kwargs):
        for key, val in kwargs.items():
            setattr(self, key, val)
###
return K_N(p=v, q=u).q
---
x = {"a": 1}
y = x
y["b"] = 2
return len(x)
---
x = [[0] * 2] * 2
x[0][0] = 1
return x[1][0]
---
x = [[0] * 2 for _ in range(2)]
x[0][0] = 1
return x[1][0]
---
x = a
y = x.T
y[0, 0] = 5.0
return a
---
x = v.reshape(1, 3)
x[0, 0] = 5.0
return v
---
x = np.asarray(v)
x[0] = 5.0
return v
---
x = np.array(v)
x[0] = 5.0
return v
---
x = v.ravel()
x[0] = 5.0
return v
---
x = v.flatten()
x[0] = 5.0
return v
---
x = np.atleast_1d(v)
x *= 2
return v
---
x = np.squeeze(v)
x += 1
return v
---
x = v[[0, 1]]
x[0] = 7.0
return v
---
x = v[v > -9]
x[0] = 7.0
return v
---
x = v.astype(float)
x[0] = 7.0
return v
---
x = v.astype(float, copy=False)
x[0] = 7.0
return v
---
x = np.array(v, copy=False)
x[0] = 7.0
return v
---
x = np.broadcast_to(v, (2, 3)).copy()
x[0, 0] = 7.0
return [x, v]
---
x, y = a[:, 0], a[:, 1]
x += y
return a
---
x = np.split(v, 3)[0]
x[0] = 7.0
return v
---
x = a.diagonal() if False else a.reshape(-1)
x[0] = 7.0
return a
---
for row in a:
    row *= 2
return a
---
for x in v:
    x *= 2
return v
---
for x in a.T:
    x[:] = 0
return a
---
x = list(a)
x[0][0] = 9.0
return a
---
x = dict(p=v)
x["p"][0] = 9.0
return v
---
def f(x):
    x = x + 1
    return x
f(v)
return v
---
def f(x):
    x += 1
    return x
f(v)
return v
---
y = v
y = y * 2
return v
---
np.random.seed
x = v.copy()
np.copyto(x, u)
return x
---
x = np.zeros(3)
x[:] = v
return x
---
x = np.zeros(3)
x[...] = v
return x
---
x = np.zeros(3, dtype=int)
x[0] = 2.7
return x
---
np.array([1, 2]) / 2
---
x = np.array([1, 2, 3])
x[0] = 9.9
return x
---
x = np.arange(3)
x[1] = 0.7
return x
---
x = np.full(3, 1)
x[0] = 0.5
return x
---
x = np.full((2,), 1.0)
x[0] = 0.5
return x
---
x = np.ones(3, dtype=int) * 0.5
return x
---
x = np.zeros_like(np.array([1, 2]))
x[0] = 0.5
return x
---
x = np.array([1, 2, 3])
x += 1
return x
---
np.array([1, 2, 3]) // 2
---
np.array([True, False]).sum()
---
np.array([1, 2, 3]).mean()
---
3 / 2
---
-7 // 2
---
-7 % 3
---
2 ** -1
---
int(-2.7)
---
round(2.5)
---
round(3.14159, 2)
---
int("3") + float("2.5")
---
abs(-3)
---
str(k).zfill(3)
---
f"{s:.3f}" == "%.3f" % s
---
f"{k:05d}"
---
"%05d_%s" % (k, "x")
---
"update{0:05d}/{1}".format(k, "p")
---
"a,b".split(",")[1]
---
"abc"[1:]
---
"  a ".strip()
---
"a_b".rsplit("_", 1)[0]
---
"eval_x"[len("eval_"):]
---
"x".join(str(i) for i in range(3))
---
sorted(["b", "a"])
---
sorted({"b": 1, "a": 2})
---
[n for n in ["b", "a"] if n.startswith("a")]
---
"a" + "b" * 2
---
"a" < "b"
---
"p.txt".endswith((".txt", ".csv"))
---
{"a", "b"} | {"c"} == {"a", "b", "c"}
---
sorted({"a", "b"} - {"a"})
---
{"a"} <= {"a", "b"}
---
set(["a"]).issubset({"a", "b"})
---
x = set()
x.add("a")
x.add("a")
return len(x)
---
(1, 2) + (3,)
---
(1, 2) == (1, 2)
---
[1, 2] == [1, 3]
---
(1, 2) < (1, 3)
---
1 < k <= 2 < 5
---
None or v
---
0 or 5
---
[] or [1]
---
k if k else 0
---
x = 5 if k > 1 else 6
return x
---
isinstance(k, int)
---
isinstance(k, (float, np.floating))
---
isinstance("a", str)
---
isinstance(None, str)
---
isinstance((1,), (list, tuple))
---
isinstance(np.float64(1), float)
---
isinstance(v[0], float)
---
np.isscalar(v[0])
---
type(k) is int
---
callable(np.sum)
---
v.ndim == 1 and v.shape == u.shape
---
hasattr([], "append")
---
x = [1, 2, 3]
x[1:] = [5]
return x
---
x = [1, 2, 3]
return x.index(2)
---
[1, 2, 2].count(2)
---
x = [1, 2]
x.clear()
return len(x)
---
x = [3, 1]
y = sorted(x)
return [x, y]
---
x = [1, 2, 3]
x.remove(2)
return x
---
x = {"b": 1, "a": 2}
return list(x)
---
x = {"a": 1}
return [x.get("b"), x.get("a"), x.get("b", 3)]
---
x = {"a": 1}
return x.pop("b", 7)
---
x = {"a": 1, "b": 2}
del x["a"]
return len(x)
---
x = {"a": 1}
y = dict(x, b=2)
return [len(x), y["b"]]
---
x = {(0, "a"): v}
return x[(0, "a")]
---
x = {k: v}
return x[2]
---
x = {n: i for i, n in enumerate("ab")}
return x["b"]
---
x = OrderedDict()
x["a"] = v
return x["a"]
---
try:
    x = {"a": 1}["b"]
except KeyError:
    x = 5
return x
---
try:
    x = [1][3]
except IndexError:
    x = 5
return x
---
try:
    x = int("q")
except ValueError:
    x = 5
return x
---
x = 1
try:
    x = 2
finally:
    x = 3
return x
---
try:
    y = v + r[:1]
except Exception:
    y = None
else:
    y = y * 2
return y
---
def f():
    try:
        return 1
    finally:
        pass
return f()
---
def f():
    for x in [1, 2, 3]:
        if x == 2:
            return x
return f()
---
def f():
    if s > 1e9:
        return 1
return f() is None
---
x = 0
while True:
    x += 1
    if x > 3:
        break
return x
---
n = 0
for i in range(10):
    if i % 2:
        continue
    n += i
return n
---
n = 0
for i in range(k):
    for j in range(3):
        if j > i:
            break
        n += 1
return n
---
out = np.zeros(3)
for i in range(3):
    out[i] = v[i] if v[i] > u[i] else u[i]
return out
---
x = v[0]
for y in v[1:]:
    if y > x:
        x = y
return x
---
out = []
for x, y in zip(v, u):
    if x > y:
        out.append(x)
    else:
        out.append(y)
return np.array(out)
---
t = 0.0
out = []
for x in v:
    t += x
    out.append(t)
return np.array(out)
---
x = np.zeros((3, 2))
for i in range(1, 3):
    x[i] = x[i - 1] + a[i]
return x
---
x = [s]
for i in range(3):
    x.append(x[-1] * 2 + v[i])
return x
---
n = len(v)
return np.array([v[n - 1 - i] for i in range(n)])
---
np.array([[v[i] * u[j] for j in range(len(u))] for i in range(len(v))])
---
np.array([max(x, 0.1) for x in v])
---
np.array([x if x > 0.1 else 0.1 for x in v])
---
np.array([a[i, :] * v[i] for i in range(len(v))])
---
np.sum([v[i] * a[i] for i in range(3)], axis=0)
---
sum([v[i] * a[i] for i in range(3)])
---
np.concatenate([a[:, j] for j in range(2)])
---
np.concatenate([a[:, j] * 2 for j in range(a.shape[1])])
---
np.hstack([a[:, j] for j in range(a.shape[1])])
---
np.vstack([a[:, j] for j in range(a.shape[1])])
---
np.array([a[:, j] for j in range(a.shape[1])]).T
---
np.column_stack([a[:, j] for j in range(a.shape[1])])
---
a[np.arange(3) > 0]
---
a[np.arange(3) != 1, :]
---
v[np.arange(3) % 2 == 0]
---
a[k]
---
v[-k]
---
v[:-1]
---
v[-2:]
---
v[:k]
---
v[k:]
---
a[:k, 1:]
---
v[None]
---
a[:, 0:1]
---
a[1][0]
---
v[0:3:2]
---
v[2:0:-1]
---
v[int(k)]
---
v[np.int64(1)]
---
v[np.argmax(v)]
---
x = a.T @ a
np.fill_diagonal(x, [1.0, 2.0])
return x
---
x = a.T @ a
np.fill_diagonal(x, r)
return x
---
x = a.T @ a
np.fill_diagonal(x, np.minimum(np.diag(x), r))
return x
---
x = a.T @ a
x[np.diag_indices(2)] = r
return x
---
x = a.T @ a
x[np.diag_indices_from(x)] += 1.0
return x
---
x = a.T @ a
i = np.arange(2)
x[i, i] = r
return x
---
x = a.T @ a
x.flat[::3] = 7.0
return x
---
x = a.T @ a
d = np.einsum("ii->i", x)
return d * 2
---
x = np.eye(2)
x[x == 1] = s
return x
---
np.where(np.eye(2, dtype=bool), a.T @ a, 0.0)
---
np.sum(a, axis=(0, 1))
---
np.sum(a, axis=-1, keepdims=True)
---
a.sum(axis=0, keepdims=True)
---
a / a.sum(axis=1, keepdims=True)
---
np.max(a, axis=1, keepdims=True)
---
a.max(axis=0, keepdims=True)
---
np.mean(a, axis=0, keepdims=True)
---
np.linalg.norm(a, axis=1)
---
np.linalg.norm(a, axis=1, keepdims=True)
---
np.linalg.norm(v, ord=1)
---
np.linalg.norm(v, np.inf)
---
np.linalg.norm(a)
---
np.linalg.norm(a, "fro")
---
np.minimum(v, s)
---
np.maximum.accumulate(v)
---
np.minimum.reduce([v, u])
---
np.add.accumulate(v)
---
np.cumprod(v)
---
np.cumsum(a, axis=1)
---
np.cumsum(a)
---
a.cumsum(0)
---
np.diff(a, axis=0)
---
np.diff(v, n=2)
---
np.diff(v, prepend=0.0)
---
np.diff(v, append=v[-1])
---
np.ediff1d(v)
---
np.gradient(v, 0.5)
---
np.gradient(v, np.array([0.0, 0.5, 1.5]))
---
np.gradient(a, np.array([0.0, 0.5, 1.5]), axis=0)
---
np.gradient(a, axis=0)
---
np.interp([0.5, 1.5], [0.0, 1.0, 2.0], v)
---
np.interp(0.25, np.arange(3), v)
---
np.interp([-1.0, 5.0], np.arange(3), v, left=0.0, right=9.0)
---
np.einsum("ij,j->i", a, r)
---
np.einsum("ij,ij->j", a, a)
---
np.einsum("i,ij->ij", v, a)
---
np.einsum("ij,jk->ik", a, b)
---
np.einsum("i,i", v, u)
---
np.tensordot(a, b, axes=1)
---
np.vdot(v, u)
---
np.inner(a, a)
---
np.multiply.outer(v, r)
---
np.subtract.outer(v, u)
---
np.linalg.multi_dot([a, b, a])
---
np.linalg.matrix_power(a.T @ a, 2)
---
np.linalg.solve(a.T @ a, r)
---
np.linalg.inv(a.T @ a) @ r
---
np.linalg.pinv(a)
---
np.linalg.lstsq(a, v, rcond=None)[0]
---
np.linalg.eigvalsh(a.T @ a).max()
---
np.linalg.slogdet(a.T @ a)[1]
---
np.trace(a.T @ a)
---
np.diag(r)
---
np.diag(v, k=1).shape
---
np.diagflat(v)
---
np.tri(3)
---
np.tril(a.T @ a)
---
np.triu(a.T @ a, 1)
---
np.atleast_2d(v)
---
np.atleast_2d(v).T
---
np.atleast_1d(s)
---
np.r_[v, u]
---
np.r_[v, 1.0]
---
np.r_[0.0, v[1:]]
---
np.c_[v, u]
---
np.c_[a, v]
---
np.concatenate((v, [s]))
---
np.concatenate([a, a], axis=1)
---
np.concatenate([a, a], axis=None)
---
np.append(a, v[:, None], axis=1)
---
np.append(v, 1.0)
---
np.insert(v, 0, s)
---
np.insert(v, 1, [1.0, 2.0])
---
np.delete(v, 0)
---
np.delete(v, [0, 2])
---
np.delete(a, 1, axis=0)
---
np.pad(v, (1, 2))
---
np.pad(v, 1, mode="edge")
---
np.pad(v, (0, 2), constant_values=s)
---
np.pad(a, ((1, 0), (0, 0)))
---
np.repeat(v, 2)
---
np.repeat(v, [1, 0, 2])
---
np.repeat(a, 2, axis=0)
---
np.repeat(v[None, :], 2, axis=0)
---
np.tile(v, 2)
---
np.tile(v, (2, 1))
---
np.tile(a, (1, 2))
---
np.broadcast_to(v[:, None], (3, 2))
---
np.broadcast_to(s, (2, 2))
---
np.roll(v, 1)
---
np.roll(a, 1, axis=0)
---
np.flip(v)
---
np.flip(a, axis=1)
---
v[::-1]
---
a[::-1, ::-1]
---
np.rot90(a)
---
np.swapaxes(a, 0, 1)
---
np.moveaxis(a, 0, 1)
---
np.expand_dims(v, 0)
---
np.expand_dims(v, -1)
---
np.squeeze(a[:, :1])
---
a[:, :1].squeeze(axis=1)
---
np.reshape(a, -1)
---
a.reshape(2, -1)
---
a.reshape((2, 3), order="F")
---
a.ravel(order="F")
---
a.flatten("F")
---
np.take(v, [2, 0])
---
np.take(a, 1, axis=1)
---
np.take_along_axis(v, np.array([1, 0, 2]), axis=0)
---
np.put(v, [0], 5.0)
return v
---
np.choose([0, 1, 0], [v, u])
---
np.select([v > 0, v <= 0], [v, -v])
---
np.select([v > 100.0], [v], default=s)
---
np.where(v > u, v, u)
---
np.where(v > 0)[0].size
---
np.clip(v, None, 0.5)
---
np.clip(v, 0.1, 0.5)
---
v.clip(min=0.2)
---
v.clip(max=0.2)
---
np.clip(a, a_min=[0.1, 0.2], a_max=None)
---
np.sort(v)[::-1]
---
np.argsort(-v)
---
np.argsort(v)[::-1][:2]
---
np.argsort(np.argsort(v))
---
v[np.argsort(v)]
---
np.argpartition(v, 1)[:1]
---
np.partition(v, 1)[0]
---
np.lexsort((v,))
---
np.unique([3.0, 1.0, 3.0])
---
np.searchsorted([0.0, 1.0, 2.0], 1.5)
---
np.searchsorted([0.0, 1.0, 2.0], 1.0, side="right")
---
np.digitize([0.5, 1.5], [0.0, 1.0])
---
np.median(v)
---
np.percentile(v, 50)
---
np.quantile(v, 0.25)
---
np.std(v)
---
np.std(v, ddof=1)
---
np.var(a, axis=0)
---
np.cov(a.T)
---
np.cov(a, rowvar=False)
---
np.cov(a, rowvar=False, bias=True)
---
np.cov(a.T, aweights=[0.2, 0.3, 0.5], ddof=0)
---
np.average(a, axis=0, weights=[0.2, 0.3, 0.5])
---
np.average(v, weights=np.abs(u))
---
np.average(a, 0)
---
np.ma.average(a, axis=0, weights=[0.2, 0.3, 0.5])
---
np.ptp(v)
---
np.ptp(a, axis=0)
---
np.nanmax(v)
---
np.nansum(v)
---
np.nanmean(a, axis=0)
---
np.amax(a, 0)
---
np.argmax(v)
---
np.argmin(a, axis=0)
---
v.argmax()
---
np.unravel_index(3, (2, 2))
---
np.count_nonzero(v > 0.7)
---
np.sum(v > 0.7)
---
(v > 0.7).mean()
---
np.any(v > 0.7, axis=0)
---
np.all(a > -100, axis=1)
---
np.allclose(v, v + 1e-12)
---
np.isclose(v, u)
---
np.array_equal(v, v.copy())
---
np.linspace(0, 1, 3, endpoint=False)
---
np.linspace(v[0], v[1], 4)
---
np.linspace(v, u, 3)
---
np.linspace(0, 1, num=5)[1:]
---
np.linspace(0, 1, 3, retstep=True)[1]
---
np.arange(0, 1, 0.25)
---
np.arange(3) * s
---
np.arange(3.0)
---
np.arange(1, 4)[::-1]
---
np.logspace(0, 1, 3)
---
np.geomspace(1, 4, 3)
---
np.meshgrid(v, r)[0]
---
np.meshgrid(v, r, indexing="ij")[1]
---
np.mgrid[0:2, 0:3][0]
---
np.indices((2, 2))[1]
---
np.stack(np.meshgrid(v, r, indexing="ij"), axis=-1).reshape(-1, 2)
---
np.array(np.meshgrid(v, r)).T.reshape(-1, 2)
---
np.vstack([v, u]).T
---
np.vstack((a, r))
---
np.hstack((v, s))
---
np.hstack([a, a])
---
np.column_stack([v, u])
---
np.column_stack((a, v))
---
np.dstack([v, u]).shape
---
np.kron(r, v)
---
np.outer(v, r)
---
np.polyval([1.0, 2.0, 3.0], v)
---
np.poly1d([1.0, 2.0])(s)
---
np.polyfit([0.0, 1.0, 2.0], v, 2)
---
np.convolve(v, [0.5, 0.5])
---
np.convolve(v, [0.5, 0.5], mode="same")
---
np.cross([1.0, 0.0, 0.0], v)
---
np.float_power(np.abs(v), 2)
---
np.power(v, 2)
---
np.square(v) + np.sqrt(np.abs(v)) + np.cbrt(v)
---
np.exp2(v)
---
np.expm1(v) + np.log1p(np.abs(v))
---
np.log2(np.abs(v)) + np.log10(np.abs(v))
---
np.reciprocal(v)
---
np.sign(v) * np.abs(v)
---
np.copysign(1.0, v)
---
np.fabs(v)
---
np.hypot(v, u)
---
np.arctan2(v, u)
---
np.degrees(v) - np.rad2deg(v)
---
np.radians(v)
---
np.sinh(v) + np.cosh(v)
---
np.floor_divide(v, 0.5)
---
np.mod(v, 0.5)
---
np.fmod(v, 0.5)
---
np.remainder(v, 1.0)
---
v % 0.3
---
v // 0.3
---
np.divmod(v, 0.3)[1]
---
np.round(v, 2)
---
np.around(v, 1)
---
v.round(1)
---
np.rint(v)
---
np.trunc(v * 3)
---
np.fix(v * 3)
---
np.ceil(v * 3).astype(int)
---
np.floor(v * 3).astype(int)
---
(v * 3).astype(int)
---
np.int64(2.7)
---
int(2.7) + int(-2.7)
---
np.divide(v, u, out=np.zeros_like(v), where=u != 0)
---
np.multiply(v, u, out=v)
return v
---
np.add(v, 1.0, out=v)
return v
---
x = np.empty_like(v)
np.subtract(v, u, out=x)
return x
---
x = np.zeros(3)
x[1:] += v[1:]
return x
---
x = v.copy()
x[x < 0.8] = 0.0
return x
---
x = v.copy()
x[x < 0.8] *= 2
return x
---
x = np.zeros((3, 2))
x[:, 0], x[:, 1] = v, u
return x
---
x = np.zeros((3, 2))
x[...] = a
return x
---
x = np.zeros((3, 2))
x[:] = r
return x
---
x = np.zeros((3, 2))
x.fill(s)
return x
---
x = np.zeros((3, 2))
x.T[0] = v
return x
---
x = np.zeros(6)
x.reshape(3, 2)[:] = a
return x
---
x = np.zeros(6)
x.reshape(3, 2)[:, 1] = v
return x
---
x = np.zeros((3, 2))
x.ravel()[0] = 3.0
return x
---
x = np.zeros((3, 2))
x.flatten()[0] = 3.0
return x
---
x = a
x += 1
return a
---
x = a
x = x + 1
return a
---
x = v[1:]
x *= 2
return v
---
x = v[[1, 2]]
x *= 2
return v
---
x = a.T
x[0] = 5.0
return a
---
x = np.asarray(v)
x[0] = 5.0
return v
---
x = np.array(v)
x[0] = 5.0
return v
---
x = np.atleast_1d(v)
x[0] = 5.0
return v
---
x = np.atleast_2d(v)
x[0, 0] = 5.0
return v
---
x = v.reshape(-1, 1)
x[0] = 5.0
return v
---
x = np.squeeze(v[None])
x[0] = 5.0
return v
---
x = v.ravel()
x[0] = 5.0
return v
---
x = np.ascontiguousarray(v)
x[0] = 5.0
return v
---
x = v.astype(float)
x[0] = 5.0
return v
---
x = v.view()
x[0] = 5.0
return v
---
x = np.broadcast_to(v, (2, 3)).copy()
x[0, 0] = 1.0
return x
---
x = a[0]
y = a[0].copy()
x[:] = 0
return y
---
x, y = a.T
x[0] = 4.0
return a
---
for row in a:
    row *= 2
return a
---
for i, row in enumerate(a):
    row[0] = i
return a
---
x = [v, v]
x[0][0] = 9.0
return x[1]
---
x = [np.zeros(2)] * 2
x[0][0] = 1.0
return x[1]
---
x = [np.zeros(2) for _ in range(2)]
x[0][0] = 1.0
return x[1]
---
v.tolist()
---
sum(v.tolist())
---
list(map(float, v))
---
[float(x) for x in v]
---
np.array([x for x in v if x > 0.7]).size
---
np.array(list(zip(v, u)))
---
np.array([v, u]).mean(axis=0)
---
np.array([[1, 2], [3, 4]]) / 2
---
np.array([1, 2, 3])[1] / 2
---
np.array([1, 2, 3], dtype=float) / 2
---
np.zeros(3, dtype=int) + 0.5
---
x = np.zeros(3, dtype=int)
x[0] = 1.7
return x
---
x = np.array([1, 2, 3])
x[0] = 1.7
return x
---
x = np.arange(3)
x[0] = 1.7
return x
---
x = np.ones_like([1, 2, 3])
x[0] = 1.7
return x
---
x = np.full(3, 1)
x[0] = 1.7
return x
---
x = np.full(3, 1.0)
x[0] = 1.7
return x
---
x = np.zeros_like(v)
x[0] = 1.7
return x
---
np.shape(a)[1] + np.ndim(a) + np.size(a)
---
len(a) + a.ndim + a.size
---
a.shape == (3, 2)
---
a.T.shape
---
v.size == len(v)
---
v.dot(u)
---
a.dot(r)
---
b.dot(a)
---
(a @ r).shape
---
(v[:, None] * r[None, :]).shape
---
np.apply_along_axis(lambda x: x * 2, 1, a)
---
np.apply_along_axis(np.sum, 0, a)
---
np.vectorize(lambda x: x * 2)(v)
---
np.fromiter((x for x in v), float)
---
np.nan_to_num(v)
---
np.isnan(v).any()
---
np.isfinite(v).all()
---
np.isscalar(s) + np.isscalar(v)
---
np.finfo(float).eps > 0
---
np.spacing(1.0) > 0
---
np.heaviside(v, 0.5)
---
np.unwrap(v)
---
np.histogram([0.1, 0.9], bins=2)[0]
---
np.bincount([0, 1, 1])
---
np.triu_indices(2)[0]
---
(a.T @ a)[np.triu_indices(2)]
---
np.ones(3) @ a
---
np.ones((1, 3)) @ a @ r
---
(v * u).sum() / v.size
---
v @ np.diag(u) @ v
---
a.T * v
---
(a.T * v) @ a
---
np.linalg.cholesky(a.T @ a + np.eye(2))
---
np.abs(v).max()
---
max(v) - min(v)
---
sorted(v)[0]
---
sorted([3, 1, 2], reverse=True)
---
sorted(range(3), key=lambda i: v[i])
---
sum(x * y for x, y in zip(v, u))
---
sum((a[i] for i in range(3)), np.zeros(2))
---
np.sum([a[i] for i in range(3)], axis=0)
---
any(x > 0 for x in v)
---
all(x > -100 for x in v)
---
next(i for i, x in enumerate(v) if x > -100)
---
next((i for i, x in enumerate([1, 2, 3]) if x > 1), None)
---
max(range(3), key=lambda i: v[i])
---
min(enumerate(v), key=lambda p: p[1])[0]
---
list(reversed([1, 2, 3]))
---
list(range(5))[1::2]
---
[*range(3)] + [v[0]]
---
{**{"a": 1}, "b": 2}["b"]
---
dict(a=1, b=s)["b"]
---
dict(zip(["a", "b"], [v, u]))["b"]
---
{k: x for k, x in zip("ab", (v, u))}["a"]
---
x = {"a": v}
x.update(b=u)
return x["b"]
---
x = {"a": v}
y = x.pop("a")
return (y, len(x))
---
x = {"a": 1}
return x.get("b", s)
---
x = {"a": 1}
return x.setdefault("b", s)
---
x = [1, 2, 3]
x.insert(0, 5)
x.remove(2)
x.reverse()
return x
---
x = [1, 2, 3]
del x[0]
return x
---
x = [3, 1, 2]
x.sort()
return x
---
x = [1, 2]
y = x
y += [3]
return x
---
x = (1, 2)
y = x
y += (3,)
return x
---
x = [1, 2, 3]
y = x[:]
y[0] = 9
return x
---
x = [1, 2, 3]
y = x.copy()
y.append(9)
return len(x)
---
x, *y = [1, 2, 3]
return y
---
x = y = np.zeros(2)
x[0] = 1
return y
---
x = 1 if s > -100 else 2
return x
---
x = s and 0
return x
---
x = None or s
return x
---
not s == s
---
1 < 2 < 3
---
x = 0
while x < 3:
    x += 1
return x
---
x = 0
for i in range(3, 0, -1):
    x = 10 * x + i
return x
---
x = 0
for i in range(10):
    if i == 3:
        break
    x += i
return x
---
x = 0
for i in range(4):
    if i % 2:
        continue
    x += v[i // 2]
return x
---
x = []
for i in range(3):
    x = x + [v[i] ** i]
return np.array(x)
---
f"{2:03d}"
---
"a" + str(2)
---
"%d" % 3
---
"{}-{}".format(1, "b")
---
"_".join(["a", "b"])
---
import math
return math.exp(s) + math.sqrt(2) + math.floor(1.5) + math.pi
---
import math
return math.isclose(1.0, 1.0 + 1e-12)
---
import math
return math.hypot(s, 1.0) + math.pow(2, 3) + math.fsum([1, s])
---
import itertools
return list(itertools.product([1, 2], [3, 4]))
---
import itertools
return list(itertools.chain([1], [2, 3]))
---
import itertools
return np.array(list(itertools.accumulate([1, 2, 3])))
---
import operator
return operator.mul(s, 2)
---
from copy import copy
x = copy(v)
x[0] = 3.0
return v
---
from collections import namedtuple
P = namedtuple("P", ["x", "y"])
p = P(v, y=s)
return p.x * p.y
---
from dataclasses import dataclass
@dataclass
class Q:
    x: float
    y: float = 2.0
q = Q(s)
return q.x * q.y
---
rows = [(s, 2 * s)]
x = s
for d in v:
    x = x + d
    rows.append((x, d))
p, q = zip(*rows)
return np.array(p) - 2 * np.array(q)
---
rows = [(x, y) for x, y in zip(v, u)]
p, q = zip(*rows)
return np.array(p) - 2 * np.array(q)
---
p, q = zip(*[(row, 2 * row) for row in a])
return np.vstack(p) + np.vstack(q)
---
p, q = map(np.array, zip(*[(row, 2 * row) for row in a]))
return p + q
---
t = [(1.0, 2.0), (3.0, s)]
return [list(c) for c in zip(*t)]
---
w = slice(1, 3)
return v[w] + a[w, 0]
---
w = slice(k)
return [v[w], a[w]]
---
w = slice(None, None, 2)
return v[w]
---
w = slice(1, None)
v[w] = 0.0
return v
---
np.s_[1:]
return v[np.s_[1:]]
---
np.ptp(a, axis=0)
---
np.ptp(v)
---
a.ptp(1) if hasattr(a, "ptp") else np.ptp(a, 1)
---
t = 0.0
for i in itertools.count(1):
    if i > 3:
        break
    t = t + i * s
return t
---
for i in itertools.count():
    if i >= 2:
        return v[i]
---
for i in itertools.count(2, -1):
    if i == 1:
        continue
    if i < 0:
        return u[0]
---
t = []
for i, x in zip(itertools.count(1), [s, 2.0]):
    t.append(i * x)
return t
---
t = []
for x, i in zip([s, 2.0], itertools.count()):
    t.append(i * x)
return t
---
while True:
    return s
"""

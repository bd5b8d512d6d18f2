"""numpy functions written with the modelled ones"""
import numpy as np


def average(a, axis=None, weights=None):
    a = np.asarray(a)
    if weights is None:
        return np.mean(a, axis)
    w = np.asarray(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1 or w.shape[0] != a.shape[axis]:
            raise TypeError("weights")
        s = [1] * a.ndim
        s[axis] = w.shape[0]
        w = w.reshape(s) + np.zeros(a.shape)
    return np.sum(a * w, axis) / np.sum(w, axis)


def _scan(f, a, axis):
    a = np.asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.swapaxes(a, 0, axis)
    out = []
    for x in b:
        out.append(x if not out else f(out[-1], x))
    return np.swapaxes(np.array(out), 0, axis)


def cumprod(a, axis=None):
    return _scan(lambda x, y: x * y, a, axis)


def accumulate(f, a, axis=0):
    return _scan(f, a, axis)


def at(f, a, ix, *b):
    """unbuffered: repeated indices act repeatedly; index arrays along the first axis"""
    if b:
        v = np.broadcast_to(np.asarray(b[0]), np.shape(a[np.asarray(ix)]))
        for i, x in zip(np.asarray(ix).reshape(-1), v):
            a[i] = f(a[i], x)
    else:
        for i in np.asarray(ix).reshape(-1):
            a[i] = f(a[i])


def positive(x):
    return np.array(x)


def float_power(x, y):
    return np.power(np.asarray(x) * 1., y)


def trunc(x):
    x = np.asarray(x)
    return np.where(x < 0, np.ceil(x), np.floor(x))


def divmod_(x, y):
    return np.floor_divide(x, y), np.mod(x, y)


def logical_xor(x, y):
    return (np.asarray(x) != 0) != (np.asarray(y) != 0)


def compress(c, a, axis=None):
    a = np.asarray(a)
    i = np.nonzero(np.asarray(c))[0]
    return np.take(a, i, axis) if axis is not None else np.take(a.reshape(-1), i)


def extract(c, a):
    return compress(np.asarray(c).reshape(-1), np.asarray(a).reshape(-1))


def choose(c, choices):
    c = np.asarray(c)
    r = choices[0]
    for n in range(1, len(choices)):
        r = np.where(c == n, choices[n], r)
    return r + np.zeros(c.shape)


def take_along_axis(a, ix, axis):
    if axis is None:
        return np.asarray(a).reshape(-1)[ix]
    a, ix = np.asarray(a), np.asarray(ix)
    g = list(np.indices(ix.shape))
    g[axis] = ix
    return a[tuple(g)]


def isin(x, y, assume_unique=False, invert=False):
    x, y = np.asarray(x), np.asarray(y)
    r = (x[..., None] == y.reshape(-1)).any(-1)
    return ~r if invert else r


def in1d(x, y, assume_unique=False, invert=False):
    return isin(np.asarray(x).reshape(-1), y, assume_unique, invert)


def broadcast_shapes(*s):
    return np.broadcast_arrays(*[np.zeros(x) for x in s])[0].shape


def _block(x, d):
    if isinstance(x, list):
        return np.concatenate([_block(y, d - 1) for y in x], axis=-d)
    return x


def block(x):
    d, y = 0, x
    while isinstance(y, list):
        d, y = d + 1, y[0]

    def grow(z):
        if isinstance(z, list):
            return [grow(q) for q in z]
        z = np.asarray(z)
        while z.ndim < max(d, 1):
            z = z[None]
        return z
    return _block(grow(x), d)


def insert(a, i, v, axis=None):
    a = np.asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    if not isinstance(i, int):
        np.sa_undecided()
    n = a.shape[axis]
    if i < -n or i > n:
        raise IndexError("index out of bounds")
    i = i % n if i < 0 else i
    b = np.swapaxes(a, 0, axis)
    v = np.asarray(v)
    if v.ndim == a.ndim and a.ndim > 1:
        v = np.swapaxes(v, 0, axis)
    elif v.ndim == 1 and a.ndim == 1:
        pass
    else:
        v = np.broadcast_to(v, b.shape[1:])[None]
    return np.swapaxes(np.concatenate([b[:i], v, b[i:]]), 0, axis)


def array_split(a, s, axis=0, _strict=False):
    a = np.asarray(a)
    n = a.shape[axis]
    if isinstance(s, int):
        if _strict and n % s:
            raise ValueError("array split does not result in an equal division")
        q, r = n // s, n % s
        ends = [0]
        for j in range(s):
            ends.append(ends[-1] + q + (1 if j < r else 0))
    else:
        ends = [0] + [int(j) for j in s] + [n]
    b = np.swapaxes(a, 0, axis)
    return [np.swapaxes(b[p:e], 0, axis) for p, e in zip(ends[:-1], ends[1:])]


def split(a, s, axis=0):
    return array_split(a, s, axis, True)


def hsplit(a, s):
    return split(a, s, 1 if np.ndim(a) > 1 else 0)


def vsplit(a, s):
    return split(a, s, 0)


def dsplit(a, s):
    return split(a, s, 2)


def rot90(m, k=1, axes=(0, 1)):
    m = np.asarray(m)
    for _ in range(k % 4):
        m = np.flip(np.swapaxes(m, axes[0], axes[1]), axes[0])
    return m


def tri(n, m=None, k=0):
    return np.tril(np.ones((n, n if m is None else m)), k)


def diag_indices(n, ndim=2):
    return (np.arange(n),) * ndim


def fill_diagonal(a, v):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v if np.ndim(v) == 0 else v[i]


def ndindex(*s):
    if len(s) == 1 and isinstance(s[0], tuple):
        s = s[0]
    out = [()]
    for n in s:
        out = [x + (j,) for x in out for j in range(n)]
    return iter(out)


def ndenumerate(a):
    a = np.asarray(a)
    return iter([(i, a[i]) for i in ndindex(a.shape)])


def unravel_index(i, shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    out = []
    for n in shape[::-1]:
        out.append(i % n)
        i = i // n
    return tuple(out[::-1])


def ravel_multi_index(ix, shape):
    r = 0
    for i, n in zip(ix, shape):
        r = r * n + i
    return r


def matrix_power(m, n):
    m = np.asarray(m)
    if n < 0:
        m, n = np.linalg.inv(m), -n
    r = np.eye(m.shape[-1])
    for _ in range(n):
        r = np.matmul(r, m)
    return r


def multi_dot(l):
    r = l[0]
    for x in l[1:]:
        r = np.dot(r, x)
    return r


def slogdet(m):
    d = np.linalg.det(m)
    return np.sign(d), np.log(np.abs(d))


def isreal(x):
    return np.imag(x) == 0


def copysign(x, y):
    return np.where(np.asarray(y) < 0, -np.abs(x), np.abs(x))


def heaviside(x, h):
    x = np.asarray(x)
    return np.where(x < 0, 0., np.where(x > 0, 1., h))


def convolve(a, v, mode="full"):
    if mode != "full":
        np.sa_undecided()
    r = np.zeros(len(a) + len(v) - 1)
    for i in range(len(v)):
        r[i:i + len(a)] += np.asarray(a) * v[i]
    return r


def trapz(y, x=None, dx=1., axis=-1):
    y = np.asarray(y)
    n = y.shape[axis]
    y = np.moveaxis(y, axis, -1)
    d = dx if x is None else np.diff(np.asarray(x))
    return np.sum(d * (y[..., 1:] + y[..., :-1]) / 2., -1)


def apply_along_axis(f, axis, a, *args, **kw):
    a = np.asarray(a)
    b = np.moveaxis(a, axis, -1)
    r = [f(b[i], *args, **kw) for i in ndindex(b.shape[:-1])]
    s = np.shape(r[0])
    r = np.array(r).reshape(b.shape[:-1] + s)
    for j in range(len(s)):
        r = np.moveaxis(r, b.ndim - 1 + j, (axis % a.ndim) + j)
    return r


def fromfunction(f, shape, dtype=float, **kw):
    return f(*np.indices(shape) * (1 if dtype is int else 1.), **kw)


def piecewise(x, conds, vals):
    x = np.asarray(x)
    r = np.zeros(x.shape)
    if len(vals) == len(conds) + 1:
        o = vals[-1]
        r = r + (o(x) if callable(o) else o)
    for c, v in zip(conds, vals):
        r = np.where(c, v(x) if callable(v) else v, r)
    return r


def nansum(x, axis=None):
    return np.sum(np.where(np.isnan(x), 0., x), axis)


def copyto(dst, src, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = np.where(where, src, dst)


def put(a, ix, v):
    i = np.asarray(ix).reshape(-1)
    v = np.asarray(v).reshape(-1)
    for j in range(len(i)):
        a[unravel_index(int(i[j]), a.shape)] = v[j % len(v)]


def putmask(a, m, v):
    if np.ndim(v):
        np.sa_undecided()
    a[...] = np.where(m, v, a)


def pad(a, w, mode="constant", constant_values=0):
    if mode != "constant" or np.ndim(constant_values):
        np.sa_undecided()
    a = np.asarray(a)
    w = np.broadcast_to(np.asarray(w), (a.ndim, 2))
    r = np.zeros([int(n + x[0] + x[1]) for n, x in zip(a.shape, w)]) + constant_values
    r[tuple([slice(int(x[0]), int(x[0]) + n) for n, x in zip(a.shape, w)])] = a
    return r


def kron(a, b):
    a, b = np.asarray(a), np.asarray(b)
    n = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (n - a.ndim) + a.shape)
    b = b.reshape((1,) * (n - b.ndim) + b.shape)
    r = np.multiply.outer(a, b)
    r = np.transpose(r, [j // 2 + (n if j % 2 else 0) for j in range(2 * n)])
    return r.reshape([int(x * y) for x, y in zip(a.shape, b.shape)])


def setdiff1d(a, b):
    a = np.unique(a)
    return a[~in1d(a, b)]


def union1d(a, b):
    return np.unique(np.concatenate([np.ravel(a), np.ravel(b)]))


def intersect1d(a, b):
    a = np.unique(a)
    return a[in1d(a, b)]


def polyadd(p, q):
    n = max(len(p), len(q))
    return np.concatenate([np.zeros(n - len(p)), p]) + np.concatenate([np.zeros(n - len(q)), q])


def linspace_axis(lo, hi, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    r = np.linspace(lo, hi, num, endpoint)
    return np.moveaxis(r, 0, axis)


def meshgrid_sparse(*x, **kw):
    n = len(x)
    out = []
    for i, v in enumerate(x):
        s = [1] * n
        s[i] = len(v)
        out.append(np.asarray(v).reshape(s))
    if kw.get("indexing", "xy") == "xy" and n > 1:
        out = [np.swapaxes(v, 0, 1) for v in out]
    return out


def matrix_norm1(x, o, axis=None):
    x = np.asarray(x)
    if x.ndim != 1 and axis is None:
        np.sa_undecided()
    if o == 1:
        return np.sum(np.abs(x), axis)
    if o == np.inf:
        return np.max(np.abs(x), axis)
    if o == -np.inf:
        return np.min(np.abs(x), axis)
    np.sa_undecided()


class broadcast(object):
    def __init__(self, *a):
        self.shape = broadcast_shapes(*[np.shape(x) for x in a])
        self.ndim = self.nd = len(self.shape)
        self.size = np.prod(self.shape)


class MaskedArray:
    """numpy.ma: entries divided by zero are masked, take no part in sums and keep the numerator's data"""
    __slots__ = ["data", "mask"]

    def __init__(self, data, mask):
        self.data = data
        self.mask = mask

    def __getattr__(self, name):
        np.sa_undecided()

    @property
    def shape(self):
        return self.data.shape

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def ndim(self):
        return self.data.ndim

    @property
    def T(self):
        return MaskedArray(self.data.T, self.mask.T)

    def __len__(self):
        return len(self.data)

    def transpose(self, *a):
        return MaskedArray(self.data.transpose(*a), self.mask.transpose(*a))

    def reshape(self, *a):
        return MaskedArray(self.data.reshape(*a), self.mask.reshape(*a))

    def ravel(self):
        return MaskedArray(self.data.ravel(), self.mask.ravel())

    def copy(self):
        return MaskedArray(self.data.copy(), self.mask.copy())

    def filled(self, v=None):
        if v is None:
            np.sa_undecided()
        return np.where(self.mask, v, self.data)

    def sum(self, axis=None):
        z = np.where(self.mask, 0., self.data)
        if axis is None:
            return z.sum()
        return MaskedArray(np.asarray(z.sum(axis)), np.asarray(self.mask.all(axis)))

    def __getitem__(self, k):
        return MaskedArray(np.asarray(self.data[k]), np.asarray(self.mask[k]))

    def __neg__(self):
        return MaskedArray(-self.data, self.mask)

    def __pow__(self, p):
        if isinstance(p, MaskedArray) or not p > 0:
            np.sa_undecided()
        return MaskedArray(self.data**p, self.mask)

    def __add__(self, o):
        return _ma2(lambda x, y: x + y, self, o)

    def __radd__(self, o):
        return _ma2(lambda x, y: x + y, o, self)

    def __sub__(self, o):
        return _ma2(lambda x, y: x - y, self, o)

    def __rsub__(self, o):
        return _ma2(lambda x, y: x - y, o, self)

    def __mul__(self, o):
        return _ma2(lambda x, y: x*y, self, o)

    def __rmul__(self, o):
        return _ma2(lambda x, y: x*y, o, self)

    def __truediv__(self, o):
        return _madiv(self, o)

    def __rtruediv__(self, o):
        return _madiv(o, self)


def _parts(x):
    if isinstance(x, MaskedArray):
        return x.data, x.mask
    x = np.asarray(x)
    return x, np.zeros(x.shape, dtype=bool)


def _ma2(f, x, y):
    a, p = _parts(x)
    b, q = _parts(y)
    r = f(a, b)
    m = np.broadcast_to(p | q, r.shape)
    return MaskedArray(np.where(m, np.broadcast_to(a, r.shape), r), m)


def _madiv(x, y):
    a, p = _parts(x)
    b, q = _parts(y)
    m = p | q | (b == 0)
    r = a/np.where(b == 0, 1., b)
    m = np.broadcast_to(m, r.shape)
    return MaskedArray(np.where(m, np.broadcast_to(a, r.shape), r), m)


def ma_array(data, dtype=None, copy=False, mask=False):
    if isinstance(data, MaskedArray):
        d, m = data.data, data.mask
    else:
        d = np.array(data) if dtype is None else np.array(data, dtype)
        m = np.zeros(d.shape, dtype=bool)
    return MaskedArray(d, m | np.broadcast_to(np.asarray(mask), d.shape))


def ma_where(c, data):
    return ma_array(data, mask=c)


def ma_equal(data, v):
    return ma_array(data, mask=np.asarray(data) == v)


def ma_data(x):
    return x.data if isinstance(x, MaskedArray) else np.asarray(x)

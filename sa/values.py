"""Abstract values of the analysis."""
from __future__ import annotations
from . import terms as T
from .terms import Node, const, lift


class AnalysisError(Exception):
    """a construct the analysis has no transfer function for"""


class NeedConcrete(AnalysisError):
    """a loop or container that has no size-parametric summary: the caller
    retries with container sizes instantiated from a finite domain"""


class Dead(Exception):
    """the current abstract path ended (return, raise, break, continue)"""


class _Sentinel(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


UNBOUND = _Sentinel("unbound")
POISON = _Sentinel("poison")
NOTIMPL = _Sentinel("NotImplemented")


class Choice(object):
    """gamma value over values that have no common scalar sort"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Choice(%s, %r, %r)" % (T.show(self.c, 2), self.a, self.b)


class Slice(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Range(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lift(lo), lift(hi), lift(step)

    def length(self):
        s = self.step
        if T.isconst(s) and T.cval(s) == 1:
            d = T.sub(self.hi, self.lo)
        elif T.isconst(s) and T.cval(s) == -1:
            d = T.sub(self.lo, self.hi)
        elif T.isconst(s) and T.cval(s) > 0:
            d = T.floordiv(T.add(T.sub(self.hi, self.lo), T.cval(s) - 1), s)
        elif T.isconst(s) and T.cval(s) < 0:
            k = -T.cval(s)
            d = T.floordiv(T.add(T.sub(self.lo, self.hi), k - 1), k)
        else:
            raise NeedConcrete("range step")
        if T.isconst(d):
            return const(max(0, T.cval(d)))
        if d.op in ("atom", "var", "fmlen") or nonneg(d):
            return d
        return T.fn("max", d, const(0))

    def at(self, k):
        return T.add(self.lo, T.mul(self.step, k))


def nonneg(n, depth=6):
    """syntactically non-negative integer"""
    if T.isconst(n):
        return T.cval(n) >= 0
    if n.op in ("var", "fmpos", "fmlen"):
        return n.sort == "i"
    if n.op == "atom":
        return n.sort == "i" and (n.x[2] is None or n.x[2][0] >= 0)
    if depth <= 0:
        return False
    if n.op in ("add", "mul"):
        return all(nonneg(a, depth - 1) for a in n.args)
    if n.op in ("floordiv", "mod"):
        return nonneg(n.args[0], depth - 1) and nonneg(n.args[1], depth - 1)
    if n.op == "ite":
        return all(nonneg(a, depth - 1) for a in n.args[1:])
    if n.op == "fn" and n.x == "max":
        return any(nonneg(a, depth - 1) for a in n.args)
    if n.op == "fn" and n.x == "min":
        return all(nonneg(a, depth - 1) for a in n.args)
    if n.op == "let":
        return nonneg(n.args[1], depth - 1)
    if n.op == "pow":
        return n.x % 2 == 0 or nonneg(n.args[0], depth - 1)
    return False


class Seg(object):
    """length many values; elem: node -> value"""
    __slots__ = ("len", "elem")

    def __init__(self, length, elem):
        self.len, self.elem = lift(length), elem


def item(v):
    return Seg(const(1), lambda k: v)


class PList(object):
    """mutable list; heap cell (self, 'v') is a tuple of Seg"""
    kind = "list"

    def __repr__(self):
        return "<list %x>" % id(self)


class PSet(PList):
    kind = "set"


class PDict(object):
    """heap cell (self, 'v'): python dict key -> value (insertion order)"""

    def __repr__(self):
        return "<dict %x>" % id(self)


class Cls(object):
    def __init__(self, name, bases, ns, module=None, native=None):
        self.name, self.bases, self.ns, self.module = name, tuple(bases), ns, module
        self.native = native
        self.mro = self._mro()

    def _mro(self):
        # C3
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while any(seqs):
            for s in seqs:
                if not s:
                    continue
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError("mro")
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class PObj(object):
    """instance; fields in heap cells (self, name)"""

    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Fam(object):
    """a family of objects indexed by nodes; fields are heap cells
    (fam, name): function of the index tuple"""

    def __init__(self, name, cls, init):
        self.name, self.cls, self.init = name, cls, init
        self.members = {}

    def at(self, *idx):
        k = tuple(lift(i) for i in idx)
        r = self.members.get(k)
        if r is None:
            r = self.members[k] = FamObj(self, k)
        return r


class FamObj(object):
    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx
        self.cls = fam.cls

    def __repr__(self):
        return "<%s[%s]>" % (self.fam.name, ",".join(T.show(i, 2) for i in self.idx))


class Frame(object):
    def __init__(self, parent, module, func=None):
        self.parent, self.module, self.func = parent, module, func
        self.captured = False
        self.globals = set()
        self.nonlocals = set()


class Module(object):
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.loaded = False

    def __repr__(self):
        return "<module %s>" % self.name


class Func(object):
    def __init__(self, name, node, frame, module, defaults, kwdefaults, cls=None):
        self.name, self.node, self.frame, self.module = name, node, frame, module
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.isgen = None
        self.cm = False
        self.attrs = {}
        self.locals = None

    def __repr__(self):
        return "<function %s.%s>" % (self.module.name, self.name)


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Prop(object):
    def __init__(self, get, set_=None):
        self.get, self.set = get, set_


class ClassMethod(object):
    def __init__(self, func):
        self.func = func


class StaticMethod(object):
    def __init__(self, func):
        self.func = func


class Builtin(object):
    """fn(interp, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class NS(object):
    """native namespace or object: get(name) -> value or None"""

    def __init__(self, name, table=None, fallback=None, call=None):
        self.name, self.table, self.fallback = name, table or {}, fallback
        self.call = call

    def get(self, name):
        if name in self.table:
            return self.table[name]
        if self.fallback is not None:
            return self.fallback(name)
        return None

    def __repr__(self):
        return "<ns %s>" % self.name


class Vars(object):
    """the dictionary of an object's attributes"""

    def __init__(self, obj):
        self.obj = obj


def unbound_in(v):
    if isinstance(v, Choice):
        return unbound_in(v.a) or unbound_in(v.b)
    return v is UNBOUND


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class CM(object):
    """contextmanager call"""

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Dtype(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __repr__(self):
        return "dtype(%s)" % self.name


# --------------------------------------------------------------- arrays


class El(object):
    """memoised element function of an array: tuple of index nodes -> node"""
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def __call__(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.fn(idx)
            if not isinstance(r, Node):
                r = lift(r)
            self.memo[idx] = r
        return r


class Buf(object):
    n = 0

    def __init__(self, shape, dt, name=None):
        self.shape, self.dt = tuple(lift(s) for s in shape), dt
        self.name = name
        self.noalias = None   # reason why a write cannot be modelled
        Buf.n += 1
        self.id = Buf.n

    def __repr__(self):
        return "<buf %s>" % (self.name or self.id)


class Arr(object):
    """view of a buffer: maps has one entry per buffer axis, either
    ('c', node) or ('a', view axis, start node, step int)"""

    def __init__(self, buf, shape=None, maps=None, matrix=False):
        self.buf = buf
        self.shape = tuple(lift(s) for s in (buf.shape if shape is None else shape))
        if maps is None:
            maps = tuple(("a", i, const(0), 1) for i in range(len(self.shape)))
        self.maps = maps
        self.matrix = matrix

    @property
    def dt(self):
        return self.buf.dt

    @property
    def ndim(self):
        return len(self.shape)

    def bidx(self, idx):
        out = []
        for m in self.maps:
            if m[0] == "c":
                out.append(m[1])
            else:
                k = idx[m[1]]
                if m[3] != 1:
                    k = T.mul(const(m[3]), k)
                out.append(T.add(m[2], k))
        return tuple(out)

    def whole(self):
        return (len(self.shape) == len(self.buf.shape) and
                all(m[0] == "a" and m[1] == i and m[2] is T.const(0) and m[3] == 1
                    for i, m in enumerate(self.maps)) and
                all(a is b for a, b in zip(self.shape, self.buf.shape)))

    def __repr__(self):
        return "<array %s %s>" % (self.buf, [T.show(s, 2) for s in self.shape])


class Snap(object):
    """immutable array expression"""
    __slots__ = ("shape", "fn", "dt")

    def __init__(self, shape, fn, dt):
        self.shape = tuple(lift(s) for s in shape)
        self.fn = fn if isinstance(fn, El) else El(fn)
        self.dt = dt

    @property
    def ndim(self):
        return len(self.shape)

    def __call__(self, *idx):
        return self.fn(tuple(lift(i) for i in idx))

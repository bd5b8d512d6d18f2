"""Value graph nodes and their algebraic value numbers.

A Node is a hash-consed scalar of the (gated SSA) value graph of the analysed
source.  Two nodes denote the same value iff their value numbers agree.  Value
numbers live in GF(p)[i] (p = 2^61-1, p = 3 mod 4, so i = sqrt(-1) exists there
and every element of GF(p) has a square root): a node's number under one
random labelling of the graph's leaves is computed bottom up; operators of the
ring are interpreted, every other operator is a hash of its operands' numbers
(random interpretation, Gulwani & Necula).  Equal terms always agree; unequal
terms disagree except with probability ~ depth/p per labelling.
"""
from __future__ import annotations
import math
import sys
import hashlib
from fractions import Fraction

sys.setrecursionlimit(200000)

# a prime with -1 a non-residue and every prime up to 113 a residue: "is a
# square" is multiplicative like a sign and right for smooth numbers
P = 2226691479440107679
HALF = P // 2

# ------------------------------------------------------------------ nodes


class Node(object):
    __slots__ = ("op", "args", "x", "sort", "nid", "fv", "loc", "__weakref__")
    table = {}
    count = 0
    curloc = None

    def __repr__(self):
        return show(self, 3)

    def __bool__(self):
        raise TypeError("truth value of a symbolic node %s" % (self,))

    __eq__ = object.__eq__
    __hash__ = object.__hash__


EMPTY = frozenset()


def mk(op, args, x=None, sort="r", fv=None):
    key = (op, tuple(a.nid for a in args), x, sort)
    n = Node.table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.x, n.sort = op, tuple(args), x, sort
        n.nid = Node.count
        Node.count += 1
        n.loc = Node.curloc
        if fv is None:
            fv = EMPTY
            for a in args:
                if a.fv:
                    fv = fv | a.fv
        n.fv = fv
        Node.table[key] = n
    return n


def const(v):
    """v: bool, int, Fraction, or a hashable opaque (str, None, ...)"""
    if isinstance(v, Node):
        return v
    if isinstance(v, bool):
        return mk("const", (), ("b", v), "b")
    if isinstance(v, int):
        return mk("const", (), ("i", v), "i")
    if isinstance(v, Fraction):
        return mk("const", (), ("r", v), "r")
    if isinstance(v, float):
        if v != v:
            return mk("fn", (), "nan", "r")
        if v in (float("inf"), float("-inf")):
            return mk("const", (), ("inf", 1 if v > 0 else -1), "r")
        return mk("const", (), ("r", frac(v)), "r")
    if isinstance(v, complex):
        return add(const(v.real), mul(const(v.imag), I))
    return mk("const", (), ("o", v), "o")


def frac(v):
    return Fraction(repr(v))


TRUE = const(True)
FALSE = const(False)
I = mk("imagunit", (), None, "r")
PI = mk("atom", (), ("pi", "r", None), "r")
INF = const(float("inf"))


def isconst(n):
    return n.op == "const" and n.x[0] in "bir"


def cval(n):
    """python value of a constant node (int, Fraction, bool)"""
    return n.x[1]


def lift(v):
    if isinstance(v, Node):
        return v
    return const(v)


def atom(name, sort="r", idx=(), rng=None):
    return mk("atom", tuple(lift(i) for i in idx), (name, sort, rng), sort)


_fresh = [0]


def var(name="i", sort="i"):
    _fresh[0] += 1
    n = mk("var", (), (name, _fresh[0]), sort)
    n.fv = frozenset((n,))
    return n


def rsort(a, b):
    return "i" if a.sort in "ib" and b.sort in "ib" else "r"


def _num(n):
    v = n.x[1]
    return int(v) if isinstance(v, bool) else v


def add(a, b):
    a, b = lift(a), lift(b)
    if isconst(a) and isconst(b):
        r = _num(a) + _num(b)
        return const(r) if rsort(a, b) == "i" else const(Fraction(r))
    s = rsort(a, b)
    for u, v in ((a, b), (b, a)):
        if isconst(u) and v.op == "const" and v.x[0] == "inf":
            return v
    if isconst(a) and a.x[1] == 0 and b.sort == s:
        return b
    if isconst(b) and b.x[1] == 0 and a.sort == s:
        return a
    if s == "i" and isconst(b) and a.op == "add" and isconst(a.args[1]):
        return add(a.args[0], const(cval(a.args[1]) + cval(b)))
    if s == "i" and isconst(a):
        return add(b, a)
    return mk("add", (a, b), None, s)


def neg(a):
    a = lift(a)
    if a.op == "const" and a.x[0] == "inf":
        return const(float("-inf") if a.x[1] > 0 else float("inf"))
    return mul(const(-1), a)


def sub(a, b):
    a, b = lift(a), lift(b)
    if isconst(b):
        return add(a, const(-_num(b)))
    if a is b and a.sort == "i":
        return const(0)
    if a.sort == "i" and a.op == "add" and a.args[0] is b:
        return a.args[1]
    return add(a, neg(b))


def mul(a, b):
    a, b = lift(a), lift(b)
    s = rsort(a, b)
    if isconst(a) and isconst(b):
        r = _num(a) * _num(b)
        return const(r) if s == "i" else const(Fraction(r))
    for u, v in ((a, b), (b, a)):
        if isconst(u) and v.op == "const" and v.x[0] == "inf":
            return mk("const", (), ("inf", v.x[1] if _num(u) > 0 else -v.x[1]), "r") if _num(u) else const(float("nan"))
        if isconst(u):
            if _num(u) == 0:
                return const(0) if s == "i" else const(Fraction(0))
            if _num(u) == 1 and v.sort == s:
                return v
    if isconst(b) and not isconst(a):
        a, b = b, a
    if isconst(a) and b.op == "mul" and isconst(b.args[0]):
        return mul(mul(a, b.args[0]), b.args[1])
    return mk("mul", (a, b), None, s)


def div(a, b):
    a, b = lift(a), lift(b)
    if isconst(b) and _num(b) != 0:
        return mul(const(Fraction(1) / Fraction(_num(b))), a)
    if isconst(b):
        return mk("fn", (a,), "div0", "r")
    return mk("div", (a, b), None, "r")


def floordiv(a, b):
    a, b = lift(a), lift(b)
    if isconst(a) and isconst(b) and _num(b) != 0 and rsort(a, b) == "i":
        return const(_num(a) // _num(b))
    if rsort(a, b) == "i":
        if isconst(b) and cval(b) == 1:
            return a
        if a.op == "mul":
            if isconst(a.args[0]) and isconst(b) and cval(a.args[0]) % cval(b) == 0:
                return mul(const(cval(a.args[0]) // cval(b)), a.args[1])
            if a.args[0] is b:
                return a.args[1]
            if a.args[1] is b:
                return a.args[0]
        return mk("floordiv", (a, b), None, "i")
    return mk("fn", (a, b), "floordiv", "r")


def mod(a, b):
    a, b = lift(a), lift(b)
    if isconst(a) and isconst(b) and _num(b) != 0 and rsort(a, b) == "i":
        return const(_num(a) % _num(b))
    if rsort(a, b) == "i":
        if isconst(b) and cval(b) == 1:
            return const(0)
        return mk("mod", (a, b), None, "i")
    return mk("fn", (a, b), "mod", "r")


def power(a, b):
    a, b = lift(a), lift(b)
    if isconst(a) and isconst(b):
        x, y = _num(a), _num(b)
        if isinstance(y, Fraction) and y.denominator == 1:
            r = Fraction(x) ** int(y) if (x != 0 or y >= 0) else None
            if r is not None:
                return const(r)
        elif isinstance(y, int):
            if y >= 0:
                return const(x ** y)
            if x != 0:
                return const(Fraction(x) ** y)
    if isconst(b):
        e = Fraction(_num(b))
        if e == 1 and (a.sort == "r" or b.sort == "i"):
            return a
        if e.denominator in (1, 2):
            s = "i" if a.sort == "i" and b.sort == "i" and e >= 0 else "r"
            return mk("pow", (a,), e, s)
    return mk("powg", (a, b), None, "i" if rsort(a, b) == "i" else "r")


def fn(name, *args, sort="r"):
    args = tuple(lift(a) for a in args)
    if name == "sqrt":
        return power(args[0], const(Fraction(1, 2)))
    if name in ("real", "imag", "conj") and isconst(args[0]):
        return const(Fraction(0)) if name == "imag" else args[0]
    if name == "abs" and isconst(args[0]):
        return const(abs(_num(args[0])))
    if name == "abs":
        sort = "i" if args[0].sort in "ib" else "r"
    if name in ("min", "max") :
        if all(isconst(a) for a in args):
            f = min if name == "min" else max
            return const(f(_num(a) for a in args))
        if len(set(args)) == 1:
            return args[0]
        sort = "i" if all(a.sort in "ib" for a in args) else "r"
    return mk("fn", args, name, sort)


def to_real(a):
    a = lift(a)
    if a.sort == "r" or a.sort == "o":
        return a
    if isconst(a):
        return const(Fraction(_num(a)))
    return mk("toreal", (a,), None, "r")


# ---- booleans


def not_(a):
    a = lift(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), None, "b")


def and_(a, b):
    a, b = lift(a), lift(b)
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if not_(a) is b:
        return FALSE
    return mk("and", (a, b), None, "b")


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        if isconst(a) and isconst(b):
            return const(bool(_num(a) == _num(b)))
        return const(a.x == b.x)
    if a.sort == "i" and b.sort == "i":
        # x + c1 == x + c2, x == x + c
        if b.op == "add" and b.args[0] is a and isconst(b.args[1]):
            return FALSE
        if a.op == "add" and a.args[0] is b and isconst(a.args[1]):
            return FALSE
    if a.nid > b.nid:
        a, b = b, a
    return mk("eq", (a, b), None, "b")


def lt(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return FALSE
    if isconst(a) and isconst(b):
        return const(bool(_num(a) < _num(b)))
    if a.op == "const" and b.op == "const" and a.x[0] in "bir" + "inf" and b.x[0] in "bir" + "inf":
        rank = lambda n: n.x[1] if n.x[0] == "inf" else 0
        return const(bool(rank(a) < rank(b)))
    return mk("lt", (a, b), None, "b")


def le(a, b):
    return not_(lt(b, a))


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "b" and b.sort == "b":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    s = a.sort if a.sort == b.sort else ("o" if "o" in (a.sort, b.sort) else
                                         ("i" if a.sort in "ib" and b.sort in "ib" else "r"))
    return mk("ite", (c, a, b), None, s)


def truth(n):
    n = lift(n)
    if n.sort == "b":
        return n
    if n.op == "const":
        return const(bool(n.x[1]))
    if n.sort in "ir":
        return not_(eq(n, const(0)))
    return mk("fn", (n,), "truth", "b")


# ---- binders


def sum_(v, n, body):
    """sum of body for v = 0 .. n-1"""
    n, body = lift(n), lift(body)
    if isconst(n):
        k = int(cval(n))
        if k <= 0:
            return const(Fraction(0)) if body.sort == "r" else const(0)
        if k == 1:
            return let(v, const(0), body)
    if v not in body.fv:
        return mul(n, body) if body.sort == "i" else mul(to_real(n), body)
    return mk("sum", (n, body), v, body.sort, fv=n.fv | (body.fv - {v}))


def quant(kind, v, n, body):
    """kind 'all' or 'any'"""
    if v not in body.fv and kind == "all":
        return or_(eq(n, 0), body)
    if v not in body.fv and kind == "any":
        return and_(not_(eq(n, 0)), body)
    return mk(kind, (lift(n), body), v, "b", fv=lift(n).fv | (body.fv - {v}))


def let(v, val, body):
    val, body = lift(val), lift(body)
    if v not in body.fv or val is v:
        return body
    if body is v:
        return val
    return mk("let", (val, body), v, body.sort, fv=val.fv | (body.fv - {v}))


class Loop(object):
    """state components: (idxvars, init node, body node, sort)"""
    n = 0

    def __init__(self, ivar, name=""):
        self.ivar = ivar
        self.comps = []
        self.name = name
        Loop.n += 1
        self.id = Loop.n
        self.count = None
        self.fv = EMPTY
        self.nodes = []

    def close(self):
        fv = EMPTY
        for (vs, init, body, sort) in self.comps:
            fv |= (init.fv - set(vs)) | (body.fv - set(vs) - {self.ivar})
        self.fv = fv
        for n in self.nodes:
            n.fv = n.fv | fv


_loops = {}


def loopst(loop, comp, t, idx, sort):
    t = lift(t)
    idx = tuple(lift(i) for i in idx)
    n = mk("loopst", (t,) + idx, (loop.id, comp), sort)
    _loops[loop.id] = loop
    n.fv = n.fv | loop.fv
    loop.nodes.append(n)
    return n


class Packed(object):
    """array argument of an uninterpreted call: binder form"""
    n = 0

    def __init__(self, shape, vs, body):
        self.shape, self.vs, self.body = tuple(lift(s) for s in shape), tuple(vs), lift(body)
        Packed.n += 1
        self.id = Packed.n
        fv = self.body.fv - set(self.vs)
        for s in self.shape:
            fv |= s.fv
        self.fv = fv


_packs = {}


def packnode(p):
    n = mk("pack", (), p.id, "o", fv=p.fv)
    _packs[p.id] = p
    return n


def call(name, args, idx=(), sort="o"):
    """uninterpreted: element idx of result of name(args); args nodes"""
    return mk("call", tuple(lift(a) for a in args) + tuple(lift(i) for i in idx),
              (name, len(args)), sort)


class FlatMap(object):
    """for i in range(n): emit segments; segments are (kind, lennode)"""
    n = 0

    def __init__(self, ivar, count, seglens):
        self.ivar, self.count, self.seglens = ivar, lift(count), [lift(s) for s in seglens]
        FlatMap.n += 1
        self.id = FlatMap.n
        fv = self.count.fv
        for s in self.seglens:
            fv = fv | (s.fv - {ivar})
        self.fv = fv
        _fms[self.id] = self


_fms = {}


def fmlen(fm, upto=None):
    t = lift(fm.count if upto is None else upto)
    if all(isconst(s) for s in fm.seglens):
        return mul(t, const(sum(cval(s) for s in fm.seglens)))
    n = mk("fmlen", (t,), fm.id, "i", fv=t.fv | fm.fv)
    return n


def fmpos(fm, j, what):
    """what: 'i' iteration, 's' segment, 'k' position inside the segment"""
    j = lift(j)
    if len(fm.seglens) == 1 and fm.seglens[0] is const(1):
        return {"i": j, "s": const(0), "k": const(0)}[what]
    return mk("fmpos", (j,), (fm.id, what), "i", fv=j.fv | fm.fv)


# ------------------------------------------------------------- display


def show(n, depth=4):
    if n.op == "const":
        return str(n.x[1])
    if n.op == "atom":
        s = n.x[0]
        return s + ("[%s]" % ",".join(show(a, depth - 1) for a in n.args) if n.args else "")
    if n.op == "var":
        return "%s%d" % n.x
    if depth <= 0:
        return "..."
    a = [show(i, depth - 1) for i in n.args]
    if n.op == "add":
        return "(%s + %s)" % tuple(a)
    if n.op == "mul":
        return "%s*%s" % tuple(a)
    if n.op == "div":
        return "%s/%s" % tuple(a)
    if n.op == "pow":
        return "%s**%s" % (a[0], n.x)
    if n.op in ("fn", "call"):
        return "%s(%s)" % (n.x if n.op == "fn" else n.x[0], ", ".join(a))
    return "%s(%s)" % (n.op, ", ".join(a))


# -------------------------------------------------------------- numbers
# elements of GF(p)[i]: python int, or (re, im) with im != 0; bools and ints of
# sort i are exact python ints; opaque values are ("o", hash) tuples of strings


class Special(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


PINF, MINF = Special("+inf"), Special("-inf")


def _h(*parts):
    m = hashlib.blake2b(repr(parts).encode(), digest_size=16)
    return int.from_bytes(m.digest(), "big")


def cpx(a, b):
    a %= P
    b %= P
    return a if b == 0 else (a, b)


def parts(v):
    return v if type(v) is tuple else (v, 0)


def fnum(v):
    """into the field"""
    if type(v) is int:
        return v % P
    if type(v) is bool:
        return int(v)
    if type(v) is tuple and len(v) == 2 and type(v[0]) is int:
        return v
    if isinstance(v, Fraction):
        return v.numerator * pow(v.denominator, P - 2, P) % P
    return _h("num", key(v)) % P


def fadd(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) % P
    a, b = parts(a), parts(b)
    return cpx(a[0] + b[0], a[1] + b[1])


def fmul(a, b):
    if type(a) is int and type(b) is int:
        return a * b % P
    a, b = parts(a), parts(b)
    return cpx(a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def finv(a):
    if type(a) is int:
        return pow(a, P - 2, P)
    n = pow((a[0] * a[0] + a[1] * a[1]) % P, P - 2, P)
    return cpx(a[0] * n, -a[1] * n)


def fpow(a, e):
    if e < 0:
        a, e = finv(a), -e
    if type(a) is int:
        return pow(a, e, P)
    r = 1
    while e:
        if e & 1:
            r = fmul(r, a)
        a = fmul(a, a)
        e >>= 1
    return r


INV = [0] + [pow(k, P - 2, P) for k in range(1, 20)]


def cent(a):
    """signed representative of a real field element"""
    return a - P if a > HALF else a


SMALL = 1 << 15
_small = {}


def small(a):
    """the rational with small numerator and denominator a stands for, if any"""
    if a in _small:
        return _small[a]
    r0, r1, s0, s1 = P, a, 0, 1
    while r1 > SMALL:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    r = None
    if abs(s1) <= SMALL:
        r = Fraction(r1, s1)
    if len(_small) > 200000:
        _small.clear()
    _small[a] = r
    return r


def psign(a):
    """sign of a real field element"""
    if a == 0:
        return 0
    r = small(a)
    if r is not None:
        return 1 if r > 0 else -1
    return 1 if pow(a, (P - 1) // 2, P) == 1 else -1


def fsign(a):
    a0, a1 = parts(a)
    return psign(a0) or psign(a1)


def fpos(a):
    return fsign(a) > 0


def fsqrt(a):
    if a == 0:
        return 0
    if type(a) is int:
        r = pow(a, (P + 1) // 4, P)
        if r * r % P == a:
            return r if psign(r) > 0 else P - r
        r = pow(P - a, (P + 1) // 4, P)
        return cpx(0, r if psign(r) > 0 else P - r)
    # complex square root if it exists
    a0, a1 = a
    n = fsqrt((a0 * a0 + a1 * a1) % P)
    if type(n) is not int:
        return _h("sqrt", a) % P
    h = pow(2, P - 2, P)
    for s in (n, P - n):
        t = (a0 + s) * h % P
        x = fsqrt(t)
        if type(x) is int and x:
            y = a1 * pow(2 * x, P - 2, P) % P
            r = cpx(x, y)
            if fmul(r, r) == a:
                return r if fpos(r) else fmul(P - 1, r)
    return _h("sqrt", a) % P


def key(v):
    if isinstance(v, Special):
        return v.name
    return v


class Unbound(Exception):
    pass


class EvalError(Exception):
    pass


LOOPCAP = 60


def literal(n):
    if n.op == "const" and n.x[0] in "irb":
        return n.x[1]
    return None


def tiny(n, eps=True):
    """0 for the literal zero, +-1 for tiny literals, which are infinitesimal
    against every other magnitude"""
    if n.op != "const" or n.x[0] not in "irb":
        return None
    c = n.x[1]
    if c == 0:
        return 0
    if eps and n.x[0] == "r" and abs(c) < 1e-5:
        return 1 if c > 0 else -1
    return None


class Labelling(object):
    """one labelling of the leaves of the graph; mode 'rand' (field elements),
    'small' (reals from a small set, so that coincidences happen)"""

    def __init__(self, seed, mode="rand", sizes=(1, 3), fixed=None, overrides=None):
        self.seed, self.mode, self.sizes = seed, mode, sizes
        self.memo = {}
        self.angles = {}
        self.fixed = fixed or {}
        self.overrides = overrides or {}
        self.pins = []
        self.eps = False      # tiny literals are infinitesimal

    def atomval(self, n, idx):
        name, sort, rng = n.x
        k = (name,) + tuple(key(i) for i in idx)
        if k in self.overrides:
            return self.overrides[k]
        if name in self.fixed:
            f = self.fixed[name]
            return f(*idx) if callable(f) else f
        if name == "pi":
            return self.pi()
        h = _h(self.seed, k)
        if sort == "r":
            if self.mode == "small":
                return (0, 1, P - 1, 2, 1, 3)[h % 6]
            return h % P
        if sort == "b":
            return bool(h & 1)
        if sort == "i":
            if rng is None:
                lo, hi = self.sizes
            else:
                lo, hi = rng
            return lo + h % max(1, hi - lo + 1)
        return ("o", h)

    def pi(self):
        return (_h(self.seed, "pi") % HALF + 1)**2 % P

    # -- evaluation
    def __call__(self, n, env=None):
        return self.ev(n, env or {})

    def ev(self, n, env):
        if n.op == "const":
            t, v = n.x
            if t == "r":
                return fnum(v)
            if t == "inf":
                return PINF if v > 0 else MINF
            if t == "o":
                return ("o", _h("const", repr(v)))
            return v
        if n.op == "var":
            try:
                return env[n]
            except KeyError:
                raise Unbound(show(n))
        if n.fv:
            try:
                k = (n.nid,) + tuple(sorted((v.nid, key(env[v])) for v in n.fv))
            except KeyError as e:
                raise Unbound(show(e.args[0]))
        else:
            k = n.nid
        r = self.memo.get(k)
        if r is None:
            r = getattr(self, "op_" + n.op)(n, env)
            self.memo[k] = r
        return r

    def num(self, n, env):
        v = self.ev(n, env)
        if type(v) is int and n.sort == "r":
            return v
        return fnum(v)

    def op_atom(self, n, env):
        return self.atomval(n, [self.ev(a, env) for a in n.args])

    def op_imagunit(self, n, env):
        return (0, 1)

    def op_add(self, n, env):
        a, b = n.args
        if n.sort == "i":
            return int(self.ev(a, env)) + int(self.ev(b, env))
        a, b = self.ev(a, env), self.ev(b, env)
        if isinstance(a, Special) or isinstance(b, Special):
            return a if isinstance(a, Special) else b
        return fadd(fnum(a), fnum(b))

    def op_mul(self, n, env):
        a, b = n.args
        a, b = self.ev(a, env), self.ev(b, env)
        if n.sort == "i":
            return int(a) * int(b)
        if isinstance(a, Special) or isinstance(b, Special):
            return _h("infmul", key(a), key(b)) % P
        return fmul(fnum(a), fnum(b))

    def op_div(self, n, env):
        a, b = (fnum(self.ev(i, env)) for i in n.args)
        if b == 0:
            return _h("div0", a) % P
        return fmul(a, finv(b))

    def op_floordiv(self, n, env):
        a, b = (int(self.ev(i, env)) for i in n.args)
        return a // b if b else _h("fdiv0", a) % 7

    def op_mod(self, n, env):
        a, b = (int(self.ev(i, env)) for i in n.args)
        return a % b if b else _h("mod0", a) % 7

    def op_pow(self, n, env):
        a = self.ev(n.args[0], env)
        e = n.x
        if n.sort == "i":
            return int(a) ** int(e)
        a = fnum(a)
        if e.denominator == 2:
            a = fsqrt(a)
            e = e * 2
        e = int(e)
        if a == 0 and e < 0:
            return _h("div0", 1) % P
        return fpow(a, e)

    def op_powg(self, n, env):
        a, b = (self.ev(i, env) for i in n.args)
        if n.args[1].sort == "i" and type(b) is int:
            if n.sort == "i" and b >= 0:
                return int(a) ** b
            a = fnum(a)
            if a == 0 and b < 0:
                return _h("div0", 1) % P
            return fpow(a, b)
        return _h("powg", fnum(a), fnum(b)) % P

    def op_toreal(self, n, env):
        v = self.ev(n.args[0], env)
        return fnum(v)

    def op_not(self, n, env):
        return not self.ev(n.args[0], env)

    def op_and(self, n, env):
        return bool(self.ev(n.args[0], env)) and bool(self.ev(n.args[1], env))

    def same(self, a, b, sa, sb):
        if isinstance(a, Special) or isinstance(b, Special):
            return a is b
        if sa in "irb" and sb in "irb":
            return fnum(a) == fnum(b) if (sa == "r" or sb == "r") else int(a) == int(b)
        return a == b

    def op_eq(self, n, env):
        a, b = n.args
        return self.same(self.ev(a, env), self.ev(b, env), a.sort, b.sort)

    def ordkey(self, v, sort):
        if v is PINF:
            return (1e40, 0)
        if v is MINF:
            return (-1e40, 0)
        if sort in "ib":
            return (int(v), 0)
        if sort == "o":
            return (cent(_h("ord", v) % P), 0)
        a, b = parts(fnum(v))
        return self.size(a) + self.size(b)

    def size(self, v):
        """position of a real element among the reals; the same whatever it is compared with"""
        r = small(v)
        return (self.magnitude(v), psign(v)*(v if psign(v) > 0 else P - v)) if r is None else (r, 0)

    def op_lt(self, n, env):
        a, b = n.args
        if a.sort in "irb" and b.sort in "irb":
            za, zb = tiny(a, self.eps), tiny(b, self.eps)
            if zb is not None and za is None:
                x = self.ev(a, env)
                if not isinstance(x, Special):
                    s = fsign(fnum(x))
                    return s <= 0 if zb > 0 else s < 0
            if za is not None and zb is None:
                x = self.ev(b, env)
                if not isinstance(x, Special):
                    s = fsign(fnum(x))
                    return s >= 0 if za < 0 else s > 0
            for (p, q, k) in ((a, b, 1), (b, a, -1)):
                t = literal(q)
                if t is not None and literal(p) is None:
                    x = self.ev(p, env)
                    if not isinstance(x, Special) and p.sort == "r":
                        v = fnum(x)
                        if type(v) is not tuple and small(v) is None:
                            m = self.magnitude(v)
                            return m < t if k > 0 else t < m
        return self.ordkey(self.ev(a, env), a.sort) < self.ordkey(self.ev(b, env), b.sort)

    def magnitude(self, v):
        """a real number of the element's sign to compare with literals: any
        magnitude from 1e-20 to 1e20"""
        s = psign(v)
        return s*10**((v if s > 0 else P - v)/P*40 - 20.)

    def op_ite(self, n, env):
        c, a, b = n.args
        r = self.ev(a if self.ev(c, env) else b, env)
        if n.sort == "r":
            return r if isinstance(r, Special) else fnum(r)
        if n.sort == "i":
            return int(r)
        return r

    def op_fn(self, n, env):
        name = n.x
        a = [self.ev(i, env) for i in n.args]
        if name == "abs":
            if n.sort == "i":
                return abs(a[0])
            if isinstance(a[0], Special):
                return PINF
            v = fnum(a[0])
            if type(v) is tuple:  # modulus
                return fsqrt((v[0] * v[0] + v[1] * v[1]) % P)
            return v if psign(v) > 0 or not v else P - v
        if name == "isclose" and not any(isinstance(q, Special) for q in a[:2]):
            d, y = fnum(a[0]), fnum(a[1])
            if d == 0:
                return True
            if len(a) == 2 and type(d) is not tuple and type(y) is not tuple:
                d, y = small(d), small(y)
                if d is not None and y is not None:
                    return abs(d) <= Fraction(1, 10**8) + Fraction(1, 10**5)*abs(y)
        if name == "sign":
            if n.args[0].sort == "i":
                return (a[0] > 0) - (a[0] < 0)
            if isinstance(a[0], Special):
                return 1 if a[0] is PINF else P - 1
            v = fsign(fnum(a[0]))
            return 1 if v > 0 else P - 1 if v < 0 else 0
        if name in ("min", "max"):
            if len(a) == 2:
                z = [tiny(q) == 0 for q in n.args]
                if True in z and n.sort == "r" and not isinstance(a[z.index(False) if False in z else 0], Special):
                    v = fnum(a[0] if z[1] else a[1])
                    return v if (fsign(v) > 0) == (name == "max") else 0
            ks = [self.ordkey(v, s.sort) for v, s in zip(a, n.args)]
            k = min(ks) if name == "min" else max(ks)
            v = a[ks.index(k)]
            return int(v) if n.sort == "i" else (v if isinstance(v, Special) else fnum(v))
        if name == "real":
            return parts(fnum(a[0]))[0]
        if name == "imag":
            return parts(fnum(a[0]))[1]
        if name == "conj":
            u, v = parts(fnum(a[0]))
            return cpx(u, -v)
        if name in ("cos", "sin"):
            return self.circle(fnum(a[0]))[name == "sin"]
        if name in ("exp", "cosh", "sinh") and not isinstance(a[0], Special):
            u, w = parts(fnum(a[0]))
            if name == "exp":
                c, s_ = self.circle(w)
                return fmul(self.fexp(u), cpx(c, s_))
            if not w:
                e = self.fexp(u)
                f = finv(e)
                return (e + (f if name == "cosh" else P - f)) * pow(2, P - 2, P) % P
        if name in ("arctan2", "arctan", "arcsin", "arccos") and not any(isinstance(v, Special) for v in a):
            u = fnum(a[0])
            if name == "arctan2":
                return self.atan2(u, fnum(a[1]))
            if name == "arctan":
                return self.atan2(u, 1)
            r = fsqrt(fadd(1, P - fmul(u, u)) % P) if type(u) is int else None
            if type(r) is int:
                return self.atan2(u, r) if name == "arcsin" else self.atan2(r, u)
        if name == "int" :
            if n.args[0].sort == "i":
                return a[0]
            v = fnum(a[0])
            if type(v) is int and (v < 10000 or P - v < 10000):
                return cent(v)
            return _h("int", v) % 5
        h = _h(self.seed, "fn", name, [fnum(v) if s.sort in "irb" and not isinstance(v, Special) else key(v)
                            for v, s in zip(a, n.args)])
        return self.hval(h, n.sort)

    def atan2(self, u, v):
        # odd in the first argument, unchanged by squares (and 2) as common factors
        if u == 0:
            return 0 if v == 0 or fpos(v) else self.pi()
        if v == 0 and type(u) is int:
            h = self.pi() * pow(2, P - 2, P) % P
            return h if fpos(u) else P - h
        q = fmul(u, finv(v)) if v else None
        n = parts(v if v else u)
        n = (n[0] * n[0] + n[1] * n[1]) % P if n[1] else n[0]
        chi = psign(n)
        m = None if q is None else fmul(P - 1, q)
        flip = (chi < 0) if q is None else repr(m) < repr(q)
        h = _h(self.seed, "arctan2", m if flip else q, 0 if q is None else chi) % P
        h = P - h if flip and h else h
        if type(u) is int and type(v) is int:
            self.angles[h] = (v, u)
            self.angles[(P - h) % P] = (v, P - u)
        return h

    def circle(self, v):
        """(cos v, sin v): even and odd, on the unit circle, exact at multiples of pi/4"""
        if v == 0:
            return 1, 0
        q = fmul(fmul(v, finv(fnum(self.ev(PI, {})))), 4)
        if type(q) is int and abs(cent(q)) < 1000:
            q = cent(q) % 8
            r = fsqrt(pow(2, P - 2, P))
            c = [1, r, 0, P - r, P - 1, P - r, 0, r]
            return c[q], c[(q - 2) % 8]
        if type(v) is int and v in self.angles:
            x, y = self.angles[v]
            d = fmul(x, x) + fmul(y, y)
            d = finv(fsqrt(d % P))
            return fmul(x, d), fmul(y, d)
        if type(v) is int:
            # multiples of the arguments of known points
            for k in range(2, 20):
                a = self.angles.get(v * INV[k] % P)
                if a is not None:
                    d = finv(fsqrt((a[0] * a[0] + a[1] * a[1]) % P))
                    x, y = fmul(a[0], d), fmul(a[1], d)
                    if type(x) is not int or type(y) is not int:
                        continue
                    c, t = 1, 0
                    for _ in range(k):
                        c, t = (c * x - t * y) % P, (c * y + t * x) % P
                    return c, t
        w = fmul(P - 1, v)
        flip = repr(w) < repr(v)
        t = _h(self.seed, "circle", w if flip else v) % P
        d = finv((1 + t * t) % P)
        r = 2 * t * d % P
        return (1 - t * t) * d % P, (P - r if flip and r else r)

    def fexp(self, v):
        """exp of a real number: exp(-v) = 1/exp(v)"""
        if v == 0:
            return 1
        w = P - v
        flip = w < v
        h = (_h(self.seed, "exp", w if flip else v) % HALF + 1)**2 % P
        return finv(h) if flip else h

    def hval(self, h, sort):
        if sort == "r":
            return h % P
        if sort == "b":
            return bool(h & 1)
        if sort == "i":
            return h % 4
        return ("o", h)

    def op_sum(self, n, env):
        cnt, body = n.args
        v = n.x
        k = int(self.ev(cnt, env))
        self.checkcount(k)
        env = dict(env)
        if n.sort == "i":
            r = 0
            for i in range(k):
                env[v] = i
                r += int(self.ev(body, env))
            return r
        r = 0
        for i in range(k):
            env[v] = i
            r = fadd(r, fnum(self.ev(body, env)))
        return r

    def checkcount(self, k):
        if k > LOOPCAP:
            raise EvalError("loop count %d" % k)

    def op_all(self, n, env):
        k = int(self.ev(n.args[0], env))
        self.checkcount(k)
        env = dict(env)
        for i in range(k):
            env[n.x] = i
            if not self.ev(n.args[1], env):
                return False
        return True

    def op_any(self, n, env):
        k = int(self.ev(n.args[0], env))
        self.checkcount(k)
        env = dict(env)
        for i in range(k):
            env[n.x] = i
            if self.ev(n.args[1], env):
                return True
        return False

    def op_let(self, n, env):
        env = dict(env)
        env[n.x] = self.ev(n.args[0], env)
        return self.ev(n.args[1], env)

    def op_loopst(self, n, env):
        loop = _loops[n.x[0]]
        t = int(self.ev(n.args[0], env))
        idx = [self.ev(a, env) for a in n.args[1:]]
        return self.state(loop, n.x[1], t, idx, env)

    def state(self, loop, c, t, idx, env):
        vs, init, body, sort = loop.comps[c]
        self.checkcount(t)
        env = dict(env)
        for v, i in zip(vs, idx):
            env[v] = i
        if t <= 0:
            r = self.ev(init, env)
        else:
            # evaluate bottom up to keep the recursion shallow
            env[loop.ivar] = t - 1
            r = self.ev(body, env)
        if sort == "r":
            return r if isinstance(r, Special) else fnum(r)
        if sort == "i":
            return int(r)
        return r

    def op_loopcount(self, n, env):
        """first t at which the continuation condition (component) is false"""
        loop = _loops[n.x[0]]
        for t in range(LOOPCAP + 1):
            if not self.state(loop, n.x[1], t, (), env):
                return t
        raise EvalError("while loop does not end")

    def op_pack(self, n, env):
        p = _packs[n.x]
        shape = [int(self.ev(s, env)) for s in p.shape]
        tot = 1
        for s in shape:
            tot *= max(s, 0)
        if tot > 20000:
            raise EvalError("array too large: %s" % (shape,))
        out = []
        env = dict(env)

        def rec(d):
            if d == len(shape):
                v = self.ev(p.body, env)
                out.append(fnum(v) if p.body.sort in "irb" and not isinstance(v, Special) else key(v))
                return
            for i in range(shape[d]):
                env[p.vs[d]] = i
                rec(d + 1)
        rec(0)
        return ("o", _h("arr", shape, out))

    def op_packc(self, n, env):
        out = []
        for a in n.args:
            v = self.ev(a, env)
            out.append(fnum(v) if a.sort in "irb" and not isinstance(v, Special) else key(v))
        return ("o", _h("arr", list(n.x), out))

    def op_call(self, n, env):
        name, na = n.x
        if name in ("gamma", "spfactorial"):
            v = self.ev(n.args[0], env)
            v = int(v) if isinstance(v, (int, Fraction)) and v == int(v) else -1
            v -= name == "gamma"
            if 0 <= v < 30:
                return math.factorial(v)
        a = []
        for s in n.args:
            v = self.ev(s, env)
            a.append(fnum(v) if s.sort in "irb" and not isinstance(v, Special) else key(v))
        return self.hval(_h(self.seed, "call", name, na, a), n.sort)

    def fmseq(self, fm, env):
        k = ("fm", fm.id) + tuple(sorted((v.nid, key(env[v])) for v in fm.fv))
        r = self.memo.get(k)
        if r is None:
            cnt = int(self.ev(fm.count, env))
            self.checkcount(cnt)
            r = []
            starts = [0]
            e = dict(env)
            for i in range(cnt):
                e[fm.ivar] = i
                for s, ln in enumerate(fm.seglens):
                    for kk in range(int(self.ev(ln, e))):
                        r.append((i, s, kk))
                starts.append(len(r))
            r = (r, starts)
            self.memo[k] = r
        return r

    def op_fmlen(self, n, env):
        fm = _fms[n.x]
        t = int(self.ev(n.args[0], env))
        if n.args[0] is fm.count:
            return len(self.fmseq(fm, env)[0])
        # prefix length (t may be evaluated inside the loop body)
        tot = 0
        e = dict(env)
        for i in range(t):
            e[fm.ivar] = i
            for ln in fm.seglens:
                tot += int(self.ev(ln, e))
        return tot

    def op_fmpos(self, n, env):
        fm = _fms[n.x[0]]
        j = int(self.ev(n.args[0], env))
        seq = self.fmseq(fm, env)[0]
        if not 0 <= j < len(seq):
            raise EvalError("position %d outside sequence of %d" % (j, len(seq)))
        return seq[j]["isk".index(n.x[1])]

    # nodes for which evaluation is done by a callback (sorting, searching)
    def op_native(self, n, env):
        return n.x[0](self, n, env)


def native(f, tag, args, sort):
    return mk("native", tuple(lift(a) for a in args), (f, tag), sort)


# ------------------------------------------------- value number equality

_default = None


def labellings(seed=1, k=3, small=3):
    ls = []
    for i in range(k):
        ls.append(Labelling("%s/r%d" % (seed, i), "rand", (1 + i % 2, 3)))
    for i in range(small):
        ls.append(Labelling("%s/s%d" % (seed, i), "small", (0, 3)))
    return ls


def vn(n):
    global _default
    if _default is None:
        _default = [Labelling("vn%d" % i, "rand", (1, 9)) for i in range(3)]
    out = []
    for l in _default:
        env = {}
        for v in n.fv:
            env[v] = _h(l.seed, "v", v.nid) % 3 if v.sort == "i" else _h(l.seed, v.nid) % P
        try:
            out.append(key(l.ev(n, env)))
        except EvalError:
            return ("nid", n.nid)
    return tuple(out)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if isconst(a) and isconst(b):
        return cval(a) == cval(b)
    return vn(a) == vn(b)

"""Transfer functions of numpy: arrays are (views of) buffers whose heap cell
is an element function; operations build element functions (Snap)."""
from __future__ import annotations
from . import terms as T
from .terms import Node, const, lift, TRUE, FALSE
from .values import *
from .values import UNBOUND, POISON, NOTIMPL, nonneg
from .values import item as vitem

MISS = None
NP = {}
ONE, ZERO = const(1), const(0)

# ------------------------------------------------------------------ dtypes

DT = {}
for _k, _names in (("f", "double float64 float32 float16 float_ longdouble floating double_t"),
                   ("i", "intc int8 int16 int32 int64 int_ intp uint8 uint16 uint32 uint64 long longlong uintp uint integer byte short"),
                   ("c", "complex128 complex64 cdouble complex_ complexfloating"),
                   ("b", "bool_"), ("o", "object_ str_")):
    for _n in _names.split():
        DT[_n] = Dtype(_k, _n)
KDT = {"f": DT["double"], "i": DT["int64"], "c": DT["complex128"], "b": DT["bool_"], "o": DT["object_"]}
ORDER = "bifco"
SORT = {"f": "r", "c": "r", "i": "i", "b": "b", "o": "o"}


def dtype_of(I, v):
    """kind of a dtype argument"""
    v = I.resolve(v)
    if v is None:
        return None
    if isinstance(v, Dtype):
        return v.kind
    if isinstance(v, str):
        c = v.lstrip("<>=|")
        return {"d": "f", "f": "f", "i": "i", "l": "i", "c": "c", "b": "b", "D": "c", "F": "c", "float": "f",
                "int": "i", "complex": "c", "bool": "b", "double": "f", "O": "o", "object": "o"}.get(
                    c, {"f": "f", "i": "i", "u": "i", "c": "c", "b": "i"}.get(c[:1], "o"))
    if isinstance(v, Cls):
        return {"float": "f", "int": "i", "complex": "c", "bool": "b", "object": "o", "str": "o"}.get(v.name, "o")
    if isinstance(v, Choice):
        a, b = dtype_of(I, v.a), dtype_of(I, v.b)
        if a == b:
            return a
        raise NeedConcrete("dtype")
    if isinstance(v, (Arr, Snap)):
        return v.dt
    raise AnalysisError("dtype %r" % (v,))


_nk = {}


def nkind(n):
    """numeric kind of a scalar node"""
    if n.sort in "ibo":
        return n.sort
    k = _nk.get(n.nid)
    if k is not None:
        return k
    if n.op == "imagunit":
        r = "c"
    elif n.op == "atom":
        r = "c" if n.x[0].startswith("complex:") else "f"
    elif n.op in ("add", "mul", "div", "pow", "powg", "neg"):
        r = "c" if any(nkind(a) == "c" for a in n.args) else "f"
    elif n.op == "ite":
        r = "c" if any(nkind(a) == "c" for a in n.args[1:]) else "f"
    elif n.op in ("sum", "let"):
        r = nkind(n.args[1]) if n.op == "sum" else nkind(n.args[1])
    elif n.op == "fn":
        r = "f" if n.x in ("real", "imag", "abs", "arctan2", "floor", "ceil", "round") else (
            "c" if any(nkind(a) == "c" for a in n.args) else "f")
    elif n.op == "call":
        r = "c" if n.x[0].startswith("complex:") or n.x[0].startswith("eig_") else "f"
    else:
        r = "f"
    _nk[n.nid] = r
    return r


def promote(*ks):
    return max(ks, key=ORDER.index)


def conv(n, kind):
    """element conversion on assignment into an array of the given kind"""
    if kind == "o":
        return n
    if n.sort == "o":
        return n if n.op == "const" and n.x[1] is None else T.call("float", [n], sort=SORT[kind])
    if kind == "f":
        if nkind(n) == "c":
            return T.fn("real", n)
        return T.to_real(n)
    if kind == "c":
        return T.to_real(n)
    if kind == "i":
        if n.sort == "i":
            return n
        if n.sort == "b":
            return T.ite(n, ONE, ZERO)
        if n.op == "toreal":
            return n.args[0]
        if T.isconst(n):
            return const(int(T.cval(n)))
        return T.fn("int", n, sort="i")
    if kind == "b":
        return T.truth(n)
    return n


# ---------------------------------------------------------------- buffers


def cell(I, buf):
    src = getattr(buf, "src", None)
    if src is None:
        return I.get(buf, "e")
    arr, shape = src
    c = cell(I, arr.buf)
    return El(lambda idx: c(arr.bidx(unravel(ravel_(idx, shape), arr.shape))))


def setcell(I, buf, el):
    src = getattr(buf, "src", None)
    if getattr(buf, "noalias", None):
        raise AnalysisError("write to %s: %s" % (buf, buf.noalias))
    if src is None:
        I.set(buf, "e", el)
        return
    arr, shape = src
    old = cell(I, arr.buf)

    def new(b):
        c, v = inview(arr, b)
        if c is FALSE:
            return old(b)
        return T.ite(c, el(unravel(ravel_(v, arr.shape), shape)), old(b))
    setcell(I, arr.buf, El(new))


def inview(arr, b):
    """condition that buffer index b is inside the view, and its view index"""
    c = TRUE
    idx = [ZERO] * arr.ndim
    for m, k in zip(arr.maps, b):
        if m[0] == "c":
            c = T.and_(c, T.eq(k, m[1]))
            continue
        d = T.sub(k, m[2])
        n = arr.shape[m[1]]
        if m[3] != 1:
            c = T.and_(c, T.eq(T.mod(d, const(m[3])), ZERO))
            d = T.floordiv(d, const(m[3]))
            lo, hi = T.le(ZERO, d), T.lt(d, n)
            c = T.and_(c, T.and_(lo, hi))
        else:
            full = m[2] is ZERO and T.same_dim(n, arr.buf.shape[arr.maps.index(m)])
            if not full:
                c = T.and_(c, T.and_(T.le(ZERO, d), T.lt(d, n)))
        idx[m[1]] = d
    return c, tuple(idx)


def strides(shape):
    out = [ONE]
    for d in reversed(shape[1:]):
        out.append(T.mul(out[-1], d))
    return out[::-1] if shape else []


def ravel_(idx, shape):
    lin = ZERO
    for i, s in zip(idx, strides(shape)):
        lin = T.add(lin, T.mul(i, s))
    return lin


def unravel(lin, shape):
    out = []
    st = strides(shape)
    for n, (d, s) in enumerate(zip(shape, st)):
        q = lin if s is ONE else T.floordiv(lin, s)
        out.append(q if n == 0 else (ZERO if d is ONE else T.mod(q, d)))
    return tuple(out)


def fresh(I, s, matrix=False):
    """new array holding the value of s"""
    b = Buf(s.shape, s.dt)
    I.set(b, "e", s.fn)
    return Arr(b, matrix=matrix)


def result(I, s, matrix=False):
    if not s.shape and not matrix:
        return s()
    return fresh(I, s, matrix)


def read(I, a):
    c = cell(I, a.buf)
    if c is MISS:
        raise AnalysisError("array without value %r" % (a,))
    if a.whole():
        return Snap(a.shape, c, a.dt)
    return Snap(a.shape, lambda idx: c(a.bidx(idx)), a.dt)


def sym_array(I, name, shape, dt="f", sort=None, rng=None):
    b = Buf(tuple(lift(s) for s in shape), dt, name)
    so = sort or SORT[dt]
    nm = "complex:" + name if dt == "c" else name
    I.set(b, "e", El(lambda idx: T.atom(nm, so, idx, rng)))
    return Arr(b)


def arrayish(v):
    if isinstance(v, Choice):
        return arrayish(v.a) and arrayish(v.b)
    return isinstance(v, (Arr, Snap, Node, PList, tuple))


def has_array(v):
    if isinstance(v, Choice):
        return has_array(v.a) or has_array(v.b)
    return isinstance(v, (Arr, Snap))


def tconst(n):
    return T.isconst(n)


def ci(n):
    return int(T.cval(n))


def stack_snaps(I, snaps):
    """snaps of equal shape along a new first axis"""
    sh = snaps[0].shape
    dt = promote(*[s.dt for s in snaps])
    so = [s if s.dt == dt else castsnap(s, dt) for s in snaps]

    def elem(idx):
        k = idx[0]
        if T.isconst(k):
            j = ci(k)
            if 0 <= j < len(so):
                return so[j].fn(idx[1:])
            return T.call("oob", list(idx), sort=SORT[dt])
        r = so[-1].fn(idx[1:])
        for j in range(len(so) - 2, -1, -1):
            r = T.ite(T.eq(k, const(j)), so[j].fn(idx[1:]), r)
        return r
    return Snap((const(len(so)),) + tuple(sh), elem, dt)


def castsnap(s, kind):
    if s.dt == kind:
        return s
    return Snap(s.shape, lambda idx: conv(s.fn(idx), kind), kind)


def snap(I, v, kind=None):
    s = snap_(I, v)
    if kind is not None and s.dt != kind:
        s = castsnap(s, kind)
    return s


def snap_(I, v):
    v = I.resolve(v)
    if isinstance(v, Snap):
        return v
    if isinstance(v, Node):
        return Snap((), lambda idx: v, nkind(v))
    if isinstance(v, Arr):
        return read(I, v)
    if isinstance(v, Choice):
        a = I.with_arm(v.c, lambda: snap_(I, v.a))
        b = I.with_arm(T.not_(v.c), lambda: snap_(I, v.b))
        if a.ndim != b.ndim:
            # None converts to a single NaN: taken as one of the other arm's shape
            if v.a is None:
                a = Snap(b.shape, lambda idx: const(float("nan")), "f")
            elif v.b is None:
                b = Snap(a.shape, lambda idx: const(float("nan")), "f")
            else:
                raise NeedConcrete("arrays of different rank")
        dt = promote(a.dt, b.dt)
        a, b = castsnap(a, dt), castsnap(b, dt)
        sh = [x if T.same_dim(x, y) else T.ite(v.c, x, y) for x, y in zip(a.shape, b.shape)]
        return Snap(sh, lambda idx: T.ite(v.c, a.fn(idx), b.fn(idx)), dt)
    if isinstance(v, Range):
        return Snap((v.length(),), lambda idx: v.at(idx[0]), "i")
    if isinstance(v, tuple) or isinstance(v, PList) or I.is_list(v):
        segs = tuple(vitem(x) for x in v) if isinstance(v, tuple) else I.get(v, "v")
        if all(I.conc(s.len) is not None for s in segs):
            items = I.items_of(v if isinstance(v, tuple) else I.list_from(segs))
            if not items:
                return Snap((ZERO,), lambda idx: T.call("oob", list(idx), sort="r"), "f")
            snaps = [snap_(I, x) for x in items]
            nd = snaps[0].ndim
            for s in snaps[1:]:
                if s.ndim != nd:
                    I.throw("ValueError", "setting an array element with a sequence (inhomogeneous)")
                for a, b in zip(s.shape, snaps[0].shape):
                    if not T.same_dim(a, b):
                        I.require(T.eq(a, b), "ValueError", "inhomogeneous shape")
            return stack_snaps(I, snaps)
        x = T.var()
        if len(segs) == 1:
            e = snap_(I, segs[0].elem(x))
            n = segs[0].len
        else:
            e = snap_(I, I.seq_at(segs, x))
            n = I.seglen(segs)
        sh = tuple(T.let(x, ZERO, d) for d in e.shape)
        memo = {}

        def elem(idx):
            if segs is not None and len(segs) == 1 and T.isconst(idx[0]):
                pass
            return T.let(x, idx[0], e.fn(idx[1:]))
        return Snap((n,) + sh, elem, e.dt)
    if isinstance(v, (str, bytes)) or v is None:
        return Snap((), lambda idx: const(v), "o")
    if isinstance(v, PObj):
        m = I.cls_lookup(v.cls, "__array__")
        if m is not None:
            return snap_(I, I.call(I.bind(m, v, v.cls), [], {}))
        if I.cls_lookup(v.cls, "__len__") is not None and I.cls_lookup(v.cls, "__getitem__") is not None:
            return snap_(I, I.list_from(I.segs_of(v)))
    if hasattr(v, "snap"):
        return v.snap(I)
    if v is UNBOUND or v is POISON:
        raise NeedConcrete("value %r" % (v,))
    if isinstance(v, (PSet, PDict)) or v is not None:
        o = I.as_o(v)
        return Snap((), lambda idx: o, "o")
    raise AnalysisError("array of %r" % (v,))


def item(I, v):
    """scalar of a size-1 array"""
    s = snap(I, v)
    for d in s.shape:
        if not (T.isconst(d) and ci(d) == 1):
            I.throw("TypeError", "only length-1 arrays can be converted to scalars")
    return s.fn((ZERO,) * s.ndim)


# ------------------------------------------------------------ broadcasting


def bcast_dim(I, a, b):
    if a is b:
        return a
    if T.isconst(a) and ci(a) == 1:
        return b
    if T.isconst(b) and ci(b) == 1:
        return a
    if T.isconst(a) and T.isconst(b):
        I.throw("ValueError", "operands could not be broadcast together: %s %s" % (ci(a), ci(b)))
    if T.same_dim(a, b):
        return a
    I.require(T.eq(a, b), "ValueError", "operands could not be broadcast together")
    return a if T.isconst(a) else b


def bshape(I, shapes):
    nd = max([len(s) for s in shapes] or [0])
    out = []
    for k in range(nd):
        d = ONE
        for s in shapes:
            j = k - (nd - len(s))
            if j >= 0:
                d = bcast_dim(I, d, s[j])
        out.append(d)
    return tuple(out)


def bget(s, idx, nd=None):
    """element of s at broadcast index idx"""
    off = len(idx) - s.ndim
    return s.fn(tuple(ZERO if (d is ONE) else idx[off + k] for k, d in enumerate(s.shape)))


def bto(s, shape):
    if len(shape) == s.ndim and all(a is b for a, b in zip(shape, s.shape)):
        return s
    return Snap(shape, lambda idx: bget(s, idx), s.dt)


def ew(I, f, args, dt):
    """element-wise operation; dt a kind or None (from the element sorts)"""
    snaps = [snap(I, a) for a in args]
    sh = bshape(I, [s.shape for s in snaps])
    if dt is None:
        dt = promote(*[s.dt for s in snaps])
    return Snap(sh, lambda idx: f(*[bget(s, idx) for s in snaps]), dt)


def is_matrix(v):
    return isinstance(v, Arr) and v.matrix


def binop(I, op, a, b):
    mat = is_matrix(a) or is_matrix(b)
    if op == "MatMult" or (op == "Mult" and mat and has_dims(I, a) and has_dims(I, b)):
        return result(I, matmul(I, snap(I, a), snap(I, b)), mat)
    if op == "Pow" and mat:
        if not (is_matrix(a) and isinstance(b, Node) and T.isconst(b) and T.cval(b) in (1, 2, 3, 4)):
            raise AnalysisError("matrix power")
        s0 = r = snap(I, a)
        for q in range(int(T.cval(b)) - 1):
            r = matmul(I, r, s0)
        return result(I, r, True)
    sa, sb = snap(I, a), snap(I, b)
    if "o" in (sa.dt, sb.dt) and op == "Mod":
        return I.fmt_mod(a, b)
    for x in (a, b):
        if x is None or isinstance(x, (str, bytes)):
            I.throw("TypeError", "unsupported operand %r for an array" % (x,))
    if op == "Pow" and sa.dt in ("i", "b") and sb.dt in ("i", "b") and (sa.shape or sb.shape):
        sh = [T.cval(q) if T.isconst(q) else None for q in sb.shape]
        if None not in sh:
            import itertools
            for idx in itertools.product(*[range(int(q)) for q in sh]):
                e = sb(*[const(q) for q in idx])
                if T.isconst(e) and T.cval(e) < 0:
                    I.throw("ValueError", "Integers to negative integer powers are not allowed.")
    return result(I, binsnap(I, op, sa, sb), mat)


def has_dims(I, v):
    return not isinstance(v, Node) and bool(snap(I, v).shape)


def binsnap(I, op, sa, sb):
    k = promote(sa.dt, sb.dt)
    if op in ("Add", "Mult", "Sub"):
        if k == "b":
            f = {"Add": T.or_, "Mult": T.and_}.get(op)
            if f is None:
                I.throw("TypeError", "numpy boolean subtract")
            return ew(I, f, [sa, sb], "b")
        f = {"Add": T.add, "Mult": T.mul, "Sub": T.sub}[op]
        dt = k
    elif op == "Div":
        f, dt = T.div, ("c" if k == "c" else "f" if k != "o" else "o")
    elif op == "FloorDiv":
        f, dt = T.floordiv, ("i" if k in "ib" else k)
    elif op == "Mod":
        f, dt = T.mod, ("i" if k in "ib" else k)
    elif op == "Pow":
        f, dt = T.power, ("i" if k in "ib" else k)
    elif op in ("BitAnd", "BitOr", "BitXor"):
        if k == "b":
            f = {"BitAnd": T.and_, "BitOr": T.or_, "BitXor": lambda x, y: T.not_(T.eq(x, y))}[op]
            dt = "b"
        else:
            f, dt = (lambda x, y: I.scalar(op, x, y)), "i"
    elif op in ("LShift", "RShift"):
        f, dt = (lambda x, y: I.scalar(op, x, y)), "i"
    else:
        raise AnalysisError("array operator %s" % op)
    if k == "o":
        dt = "o"
        g = f
        f = lambda x, y: g(x, y) if x.sort != "o" and y.sort != "o" else T.call("op" + op, [x, y])
    return ew(I, f, [sa, sb], dt)


def inplace(I, op, cur, v):
    """in-place operator on an array: value of the target"""
    s = read(I, cur)
    if op == "MatMult" or (cur.matrix and op == "Mult" and has_dims(I, v)):
        return None
    r = binsnap(I, op, s, snap(I, v))
    if r.ndim > s.ndim:
        I.throw("ValueError", "non-broadcastable output operand")
    if ORDER.index(r.dt) > ORDER.index(cur.dt) and cur.dt != "o":
        I.throw("TypeError", "cannot cast ufunc output %s to %s" % (r.dt, cur.dt))
    for a, b in zip(r.shape, s.shape):
        if not T.same_dim(a, b):
            I.require(T.eq(a, b), "ValueError", "non-broadcastable output operand")
    store(I, cur, castsnap(r, cur.dt))
    return cur


def store(I, arr, s):
    """write s (same shape as the view) into arr"""
    if arr.whole():
        setcell(I, arr.buf, s.fn)
        return
    old = cell(I, arr.buf)

    def new(b):
        c, v = inview(arr, b)
        if c is FALSE:
            return old(b)
        return T.ite(c, s.fn(v), old(b))
    setcell(I, arr.buf, El(new))


def unop(I, op, v):
    s = snap(I, v)
    if op == "USub":
        if s.dt == "b":
            I.throw("TypeError", "numpy boolean negative")
        r = Snap(s.shape, lambda idx: T.neg(s.fn(idx)), s.dt)
    elif op == "UAdd":
        r = s
    elif op == "Invert":
        r = Snap(s.shape, lambda idx: T.not_(s.fn(idx)) if s.dt == "b" else T.sub(T.neg(s.fn(idx)), ONE), s.dt)
    else:
        raise AnalysisError("unary %s" % op)
    return result(I, r, is_matrix(v))


CMP = {"Eq": T.eq, "NotEq": lambda a, b: T.not_(T.eq(a, b)), "Lt": T.lt, "LtE": T.le,
       "Gt": lambda a, b: T.lt(b, a), "GtE": lambda a, b: T.le(b, a)}


def compare(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if op in ("Eq", "NotEq") and (a is None or b is None):
        # elementwise comparison with None
        s = snap(I, a if b is None else b)
        return result(I, Snap(s.shape, lambda idx: const(op == "NotEq"), "b"))
    for x in (a, b):
        if x is None or isinstance(x, (str, bytes)) and op not in ("Eq", "NotEq"):
            I.throw("TypeError", "ordering between an array and %r" % (x,))
    return result(I, ew(I, CMP[op], [a, b], "b"))


def truth(I, v):
    s = snap(I, v)
    if not s.shape:
        return T.truth(s())
    n = ONE
    for d in s.shape:
        n = T.mul(n, d)
    if T.isconst(n):
        if ci(n) == 1:
            return T.truth(s.fn((ZERO,) * s.ndim))
        if ci(n) == 0:
            return FALSE
        I.throw("ValueError", "truth value of an array with more than one element is ambiguous")
    I.require(T.le(n, ONE), "ValueError", "truth value of an array with more than one element is ambiguous")
    return T.and_(T.eq(n, ONE), T.truth(s.fn((ZERO,) * s.ndim)))


# ------------------------------------------------------------ indexing


def slice_bounds(I, k, n):
    """(start, length, step) of a slice of a sequence of n"""
    st = k.step
    st = ONE if st is None else iv(I, st)
    if not T.isconst(st):
        raise NeedConcrete("slice step")
    step = ci(st)
    if step == 0:
        I.throw("ValueError", "slice step cannot be zero")
    lo = None if k.lo is None else iv(I, k.lo)
    hi = None if k.hi is None else iv(I, k.hi)
    if step > 0:
        lo = clampidx(lo, n) if lo is not None else ZERO
        hi = clampidx(hi, n) if hi is not None else n
        d = T.sub(hi, lo)
        if step != 1:
            d = T.floordiv(T.add(d, const(step - 1)), const(step))
    else:
        top = T.sub(n, ONE)
        if lo is None:
            lo = top
        else:
            lo = T.add(lo, n) if neg_(lo) else lo
            lo = mn(lo, top)
        if hi is None:
            hi = const(-1)
        else:
            hi = T.add(hi, n) if neg_(hi) else hi
            hi = mn(hi, top)
            hi = mx(hi, const(-1))
        d = T.sub(lo, hi)
        if step != -1:
            d = T.floordiv(T.add(d, const(-step - 1)), const(-step))
    if T.isconst(d):
        d = const(max(0, ci(d)))
    elif not (nonneg(d)):
        if not (k.lo is None and k.hi is None):
            d = mx(d, ZERO)
    return lo, d, step


def mn(a, b):
    if a is b:
        return a
    return T.fn("min", a, b)


def mx(a, b):
    if a is b:
        return a
    if b is ZERO and nonneg(a):
        return a
    return T.fn("max", a, b)


def neg_(n):
    return T.isconst(n) and ci(n) < 0


def iv(I, v):
    v = I.resolve(v)
    if isinstance(v, (Arr, Snap)):
        v = item(I, v)
    if isinstance(v, Choice):
        a, b = iv(I, v.a), iv(I, v.b)
        return T.ite(v.c, a, b)
    if not isinstance(v, Node) or v.sort not in "ib":
        I.throw("TypeError", "slice indices must be integers: %r" % (v,))
    return v


def clampidx(v, n):
    if T.isconst(v):
        c = ci(v)
        if T.isconst(n):
            return const(max(0, min(ci(n), c + ci(n) if c < 0 else c)))
        if c == 0:
            return ZERO
        if c < 0:
            return mx(T.add(n, v), ZERO)
        return mn(v, n)
    if T.same_dim(v, n) and v is n:
        return n
    if nonneg(v):
        return mn(v, n)
    w = T.ite(T.lt(v, ZERO), T.add(v, n), v)
    return mn(mx(w, ZERO), n)


def norm(I, k, n):
    """index node k of an axis of length n"""
    if k.sort == "b":
        k = T.ite(k, ONE, ZERO)
    if T.isconst(k):
        c = ci(k)
        if T.isconst(n):
            if not -ci(n) <= c < ci(n):
                I.throw("IndexError", "index %d is out of bounds for size %d" % (c, ci(n)))
            return const(c % ci(n)) if ci(n) else k
        return T.add(n, k) if c < 0 else k
    if nonneg(k):
        return k
    return T.ite(T.lt(k, ZERO), T.add(k, n), k)


def parse_index(I, o, k):
    """list of entries ('i', node) ('s', lo, len, step) ('n',) ('a', Snap)"""
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [I.resolve(x) for x in ks]
    nd = o.ndim
    ent = []
    used = 0
    for x in ks:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, (Arr, Snap)) and x.dt == "b":
            used += x.ndim if x.ndim else 0
        elif isinstance(x, Node) and x.sort == "b":
            pass
        else:
            used += 1
    if used > nd:
        I.throw("IndexError", "too many indices for array")
    ax = 0
    seen = False
    for x in ks:
        if x is Ellipsis:
            for _ in range(nd - used):
                ent.append(("s", ZERO, o.shape[ax], 1, True))
                ax += 1
            seen = True
            continue
        if x is None:
            ent.append(("n",))
            continue
        if isinstance(x, Slice):
            lo, ln, st = slice_bounds(I, x, o.shape[ax])
            ent.append(("s", lo, ln, st, x.lo is None and x.hi is None and st == 1))
            ax += 1
            continue
        if isinstance(x, Node) and x.sort == "i":
            ent.append(("i", norm(I, x, o.shape[ax])))
            ax += 1
            continue
        if isinstance(x, Node) and x.sort == "b":
            ent.append(("a", Snap((T.ite(x, ONE, ZERO),), lambda idx: ZERO, "i"), 0))
            continue
        if isinstance(x, Node):
            I.throw("IndexError", "only integers are valid indices, not %s" % T.show(x, 2))
        if isinstance(x, Choice):
            raise NeedConcrete("index choice")
        if isinstance(x, (Arr, Snap, PList, Range, tuple)) or I.is_list(x):
            s = snap(I, x)
            if s.dt == "b":
                idxs = nonzero(I, s)
                for d, m in zip(o.shape[ax:ax + s.ndim], s.shape):
                    if not T.same_dim(d, m):
                        I.require(T.eq(d, m), "IndexError", "boolean index did not match")
                for q in idxs:
                    ent.append(("a", q, 1))
                    ax += 1
                continue
            if s.dt != "i":
                if s.shape and T.isconst(s.shape[0]) and ci(s.shape[0]) == 0:
                    s = castsnap(s, "i")
                else:
                    I.throw("IndexError", "arrays used as indices must be of integer type")
            n = o.shape[ax]
            if not s.shape:
                ent.append(("i", norm(I, s(), n)))
            else:
                ent.append(("a", checked_index(I, s, n), 1))
            ax += 1
            continue
        I.throw("IndexError", "invalid index %r" % (x,))
    while ax < nd:
        ent.append(("s", ZERO, o.shape[ax], 1, True))
        ax += 1
    return ent


def checked_index(I, s, n):
    if all(T.isconst(d) for d in s.shape) and T.isconst(n):
        import itertools
        for idx in itertools.product(*[range(ci(d)) for d in s.shape]):
            e = s.fn(tuple(const(i) for i in idx))
            if T.isconst(e) and not -ci(n) <= ci(e) < ci(n):
                I.throw("IndexError", "index %d is out of bounds" % ci(e))
    return Snap(s.shape, lambda idx: normq(s.fn(idx), n), "i")


def normq(k, n):
    if T.isconst(k):
        return T.add(n, k) if ci(k) < 0 else k
    if nonneg(k):
        return k
    return T.ite(T.lt(k, ZERO), T.add(k, n), k)


def nonzero(I, s):
    """index arrays of the true elements (row major)"""
    s = castsnap(s, "b")
    tot = ONE
    for d in s.shape:
        tot = T.mul(tot, d)
    # constant masks
    if T.isconst(tot) and ci(tot) <= 4096:
        es = [I.simplify(s.fn(unravel(const(j), s.shape))) for j in range(ci(tot))]
        if all(T.isconst(e) for e in es):
            js = [const(j) for j, e in enumerate(es) if e is TRUE]
            out = []
            for ax in range(s.ndim):
                vals = [unravel(j, s.shape)[ax] for j in js]
                out.append(Snap((const(len(vals)),), (lambda vals: lambda idx: pick(vals, idx[0], "i"))(vals), "i"))
            return out
    v = T.var("m")
    m = T.ite(s.fn(unravel(v, s.shape)), ONE, ZERO)
    fm = FM(v, tot, m)
    n = T.fmlen(fm)
    out = []
    for ax in range(s.ndim):
        sn = Snap((n,), (lambda ax: lambda idx: unravel(T.fmpos(fm, idx[0], "i"), s.shape)[ax])(ax), "i")
        out.append(sn)
    return out


_fmc = {}


def FM(v, tot, m):
    return T.FlatMap(v, tot, [m])


def pick(vals, k, sort):
    if T.isconst(k):
        j = ci(k)
        if 0 <= j < len(vals):
            return vals[j]
        return T.call("oob", [k], sort=sort)
    if not vals:
        return T.call("oob", [k], sort=sort)
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = T.ite(T.eq(k, const(j)), vals[j], r)
    return r


def getitem(I, o, k):
    if not o.shape and (k == () or k is Ellipsis):
        return snap(I, o)()
    k = I.resolve(k)
    if isinstance(k, Choice):
        if arrayish(k.a) and arrayish(k.b) and (has_array(k)):
            k = snap(I, k)
        else:
            return I.fork(k, lambda x: getitem(I, o, x))
    if isinstance(k, tuple) and any(isinstance(I.resolve(x), Choice) for x in k):
        for n, x in enumerate(k):
            x = I.resolve(x)
            if isinstance(x, Choice):
                return I.fork(x, lambda y: getitem(I, o, k[:n] + (y,) + k[n + 1:]))
    if isinstance(k, str):
        if getattr(o, "dt", None) == "o":
            return T.call("field", [I.as_o(o), const(k)])
        I.throw("IndexError", "only integers, slices, ... are valid indices")
    ent = parse_index(I, o, k)
    if is_matrix(o) and o.ndim == 2 and sum(e[0] == "i" for e in ent) == 1 and \
            not any(e[0] == "a" for e in ent):
        ent = [("s", e[1], ONE, 1, False) if e[0] == "i" else e for e in ent]
    if any(e[0] == "a" for e in ent):
        return result(I, adv_get(I, snap(I, o), ent), is_matrix(o))
    shape = []
    ax = 0
    for e in ent:
        if e[0] == "n":
            shape.append(ONE)
        elif e[0] == "s":
            shape.append(e[2])
    if isinstance(o, Arr):
        if not shape:
            full = tuple(e[1] for e in ent)
            return cell(I, o.buf)(o.bidx(full))
        # compose maps
        vax = {}
        j = 0
        vmap = []
        for e in ent:
            if e[0] == "n":
                j += 1
            elif e[0] == "s":
                vmap.append(("a", j, e[1], e[3]))
                j += 1
            else:
                vmap.append(("c", e[1]))
        maps = []
        for m in o.maps:
            if m[0] == "c":
                maps.append(m)
                continue
            w = vmap[m[1]]
            if w[0] == "c":
                x = w[1]
                maps.append(("c", T.add(m[2], T.mul(const(m[3]), x))))
            else:
                maps.append(("a", w[1], T.add(m[2], T.mul(const(m[3]), w[2])), m[3] * w[3]))
        return Arr(o.buf, shape, tuple(maps), o.matrix)
    s = o

    def idxof(idx):
        out, j = [], 0
        for e in ent:
            if e[0] == "n":
                j += 1
            elif e[0] == "i":
                out.append(e[1])
            else:
                out.append(T.add(e[1], idx[j] if e[3] == 1 else T.mul(const(e[3]), idx[j])))
                j += 1
        return tuple(out)
    return result(I, Snap(shape, lambda idx: s.fn(idxof(idx)), s.dt))


def adv_layout(I, ent):
    """shape of an advanced index result and the map result index -> source index"""
    arrs = [e[1] for e in ent if e[0] == "a"]
    bs = bshape(I, [a.shape for a in arrs])
    # integers take part in the advanced index group
    grp = [n for n, e in enumerate(ent) if e[0] in "ai"]
    contiguous = grp == list(range(grp[0], grp[-1] + 1))
    shape, pos = [], None
    if not contiguous:
        shape.extend(bs)
        pos = 0
    for n, e in enumerate(ent):
        if e[0] == "n":
            shape.append(ONE)
        elif e[0] == "s":
            shape.append(e[2])
        elif contiguous and n == grp[0]:
            pos = len(shape)
            shape.extend(bs)
    nb = len(bs)

    def src(idx):
        b = idx[pos:pos + nb]
        rest = list(idx[:pos]) + list(idx[pos + nb:])
        out = []
        for e in ent:
            if e[0] == "n":
                rest.pop(0)
            elif e[0] == "s":
                k = rest.pop(0)
                out.append(T.add(e[1], k if e[3] == 1 else T.mul(const(e[3]), k)))
            elif e[0] == "i":
                out.append(e[1])
            elif e[2] == 0:
                pass
            else:
                out.append(bget(e[1], b))
        return tuple(out)
    return tuple(shape), src


def adv_get(I, s, ent):
    shape, src = adv_layout(I, ent)
    return Snap(shape, lambda idx: s.fn(src(idx)), s.dt)


def setitem(I, o, k, v):
    k = I.resolve(k)
    if isinstance(k, Choice):
        if has_array(k):
            k = snap(I, k)
        else:
            return I.fork(k, lambda x: setitem(I, o, x, v))
    if isinstance(k, tuple) and any(isinstance(I.resolve(x), Choice) for x in k):
        for n, x in enumerate(k):
            x = I.resolve(x)
            if isinstance(x, Choice):
                return I.fork(x, lambda y: setitem(I, o, k[:n] + (y,) + k[n + 1:], v))
    if isinstance(v, PObj) and v.cls.name == "MaskedArray":
        v = I.getattr_(v, "data")
    sv = snap(I, v)
    if sv.dt == "o" and o.dt != "o":
        if sv.shape == () and isinstance(sv(), Node) and sv().op == "const":
            I.throw("TypeError" if sv().x[1] is None else "ValueError", "array element from %r" % (v,))
    if isinstance(k, (Arr, Snap, PList)):
        sk = snap(I, k)
        if sk.dt == "b" and sk.ndim:
            return set_mask(I, o, sk, sv)
    ent = parse_index(I, o, k)
    if any(e[0] == "a" for e in ent):
        return set_adv(I, o, ent, sv)
    # basic: build the view
    view = getitem(I, o, k if isinstance(k, tuple) else (k,)) if any(e[0] != "i" for e in ent) else None
    if view is None:
        if sv.shape and not all(T.isconst(d) and ci(d) == 1 for d in sv.shape):
            I.throw("ValueError", "setting an array element with a sequence")
        val = conv(sv.fn((ZERO,) * sv.ndim), o.dt)
        b0 = o.bidx(tuple(e[1] for e in ent))
        old = cell(I, o.buf)

        def new(b):
            c = TRUE
            for x, y in zip(b, b0):
                c = T.and_(c, T.eq(x, y))
                if c is FALSE:
                    return old(b)
            return T.ite(c, val, old(b))
        setcell(I, o.buf, El(new))
        return
    if not isinstance(view, Arr):
        raise AnalysisError("store through %r" % (view,))
    sv = fit(I, sv, view.shape)
    store(I, view, castsnap(sv, o.dt))


def fit(I, sv, shape):
    """broadcast the value of an assignment to the target shape"""
    while sv.ndim > len(shape) and T.isconst(sv.shape[0]) and ci(sv.shape[0]) == 1:
        s0 = sv
        sv = Snap(s0.shape[1:], (lambda s0: lambda idx: s0.fn((ZERO,) + idx))(s0), s0.dt)
    if sv.ndim > len(shape):
        I.throw("ValueError", "could not broadcast input array")
    off = len(shape) - sv.ndim
    for d, t in zip(sv.shape, shape[off:]):
        if T.isconst(d) and ci(d) == 1:
            continue
        if not T.same_dim(d, t):
            if T.isconst(d) and T.isconst(t):
                I.throw("ValueError", "could not broadcast input array")
            I.require(T.eq(d, t), "ValueError", "could not broadcast input array")
    return bto(sv, shape)


def set_mask(I, o, m, sv):
    arr = o
    nd = m.ndim
    for d, t in zip(m.shape, o.shape):
        if not T.same_dim(d, t):
            I.require(T.eq(d, t), "IndexError", "boolean index did not match")
    old = read(I, arr)
    rest = o.ndim - nd
    tot = ONE
    for d in m.shape:
        tot = T.mul(tot, d)
    x = T.var("m")
    cond = m.fn(unravel(x, m.shape))
    svc = castsnap(sv, o.dt)
    scalar = sv.ndim <= rest or (T.isconst(sv.shape[0]) and ci(sv.shape[0]) == 1)

    def elem(idx):
        mi = idx[:nd]
        c = m.fn(mi)
        if c is FALSE:
            return old.fn(idx)
        if scalar:
            v = bget(svc, idx[nd:] if svc.ndim <= rest else (ZERO,) + idx[nd:])
        else:
            lin = ravel_(mi, m.shape)
            if T.isconst(lin):
                cnt = ZERO
                for j in range(ci(lin)):
                    cnt = T.add(cnt, T.ite(m.fn(unravel(const(j), m.shape)), ONE, ZERO))
            else:
                cnt = T.sum_(x, lin, T.ite(cond, ONE, ZERO))
            v = bget(svc, (cnt,) + idx[nd:])
        return T.ite(c, v, old.fn(idx))
    store(I, arr, Snap(o.shape, elem, o.dt))


def set_adv(I, o, ent, sv):
    shape, src = adv_layout(I, ent)
    sv = castsnap(fit(I, sv, shape), o.dt)
    import itertools
    adims = [d for d in shape]
    s0 = read(I, o)
    if not all(T.isconst(d) for d in adims):
        # only the advanced axis may be symbolic, with distinct positions: use
        # an existential
        if len([e for e in ent if e[0] == "a"]) == 1 and len(shape) == 1 and o.ndim == 1:
            a = [e[1] for e in ent if e[0] == "a"][0]
            n = shape[0]
            x = T.var("m")
            hit = T.eq

            def elem(idx):
                any_ = T.quant("any", x, n, T.eq(a.fn((x,)), idx[0]))
                pos = T.sum_(x, n, T.ite(T.eq(a.fn((x,)), idx[0]), x, ZERO))
                return T.ite(any_, sv.fn((pos,)), s0.fn(idx))
            store(I, o, Snap(o.shape, elem, o.dt))
            return
        raise NeedConcrete("indexed store of symbolic length")
    writes = []
    for t in itertools.product(*[range(ci(d)) for d in shape]):
        t = tuple(const(i) for i in t)
        writes.append((src(t), sv.fn(t)))
    allc = all(all(T.isconst(q) for q in p) for p, _ in writes)
    if allc:
        tab = dict((tuple(ci(q) for q in p), v) for p, v in writes)

        def elem(idx):
            if all(T.isconst(i) for i in idx):
                v = tab.get(tuple(ci(i) for i in idx))
                return v if v is not None else s0.fn(idx)
            r = s0.fn(idx)
            for p, v in tab.items():
                c = TRUE
                for x, y in zip(idx, p):
                    c = T.and_(c, T.eq(x, const(y)))
                r = T.ite(c, v, r)
            return r
    else:
        def elem(idx):
            r = s0.fn(idx)
            for p, v in writes:
                c = TRUE
                for x, y in zip(idx, p):
                    c = T.and_(c, T.eq(x, y))
                r = T.ite(c, v, r)
            return r
    store(I, o, Snap(o.shape, elem, o.dt))


# ------------------------------------------------------------ reductions


def unroll(d):
    return T.isconst(d) and ci(d) <= 80


def fold_sum(d, body, sort="r"):
    """sum of body(k), k < d"""
    if unroll(d):
        r = const(0) if sort in "ib" else const(0.0)
        first = True
        for j in range(ci(d)):
            b = body(const(j))
            r = b if first and b.sort != "b" else T.add(r, b)
            first = False
        return r
    v = T.var("s")
    b = body(v)
    return T.sum_(v, d, T.ite(b, ONE, ZERO) if b.sort == "b" else b)


def axes_of(I, axis, nd):
    if axis is None:
        return list(range(nd))
    axis = I.resolve(axis)
    if isinstance(axis, Node):
        axis = (axis,)
    if isinstance(axis, PList):
        axis = tuple(I.items_of(axis))
    out = []
    for a in axis:
        if isinstance(a, (Arr, Snap)):
            a = item(I, a)
        if not T.isconst(a):
            raise NeedConcrete("axis")
        c = ci(a)
        if not -nd <= c < nd:
            I.throw("ValueError", "axis %d is out of bounds" % c)
        out.append(c % nd)
    return sorted(out)


def reduce(I, s, axis, f, dt, keepdims=False):
    """f(list of (dim), getter(k tuple)) -> node"""
    axes = axes_of(I, axis, s.ndim)
    dims = [s.shape[a] for a in axes]
    shape = tuple(d for n, d in enumerate(s.shape) if n not in axes) if not keepdims else \
        tuple(ONE if n in axes else d for n, d in enumerate(s.shape))

    def elem(idx):
        if keepdims:
            idx = tuple(i for n, i in enumerate(idx) if n not in axes)

        def at(ks):
            full, j, m = [], 0, 0
            for n in range(s.ndim):
                if n in axes:
                    full.append(ks[m])
                    m += 1
                else:
                    full.append(idx[j])
                    j += 1
            return s.fn(tuple(full))
        return f(dims, at)
    return Snap(shape, elem, dt)


def r_sum(dims, at):
    def rec(n, ks):
        if n == len(dims):
            return at(tuple(ks))
        return fold_sum(dims[n], lambda k: rec(n + 1, ks + [k]))
    return rec(0, [])


def r_prod(dims, at):
    tot = ONE
    for d in dims:
        tot = T.mul(tot, d)
    if not T.isconst(tot):
        raise NeedConcrete("product")
    r = None
    for j in range(ci(tot)):
        v = at(unravel(const(j), dims))
        r = v if r is None else T.mul(r, v)
    return r if r is not None else const(1.0)


def r_quant(kind):
    def f(dims, at):
        def rec(n, ks):
            if n == len(dims):
                return T.truth(at(tuple(ks)))
            d = dims[n]
            if unroll(d):
                r = TRUE if kind == "all" else FALSE
                for j in range(ci(d)):
                    b = rec(n + 1, ks + [const(j)])
                    r = T.and_(r, b) if kind == "all" else T.or_(r, b)
                return r
            v = T.var("q")
            return T.quant(kind, v, d, rec(n + 1, ks + [v]))
        return rec(0, [])
    return f


def r_minmax(name):
    def f(dims, at):
        tot = ONE
        for d in dims:
            tot = T.mul(tot, d)
        if unroll(tot):
            r = None
            for j in range(ci(tot)):
                v = at(unravel(const(j), dims))
                r = v if r is None else T.fn(name, r, v)
            if r is None:
                return T.call("empty" + name, [], sort="r")
            return r
        v = T.var("x")
        e = at(unravel(v, dims))
        return ext(name, v, tot, e)
    return f


def r_arg(name):
    def f(dims, at):
        tot = ONE
        for d in dims:
            tot = T.mul(tot, d)
        if unroll(tot):
            r, ri = None, ZERO
            for j in range(ci(tot)):
                v = at(unravel(const(j), dims))
                if r is None:
                    r = v
                else:
                    c = T.lt(v, r) if name == "min" else T.lt(r, v)
                    ri = T.ite(c, const(j), ri)
                    r = T.ite(c, v, r)
            return ri
        v = T.var("x")
        return ext("arg" + name, v, tot, at(unravel(v, dims)))
    return f


def _ev_list(lab, n, env):
    cnt, body = n.args
    v = n.x[1][1]
    k = int(lab.ev(cnt, env))
    lab.checkcount(k)
    env = dict(env)
    out = []
    for i in range(k):
        env[v] = i
        out.append(lab.ev(body, env))
    return out, body.sort


def ev_ext(lab, n, env):
    name = n.x[1][0]
    vals, sort = _ev_list(lab, n, env)
    if not vals:
        return 0
    ks = [lab.ordkey(v, sort) for v in vals]
    k = min(ks) if name.endswith("min") else max(ks)
    j = ks.index(k)
    if name.startswith("arg"):
        return j
    return vals[j]


def ext(name, v, n, e):
    r = T.mk("native", (lift(n), e), (ev_ext, (name, v)), "i" if name.startswith("arg") else e.sort,
             fv=lift(n).fv | (e.fv - {v}))
    return r


def reduce_any(I, v):
    s = snap(I, v)
    return r_quant("any")(list(s.shape), lambda ks: s.fn(ks))


def reduce_node(I, name, s):
    return r_minmax(name)(list(s.shape), lambda ks: s.fn(ks))


# sorting: native nodes sort(k; n, body) and argsort


def ev_sort(lab, n, env):
    cnt, body, k = n.args
    name, v = n.x[1]
    c = int(lab.ev(cnt, env))
    lab.checkcount(c)
    key = ("sort", n.x[1][0], cnt.nid, body.nid, v.nid) + tuple(
        sorted((w.nid, T.key(env[w])) for w in (body.fv | cnt.fv) if w is not v and w in env))
    r = lab.memo.get(key)
    if r is None:
        e = dict(env)
        vals = []
        for i in range(c):
            e[v] = i
            vals.append(lab.ev(body, e))
        order = sorted(range(c), key=lambda i: lab.ordkey(vals[i], body.sort))
        r = (order, [vals[i] for i in order])
        lab.memo[key] = r
    j = int(lab.ev(k, env))
    if not 0 <= j < c:
        raise T.EvalError("sort index")
    return r[0][j] if name == "argsort" else r[1][j]


def sorted_node(name, v, n, body, k):
    return T.mk("native", (lift(n), body, lift(k)), (ev_sort, (name, v)),
                "i" if name == "argsort" else body.sort,
                fv=lift(n).fv | (body.fv - {v}) | lift(k).fv)


def sort_snap(I, s, name="sort", axis=-1):
    ax = axis % s.ndim
    v = T.var("x")
    if s.ndim == 1 and T.isconst(s.shape[0]) and ci(s.shape[0]) <= 64:
        es = [s.fn((const(j),)) for j in range(ci(s.shape[0]))]
        if all(T.isconst(e) for e in es):
            o = sorted(range(len(es)), key=lambda j: T.cval(es[j]))
            vals = [const(j) for j in o] if name == "argsort" else [es[j] for j in o]
            dt = "i" if name == "argsort" else s.dt
            return Snap(s.shape, lambda idx: pick(vals, idx[0], "i" if name == "argsort" else "r"), dt)

    def elem(idx):
        full = list(idx)
        k = full[ax]
        full[ax] = v
        return sorted_node(name, v, s.shape[ax], s.fn(tuple(full)), k)
    return Snap(s.shape, elem, "i" if name == "argsort" else s.dt)


# ------------------------------------------------------------ packing


def pack(I, v):
    s = snap(I, v)
    if not s.shape:
        return s()
    return packsnap(s)


def packsnap(s):
    if all(T.isconst(d) for d in s.shape):
        tot = 1
        for d in s.shape:
            tot *= ci(d)
        if tot <= 400:
            import itertools
            es = [s.fn(tuple(const(i) for i in t)) for t in
                  itertools.product(*[range(ci(d)) for d in s.shape])]
            return T.mk("packc", tuple(es), tuple(ci(d) for d in s.shape), "o")
    vs = tuple(T.var("p") for _ in s.shape)
    return T.packnode(T.Packed(s.shape, vs, s.fn(vs)))


# ------------------------------------------------------------ shape functions


def int_list(I, v):
    """shape argument -> list of nodes"""
    v = I.resolve(v)
    if isinstance(v, Node):
        return [v]
    if isinstance(v, (Arr, Snap)) and not v.shape:
        return [item(I, v)]
    return [iv(I, x) for x in I.items_of(v)]


def reshape_dims(I, s, dims):
    dims = list(dims)
    tot = ONE
    for d in s.shape:
        tot = T.mul(tot, d)
    unk = [n for n, d in enumerate(dims) if T.isconst(d) and ci(d) == -1]
    known = ONE
    for n, d in enumerate(dims):
        if n not in unk:
            known = T.mul(known, d)
    if len(unk) > 1:
        I.throw("ValueError", "can only specify one unknown dimension")
    if unk:
        # cancel equal factors
        rem = None
        if T.isconst(tot) and T.isconst(known):
            if ci(known) == 0 or ci(tot) % ci(known):
                I.throw("ValueError", "cannot reshape")
            rem = const(ci(tot) // ci(known))
        else:
            src, kn = list(s.shape), [d for n, d in enumerate(dims) if n not in unk]
            ok = True
            for d in list(kn):
                for x in src:
                    if T.same_dim(x, d):
                        src.remove(x)
                        kn.remove(d)
                        break
            num, den = ONE, ONE
            for x in src:
                num = T.mul(num, x)
            for x in kn:
                den = T.mul(den, x)
            rem = num if den is ONE else T.floordiv(num, den)
            if den is not ONE:
                I.require(T.eq(T.mod(num, den), ZERO), "ValueError", "cannot reshape")
        dims[unk[0]] = rem
    elif not T.same_dim(tot, known):
        if T.isconst(tot) and T.isconst(known):
            I.throw("ValueError", "cannot reshape array of size %d into %s" % (ci(tot), [ci(d) for d in dims]))
        I.require(T.eq(tot, known), "ValueError", "cannot reshape")
    return tuple(dims)


def reshape(I, v, dims):
    s = snap(I, v) if not isinstance(v, Arr) else v
    dims = reshape_dims(I, s, dims)
    if len(dims) == len(s.shape) and all(T.same_dim(a, b) for a, b in zip(dims, s.shape)):
        if isinstance(v, Arr):
            return Arr(v.buf, v.shape, v.maps, v.matrix)
        return fresh(I, s)
    # only length-1 axes inserted or removed
    if isinstance(v, Arr):
        p = match_ones(v.shape, dims)
        if p is not None:
            maps = []
            for m in v.maps:
                if m[0] == "c":
                    maps.append(m)
                elif p[m[1]] is None:
                    maps.append(("c", m[2]))
                else:
                    maps.append(("a", p[m[1]], m[2], m[3]))
            return Arr(v.buf, dims, tuple(maps), v.matrix)
        b = Buf(dims, v.dt)
        b.src = (v, dims)
        return Arr(b)
    sh = s.shape
    return fresh(I, Snap(dims, lambda idx: s.fn(unravel(ravel_(idx, dims), sh)), s.dt))


def match_ones(a, b):
    """axes of a -> axes of b when the shapes differ in length-1 axes only"""
    out, j = [], 0
    one = lambda d: T.isconst(d) and ci(d) == 1
    for d in a:
        if one(d):
            if j < len(b) and one(b[j]):
                out.append(j)
                j += 1
            else:
                out.append(None)
            continue
        while j < len(b) and one(b[j]):
            j += 1
        if j >= len(b) or not T.same_dim(d, b[j]):
            return None
        out.append(j)
        j += 1
    while j < len(b) and one(b[j]):
        j += 1
    return out if j == len(b) else None


def transpose(I, v, perm=None):
    nd = v.ndim
    if perm is not None and (len(perm) != nd or any(not -nd <= p < nd for p in perm) or len(set(p % nd for p in perm)) != nd):
        I.throw("ValueError", "axes don't match array or are repeated")
    perm = list(range(nd))[::-1] if perm is None else [p % nd for p in perm]
    shape = tuple(v.shape[p] for p in perm)
    inv = [perm.index(n) for n in range(nd)]
    if isinstance(v, Arr):
        maps = tuple(m if m[0] == "c" else ("a", inv[m[1]], m[2], m[3]) for m in v.maps)
        return Arr(v.buf, shape, maps, v.matrix)
    return fresh(I, Snap(shape, lambda idx: v.fn(tuple(idx[inv[n]] for n in range(nd))), v.dt))


def view_reshape(I, v, dims):
    return reshape(I, as_arr(I, v), dims)


def as_arr(I, v, kind=None):
    """asanyarray: aliases arrays of the right kind"""
    v = I.resolve(v)
    if isinstance(v, Arr) and (kind is None or v.dt == kind):
        return v
    if isinstance(v, Choice):
        va, vb = I.resolve(v.a), I.resolve(v.b)
        if isinstance(va, Arr) and isinstance(vb, Arr) and va.buf is vb.buf and (kind is None or va.dt == kind):
            return I.fork(v, lambda x: as_arr(I, x, kind))
    return fresh(I, snap(I, v, kind), is_matrix(v))


def squeeze(I, v, axis=None):
    v = as_arr(I, v)
    ones = [n for n, d in enumerate(v.shape) if T.isconst(d) and ci(d) == 1]
    if axis is not None:
        ones = axes_of(I, axis, v.ndim)
        if any(T.isconst(v.shape[n]) and ci(v.shape[n]) != 1 for n in ones):
            I.throw("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
    dims = [d for n, d in enumerate(v.shape) if n not in ones]
    p, j = [], 0
    for n in range(v.ndim):
        if n in ones:
            p.append(None)
        else:
            p.append(j)
            j += 1
    maps = tuple(m if m[0] == "c" else (("c", m[2]) if p[m[1]] is None else ("a", p[m[1]], m[2], m[3]))
                 for m in v.maps)
    return Arr(v.buf, dims, maps, v.matrix)


def concat(I, items, axis):
    snaps = [snap(I, x) for x in items]
    if not snaps:
        I.throw("ValueError", "need at least one array to concatenate")
    nd = snaps[0].ndim
    if nd == 0:
        I.throw("ValueError", "zero-dimensional arrays cannot be concatenated")
    ax = axis % nd
    dt = promote(*[s.dt for s in snaps if not empty1(s)] or [snaps[0].dt])
    for s in snaps:
        if s.ndim != nd:
            I.throw("ValueError", "all the input array dimensions must match")
        for n in range(nd):
            if n != ax and not T.same_dim(s.shape[n], snaps[0].shape[n]):
                I.require(T.eq(s.shape[n], snaps[0].shape[n]), "ValueError", "concatenation dimensions")
    snaps = [castsnap(s, dt) for s in snaps]
    tot = ZERO
    offs = []
    for s in snaps:
        offs.append(tot)
        tot = T.add(tot, s.shape[ax])
    shape = list(snaps[0].shape)
    shape[ax] = tot

    def elem(idx):
        k = idx[ax]
        r = None
        for s, o in reversed(list(zip(snaps, offs))):
            j = T.sub(k, o)
            c = T.lt(k, T.add(o, s.shape[ax]))
            if c is FALSE:
                continue
            if T.isconst(j) and ci(j) < 0:
                continue
            e = s.fn(idx[:ax] + (j,) + idx[ax + 1:])
            r = e if r is None else T.ite(c, e, r)
            if r is None:
                r = e
        if r is None:
            return T.call("oob", list(idx), sort=SORT[dt])
        return r
    # reversed order: the first array whose end is beyond k wins
    return Snap(shape, elem, dt)


def empty1(s):
    return any(T.isconst(d) and ci(d) == 0 for d in s.shape)


def stack(I, items, axis):
    snaps = [snap(I, x) for x in items]
    nd = snaps[0].ndim + 1
    ax = axis % nd
    st = snap(I, tuple(snaps))
    if ax == 0:
        return st
    perm = list(range(1, nd))
    perm.insert(ax, 0)
    return snap(I, transpose(I, st, perm))


def matmul(I, a, b):
    if a.ndim == 0 or b.ndim == 0:
        return binsnap(I, "Mult", a, b)
    return dot(I, a, b) if a.ndim <= 2 and b.ndim <= 2 else bmatmul(I, a, b)


def bmatmul(I, a, b):
    if a.ndim == 1 or b.ndim == 1:
        if b.ndim == 1:
            return dot(I, a, b)
        raise AnalysisError("matmul rank")
    bs = bshape(I, [a.shape[:-2], b.shape[:-2]])
    dimeq(I, a.shape[-1], b.shape[-2])
    k = a.shape[-1]

    def elem(idx):
        pre, i, j = idx[:-2], idx[-2], idx[-1]
        A = lambda m: bgetp(a, pre, (i, m))
        B = lambda m: bgetp(b, pre, (m, j))
        return fold_sum(k, lambda m: T.mul(A(m), B(m)))
    return Snap(bs + (a.shape[-2], b.shape[-1]), elem, promote(a.dt, b.dt))


def bgetp(s, pre, last):
    p = s.ndim - 2
    pr = pre[len(pre) - p:]
    return s.fn(tuple(ZERO if d is ONE else i for d, i in zip(s.shape[:p], pr)) + last)


def dimeq(I, a, b):
    if T.same_dim(a, b):
        return
    if T.isconst(a) and T.isconst(b):
        I.throw("ValueError", "shapes not aligned: %s != %s" % (ci(a), ci(b)))
    I.require(T.eq(a, b), "ValueError", "shapes not aligned")


def dot(I, a, b):
    if a.ndim == 0 or b.ndim == 0:
        return binsnap(I, "Mult", a, b)
    bax = b.ndim - 2 if b.ndim > 1 else 0
    dimeq(I, a.shape[-1], b.shape[bax])
    k = a.shape[-1]
    na = a.ndim - 1

    def elem(idx):
        ia, ib = idx[:na], idx[na:]
        return fold_sum(k, lambda m: T.mul(a.fn(ia + (m,)), b.fn(ib[:bax] + (m,) + ib[bax:])))
    return Snap(a.shape[:-1] + b.shape[:bax] + b.shape[bax + 1:], elem, num(promote(a.dt, b.dt)))


def num(k):
    return "i" if k == "b" else k


def einsum(I, spec, ops):
    spec = spec.replace(" ", "")
    if "." in spec:
        # expand the ellipsis
        lhs, _, rhs = spec.partition("->")
        ins = lhs.split(",")
        ns = [s.ndim - len(i.replace("...", "")) if "..." in i else 0 for i, s in zip(ins, ops)]
        m = max(ns)
        names = "ABCDEFGH"[:m]
        ins = [i.replace("...", names[m - n:]) for i, n in zip(ins, ns)]
        if "->" in spec:
            rhs = rhs.replace("...", names)
            spec = ",".join(ins) + "->" + rhs
        else:
            letters = sorted(set("".join(ins)) - set(names))
            spec = ",".join(ins) + "->" + names + "".join(c for c in letters if "".join(ins).count(c) == 1)
    lhs, arrow, rhs = spec.partition("->")
    ins = lhs.split(",")
    if not arrow:
        rhs = "".join(c for c in sorted(set(lhs.replace(",", ""))) if lhs.count(c) == 1)
    if len(ins) != len(ops):
        I.throw("ValueError", "einsum operands")
    dims = {}
    for i, s in zip(ins, ops):
        if len(i) != s.ndim:
            I.throw("ValueError", "einsum: operand has %d dimensions, subscripts %s" % (s.ndim, i))
        for c, d in zip(i, s.shape):
            if c in dims:
                if T.isconst(dims[c]) and ci(dims[c]) == 1:
                    dims[c] = d
                elif not (T.isconst(d) and ci(d) == 1):
                    dimeq(I, dims[c], d)
            else:
                dims[c] = d
    for c in rhs:
        if c not in dims:
            I.throw("ValueError", "einsum output")
    summed = [c for c in dims if c not in rhs]

    def elem(idx):
        env = dict(zip(rhs, idx))

        def rec(n):
            if n == len(summed):
                r = None
                for i, s in zip(ins, ops):
                    e = s.fn(tuple(ZERO if d is ONE else env[c] for c, d in zip(i, s.shape)))
                    r = e if r is None else T.mul(r, e)
                return r

            def body(k):
                env[summed[n]] = k
                return rec(n + 1)
            return fold_sum(dims[summed[n]], body)
        return rec(0)
    return Snap(tuple(dims[c] for c in rhs), elem, num(promote(*[s.dt for s in ops])))


def tensordot(I, a, b, axes):
    axes = I.resolve(axes)
    if isinstance(axes, Node):
        n = ci(axes)
        aa, bb = list(range(a.ndim - n, a.ndim)), list(range(n))
    else:
        x, y = I.items_of(axes)
        f = lambda v, nd: [ci(q) % nd for q in ([v] if isinstance(v, Node) else I.items_of(v))]
        aa, bb = f(x, a.ndim), f(y, b.ndim)
    for p, q in zip(aa, bb):
        dimeq(I, a.shape[p], b.shape[q])
    fa = [n for n in range(a.ndim) if n not in aa]
    fb = [n for n in range(b.ndim) if n not in bb]

    def elem(idx):
        ia, ib = [None] * a.ndim, [None] * b.ndim
        for n, i in zip(fa, idx):
            ia[n] = i
        for n, i in zip(fb, idx[len(fa):]):
            ib[n] = i

        def rec(n):
            if n == len(aa):
                return T.mul(a.fn(tuple(ia)), b.fn(tuple(ib)))

            def body(k):
                ia[aa[n]] = k
                ib[bb[n]] = k
                return rec(n + 1)
            return fold_sum(a.shape[aa[n]], body)
        return rec(0)
    return Snap(tuple(a.shape[n] for n in fa) + tuple(b.shape[n] for n in fb), elem, num(promote(a.dt, b.dt)))


# ------------------------------------------------------------ scalar functions

ALIAS = {"abs": "absolute", "atan2": "arctan2", "atan": "arctan", "asin": "arcsin", "acos": "arccos",
         "acosh": "arccosh", "asinh": "arcsinh", "around": "round", "round_": "round", "conjugate": "conj",
         "rint": "round"}


def scalar_fn(name, *a):
    name = ALIAS.get(name, name)
    if name == "sqrt":
        return T.power(T.to_real(a[0]), const(Fraction(1, 2))) if not T.isconst(a[0]) else csqrt(a[0])
    if name in ("absolute", "fabs"):
        r = T.fn("abs", a[0])
        return T.to_real(r) if name == "fabs" else r
    if name == "square":
        return T.power(a[0], const(2)) if not T.isconst(a[0]) else T.mul(a[0], a[0])
    if name == "hypot":
        s = T.add(T.power(T.to_real(a[0]), const(2)), T.power(T.to_real(a[1]), const(2)))
        return csqrt(s)
    if name == "power":
        return T.power(T.to_real(a[0]), a[1])
    if name == "sign":
        return T.fn("sign", a[0], sort=a[0].sort if a[0].sort in "ir" else "i")
    if name in ("conj", "real", "imag"):
        if nkind(a[0]) != "c":
            return a[0] if name != "imag" else (const(0.0) if a[0].sort == "r" else ZERO)
        return T.fn(name, a[0])
    if name == "negative":
        return T.neg(a[0])
    if name in ("isnan", "isinf", "isfinite"):
        if a[0].sort in "ib" or (T.isconst(a[0])):
            return const(name == "isfinite")
        return T.fn(name, a[0], sort="b")
    if name in ("minimum", "fmin"):
        return T.fn("min", *a)
    if name in ("maximum", "fmax"):
        return T.fn("max", *a)
    if name in ("sin", "cos", "exp", "log", "arctan", "arcsin", "arccos", "arcsinh", "arccosh", "tan",
                "cosh", "sinh", "tanh", "log10", "log2", "arctan2", "floor", "ceil", "fmod", "expm1", "log1p"):
        v = [T.to_real(x) for x in a]
        if name in ("sin", "arctan", "arcsin", "arcsinh", "tan", "sinh", "tanh") and T.isconst(v[0]) and T.cval(v[0]) == 0:
            return const(0.0)
        if name in ("cos", "exp", "cosh") and T.isconst(v[0]) and T.cval(v[0]) == 0:
            return const(1.0)
        if name in ("floor", "ceil") and T.isconst(v[0]):
            import math
            return const(float(getattr(math, name)(T.cval(v[0]))))
        if name == "tan":
            return T.div(scalar_fn("sin", *v), scalar_fn("cos", *v))
        return T.fn(name, *v)
    if name == "round":
        if T.isconst(a[0]) and len(a) == 1:
            return const(Fraction(round(T.cval(a[0])))) if a[0].sort == "r" else a[0]
        if a[0].sort == "i":
            return a[0]
        return T.fn("roundn", *a)
    if name == "deg2rad" or name == "radians":
        return T.mul(T.to_real(a[0]), T.div(T.PI, const(180)))
    if name == "rad2deg" or name == "degrees":
        return T.mul(T.to_real(a[0]), T.div(const(180), T.PI))
    if name == "reciprocal":
        return T.div(ONE, a[0])
    if name == "fmod":
        return T.fn("fmod", *a)
    raise AnalysisError("function %s" % name)


def csqrt(n):
    return T.power(T.to_real(n), const(Fraction(1, 2)))


from fractions import Fraction  # noqa: E402

UFUNC1 = ("sqrt absolute fabs square sign conj real imag negative isnan isinf isfinite sin cos tan exp log "
          "arctan arcsin arccos arcsinh arccosh cosh sinh tanh log10 log2 floor ceil rint deg2rad rad2deg radians degrees "
          "reciprocal abs conjugate expm1 log1p").split()
UFUNC2 = "hypot power minimum maximum arctan2 fmod fmin fmax".split()
OPF = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
       "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod", "bitwise_and": "BitAnd", "bitwise_or": "BitOr",
       "matmul": "MatMult"}
CMPF = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt",
        "greater_equal": "GtE"}


def rkind(name, kinds):
    name = ALIAS.get(name, name)
    k = promote(*kinds)
    if name in ("isnan", "isinf", "isfinite"):
        return "b"
    if name == "absolute":
        return "f" if k == "c" else k
    if name in ("square", "negative", "conj", "sign", "minimum", "maximum", "fmin", "fmax", "mod"):
        return k
    if name in ("real", "imag"):
        return "f" if k == "c" else k
    if name == "power":
        return k if k != "b" else "i"
    if name in ("fabs", "hypot", "arctan2", "floor", "ceil"):
        return "f"
    return "c" if k == "c" else "f"


class Ufunc(object):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def call(self, I, a, k):
        return self.f(I, a, k)

    def attr(self, I, name):
        if name == "reduce":
            def red(I, a, k):
                axis = a[1] if len(a) > 1 else k.get("axis", ZERO)
                s = snap(I, a[0])
                if self.name == "add":
                    return result(I, reduce(I, s, axis, r_sum, num(s.dt)))
                if self.name == "multiply":
                    return result(I, reduce(I, s, axis, r_prod, s.dt))
                if self.name in ("minimum", "maximum"):
                    return result(I, reduce(I, s, axis, r_minmax(self.name[:3]), s.dt))
                if self.name in ("logical_and", "logical_or"):
                    return result(I, reduce(I, s, axis, r_quant("all" if self.name == "logical_and" else "any"), "b"))
                raise AnalysisError("reduce of %s" % self.name)
            return Builtin(self.name + ".reduce", red)
        if name == "outer":
            def outer(I, a, k):
                x, y = snap(I, a[0]), snap(I, a[1])
                xs = Snap(x.shape + (ONE,) * y.ndim, lambda idx: x.fn(idx[:x.ndim]), x.dt)
                return self.f(I, [xs, y], k)
            return Builtin(self.name + ".outer", outer)
        if name == "accumulate":
            return Builtin(self.name + ".accumulate", lambda I, a, k: lib(I, "accumulate", [self] + list(a), k))
        if name == "at":
            return Builtin(self.name + ".at", lambda I, a, k: lib(I, "at", [self] + list(a), k))
        if name == "__name__":
            return self.name
        return MISS

    def as_o(self, I):
        return const("ufunc:" + self.name)


# ------------------------------------------------------------ attributes


def arr_attr(I, o, name):
    if name == "shape":
        return tuple(o.shape)
    if name == "ndim":
        return const(o.ndim)
    if name == "size":
        n = ONE
        for d in o.shape:
            n = T.mul(n, d)
        return n
    if name == "T":
        return transpose(I, o) if o.ndim > 1 else o
    if name == "dtype":
        return KDT[o.dt]
    if name in ("real", "imag"):
        s = snap(I, o)
        if s.dt != "c":
            if name == "real":
                return o
            return result(I, Snap(s.shape, lambda idx: const(0.0), s.dt))
        return result(I, Snap(s.shape, lambda idx: T.fn(name, s.fn(idx)), "f"))
    if name == "flat":
        return reshape(I, as_arr(I, o), [const(-1)])
    if name == "base":
        return None if isinstance(o, Arr) and o.whole() else o
    if name == "I" and is_matrix(o):
        return call_np(I, "linalg.inv", [o], {})
    if name == "A" and is_matrix(o):
        return Arr(o.buf, o.shape, o.maps)
    if name == "A1" and is_matrix(o):
        return reshape(I, Arr(o.buf, o.shape, o.maps), [const(-1)])
    if name == "H" and is_matrix(o):
        return call_np(I, "conj", [transpose(I, o)], {})
    if name == "itemsize":
        return const(8)
    if name == "nbytes":
        return T.mul(const(8), arr_attr(I, o, "size"))
    if name == "strides":
        raise AnalysisError("strides")
    m = METHODS.get(name)
    if m is not None:
        return Builtin("ndarray." + name, lambda I, a, k: m(I, o, a, k))
    return MISS


def scalar_attr(I, n, name):
    if n.sort == "o":
        if n.op == "const":
            if n.x[1] is None:
                return MISS
        return T.call("attr:" + name, [n])
    if name in ("real", "imag", "shape", "ndim", "size", "T", "dtype") or name in METHODS:
        if name == "T":
            return n
        return arr_attr(I, snap(I, n), name)
    if name == "is_integer":
        return Builtin("is_integer", lambda I, a, k: T.fn("isint", n, sort="b"))
    return MISS


def arr_setattr(I, o, name, v):
    if name == "shape":
        r = reshape(I, o, int_list(I, v))
        if r.buf is not o.buf:
            raise AnalysisError("shape assignment")
        o.shape, o.maps = r.shape, r.maps
        return
    if name in ("real", "imag"):
        s = snap(I, o)
        w = fit(I, snap(I, v), s.shape)
        if name == "real":
            store(I, o, Snap(s.shape, lambda idx: T.add(w.fn(idx), T.mul(T.I, T.fn("imag", s.fn(idx)))), s.dt)
                  if s.dt == "c" else castsnap(w, s.dt))
        else:
            store(I, o, Snap(s.shape, lambda idx: T.add(T.fn("real", s.fn(idx)), T.mul(T.I, w.fn(idx))), s.dt))
        return
    if name == "flat":
        return setitem(I, o, Ellipsis, v)
    if name == "flags":
        return
    raise AnalysisError("array attribute %s" % name)


def arg(a, k, n, name, default=None):
    if len(a) > n:
        return a[n]
    return k.get(name, default)


def outarg(I, r, k):
    out = k.get("out")
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    I.setitem(out, Ellipsis, r)
    return out


def cast(I, v, d):
    kind = d if isinstance(d, str) else d.kind
    v = I.resolve(v)
    s = snap(I, v)
    if not s.shape:
        n = s()
        if n.sort == "o" and n.op == "const" and isinstance(n.x[1], str) and kind in "fi":
            try:
                return const(float(n.x[1])) if kind == "f" else const(int(n.x[1]))
            except ValueError:
                I.throw("ValueError", "could not convert string")
        return conv(n, kind)
    return fresh(I, castsnap(s, kind))


def redm(f, dt):
    def g(I, o, a, k):
        s = snap(I, o)
        ax = arg(a, k, 0, "axis")
        kd = k.get("keepdims")
        d = dt(s.dt) if callable(dt) else dt
        r = reduce(I, s, ax, f, d, keepdims=(kd is not None and I.truth(kd) is TRUE) or (is_matrix(o) and ax is not None))
        return outarg(I, result(I, r, is_matrix(o) and ax is not None), k)
    return g


def m_mean(I, o, a, k):
    s = snap(I, o)
    ax = arg(a, k, 0, "axis")
    axes = axes_of(I, ax, s.ndim)
    n = ONE
    for x in axes:
        n = T.mul(n, s.shape[x])
    kd = k.get("keepdims")
    r = reduce(I, s, ax, lambda d, at: T.div(r_sum(d, at), n), "c" if s.dt == "c" else "f",
               keepdims=kd is not None and I.truth(kd) is TRUE)
    return result(I, r)


def m_reshape(I, o, a, k):
    dims = int_list(I, a[0]) if len(a) == 1 else [iv(I, x) for x in a]
    if k.get("order") == "F":
        r = reshape(I, transpose(I, o), dims[::-1])
        return transpose(I, r)
    if k.get("order") not in (None, "C", "A"):
        raise AnalysisError("reshape order")
    return reshape(I, o, dims)


def m_ravel(I, o, a, k):
    order = arg(a, k, 0, "order", "C")
    if order == "F":
        o = transpose(I, as_arr(I, o))
    elif order not in ("C", "A", "K"):
        raise AnalysisError("ravel order")
    return reshape(I, as_arr(I, o), [const(-1)])


def m_transpose(I, o, a, k):
    if k.get("axes") is not None:
        a = [k["axes"]]
    if not a or a[0] is None:
        return transpose(I, o)
    ax = int_list(I, a[0]) if len(a) == 1 else list(a)
    return transpose(I, o, [ci(x) for x in ax])


def axis_of(I, x, nd):
    n = ci(x)
    if not -nd <= n < nd:
        I.throw("ValueError", "axis %d is out of bounds" % n)
    return n % nd


def m_swapaxes(I, o, a, k):
    p = list(range(o.ndim))
    i, j = (axis_of(I, arg(a, k, n, q), o.ndim) for n, q in enumerate(("axis1", "axis2")))
    p[i], p[j] = p[j], p[i]
    return transpose(I, o, p)


def m_sort(I, o, a, k):
    ax = arg(a, k, 0, "axis", const(-1))
    store(I, o, sort_snap(I, snap(I, o), "sort", ci(ax)))
    return None


def m_argsort(I, o, a, k):
    s = snap(I, o)
    ax = arg(a, k, 0, "axis", const(-1))
    return result(I, sort_snap(I, s, "argsort", ci(ax)))


def m_argred(name):
    def f(I, o, a, k):
        s = snap(I, o)
        return result(I, reduce(I, s, arg(a, k, 0, "axis"), r_arg(name), "i"))
    return f


def m_astype(I, o, a, k):
    kind = dtype_of(I, arg(a, k, 0, "dtype"))
    if k.get("copy") is FALSE and isinstance(o, Arr) and o.dt == kind:
        return o
    return result(I, castsnap(snap(I, o), kind))


def m_tolist(I, o, a, k):
    s = snap(I, o)
    if not s.shape:
        return s()

    def rec(s):
        if s.ndim == 1:
            return I.list_from((Seg(s.shape[0], lambda j: s(j)),))
        return I.list_from((Seg(s.shape[0], lambda j: rec(Snap(s.shape[1:], lambda idx: s.fn((j,) + idx), s.dt))),))
    return rec(s)


def m_item(I, o, a, k):
    s = snap(I, o)
    if a:
        return getitem(I, s, tuple(a) if len(a) > 1 else a[0])
    return item(I, s)


def m_cumsum(I, o, a, k):
    s = snap(I, o)
    ax = arg(a, k, 0, "axis")
    if ax is None:
        if s.ndim != 1:
            s = snap(I, reshape(I, s, [const(-1)]))
        ax = 0
    else:
        ax = ci(ax) % s.ndim

    def elem(idx):
        n = T.add(idx[ax], ONE)
        return fold_sum(n, lambda j: s.fn(idx[:ax] + (j,) + idx[ax + 1:]), SORT[s.dt])
    return fresh(I, Snap(s.shape, elem, num(s.dt)))


def m_fill(I, o, a, k):
    setitem(I, o, Ellipsis, a[0])


def m_trace(I, o, a, k):
    s = snap(I, o)
    a1, a2 = ci(arg(a, k, 1, "axis1", ZERO)) % s.ndim, ci(arg(a, k, 2, "axis2", ONE)) % s.ndim
    off = ci(arg(a, k, 0, "offset", ZERO))
    if off:
        raise AnalysisError("trace offset")
    n = s.shape[a1]
    if T.isconst(n) and T.isconst(s.shape[a2]):
        n = const(min(ci(n), ci(s.shape[a2])))
    rest = [d for q, d in enumerate(s.shape) if q not in (a1, a2)]

    def elem(idx):
        def at(kk):
            full, it = [], list(idx)
            for q in range(s.ndim):
                full.append(kk if q in (a1, a2) else it.pop(0))
            return s.fn(tuple(full))
        return fold_sum(n, at)
    return result(I, Snap(rest, elem, num(s.dt)))


def m_diagonal(I, o, a, k):
    s = snap(I, o)
    off = ci(arg(a, k, 0, "offset", ZERO))
    a1, a2 = ci(arg(a, k, 1, "axis1", ZERO)) % s.ndim, ci(arg(a, k, 2, "axis2", ONE)) % s.ndim
    rest = [d for q, d in enumerate(s.shape) if q not in (a1, a2)]
    n1, n2 = s.shape[a1], s.shape[a2]
    if T.isconst(n1) and T.isconst(n2):
        n = const(max(0, min(ci(n1) - max(0, -off), ci(n2) - max(0, off))))
    else:
        n = n1
    def elem(idx):
        full, it = [], list(idx[:-1])
        for q in range(s.ndim):
            if q == a1:
                full.append(T.add(idx[-1], const(max(0, -off))))
            elif q == a2:
                full.append(T.add(idx[-1], const(max(0, off))))
            else:
                full.append(it.pop(0))
        return s.fn(tuple(full))
    return fresh(I, Snap(tuple(rest) + (n,), elem, s.dt))


def m_clip(I, o, a, k):
    s = snap(I, o)
    lo, hi = arg(a, k, 0, "a_min", k.get("min")), arg(a, k, 1, "a_max", k.get("max"))
    r = s
    if lo is not None:
        r = ew(I, lambda x, y: T.fn("max", x, y), [r, lo], None)
    if hi is not None:
        r = ew(I, lambda x, y: T.fn("min", x, y), [r, hi], None)
    return outarg(I, result(I, r), k)


def m_take(I, o, a, k):
    ax = arg(a, k, 1, "axis")
    if arg(a, k, 3, "mode") not in (None, "raise"):
        raise AnalysisError("take with mode")
    if ax is None:
        return getitem(I, reshape(I, as_arr(I, o), [const(-1)]), a[0])
    x = ci(ax) % o.ndim
    return getitem(I, o, (Slice(None, None, None),) * x + (a[0],))


def m_repeat(I, o, a, k):
    s = snap(I, o)
    n = I.resolve(arg(a, k, 0, "repeats"))
    ax = arg(a, k, 1, "axis")
    if ax is None:
        s = snap(I, reshape(I, s, [const(-1)]))
        ax = 0
    else:
        ax = ci(ax) % s.ndim
    if isinstance(n, Node):
        sh = list(s.shape)
        sh[ax] = T.mul(sh[ax], n)
        return fresh(I, Snap(sh, lambda idx: s.fn(idx[:ax] + (T.floordiv(idx[ax], n),) + idx[ax + 1:]), s.dt))
    ns = I.items_of(n)
    if not all(T.isconst(x) for x in ns):
        raise NeedConcrete("repeat")
    src = [const(i) for i, x in enumerate(ns) for _ in range(ci(x))]
    sh = list(s.shape)
    sh[ax] = const(len(src))
    return fresh(I, Snap(sh, lambda idx: s.fn(idx[:ax] + (pick(src, idx[ax], "i"),) + idx[ax + 1:]), s.dt))


def m_dot(I, o, a, k):
    return outarg(I, result(I, dot(I, snap(I, o), snap(I, a[0])), is_matrix(o) or is_matrix(a[0])), k)


def m_std(I, o, a, k, var=False):
    s = snap(I, o)
    axes = axes_of(I, arg(a, k, 0, "axis"), s.ndim)
    n = ONE
    for x in axes:
        n = T.mul(n, s.shape[x])

    def f(d, at):
        mean = T.div(r_sum(d, at), n)
        q = r_sum(d, lambda ks: T.power(T.sub(at(ks), mean), const(2)))
        r = T.div(q, T.sub(n, lift(ddof)))
        return r if var else csqrt(r)
    ddof = I.resolve(arg(a, k, 3, "ddof", ZERO))
    kd = k.get("keepdims")
    return result(I, reduce(I, s, arg(a, k, 0, "axis"), f, "f", keepdims=kd is not None and I.truth(kd) is TRUE))


def m_round(I, o, a, k):
    s = snap(I, o)
    d = arg(a, k, 0, "decimals")
    return result(I, Snap(s.shape, lambda idx: scalar_fn("round", s.fn(idx), *([d] if d is not None else [])), s.dt))


def m_nonzero(I, o, a, k):
    return tuple(result(I, x) for x in nonzero(I, snap(I, o)))


def m_ptp(I, o, a, k):
    s = snap(I, o)
    ax = arg(a, k, 0, "axis")
    return binop(I, "Sub", result(I, reduce(I, s, ax, r_minmax("max"), s.dt)), result(I, reduce(I, s, ax, r_minmax("min"), s.dt)))


def npm_call(name):
    return lambda I, o, a, k: call_np(I, name, [o] + list(a), k)


METHODS = {
    "sum": redm(r_sum, num), "prod": redm(r_prod, lambda d: d), "any": redm(r_quant("any"), "b"),
    "all": redm(r_quant("all"), "b"), "min": redm(r_minmax("min"), lambda d: d),
    "max": redm(r_minmax("max"), lambda d: d), "mean": m_mean, "std": m_std,
    "var": lambda I, o, a, k: m_std(I, o, a, k, True), "reshape": m_reshape,
    "transpose": m_transpose, "swapaxes": m_swapaxes, "sort": m_sort, "argsort": m_argsort,
    "argmin": m_argred("min"), "argmax": m_argred("max"), "astype": m_astype, "tolist": m_tolist,
    "item": m_item, "cumsum": m_cumsum, "fill": m_fill, "trace": m_trace, "diagonal": m_diagonal,
    "clip": m_clip, "take": m_take, "repeat": m_repeat, "dot": m_dot, "round": m_round,
    "copy": lambda I, o, a, k: result(I, snap(I, o), is_matrix(o)),
    "ravel": m_ravel, "flatten": lambda I, o, a, k: copy_of(I, m_ravel(I, o, a, k)),
    "squeeze": lambda I, o, a, k: squeeze(I, o, arg(a, k, 0, "axis")),
    "conj": npm_call("conj"), "conjugate": npm_call("conj"), "nonzero": m_nonzero, "ptp": m_ptp,
    "setflags": lambda I, o, a, k: None,
    "view": lambda I, o, a, k: o,
    "tobytes": lambda I, o, a, k: T.call("tobytes", [pack(I, o)]),
    "__len__": lambda I, o, a, k: o.shape[0],
}


def copy_of(I, v):
    return fresh(I, snap(I, v), is_matrix(v))


# ------------------------------------------------------------ functions

FUNCS = {}


def npf(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def call_np(I, name, a, k):
    f = FUNCS.get(name)
    if f is None:
        raise AnalysisError("numpy.%s" % name)
    return f(I, list(a), dict(k))


def _mk_ufuncs():
    for n in UFUNC1:
        def f(I, a, k, n=n):
            s = snap(I, a[0])
            dt = rkind(n, [s.dt])
            if s.dt == "o":
                return result(I, Snap(s.shape, lambda idx: T.call("np." + n, [s.fn(idx)]), "o"))
            r = Snap(s.shape, lambda idx: conv(scalar_fn(n, s.fn(idx)), dt) if dt != "c" else scalar_fn(n, s.fn(idx)), dt)
            w = k.get("where")
            if w is not None and w is not TRUE:
                raise AnalysisError("ufunc where")
            if len(a) > 1:
                k = dict(k, out=a[1])
            return outarg(I, result(I, r, is_matrix(a[0])), k)
        FUNCS[n] = f
    for n in UFUNC2:
        def f(I, a, k, n=n):
            sa, sb = snap(I, a[0]), snap(I, a[1])
            dt = rkind(n, [sa.dt, sb.dt])
            g = (lambda x, y: T.power(x, y)) if n == "power" else (lambda x, y: scalar_fn(n, x, y))
            if len(a) > 2:
                k = dict(k, out=a[2])
            return outarg(I, result(I, ew(I, g, [sa, sb], dt)), k)
        FUNCS[n] = f
    for n, op in OPF.items():
        def f(I, a, k, op=op):
            if len(a) > 2:
                k = dict(k, out=a[2])
            r = I.binop(op, as_arrs(I, a[0]), as_arrs(I, a[1]))
            return outarg(I, r, k)
        FUNCS[n] = f
    for n, op in CMPF.items():
        def f(I, a, k, op=op):
            return compare(I, op, snap(I, a[0]), snap(I, a[1]))
        FUNCS[n] = f
    for n, g in (("logical_and", T.and_), ("logical_or", T.or_)):
        def f(I, a, k, g=g):
            return result(I, ew(I, lambda x, y: g(T.truth(x), T.truth(y)), a[:2], "b"))
        FUNCS[n] = f
    FUNCS["logical_not"] = lambda I, a, k: result(I, ew(I, lambda x: T.not_(T.truth(x)), a[:1], "b"))
    for n in ("sum prod any all min max mean std var argmin argmax cumsum trace diagonal clip take repeat "
              "round transpose swapaxes squeeze ravel ptp nonzero argsort").split():
        def f(I, a, k, n=n):
            o = I.resolve(a[0])
            if not isinstance(o, Arr):
                o = snap(I, o)
            return METHODS[n](I, o, list(a[1:]), k)
        FUNCS[n] = f
    FUNCS["amin"], FUNCS["amax"], FUNCS["around"] = FUNCS["min"], FUNCS["max"], FUNCS["round"]
    FUNCS["round_"] = FUNCS["round"]


def as_arrs(I, v):
    v = I.resolve(v)
    if isinstance(v, (Arr, Node, Snap)):
        return v
    return snap(I, v)


@npf("array")
def _(I, a, k):
    v = I.resolve(a[0])
    kind = dtype_of(I, arg(a, k, 1, "dtype"))
    nd = k.get("ndmin")
    if k.get("copy") is FALSE and isinstance(v, Arr) and kind in (None, v.dt):
        if nd is None or ci(nd) <= v.ndim:
            return v
        return getitem(I, v, (None,) * (ci(nd) - v.ndim) + (Slice(None, None, None),))
    s = snap(I, v, kind)
    if nd is not None:
        n = ci(nd)
        while s.ndim < n:
            s = (lambda s: Snap((ONE,) + s.shape, lambda idx: s.fn(idx[1:]), s.dt))(s)
    return fresh(I, s)


@npf("matrix", "asmatrix", "mat")
def _(I, a, k):
    s = snap(I, a[0])
    while s.ndim < 2:
        s = (lambda s: Snap((ONE,) + s.shape, lambda idx: s.fn(idx[1:]), s.dt))(s)
    return fresh(I, s, True)


@npf("asanyarray", "asarray", "ascontiguousarray", "asfarray", "asarray_chkfinite", "require", "array2")
def _(I, a, k):
    return as_arr(I, a[0], dtype_of(I, arg(a, k, 1, "dtype")))


@npf("copy")
def _(I, a, k):
    return copy_of(I, a[0])


def filled(I, a, k, val, kind):
    dims = tuple(int_list(I, arg(a, k, 0, "shape")))
    for d in dims:
        if T.isconst(d) and ci(d) < 0:
            I.throw("ValueError", "negative dimensions are not allowed")
    return fresh(I, Snap(dims, lambda idx: val, kind))


@npf("zeros")
def _(I, a, k):
    kind = dtype_of(I, arg(a, k, 1, "dtype")) or "f"
    return filled(I, a, k, conv(const(0.0), kind), kind)


@npf("ones")
def _(I, a, k):
    kind = dtype_of(I, arg(a, k, 1, "dtype")) or "f"
    return filled(I, a, k, conv(const(1.0), kind), kind)


@npf("full")
def _(I, a, k):
    s = snap(I, a[1])
    kind = dtype_of(I, arg(a, k, 2, "dtype")) or s.dt
    dims = tuple(int_list(I, a[0]))
    return fresh(I, castsnap(fit(I, s, dims), kind))


_un = [0]


@npf("empty")
def _(I, a, k):
    kind = dtype_of(I, arg(a, k, 1, "dtype")) or "f"
    dims = tuple(int_list(I, arg(a, k, 0, "shape")))
    _un[0] += 1
    n = "uninit%d" % _un[0]
    return fresh(I, Snap(dims, lambda idx: T.atom(n, SORT[kind], idx), kind))


def like(val):
    def f(I, a, k):
        s = snap(I, a[0])
        kind = dtype_of(I, arg(a, k, 1, "dtype")) or s.dt
        if val is None:
            _un[0] += 1
            n = "uninit%d" % _un[0]
            return fresh(I, Snap(s.shape, lambda idx: T.atom(n, SORT[kind], idx), kind))
        v = conv(const(val), kind)
        return fresh(I, Snap(s.shape, lambda idx: v, kind))
    return f


FUNCS["zeros_like"], FUNCS["ones_like"], FUNCS["empty_like"] = like(0.0), like(1.0), like(None)


@npf("full_like")
def _(I, a, k):
    s = snap(I, a[0])
    kind = dtype_of(I, arg(a, k, 2, "dtype")) or s.dt
    return fresh(I, castsnap(fit(I, snap(I, a[1]), s.shape), kind))


@npf("eye", "identity")
def _(I, a, k):
    n = iv(I, a[0])
    m = n
    if len(a) > 1 and isinstance(a[1], Node):
        m = iv(I, a[1])
    off = iv(I, arg(a, k, 2, "k", ZERO))
    kind = dtype_of(I, k.get("dtype")) or "f"
    return fresh(I, Snap((n, m), lambda idx: T.ite(T.eq(T.add(idx[0], off), idx[1]), conv(const(1.0), kind), conv(const(0.0), kind)), kind))


@npf("arange")
def _(I, a, k):
    vs = [I.resolve(x) if not isinstance(x, (Arr, Snap)) else item(I, x) for x in a]
    lo, hi, st = (ZERO, vs[0], ONE) if len(vs) == 1 else (vs[0], vs[1], vs[2] if len(vs) > 2 else k.get("step", ONE))
    kind = dtype_of(I, k.get("dtype"))
    if all(v.sort in "ib" for v in (lo, hi, st)):
        r = Range(lo, hi, st)
        s = Snap((r.length(),), lambda idx: r.at(idx[0]), "i")
    else:
        lo, hi, st = map(T.to_real, (lo, hi, st))
        d = T.div(T.sub(hi, lo), st)
        if T.isconst(d):
            import math
            n = const(max(0, math.ceil(T.cval(d))))
        else:
            n = T.fn("int", T.fn("ceil", d), sort="i")
        s = Snap((n,), lambda idx: T.add(lo, T.mul(st, T.to_real(idx[0]))), "f")
    return fresh(I, castsnap(s, kind) if kind else s)


@npf("linspace")
def _(I, a, k):
    if arg(a, k, 6, "axis") is not None and ci(arg(a, k, 6, "axis")):
        return lib(I, "linspace_axis", a, k)
    if k.get("dtype") is not None and dtype_of(I, k["dtype"]) != "f":
        raise AnalysisError("linspace of integers")
    lo, hi = snap(I, a[0]), snap(I, a[1])
    n = iv(I, arg(a, k, 2, "num", const(50)))
    ep = arg(a, k, 3, "endpoint", TRUE)
    div = T.sub(n, ONE) if I.truth(ep) is TRUE else n
    sh = bshape(I, [lo.shape, hi.shape])

    def elem(idx):
        x, y = bget(lo, idx[1:]), bget(hi, idx[1:])
        if T.isconst(div) and ci(div) == 0:
            return T.to_real(x)
        step = T.div(T.sub(T.to_real(y), T.to_real(x)), div)
        v = T.add(T.to_real(x), T.mul(step, T.to_real(idx[0])))
        if T.isconst(div):
            return v
        return T.ite(T.eq(div, ZERO), T.to_real(x), v)
    r = fresh(I, Snap((n,) + sh, elem, promote("f", lo.dt, hi.dt)))
    if arg(a, k, 4, "retstep") is TRUE:
        return (r, T.div(T.sub(hi(), lo()), div))
    return r


class MGrid(object):
    def __init__(self, kind):
        self.kind = kind

    def getitem(self, I, k):
        if isinstance(k, PList):
            k = tuple(I.items_of(k))
        ks = list(k) if isinstance(k, tuple) else [k]
        axes = []
        for s in ks:
            s = I.resolve(s)
            if self.kind in ("r", "c"):
                if not isinstance(s, Slice):
                    axes.append(s)
                    continue
            lo = I.resolve(s.lo) if s.lo is not None else ZERO
            lo = item(I, lo) if isinstance(lo, (Arr, Snap)) else lo
            hi = item(I, s.hi) if isinstance(s.hi, (Arr, Snap)) else s.hi
            st = s.step if s.step is not None else ONE
            if isinstance(st, (Arr, Snap)):
                st = item(I, st)
            if nkind(st) == "c":
                n = imag_count(st)
                lo, hi = T.to_real(lo), T.to_real(hi)
                d = T.sub(n, ONE)
                axes.append(Snap((n,), (lambda lo, hi, d: lambda idx: T.add(lo, T.mul(T.div(T.sub(hi, lo), d) if not (T.isconst(d) and ci(d) == 0) else const(0.0), T.to_real(idx[0]))))(lo, hi, d), "f"))
            else:
                axes.append(snap(I, call_np(I, "arange", [lo, hi, st], {})))
        if self.kind == "r":
            return result(I, concat(I, [x1(I, x) for x in axes], 0))
        if self.kind == "c":
            return result(I, concat(I, [c1(I, x) for x in axes], -1))
        dims = tuple(x.shape[0] for x in axes)
        if self.kind == "ogrid":
            raise AnalysisError("ogrid")
        dt = promote(*[x.dt for x in axes])
        gs = [Snap(dims, (lambda n, x: lambda idx: conv(x.fn((idx[n],)), dt))(n, x), dt) for n, x in enumerate(axes)]
        if not isinstance(k, tuple):
            return fresh(I, gs[0])
        return fresh(I, stack_snaps(I, gs))


def imag_count(st):
    """n of the complex step n*1j"""
    if st is T.I:
        return ONE
    if st.op == "mul":
        x, y = st.args
        for u, v in ((x, y), (y, x)):
            if v is T.I:
                if T.isconst(u):
                    return const(int(T.cval(u)))
                return conv(u, "i")
    if st.op == "add" and T.isconst(st.args[0]) and T.cval(st.args[0]) == 0:
        return imag_count(st.args[1])
    return T.fn("int", T.fn("imag", st), sort="i")


def x1(I, v):
    s = snap(I, v)
    return s if s.ndim else Snap((ONE,), lambda idx: s(), s.dt)


def c1(I, v):
    s = snap(I, v)
    if s.ndim == 0:
        return Snap((ONE, ONE), lambda idx: s(), s.dt)
    if s.ndim == 1:
        return Snap((s.shape[0], ONE), lambda idx: s.fn((idx[0],)), s.dt)
    return s


def atleast(n):
    def f(I, a, k):
        out = []
        for v in a:
            v = I.resolve(v)
            if isinstance(v, Choice):
                v = as_arr(I, v)
            arr = v if isinstance(v, Arr) else fresh(I, snap(I, v))
            nd = arr.ndim
            if nd < n:
                if n == 3:
                    sh = {0: (ONE, ONE, ONE), 1: (ONE,) + arr.shape + (ONE,), 2: arr.shape + (ONE,)}[nd]
                    off = {0: 0, 1: 1, 2: 0}[nd]
                else:
                    sh, off = (ONE,) * (n - nd) + arr.shape, n - nd
                maps = tuple(m if m[0] == "c" else ("a", m[1] + off, m[2], m[3]) for m in arr.maps)
                arr = Arr(arr.buf, sh, maps, arr.matrix)
            out.append(arr)
        return out[0] if len(out) == 1 else I.new_list(out)
    return f


for _n in (1, 2, 3):
    FUNCS["atleast_%dd" % _n] = atleast(_n)


@npf("expand_dims")
def _(I, a, k):
    v = as_arr(I, a[0])
    ax = arg(a, k, 1, "axis")
    axs = [ax] if isinstance(ax, Node) else I.items_of(ax)
    nd = v.ndim + len(axs)
    axs = [axis_of(I, x, nd) for x in axs]
    key = []
    for n in range(nd):
        key.append(None if n in axs else Slice(None, None, None))
    return getitem(I, v, tuple(key))


@npf("reshape")
def _(I, a, k):
    return m_reshape(I, as_arr(I, a[0]), [arg(a, k, 1, "newshape", k.get("shape"))], {})


@npf("moveaxis")
def _(I, a, k):
    v = as_arr(I, a[0])
    src, dst = ([axis_of(I, y, v.ndim) for y in ([x] if isinstance(x, Node) else I.items_of(x))]
                for x in (I.resolve(arg(a, k, 1, "source")), I.resolve(arg(a, k, 2, "destination"))))
    p = [n for n in range(v.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        p.insert(d, s)
    return transpose(I, v, p)


@npf("rollaxis")
def _(I, a, k):
    v = as_arr(I, a[0])
    s = ci(a[1]) % v.ndim
    d = ci(arg(a, k, 2, "start", ZERO)) % (v.ndim + 1)
    p = [n for n in range(v.ndim) if n != s]
    p.insert(d if d <= s else d - 1, s)
    return transpose(I, v, p)


@npf("concatenate")
def _(I, a, k):
    ax = arg(a, k, 1, "axis", ZERO)
    items = seq_items(I, a[0])
    if ax is None:
        items = [reshape(I, as_arr(I, x), [const(-1)]) for x in items]
        ax = ZERO
    r = concat_segs(I, a[0], ci(ax)) if items is None else concat(I, items, ci(ax))
    return outarg(I, fresh(I, r), k)


def seq_items(I, v):
    v = I.resolve(v)
    if isinstance(v, (Arr, Snap)):
        return I.items_of(v)
    segs = I.segs_of(v)
    if all(I.conc(s.len) is not None for s in segs):
        return I.items_of(I.list_from(segs))
    return None


def concat_segs(I, v, axis):
    """concatenation of a symbolic number of arrays along the first axis"""
    from . import interp
    segs = I.segs_of(v)
    if axis != 0:
        raise NeedConcrete("concatenate")
    # every segment contributes blocks
    parts = []
    for s in segs:
        if interp.is01(s.len) or T.isconst(s.len):
            n = 1 if not T.isconst(s.len) else ci(s.len)
            for j in range(n):
                e = snap(I, s.elem(const(j)))
                ln = e.shape[0] if T.isconst(s.len) else T.ite(T.eq(s.len, ONE), e.shape[0], ZERO)
                parts.append(Snap((ln,) + e.shape[1:], e.fn, e.dt))
            continue
        x = T.var()
        e = snap(I, s.elem(x))
        fm = T.FlatMap(x, s.len, [e.shape[0]])
        parts.append(Snap((T.fmlen(fm),) + e.shape[1:],
                          (lambda e, fm, x: lambda idx: T.let(x, T.fmpos(fm, idx[0], "i"), e.fn((T.fmpos(fm, idx[0], "k"),) + idx[1:])))(e, fm, x), e.dt))
    return concat(I, parts, 0)


@npf("vstack", "row_stack")
def _(I, a, k):
    items = [FUNCS["atleast_2d"](I, [x], {}) for x in seq_items(I, a[0])]
    return fresh(I, concat(I, items, 0))


@npf("hstack")
def _(I, a, k):
    items = [FUNCS["atleast_1d"](I, [x], {}) for x in seq_items(I, a[0])]
    return fresh(I, concat(I, items, 0 if items[0].ndim == 1 else 1))


@npf("dstack")
def _(I, a, k):
    items = [FUNCS["atleast_3d"](I, [x], {}) for x in seq_items(I, a[0])]
    return fresh(I, concat(I, items, 2))


@npf("column_stack")
def _(I, a, k):
    return fresh(I, concat(I, [c1(I, x) for x in seq_items(I, a[0])], 1))


@npf("stack")
def _(I, a, k):
    return fresh(I, stack(I, seq_items(I, a[0]), ci(arg(a, k, 1, "axis", ZERO))))


@npf("append")
def _(I, a, k):
    ax = arg(a, k, 2, "axis")
    if ax is None:
        return fresh(I, concat(I, [reshape(I, as_arr(I, x), [const(-1)]) for x in a[:2]], 0))
    return fresh(I, concat(I, a[:2], ci(ax)))


@npf("delete")
def _(I, a, k):
    s = snap(I, a[0])
    ax = arg(a, k, 2, "axis")
    if ax is None:
        s = snap(I, reshape(I, s, [const(-1)]))
        ax = 0
    else:
        ax = ci(ax) % s.ndim
    n = s.shape[ax]
    v = I.resolve(a[1])
    ks = [v] if isinstance(v, Node) else I.items_of(v)
    if isinstance(v, Node) and not T.isconst(v):
        kk = T.mod(v, n)

        def elem(idx):
            j = idx[ax]
            return s.fn(idx[:ax] + (T.ite(T.lt(j, kk), j, T.add(j, ONE)),) + idx[ax + 1:])
        return fresh(I, Snap(s.shape[:ax] + (T.sub(n, ONE),) + s.shape[ax + 1:], elem, s.dt))
    if not (T.isconst(n) and all(T.isconst(x) for x in ks)):
        raise NeedConcrete("delete")
    drop = set(ci(x) % ci(n) for x in ks)
    keep = I.new_list([const(j) for j in range(ci(n)) if j not in drop])
    return getitem(I, s, (Slice(None, None, None),) * ax + (keep,))


@npf("insert")
def _(I, a, k):
    raise AnalysisError("np.insert")


@npf("roll")
def _(I, a, k):
    s = snap(I, a[0])
    sh = iv(I, arg(a, k, 1, "shift"))
    ax = arg(a, k, 2, "axis")
    if ax is None:
        if s.ndim != 1:
            flat = snap(I, reshape(I, s, [const(-1)]))
            r = Snap(flat.shape, lambda idx: flat.fn((T.mod(T.sub(idx[0], sh), flat.shape[0]),)), s.dt)
            return reshape(I, fresh(I, r), s.shape)
        x = 0
    else:
        x = ci(ax) % s.ndim
    n = s.shape[x]
    return fresh(I, Snap(s.shape, lambda idx: s.fn(idx[:x] + (T.mod(T.sub(idx[x], sh), n),) + idx[x + 1:]), s.dt))


@npf("flip", "flipud", "fliplr")
def _(I, a, k):
    s = snap(I, a[0])
    ax = arg(a, k, 1, "axis")
    axes = axes_of(I, ax, s.ndim)
    return fresh(I, Snap(s.shape, lambda idx: s.fn(tuple(T.sub(T.sub(s.shape[n], ONE), i) if n in axes else i for n, i in enumerate(idx))), s.dt))


FUNCS["flipud"] = lambda I, a, k: FUNCS["flip"](I, [a[0], ZERO], {})
FUNCS["fliplr"] = lambda I, a, k: FUNCS["flip"](I, [a[0], ONE], {})


@npf("tile")
def _(I, a, k):
    s = snap(I, a[0])
    reps = int_list(I, a[1])
    nd = max(s.ndim, len(reps))
    while s.ndim < nd:
        s = (lambda s: Snap((ONE,) + s.shape, lambda idx: s.fn(idx[1:]), s.dt))(s)
    reps = [ONE] * (nd - len(reps)) + reps
    sh = [T.mul(d, r) for d, r in zip(s.shape, reps)]
    return fresh(I, Snap(sh, lambda idx: s.fn(tuple(T.mod(i, d) for i, d in zip(idx, s.shape))), s.dt))


@npf("where")
def _(I, a, k):
    if len(a) == 1:
        return tuple(result(I, x) for x in nonzero(I, snap(I, a[0])))
    return result(I, ew(I, lambda c, x, y: T.ite(T.truth(c), x, y), a[:3],
                        promote(snap(I, a[1]).dt, snap(I, a[2]).dt)))


@npf("select")
def _(I, a, k):
    r = arg(a, k, 2, "default", ZERO)
    for c, v in reversed(list(zip(I.items_of(a[0]), I.items_of(a[1])))):
        r = FUNCS["where"](I, [c, v, r], {})
    return r


@npf("argwhere")
def _(I, a, k):
    xs = nonzero(I, snap(I, a[0]))
    st = stack_snaps(I, xs)
    return fresh(I, snap(I, transpose(I, st)))


@npf("flatnonzero")
def _(I, a, k):
    return result(I, nonzero(I, snap(I, reshape(I, snap(I, a[0]), [const(-1)])))[0])


@npf("count_nonzero")
def _(I, a, k):
    s = castsnap(snap(I, a[0]), "b")
    if arg(a, k, 1, "axis") is not None:
        return result(I, reduce(I, s, arg(a, k, 1, "axis"), lambda d, at: r_sum(d, lambda ks: T.ite(at(ks), ONE, ZERO)), "i"))
    return r_sum(list(s.shape), lambda ks: T.ite(s.fn(ks), ONE, ZERO))


@npf("sort")
def _(I, a, k):
    s = snap(I, a[0])
    ax = arg(a, k, 1, "axis", const(-1))
    return fresh(I, sort_snap(I, s, "sort", ci(ax)))


@npf("unique")
def _(I, a, k):
    s = snap(I, a[0])
    if s.ndim != 1:
        s = snap(I, reshape(I, s, [const(-1)]))
    srt = sort_snap(I, s)
    n = s.shape[0]
    m = Snap((n,), lambda idx: T.or_(T.eq(idx[0], ZERO), T.not_(T.eq(srt.fn((T.sub(idx[0], ONE),)) if not idx[0] is ZERO else srt.fn((ZERO,)), srt.fn(idx)))), "b")
    if any(x in k for x in ("return_index", "return_inverse", "return_counts")):
        raise AnalysisError("unique with extras")
    pos = nonzero(I, m)[0]
    return fresh(I, Snap(pos.shape, lambda idx: srt.fn((pos.fn(idx),)), s.dt))


@npf("dot")
def _(I, a, k):
    mat = is_matrix(a[0]) or is_matrix(a[1])
    if len(a) > 2:
        k = dict(k, out=a[2])
    return outarg(I, result(I, dot(I, snap(I, a[0]), snap(I, a[1])), mat), k)


@npf("inner")
def _(I, a, k):
    x, y = snap(I, a[0]), snap(I, a[1])
    if not x.shape or not y.shape:
        return result(I, binsnap(I, "Mult", x, y))
    return result(I, tensordot(I, x, y, (const(-1), const(-1))))


@npf("outer")
def _(I, a, k):
    x, y = (snap(I, reshape(I, snap(I, v), [const(-1)])) for v in a[:2])
    return outarg(I, fresh(I, Snap((x.shape[0], y.shape[0]), lambda idx: T.mul(x.fn((idx[0],)), y.fn((idx[1],))), promote(x.dt, y.dt))), k)


@npf("vdot")
def _(I, a, k):
    x, y = (snap(I, reshape(I, snap(I, v), [const(-1)])) for v in a[:2])
    return fold_sum(x.shape[0], lambda j: T.mul(scalar_fn("conj", x.fn((j,))), y.fn((j,))))


@npf("tensordot")
def _(I, a, k):
    return result(I, tensordot(I, snap(I, a[0]), snap(I, a[1]), arg(a, k, 2, "axes", const(2))))


@npf("einsum")
def _(I, a, k):
    if not isinstance(a[0], str):
        raise AnalysisError("einsum")
    ops = [snap(I, x) for x in a[1:]]
    return outarg(I, result(I, einsum(I, a[0], ops)), k)


@npf("cross")
def _(I, a, k):
    x, y = snap(I, a[0]), snap(I, a[1])
    ax = [k.get(n, a[i] if len(a) > i else const(-1)) for i, n in ((2, "axisa"), (3, "axisb"), (4, "axisc"))]
    one = I.resolve(k.get("axis", a[5] if len(a) > 5 else None))
    if one is not None:
        ax = [one]*3
    ax = [ci(I.resolve(z)) for z in ax]

    def last(v, n):
        n %= v.ndim
        if n == v.ndim - 1:
            return v
        return Snap(v.shape[:n] + v.shape[n + 1:] + (v.shape[n],), lambda i: v.fn(i[:n] + (i[-1],) + i[n:-1]), v.dt)
    x, y = last(x, ax[0]), last(y, ax[1])
    n = (ci(x.shape[-1]), ci(y.shape[-1]))
    sh = bshape(I, [x.shape[:-1], y.shape[:-1]])
    X = lambda i, j: x.fn(tuple(ZERO if d is ONE else q for d, q in zip(x.shape[:-1], i[len(i) - x.ndim + 1:])) + (const(j),))
    Y = lambda i, j: y.fn(tuple(ZERO if d is ONE else q for d, q in zip(y.shape[:-1], i[len(i) - y.ndim + 1:])) + (const(j),))
    dt = promote(x.dt, y.dt)
    if n == (2, 2):
        return result(I, Snap(sh, lambda i: T.sub(T.mul(X(i, 0), Y(i, 1)), T.mul(X(i, 1), Y(i, 0))), dt))
    if n == (3, 3):
        def comp(i, c):
            p, q = (c + 1) % 3, (c + 2) % 3
            return T.sub(T.mul(X(i, p), Y(i, q)), T.mul(X(i, q), Y(i, p)))
        c = ax[2] % (len(sh) + 1)
        return fresh(I, Snap(sh[:c] + (const(3),) + sh[c:], lambda idx: pick([comp(idx[:c] + idx[c + 1:], j) for j in range(3)], idx[c], "r"), dt))
    raise AnalysisError("cross")


@npf("kron")
def _(I, a, k):
    raise AnalysisError("kron")


@npf("diff")
def _(I, a, k):
    s = snap(I, a[0])
    ax = ci(arg(a, k, 2, "axis", const(-1))) % s.ndim
    n = ci(arg(a, k, 1, "n", ONE))
    for _i in range(n):
        def step(s):
            sh = list(s.shape)
            sh[ax] = T.sub(sh[ax], ONE)
            return Snap(sh, lambda idx: T.sub(s.fn(idx[:ax] + (T.add(idx[ax], ONE),) + idx[ax + 1:]), s.fn(idx)), s.dt)
        s = step(s)
    return fresh(I, s)


@npf("diag")
def _(I, a, k):
    s = snap(I, a[0])
    off = ci(arg(a, k, 1, "k", ZERO))
    if s.ndim == 1:
        n = T.add(s.shape[0], const(abs(off)))
        z = conv(const(0.0), s.dt)

        def elem(idx):
            i, j = idx
            c = T.eq(T.add(i, const(off)), j)
            r = T.sub(i, const(max(0, -off)))
            if c is FALSE:
                return z
            if T.isconst(r) and ci(r) < 0:
                return z
            return T.ite(c, s.fn((r,)), z)
        return fresh(I, Snap((n, n), elem, s.dt))
    return m_diagonal(I, s, [const(off)], {})


def tri(lower):
    def f(I, a, k):
        s = snap(I, a[0])
        off = iv(I, arg(a, k, 1, "k", ZERO))
        z = conv(const(0.0), s.dt)

        def elem(idx):
            i, j = idx[-2], idx[-1]
            d = T.sub(T.sub(j, i), off)
            c = T.le(d, ZERO) if lower else T.le(ZERO, d)
            return T.ite(c, s.fn(idx), z)
        return fresh(I, Snap(s.shape, elem, s.dt))
    return f


FUNCS["tril"], FUNCS["triu"] = tri(True), tri(False)


def tri_idx(lower):
    def f(I, a, k):
        n = iv(I, a[0])
        off = ci(arg(a, k, 1, "k", ZERO))
        m = arg(a, k, 2, "m")
        if not T.isconst(n):
            raise NeedConcrete("tri indices")
        m = ci(n) if m is None else ci(m)
        pts = [(i, j) for i in range(ci(n)) for j in range(m) if ((j - i <= off) if lower else (j - i >= off))]
        return tuple(fresh(I, Snap((const(len(pts)),), (lambda q: lambda idx: pick([const(p[q]) for p in pts], idx[0], "i"))(q), "i")) for q in (0, 1))
    return f


FUNCS["tril_indices"], FUNCS["triu_indices"] = tri_idx(True), tri_idx(False)


@npf("indices")
def _(I, a, k):
    return MGrid("m").getitem(I, tuple(Slice(None, d, None) for d in int_list(I, a[0])))


@npf("meshgrid")
def _(I, a, k):
    if k.get("sparse") is TRUE:
        return lib(I, "meshgrid_sparse", a, dict((q, x) for q, x in k.items() if q != "sparse"))
    k.get("sparse")
    ss = [snap(I, x) for x in a]
    ij = k.get("indexing") == "ij"
    n = len(ss)
    order = list(range(n))
    if not ij and n > 1:
        order[0], order[1] = 1, 0
    sh = [None] * n
    for q, s in enumerate(ss):
        sh[order[q]] = s.shape[0]
    return I.new_list([fresh(I, Snap(sh, (lambda q, s: lambda idx: s.fn((idx[order[q]],)))(q, s), s.dt)) for q, s in enumerate(ss)])


@npf("ix_")
def _(I, a, k):
    n = len(a)
    out = []
    for q, v in enumerate(a):
        s = snap(I, v)
        if s.dt == "b":
            s = nonzero(I, s)[0]
        sh = [ONE] * n
        sh[q] = s.shape[0]
        out.append(fresh(I, Snap(sh, (lambda q, s: lambda idx: s.fn((idx[q],)))(q, s), s.dt)))
    return tuple(out)


@npf("broadcast_arrays")
def _(I, a, k):
    ss = [snap(I, x) for x in a]
    sh = bshape(I, [s.shape for s in ss])
    return I.new_list([fresh(I, bto(s, sh)) for s in ss])


@npf("broadcast_to")
def _(I, a, k):
    return fresh(I, fit(I, snap(I, a[0]), tuple(int_list(I, a[1]))))


@npf("gradient")
def _(I, a, k):
    s = snap(I, a[0])
    nd = s.ndim
    eo = k.get("edge_order", ONE)
    if not T.isconst(eo):
        raise AnalysisError("gradient edge_order")
    eo = T.cval(eo)
    ax = I.resolve(k["axis"]) if k.get("axis") is not None else None
    if ax is None:
        axes = list(range(nd))
    else:
        axes = [T.cval(iv(I, q)) % nd for q in (I.items_of(ax) if isinstance(ax, (tuple, PList)) else [ax])]
    hs = [snap(I, h) for h in a[1:]]
    if not hs:
        hs = [snap(I, const(1.0))] * len(axes)
    elif len(hs) == 1 and hs[0].ndim == 0:
        hs = hs * len(axes)
    elif len(hs) != len(axes):
        I.throw("TypeError", "invalid number of arguments")
    out = []
    for ax, h in zip(axes, hs):
        if h.ndim:
            raise AnalysisError("gradient spacing")
        n = s.shape[ax]
        if T.isconst(n) and ci(n) < eo + 1:
            I.throw("ValueError", "Shape of array too small to calculate a numerical gradient")

        def elem(idx, ax=ax, d=h(), n=n):
            i = idx[ax]
            at = lambda q: T.to_real(s.fn(idx[:ax] + (q,) + idx[ax + 1:])) if s.dt != "c" else s.fn(idx[:ax] + (q,) + idx[ax + 1:])
            m = lambda q: T.sub(n, const(q))
            mid = lambda: T.div(T.sub(at(T.add(i, ONE)), at(T.sub(i, ONE))), T.mul(const(2.), d))
            if eo == 1:
                first = lambda: T.div(T.sub(at(ONE), at(ZERO)), d)
                last = lambda: T.div(T.sub(at(m(1)), at(m(2))), d)
            else:
                first = lambda: T.div(T.add(T.mul(const(-1.5), at(ZERO)), T.mul(const(2.), at(ONE)), T.mul(const(-.5), at(const(2)))), d)
                last = lambda: T.div(T.add(T.mul(const(.5), at(m(3))), T.mul(const(-2.), at(m(2))), T.mul(const(1.5), at(m(1)))), d)
            cl, cf = T.eq(i, m(1)), T.eq(i, ZERO)
            if cf is TRUE:
                return first()
            if cl is TRUE:
                return last()
            if cf is FALSE and cl is FALSE:
                return mid()
            return T.ite(cf, first(), T.ite(cl, last(), mid()))
        out.append(fresh(I, Snap(s.shape, elem, "c" if s.dt == "c" else "f")))
    return out[0] if len(out) == 1 else I.new_list(out)


def opaque(name, rets):
    """uninterpreted function of its arguments; rets: function of snaps ->
    list of (suffix, shape, kind)"""
    def f(I, a, k):
        sn = [snap(I, x) if arrayish(I.resolve(x)) else None for x in a]
        packs = [I.as_o(x) for x in a]
        for q in sorted(k):
            packs += [const(q), I.as_o(k[q])]
        out = []
        for suf, sh, kind in rets(sn):
            nm = ("complex:" if kind == "c" else "") + name + suf
            r = Snap(sh, (lambda nm, kind: lambda idx: T.call(nm, packs, idx, SORT[kind]))(nm, kind), kind)
            out.append(result(I, r))
        return out[0] if len(out) == 1 else tuple(out)
    return f


def sq(s):
    return s.shape[-1]


for _n, _r in (
        ("linalg.inv", lambda s: [("", s[0].shape, s[0].dt if s[0].dt == "c" else "f")]),
        ("linalg.eigh", lambda s: [("_w", s[0].shape[:-1], "f"), ("_v", s[0].shape, "c" if s[0].dt == "c" else "f")]),
        ("linalg.eigvalsh", lambda s: [("_w", s[0].shape[:-1], "f")]),
        ("linalg.eig", lambda s: [("_w", s[0].shape[:-1], "c"), ("_v", s[0].shape, "c")]),
        ("linalg.eigvals", lambda s: [("_w", s[0].shape[:-1], "c")]),
        ("linalg.pinv", lambda s: [("", s[0].shape[:-2] + (s[0].shape[-1], s[0].shape[-2]), "f")]),
        ("linalg.solve", lambda s: [("", s[1].shape, "f")]),
        ("linalg.lstsq", lambda s: [("_x", (s[0].shape[1],) + s[1].shape[1:], "f"), ("_r", (ONE,), "f"), ("_rank", (), "i"), ("_s", (s[0].shape[1],), "f")]),
        ("linalg.svd", lambda s: [("_u", (s[0].shape[0],) * 2, "f"), ("_s", (mn(s[0].shape[0], s[0].shape[1]),), "f"), ("_vh", (s[0].shape[1],) * 2, "f")]),
        ("linalg.qr", lambda s: [("_q", s[0].shape, "f"), ("_r", (s[0].shape[1],) * 2, "f")]),
        ("linalg.matrix_rank", lambda s: [("", (), "i")]),
        ("linalg.cholesky", lambda s: [("", s[0].shape, "f")]),
        ("fft.fft", lambda s: [("", s[0].shape, "c")]),
        ("fft.ifft", lambda s: [("", s[0].shape, "c")]),
        ("bincount", lambda s: [("", (T.call("bincount_n", [packsnap(x) if x.shape else x() for x in s], sort="i"),), "f")]),
):
    FUNCS[_n] = opaque(_n, _r)
_eigh = FUNCS["linalg.eigh"]


def eigh(I, a, k):
    """eigenvalues come in ascending order, with their vectors"""
    if k.get("UPLO") in ("L", "U"):     # either triangle of the same hermitian matrix
        k = {q: x for q, x in k.items() if q != "UPLO"}
    if as_arr(I, a[0]).ndim < 2:
        I.throw("ValueError", "eigenvalues of an array that is not a stack of matrices")
    w, v = _eigh(I, a, k)
    ws = snap(I, w)
    return (result(I, sort_snap(I, ws)), v)


def eigvalsh(I, a, k):
    return eigh(I, a, k)[0]


FUNCS["linalg.eigh"] = eigh
FUNCS["linalg.eigvalsh"] = eigvalsh
_svd = FUNCS["linalg.svd"]


def svd(I, a, k):
    k = dict(k)
    fm = arg(a, k, 1, "full_matrices", TRUE)
    return _svd(I, a[:1], {})


FUNCS["linalg.svd"] = svd


@npf("linalg.det")
def _(I, a, k):
    s = snap(I, a[0])
    n = s.shape[-1]
    if not (T.isconst(n) and ci(n) <= 4):
        return opaque("det", lambda s: [("", s[0].shape[:-2], s[0].dt)])(I, a, k)

    def det(rows, cols, pre):
        if len(rows) == 1:
            return s.fn(pre + (const(rows[0]), const(cols[0])))
        r = const(0.0)
        for q, c in enumerate(cols):
            t = T.mul(s.fn(pre + (const(rows[0]), const(c))), det(rows[1:], cols[:q] + cols[q + 1:], pre))
            r = T.add(r, t if q % 2 == 0 else T.neg(t))
        return r
    N = list(range(ci(n)))
    return result(I, Snap(s.shape[:-2], lambda idx: det(N, N, idx), "c" if s.dt == "c" else "f"))


def adjugate(I, s):
    """exact inverse of a small square matrix, or None"""
    n = s.shape[-1]
    if s.ndim < 2:
        I.throw("LinAlgError", "at least two-dimensional")
    if not (T.isconst(n) and T.isconst(s.shape[-2])):
        return None
    if ci(n) != ci(s.shape[-2]):
        I.throw("LinAlgError", "Last 2 dimensions of the array must be square")
    n = ci(n)
    if n > 4:
        return None

    def det(rows, cols, pre):
        if not rows:
            return const(1.0)
        r = const(0.0)
        for q, c in enumerate(cols):
            t = T.mul(s.fn(pre + (const(rows[0]), const(c))), det(rows[1:], cols[:q] + cols[q + 1:], pre))
            r = T.add(r, t if q % 2 == 0 else T.neg(t))
        return r
    N = list(range(n))

    if s.ndim == 2:
        d = det(N, N, ())
        if T.isconst(d) and T.cval(d) == 0:
            I.throw("LinAlgError", "Singular matrix")

    def entry(idx):
        pre = tuple(idx[:-2])
        d = det(N, N, pre)

        def at(i, j):
            c = det([x for x in N if x != j], [x for x in N if x != i], pre)
            return T.div(c if (i + j) % 2 == 0 else T.neg(c), d)
        i, j = idx[-2:]
        if T.isconst(i) and T.isconst(j):
            return at(ci(i), ci(j))
        r = None
        for x in N:
            for y in N:
                e = at(x, y)
                r = e if r is None else T.ite(T.and_(T.eq(i, const(x)), T.eq(j, const(y))), e, r)
        return r
    return Snap(s.shape, entry, "c" if s.dt == "c" else "f")


_inv, _solve = FUNCS["linalg.inv"], FUNCS["linalg.solve"]


@npf("linalg.inv")
def _(I, a, k):
    s = snap(I, a[0])
    r = adjugate(I, s)
    if r is None:
        return _inv(I, a, k)
    return fresh(I, r, is_matrix(I.resolve(a[0])))


@npf("linalg.solve")
def _(I, a, k):
    m, b = snap(I, a[0]), snap(I, a[1])
    r = adjugate(I, m)
    if r is None:
        return _solve(I, a, k)
    if b.ndim == m.ndim - 1:
        x = FUNCS["matmul"](I, [fresh(I, r), getitem(I, fresh(I, b), (Ellipsis, None))], {})
        return getitem(I, x, (Ellipsis, ZERO))
    return FUNCS["matmul"](I, [fresh(I, r), fresh(I, b)], {})


@npf("linalg.norm")
def _(I, a, k):
    s = snap(I, a[0])
    o = arg(a, k, 1, "ord")
    if o is not None and not (isinstance(o, Node) and T.isconst(o) and T.cval(o) == 2):
        return lib(I, "matrix_norm1", [a[0], o] + ([arg(a, k, 2, "axis")] if arg(a, k, 2, "axis") is not None else []), {})
    ax = arg(a, k, 2, "axis")
    kd = k.get("keepdims")

    def f(d, at):
        g = (lambda ks: T.power(at(ks), const(2))) if s.dt != "c" else (lambda ks: T.power(T.fn("abs", at(ks)), const(2)))
        return csqrt(T.to_real(r_sum(d, g)))
    return result(I, reduce(I, s, ax, f, "f", keepdims=kd is not None and I.truth(kd) is TRUE))


def _close(x, y):
    return T.fn("isclose", T.to_real(x), T.to_real(y), sort="b")


@npf("isclose")
def _(I, a, k):
    ex = [lift(q) for q in list(a[2:]) + [k[n] for n in sorted(k)]]
    return result(I, ew(I, lambda x, y: T.fn("isclose", T.sub(x, y), y, *ex, sort="b"), a[:2], "b"))


@npf("allclose")
def _(I, a, k):
    ex = [lift(q) for q in list(a[2:]) + [k[n] for n in sorted(k)]]
    s = ew(I, lambda x, y: T.fn("isclose", T.sub(x, y), y, *ex, sort="b"), a[:2], "b")
    return r_quant("all")(list(s.shape), lambda ks: s.fn(ks))


@npf("array_equal")
def _(I, a, k):
    s = ew(I, T.eq, a[:2], "b")
    return r_quant("all")(list(s.shape), lambda ks: s.fn(ks))


@npf("isscalar")
def _(I, a, k):
    return const(isinstance(I.resolve(a[0]), (Node, str)))


@npf("iscomplexobj")
def _(I, a, k):
    return const(snap(I, a[0]).dt == "c")


@npf("ndim")
def _(I, a, k):
    return const(snap(I, a[0]).ndim)


@npf("shape")
def _(I, a, k):
    return tuple(snap(I, a[0]).shape)


@npf("size")
def _(I, a, k):
    ax = arg(a, k, 1, "axis")
    if ax is not None:
        s = snap(I, a[0])
        return s.shape[axis_of(I, ax, s.ndim)]
    return arr_attr(I, snap(I, a[0]), "size")


@npf("interp")
def _(I, a, k):
    s = [snap(I, x) for x in a[:3]]
    p = [packsnap(s[1]), packsnap(s[2])]
    return result(I, Snap(s[0].shape, lambda idx: T.call("interp", [s[0].fn(idx)] + p, (), "r"), "f"))


@npf("histogramdd")
def _(I, a, k):
    raise AnalysisError("histogramdd")


@npf("searchsorted")
def _(I, a, k):
    x, v = snap(I, a[0]), snap(I, a[1])
    side = arg(a, k, 2, "side", "left")
    f = (lambda e, q: T.lt(e, q)) if side == "left" else (lambda e, q: T.le(e, q))
    return result(I, Snap(v.shape, lambda idx: fold_sum(x.shape[0], lambda j: T.ite(f(x.fn((j,)), v.fn(idx)), ONE, ZERO), "i"), "i"))


@npf("digitize")
def _(I, a, k):
    x, b = snap(I, a[0]), snap(I, a[1])
    return result(I, Snap(x.shape, lambda idx: fold_sum(b.shape[0], lambda j: T.ite(T.le(b.fn((j,)), x.fn(idx)), ONE, ZERO), "i"), "i"))


@npf("set_printoptions", "seterr", "import_array")
def _(I, a, k):
    return None


@npf("polyval")
def _(I, a, k):
    p, x = snap(I, a[0]), snap(I, a[1])
    n = ci(p.shape[0])

    def elem(idx):
        r = const(0.0)
        for j in range(n):
            r = T.add(T.mul(r, x.fn(idx)), p.fn((const(j),)))
        return r
    return result(I, Snap(x.shape, elem, "f"))


@npf("iterable")
def _(I, a, k):
    v = I.resolve(a[0])
    return const(isinstance(v, (tuple, PList, PDict, str)) or (isinstance(v, (Arr, Snap)) and v.ndim > 0))


@npf("vectorize")
def _(I, a, k):
    f = a[0]

    def g(I, b, kk):
        ss = [snap(I, x) for x in b]
        sh = bshape(I, [s.shape for s in ss])
        if not all(T.isconst(d) for d in sh):
            raise NeedConcrete("vectorize")
        import itertools
        vals = {}
        for t in itertools.product(*[range(ci(d)) for d in sh]):
            idx = tuple(const(i) for i in t)
            vals[t] = item(I, I.call(f, [bget(s, idx) for s in ss], {}))
        return result(I, Snap(sh, lambda idx: tab(vals, idx), promote(*[nkind(v) for v in vals.values()] or ["f"])))
    return Builtin("vectorized", g)


def tab(vals, idx):
    if all(T.isconst(i) for i in idx):
        return vals[tuple(ci(i) for i in idx)]
    r = None
    for t, v in vals.items():
        c = TRUE
        for i, j in zip(idx, t):
            c = T.and_(c, T.eq(i, const(j)))
        r = v if r is None else T.ite(c, v, r)
    return r


@npf("apply_along_axis")
def _(I, a, k):
    raise AnalysisError("apply_along_axis")


@npf("nan_to_num")
def _(I, a, k):
    return result(I, ew(I, lambda x: T.fn("nan_to_num", x), a[:1], "f"))


@npf("fromiter")
def _(I, a, k):
    return fresh(I, snap(I, I.list_from(I.segs_of(a[0])), dtype_of(I, arg(a, k, 1, "dtype"))))


@npf("result_type", "promote_types", "find_common_type")
def _(I, a, k):
    return KDT[promote(*[dtype_of(I, x) if not isinstance(x, (Node, Arr)) else snap(I, x).dt for x in a])]


@npf("dtype")
def _(I, a, k):
    return KDT[dtype_of(I, a[0])]


_rnd = [0]


def rand(sh):
    def f(I, a, k):
        _rnd[0] += 1
        n = "random%d" % _rnd[0]
        dims = sh(I, a, k)
        return result(I, Snap(dims, lambda idx: T.atom(n, "r", idx), "f"))
    return f


# ------------------------------------------------------------ python implementations


def lib(I, name, a, k):
    try:
        return I.call(I.get(I.module("sa_numpy"), name), list(a), dict(k))
    except AnalysisError:
        raise


def lazy(name):
    return lambda I, a, k: lib(I, name, a, k)


def f_undecided(I, a, k):
    raise AnalysisError("case not modelled")


FUNCS["sa_undecided"] = f_undecided


PYFUNCS = """average cumprod positive float_power trunc logical_xor compress extract choose take_along_axis isin in1d
broadcast_shapes block insert array_split split hsplit vsplit dsplit rot90 tri diag_indices fill_diagonal ndindex ndenumerate
unravel_index ravel_multi_index isreal copysign heaviside convolve trapz apply_along_axis fromfunction piecewise nansum copyto
put putmask pad kron setdiff1d union1d intersect1d polyadd linalg.matrix_power linalg.multi_dot linalg.slogdet""".split()
for _n in PYFUNCS:
    FUNCS[_n] = lazy(_n.split(".")[-1])
FUNCS["fix"] = lazy("trunc")
FUNCS["divmod"] = lazy("divmod_")
FUNCS["cumproduct"] = lazy("cumprod")
FUNCS["place"] = lazy("putmask")
FUNCS["broadcast"] = lazy("broadcast")
FUNCS["invert"] = FUNCS["bitwise_not"] = lambda I, a, k: I.unop("Invert", a[0])
FUNCS["bitwise_xor"] = lambda I, a, k: I.binop("BitXor", a[0], a[1])


# ------------------------------------------------------------ install


def install(I):
    global MISS
    from . import interp
    MISS = interp.MISS
    if not FUNCS.get("sqrt"):
        _mk_ufuncs()
    t = {}
    sub = {}
    for n, f in FUNCS.items():
        if n in OPF or n in UFUNC1 or n in UFUNC2 or n in CMPF or n in ("logical_and", "logical_or"):
            v = Ufunc(n, f)
        else:
            v = Builtin("np." + n, f)
        if "." in n:
            p, _, q = n.partition(".")
            sub.setdefault(p, {})[q] = v
        else:
            t[n] = v
    t.update(DT)
    t.update({"pi": T.PI, "inf": T.INF, "nan": const(float("nan")), "newaxis": None, "e": T.fn("exp", const(1.0)),
              "Inf": T.INF, "NaN": const(float("nan"))})
    nd = Cls("ndarray", (I.builtins["object"],), {})
    nd.native = lambda I, cls, a, k: FUNCS["empty"](I, a, k)
    NP["ndarray"] = nd
    t["ndarray"] = nd
    mt = Cls("matrix", (nd,), {})
    mt.native = lambda I, cls, a, k: FUNCS["matrix"](I, a, k)
    t["matrix"] = mt
    NP["matrix"] = mt
    t["mgrid"], t["r_"], t["c_"] = MGrid("m"), MGrid("r"), MGrid("c")
    t["math"] = NS("math", dict(I.externs["math"].table)) if "math" in I.externs else NS("math", {})
    t["s_"] = IndexExp()
    t["index_exp"] = IndexExp(True)
    t["finfo"] = Builtin("finfo", lambda I, a, k: NS("finfo", {"eps": const(Fraction(1, 2 ** 52)), "max": T.INF, "tiny": const(1e-300)}))
    t["errstate"] = Builtin("errstate", lambda I, a, k: None)
    t["linalg"] = NS("numpy.linalg", sub.get("linalg", {}))
    lt = t["linalg"].table
    lt["LinAlgError"] = Cls("LinAlgError", (I.builtins["ValueError"],), {})
    t["fft"] = NS("numpy.fft", sub.get("fft", {}))
    t["random"] = NS("numpy.random", {
        "rand": Builtin("rand", rand(lambda I, a, k: tuple(a))),
        "randn": Builtin("randn", rand(lambda I, a, k: tuple(a))),
        "random": Builtin("random", rand(lambda I, a, k: tuple(int_list(I, arg(a, k, 0, "size"))) if arg(a, k, 0, "size") is not None else ())),
        "normal": Builtin("normal", rand(lambda I, a, k: tuple(int_list(I, arg(a, k, 2, "size"))) if arg(a, k, 2, "size") is not None else ())),
        "uniform": Builtin("uniform", rand(lambda I, a, k: tuple(int_list(I, arg(a, k, 2, "size"))) if arg(a, k, 2, "size") is not None else ())),
        "seed": Builtin("seed", lambda I, a, k: None)})
    t["ma"] = NS("numpy.ma", {n: Builtin("ma." + n, lazy(f)) for n, f in dict(
        array="ma_array", asarray="ma_array", masked_array="ma_array", masked_where="ma_where", masked_equal="ma_equal", getdata="ma_data").items()})
    t["core"] = NS("numpy.core", {})
    t["testing"] = NS("numpy.testing", {})
    t["__version__"] = "1.26.4"
    np = NS("numpy", t)
    NP["np"] = np
    I.externs["numpy"] = np
    I.externs["numpy.linalg"] = t["linalg"]
    I.externs["numpy.random"] = t["random"]
    I.externs["numpy.fft"] = t["fft"]
    I.externs["scipy"] = NS("scipy", {})
    sp = I.externs["scipy"].table
    sp["linalg"] = NS("scipy.linalg", {n: lt[n] for n in ("inv", "eigh", "eig", "pinv", "solve", "lstsq", "svd", "det", "norm")})
    I.externs["scipy.linalg"] = sp["linalg"]
    sp["constants"] = NS("scipy.constants", {n: T.atom("ct." + n) for n in
                                             ("elementary_charge", "atomic_mass", "hbar", "h", "k", "epsilon_0", "electron_volt",
                                              "physical_constants", "c", "m_u", "e", "u", "proton_mass")})
    sp["constants"].table["pi"] = T.PI
    sp["constants"].table["e"] = sp["constants"].table["elementary_charge"]
    sp["constants"].table["m_u"] = sp["constants"].table["u"] = sp["constants"].table["atomic_mass"]
    I.externs["scipy.constants"] = sp["constants"]


class IndexExp(object):
    def __init__(self, tup=False):
        self.tup = tup

    def getitem(self, I, k):
        if self.tup and not isinstance(k, tuple):
            return (k,)
        return k

"""Libraries outside the repository: uninterpreted functions, recording
stubs (sa/stubs, interpreted like the repository) and Cython intrinsics."""
from __future__ import annotations
import os
from fractions import Fraction
from . import terms as T
from .terms import Node, const, lift, TRUE, FALSE
from .values import *
from .values import UNBOUND, POISON, NOTIMPL
from . import npm

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
SORT = npm.SORT


class Lib(object):
    """a library none of whose results matter (plotting)"""

    def __init__(self, name):
        self.name = name

    def attr(self, I, name):
        return Lib(self.name + "." + name)

    def setattr(self, I, name, v):
        pass

    def call(self, I, a, k):
        return Lib(self.name + "()")

    def getitem(self, I, k):
        return Lib(self.name + "[]")

    def setitem(self, I, k, v):
        pass

    def binop(self, I, op, o, rev=False):
        return self

    def truth(self, I):
        return T.atom("truth:" + self.name, "b")

    def as_o(self, I):
        return const("lib:" + self.name)


def cy_arg(I, a, k):
    v, name, kind, nd, dt, nn = a
    v = I.resolve(v)
    kind = kind if isinstance(kind, str) else str(kind)
    if isinstance(v, Choice):
        return I.fork(v, lambda x: cy_arg(I, [x] + list(a[1:]), k))
    nnv = isinstance(nn, Node) and nn is TRUE
    if kind == "obj" or kind == "ptr":
        if v is None and nnv:
            I.throw("TypeError", "Argument must not be None")
        return v
    if kind == "buf":
        if v is None:
            if nnv:
                I.throw("TypeError", "Argument must not be None")
            return None
        if not isinstance(v, Arr):
            I.throw("TypeError", "Argument has incorrect type")
        if isinstance(nd, Node) and T.isconst(nd) and len(v.shape) != T.cval(nd):
            I.throw("ValueError", "Buffer has wrong number of dimensions")
        if isinstance(dt, str) and dt in ("i", "f") and v.dt != dt:
            I.throw("ValueError", "Buffer dtype mismatch")
        return v
    if isinstance(v, (Arr, Snap)):
        v = npm.item(I, v)
    if not isinstance(v, Node):
        I.throw("TypeError", "must be real number")
    if kind in ("f", "f32"):
        v = T.to_real(v) if v.sort != "o" else T.call("float", [v], sort="r")
        return T.fn("float32", v) if kind == "f32" else v
    if kind == "i":
        if v.sort == "r":
            if isinstance(name, str) and name:
                I.throw("TypeError", "an integer is required")
            if T.isconst(v):
                return const(int(T.cval(v)))
            return T.fn("int", v, sort="i")
        if v.sort == "b":
            return T.ite(v, const(1), const(0))
        return v
    return v


def cy_addr(I, a, k):
    arr, idx = a
    arr = I.resolve(arr)
    if arr is None:
        cy_bad(I, "address in None")
    idx = idx if isinstance(idx, tuple) else (idx,)
    if isinstance(arr, Arr) and len(arr.shape) == len(idx):
        for ax, (i, n) in enumerate(zip(idx, arr.shape)):
            if T.isconst(i) and T.isconst(n):
                c, n = T.cval(i), T.cval(n)
                if not 0 <= c < n + (ax == len(idx) - 1):
                    cy_bad(I, "address of element %d on axis %d of length %d" % (c, ax, n))
            else:
                I.oob_unknown.append((I.loc, "address"))
        return I.getitem(arr, tuple(idx[:-1]) + (Slice(idx[-1], None, None),))
    raise AnalysisError("address of element")


def cy_bad(I, text):
    I.oob.append((I.loc, text))
    I.throw("IndexError", "unchecked access: " + text)


def cy_idx(I, a, k):
    """index of an unchecked buffer or pointer access"""
    arr, i, ax, name, bc, wrap = a
    bc, wrap = T.cval(bc), T.cval(wrap)
    arr = I.resolve(arr)
    if arr is None:
        cy_bad(I, "%s is None" % name)
    if not isinstance(arr, Arr) or not isinstance(i, Node) or not T.isconst(i) or not T.isconst(arr.shape[T.cval(ax)]):
        if not (isinstance(i, Node) and T.isconst(i)):
            I.oob_unknown.append((I.loc, "index of %s" % name))
        return i
    n, c = T.cval(arr.shape[T.cval(ax)]), T.cval(i)
    if not (-n if wrap else 0) <= c < n:
        if bc:
            I.throw("IndexError", "Out of bounds on buffer access (axis %d)" % T.cval(ax))
        cy_bad(I, "%s index %d on axis %d of length %d" % (name, c, T.cval(ax), n))
    return i


def cy_deref(I, a, k):
    v = I.resolve(a[0])
    if v is None:
        cy_bad(I, "%s.%s of None" % (a[1], a[2]))
    return v


def cy_data(I, a, k):
    v = I.resolve(a[0])
    if v is None:
        cy_bad(I, "data of None")
    return I.call(I.getattr_(v, "reshape"), [const(-1)], {})


def cy_stack(I, a, k):
    n = a[0]
    return npm.result(I, Snap((n,), lambda idx: T.atom("uninit_stack", "r", idx), "f"))


_cnt = [0]


def map_coordinates(I, a, k):
    inp, co = a[0], a[1]
    src = I.as_o(inp)
    s = npm.snap(I, co)
    nd = T.cval(s.shape[0])
    ex = []
    kind = npm.snap(I, inp).dt
    none_ = I.as_o(None)
    for n, q in enumerate(("output", "order", "mode", "cval", "prefilter")):
        v = npm.arg(a, k, 2 + n, q)
        d = {"output": None, "order": const(3), "mode": "constant", "cval": const(0.0), "prefilter": TRUE}[q]
        ex += [I.as_o(d if v is None else v)]

    def at(idx):
        # the result of an integer array is an integer one: not the interpolated value
        return T.call("map_coordinates" + (":int" if kind in "bi" and ex[0] is none_ else ""), [src] + [T.to_real(s.fn((const(j),) + idx)) for j in range(nd)] + ex, (), "r")
    return npm.result(I, Snap(s.shape[1:], at, "f"))


def pointwise(name, kind="f"):
    def f(I, a, k):
        sn = [npm.snap(I, x) for x in a]
        sh = npm.bshape(I, [s.shape for s in sn])
        nm = ("complex:" if kind == "c" else "") + name
        nd = len(sh)
        fns = [npm.bto(s, sh) for s in sn]

        def at(idx):
            return T.call(nm, [T.to_real(g.fn(idx)) for g in fns], (), SORT[kind])
        return npm.result(I, Snap(sh, at, kind))
    return Builtin(name, f)


def p_roots(I, a, k):
    n = a[0]
    x = npm.result(I, Snap((n,), lambda idx: T.call("p_roots_x", [n], idx, "r"), "f"))
    w = npm.result(I, Snap((n,), lambda idx: T.call("p_roots_w", [n], idx, "r"), "f"))
    return (x, w)


def lpmn(I, a, k):
    m, n, z = a
    if isinstance(z, (Arr, Snap)):
        z = npm.item(I, z)
    sh = (T.add(m, const(1)), T.add(n, const(1)))
    r = []
    for q in ("lpmn", "lpmn_d"):
        # P_m^n(z) does not depend on the table's size
        r.append(npm.result(I, Snap(sh, (lambda q: lambda idx: T.call(q, [T.to_real(z)], idx, "r"))(q), "f")))
    return tuple(r)


def fresh_(I, a, k):
    name = a[0] if isinstance(a[0], str) else "fresh"
    _cnt[0] += 1
    nm = "%s#%d" % (name, _cnt[0])
    if len(a) == 1:
        return T.atom(nm)
    sh = a[1] if isinstance(a[1], tuple) else tuple(npm.int_list(I, a[1]))
    return npm.sym_array(I, nm, sh)


def freshb(I, a, k):
    _cnt[0] += 1
    return T.atom("%s#%d" % (a[0], _cnt[0]), "b")


def opaque_(I, a, k):
    return T.call(a[0], [I.as_o(x) for x in a[1:]], (), "o")


def opaque_real(I, a, k):
    return T.call(a[0], [I.as_o(x) for x in a[1:]], (), "r")


def opaque_array(I, a, k):
    args = [I.as_o(x) for x in a[2:]]
    sh = tuple(npm.int_list(I, a[1]))
    return npm.result(I, Snap(sh, lambda idx: T.call(a[0], args, idx, "r"), "f"))


def opaque_bool(I, a, k):
    return T.call(a[0], [I.as_o(x) for x in a[1:]], (), "b")


def kernel_(I, a, k):
    """unit-voltage contribution K(tag, point, order, component), pointwise in the points"""
    tag, x, d = a
    s = npm.snap(I, x)
    if len(s.shape) != 2:
        I.throw("ValueError", "points must have shape (n, 3)")
    n = I.pyval(d)
    if isinstance(n, tuple) or not isinstance(n, (int, Fraction)):
        raise AnalysisError('symbolic order')
    n = int(n)
    tg = I.as_o(tag)

    def at(idx):
        p = [T.to_real(s.fn((idx[0], const(j)))) for j in range(3)]
        return T.call("K", [tg] + p + [const(n), idx[1]], (), "r")
    return npm.result(I, Snap((s.shape[0], const(2*n + 1)), at, "f"))


def install(I):
    B = I.builtins
    for n, f in (("__kernel__", kernel_), ("__cy_arg__", cy_arg), ("__cy_addr__", cy_addr), ("__cy_stack__", cy_stack), ("__cy_idx__", cy_idx), ("__cy_deref__", cy_deref), ("__cy_data__", cy_data),
                 ("__fresh__", fresh_), ("__freshb__", freshb), ("__opaque__", opaque_), ("__opaque_real__", opaque_real),
                 ("__opaque_array__", opaque_array), ("__opaque_bool__", opaque_bool),
                 ("__is_array__", lambda I, a, k: lift(isinstance(I.resolve(a[0]), (Arr, Snap))))):
        B[n] = Builtin(n, f)
    E = I.externs
    sp = E["scipy"].table
    mc = Builtin("map_coordinates", map_coordinates)
    sp["ndimage"] = NS("scipy.ndimage", {"map_coordinates": mc,
                                         "interpolation": NS("scipy.ndimage.interpolation", {"map_coordinates": mc})})
    E["scipy.ndimage"] = sp["ndimage"]
    E["scipy.ndimage.interpolation"] = sp["ndimage"].table["interpolation"]
    orth = NS("scipy.special.orthogonal", {"p_roots": Builtin("p_roots", p_roots)})
    sp["special"] = NS("scipy.special", {
        "sph_harm": pointwise("sph_harm", "c"), "gamma": pointwise("gamma"), "lpmn": Builtin("lpmn", lpmn),
        "orthogonal": orth, "p_roots": orth.table["p_roots"], "roots_legendre": orth.table["p_roots"],
        "factorial": pointwise("spfactorial")})
    E["scipy.special"] = sp["special"]
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.cm", "matplotlib.colors", "matplotlib.patches",
              "matplotlib.collections", "matplotlib.path", "pylab", "matplotlib.text"):
        E[n] = NS(n, {}, fallback=(lambda n: lambda name: Lib(n + "." + name))(n))
    E["scipy"].fallback = lambda name: I.module("scipy_" + name)

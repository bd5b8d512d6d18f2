"""C35 vector helpers, interpolation, superimposition and the arcball"""
import math
import os
from fractions import Fraction as Fr
from .. import cprog
from ..check import *
from .c23 import Prefixed
from .c34 import gauss

DESC = ("vector_norm, unit_vector, vector_product, angle_between_vectors, quaternion_slerp, is_same_quaternion, the arcball functions and "
        "class and the point set registrations are abstractly interpreted, the compiled variants too (translated from clang's syntax "
        "tree), for contiguous and strided arrays, every axis and given outputs, and compared as value numbers with their definitions.")

SRC = '''
import numpy as np
def vn(f, v): return np.atleast_1d(f(v)).ravel()
def vna(f, v, ax): return np.atleast_1d(f(v, axis=ax)).ravel()
def vnap(f, v, ax): return np.atleast_1d(f(v, ax)).ravel()
def vno(f, v, ax, out): return f(v, axis=ax, out=out)
def svn(f, v): return np.atleast_1d(np.sqrt((v*v).sum())).ravel()
def svna(f, v, ax): return np.atleast_1d(np.sqrt((v*v).sum(axis=ax))).ravel()
def svno(f, v, ax, out): out[...] = np.sqrt((v*v).sum(axis=ax))
def second(v): return v[::2]
def backwards(v): return v[::-1]
def uv(f, v): return f(v)
def uva(f, v, ax): return f(v, axis=ax)
def suv(f, v): return v/np.sqrt((v*v).sum())
def suva(f, v, ax): return v/np.expand_dims(np.sqrt((v*v).sum(axis=ax)), ax)
def suvo(f, v, ax, out): out[...] = v/np.expand_dims(np.sqrt((v*v).sum(axis=ax)), ax)
def uvn(f, v, out): return f(v, out=out)
def suvn(f, v, out): out[...] = v/np.sqrt((v*v).sum())
def aslist(v): return np.array(v)
def lvn(f, v): return np.atleast_1d(f(v)).ravel()
def lsvn(f, v): return svn(f, np.array(v))
def lsuv(f, v): return suv(f, np.array(v))
def vp(f, a, b): return f(a, b)
def vpa(f, a, b, ax): return f(a, b, axis=ax)
def svp(f, a, b):
    a, b = np.array(a), np.array(b)
    return np.array([a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]])
def svp1(f, a, b, ax):
    return np.array([svp(f, a[i], b[i]) for i in range(len(a))])
def ab(f, a, b, d, ax): return np.atleast_1d(f(a, b, directed=d, axis=ax))
def ab0(f, a, b): return np.atleast_1d(f(a, b))
def sab(f, a, b, d, ax):
    a, b = np.array(a), np.array(b)
    c = (a*b).sum(axis=ax)/(np.sqrt((a*a).sum(axis=ax))*np.sqrt((b*b).sum(axis=ax)))
    return np.atleast_1d(np.arccos(c if d else abs(c)))
def sab0(f, a, b): return sab(f, a, b, True, 0)
def s3(f, a, b, t): return f(a, b, t)
def s4(f, a, b, t, n): return f(a, b, t, n)
def s5(f, a, b, t, n, p): return f(a, b, t, spin=n, shortestpath=p)
def slerp(f, a, b, t, n=0, p=True):
    a, b = np.array(a), np.array(b)
    a, b = a/np.sqrt((a*a).sum()), b/np.sqrt((b*b).sum())
    if t == 0:
        return a
    if t == 1:
        return b
    d = (a*b).sum()
    if p and d < 0:
        d, b = -d, -b
    w = np.arccos(d) + n*np.pi
    return a*(np.sin((1 - t)*w)/np.sin(w)) + b*(np.sin(t*w)/np.sin(w))
def tosphere(f, p, c, r): return f(p, c, r)
def stosphere(f, p, c, r):
    x, y = (p[0] - c[0])/r, -(p[1] - c[1])/r
    n = x*x + y*y
    if n > 1:
        n = np.sqrt(n)
        return np.array([x/n, y/n, 0.])
    return np.array([x, y, np.sqrt(1 - n)])
def toaxis(f, p, a): return f(p, a)
def stoaxis(f, p, a):
    k = p[0]*a[0] + p[1]*a[1] + p[2]*a[2]
    v = np.array([p[0] - k*a[0], p[1] - k*a[1], p[2] - k*a[2]])
    n = np.sqrt((v*v).sum())
    return -v/n if v[2] < 0 else v/n
def along(f, a):
    """the point lies on the axis: any unit vector orthogonal to it"""
    v = f(a, a)
    return [v[0]*a[0] + v[1]*a[1] + v[2]*a[2], (v*v).sum()]
def salong(f, a): return [0., 1.]
def same(f, a, b): return f(a, b)
def conv(q):
    w, x, y, z = q[0], q[1], q[2], q[3]
    n = w*w + x*x + y*y + z*z
    return np.array([[1 - 2*(y*y + z*z)/n, 2*(x*y - z*w)/n, 2*(x*z + y*w)/n, 0.], [2*(x*y + z*w)/n, 1 - 2*(x*x + z*z)/n, 2*(y*z - x*w)/n, 0.],
                     [2*(x*z - y*w)/n, 2*(y*z + x*w)/n, 1 - 2*(x*x + y*y)/n, 0.], [0., 0., 0., 1.]])
def hmul(a, b):
    w, v, x, y = a[0], [a[1], a[2], a[3]], b[0], [b[1], b[2], b[3]]
    c = svp(None, v, y)
    return [w*x - v[0]*y[0] - v[1]*y[1] - v[2]*y[2]] + [w*y[i] + x*v[i] + c[i] for i in range(3)]
def ball(cls, init, c, r, pts):
    b = cls() if init is None else cls(initial=init)
    b.place(c, r)
    out = [b.matrix()]
    for p in pts:
        b.down(p[0])
        out.append(b.matrix())
        for q in p[1:]:
            b.drag(q)
            out.append(b.matrix())
    return out
def sball(cls, init, c, r, pts):
    q = [1., 0., 0., 0.] if init is None else init
    out = [conv(q)]
    for p in pts:
        v = stosphere(None, p[0], c, r)
        d = q
        out.append(conv(q))
        for z in p[1:]:
            w = stosphere(None, z, c, r)
            t = svp(None, v, w)
            q = hmul([v[0]*w[0] + v[1]*w[1] + v[2]*w[2], t[0], t[1], t[2]], d) if (t*t).sum() else d
            out.append(conv(q))
    return out
def ballkeep(cls, init, p, q):
    i = np.array(init)
    b = cls(initial=i)
    b.place([0., 0.], 1)
    b.down(p)
    b.drag(q)
    b.next()
    return i
def sballkeep(cls, init, p, q): return np.array(init)
def ballm(cls, M): return cls(initial=M).matrix()
def ballc(cls, axes, on, p, q, near):
    b = cls()
    b.place([0., 0.], 1)
    b.setaxes(*axes)
    if on is not None:
        b.constrain = on
    b.down(p)
    b.drag(q)
    return b.matrix(), b.constrain
def sballc(cls, axes, on, p, q, near):
    v, w = stosphere(None, p, [0., 0.], 1.), stosphere(None, q, [0., 0.], 1.)
    if on:
        a = suv(None, np.array(axes[near]))
        v, w = stoaxis(None, v, a), stoaxis(None, w, a)
    t = svp(None, v, w)
    return conv([v[0]*w[0] + v[1]*w[1] + v[2]*w[2], t[0], t[1], t[2]]), bool(on)
def ballt(cls, axes, seq):
    b = cls()
    b.place([0., 0.], 1)
    b.setaxes(*axes)
    out = []
    for on, p, q, near in seq:
        b.constrain = on
        b.down(p)
        out.append(b.matrix())
        b.drag(q)
        out.append(b.matrix())
        out.append(b.constrain)
    return out
def sballt(cls, axes, seq):
    d = [1., 0., 0., 0.]
    out = []
    for on, p, q, near in seq:
        v, w = stosphere(None, p, [0., 0.], 1.), stosphere(None, q, [0., 0.], 1.)
        if on:
            a = suv(None, np.array(axes[near]))
            v, w = stoaxis(None, v, a), stoaxis(None, w, a)
        t = svp(None, v, w)
        out.append(conv(d))
        d = hmul([v[0]*w[0] + v[1]*w[1] + v[2]*w[2], t[0], t[1], t[2]], d)
        out.append(conv(d))
        out.append(bool(on))
    return out
def ballnext(cls, q, acc, p, c):
    b = cls(q)
    b.place([0., 0.], 1.)
    b.down([0., 0.])
    b.drag(p)
    b.next(acc)
    b2 = b.matrix()
    b.next()
    return b2, b.matrix()
def sballnext(cls, q, acc, p, c):
    w = hmul([c, 0., p[0], 0.], q)
    n = slerp(None, q, w, 2 + acc)
    return conv(n), conv(slerp(None, w, n, 2))
def cs(a): return np.cos(a), np.sin(a)
def reg(f, a, b, s, svd): return f(a, b, scale=s, usesvd=svd)
def regp(f, a, b): return f(a, b)
def regs(f, a, b, s): return f(a, b, s)
def aff(f, a, b, sh, s, svd): return f(a, b, shear=sh, scale=s, usesvd=svd)
def affd(f, a, b): return f(a, b)
def dot2(a, b): return np.dot(a, b)
'''


def check(ck):
    I = ck.interp("electrode.transformations")
    variant(ck, I, "", "electrode/transformations.py: ", lambda n: ck.attr(I, "transformations", n), lambda n: True)
    path = os.path.join(ck.repo, "electrode", "transformations.c")
    got = []
    ck.guarded("compiled", lambda: got.append(cprog.load(ck, I, path)[0]))
    if got:
        fs = got[0]
        for n in CN:
            if n not in fs:
                ck.unknown("compiled", "%s is not in the method table" % n)
        variant(Prefixed(ck, "c-"), I, "c-", "electrode/transformations.c: ", lambda n: fs[n], lambda n: n in fs)


CN = ("vector_norm", "unit_vector", "quaternion_slerp", "arcball_map_to_sphere", "arcball_constrain_to_axis", "superimposition_matrix")
SHAPES = ((3,), (4,), (1,), (2, 3), (3, 2), (2, 3, 2))
UNITS = ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (Fr(2, 3), Fr(1, 3), Fr(2, 3)), (Fr(3, 5), Fr(-4, 5), 0), (Fr(3, 5), 0, Fr(-4, 5)))
QUATS = ((1, 0, 0, 0), (Fr(4, 5), 0, Fr(3, 5), 0), (Fr(-1, 2), Fr(1, 2), Fr(1, 2), Fr(-1, 2)), (2, 1, -2, 4), (0, 3, 0, -4), (-4, 0, 3, 0))


def variant(ck, I, C, W, A, has):
    m = ck.spec(I, SRC, "c35spec" + C)
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:3 if ck.tier == "quick" else 10]
    for l in labs:
        l.eps = True
    l1 = labs[:1]

    def mk(v):
        return I.new_list([mk(z) for z in v]) if isinstance(v, (list, tuple)) else v if isinstance(v, Node) else const(Fr(v))
    new = lambda v: I.call(I.externs["numpy"].table["array"], [mk(v)], {})
    num = lambda v: npm.snap(I, I.call(I.externs["numpy"].table["array"], [mk(v)], {}))
    fn = lambda q: const(float(q)) if isinstance(q, int) else const(q)

    def arr(n, shape, how=""):
        """contiguous, transposed or reversed array of unknowns"""
        I.ov = {}
        if how == "T":
            a = npm.sym_array(I, n, tuple(const(k) for k in reversed(shape)))
            I.freeze()
            a = I.resolve(I.getattr_(a, "T"))
        elif how == "S":      # every second element
            a = npm.sym_array(I, n, (const(2*shape[0]),))
            I.freeze()
            a = I.resolve(ck.run(I, F("second"), a).value)
        elif how == "I":      # integers
            a = npm.sym_array(I, n, tuple(const(k) for k in shape), "i")
        elif how == "R":      # backwards
            a = npm.sym_array(I, n, (const(shape[0]),))
            I.freeze()
            a = I.resolve(ck.run(I, F("backwards"), a).value)
        else:
            a = npm.sym_array(I, n, tuple(const(k) for k in shape))
        I.freeze()
        return a

    def vs(key, n, f, spec, args, rule="equals its definition", **k):
        if not has(n):
            return None
        k.setdefault("labs", labs)
        return ck.vs(key, W + n, I, F(f), F(spec), [A(n)] + args, rule=rule, **k)

    for sh in SHAPES:
        for how in ("", "T", "I") if len(sh) > 1 else ("", "S", "R", "I"):
            k = "%s%s" % ("x".join(map(str, sh)), how)
            v = arr("v" + k, sh, how)
            vs("norm-" + k, "vector_norm", "vn", "svn", [v])
            vs("unit-" + k, "unit_vector", "uv", "suv", [v])
            for ax in range(-len(sh), len(sh)):
                a = const(ax)
                vs("norm-%s-%d" % (k, ax), "vector_norm", "vna" if ax % 2 else "vnap", "svna", [v, a])
                vs("unit-%s-%d" % (k, ax), "unit_vector", "uva", "suva", [v, a])
                for oh in ("", "T") if len(sh) > 2 else ("", "S", "R") if len(sh) == 1 else ("",):
                    if len(sh) > 1:
                        o = arr("o", tuple(s for i, s in enumerate(sh) if i != ax % len(sh)), oh)
                        vs("norm-%s-%d-out%s" % (k, ax, oh), "vector_norm", "vno", "svno", [v, a, o], watch=[o])
                    o = arr("o", sh, oh)
                    vs("unit-%s-%d-out%s" % (k, ax, oh), "unit_vector", "vno", "suvo", [v, a, o], watch=[o])
                if len(sh) > 1 and how != "I":
                    w = arr("w" + k, sh, how)
                    vs("unit-%s-%d-in" % (k, ax), "unit_vector", "vno", "suvo", [w, a, w], watch=[w])
            for oh in ("", "S", "R") if len(sh) == 1 else ("",):
                o = arr("o", sh, oh)
                vs("unit-%s-out%s" % (k, oh), "unit_vector", "uvn", "suvn", [v, o], watch=[o])
    for n in (1, 2, 3):
        l = I.new_list([T.atom("l%d" % i) for i in range(n)])
        I.freeze()
        vs("norm-l%d" % n, "vector_norm", "lvn", "lsvn", [l])
        vs("unit-l%d" % n, "unit_vector", "uv", "lsuv", [l])
    for what, spec in (("vector_norm", "svno"), ("unit_vector", "suvo")):
        if not has(what):
            continue
        for dsh, ax, osh in (((2, 3), 0, (2,)), ((2, 3), 1, (3,)), ((2, 3, 2), 1, (2, 3)), ((2, 3, 2), 0, (2, 2)), ((2, 3), 0, (3, 2)),
                             ((2, 3, 2), 2, (3, 2))):
            key = "shape-%s-%s-%d-%s" % (what, "x".join(map(str, dsh)), ax, "x".join(map(str, osh)))
            if not C:
                continue      # numpy's own broadcasting rules apply

            def go():
                d, o = arr("d", dsh), arr("o", osh)
                I.ov = {}
                r = ck.run(I, F("vno"), A(what), d, const(ax), o)
                ck.note(I)
                ck.raises(key, W + what, r, ("ValueError",), labs=l1)
            ck.guarded(key, go)
    a, b = arr("a", (3,)), arr("b", (3,))
    a2, b2 = arr("A", (2, 3)), arr("B", (2, 3))
    if not C:
        vs("cross", "vector_product", "vp", "svp", [a, b])
        vs("cross-c", "vector_product", "vp", "svp", [arr("A3", (3, 2)), arr("B3", (3, 2))])
        vs("cross-r", "vector_product", "vpa", "svp1", [a2, b2, const(1)])
        vs("angle", "angle_between_vectors", "ab0", "sab0", [a, b])
        for d in (TRUE, FALSE):
            vs("angle-%s" % d, "angle_between_vectors", "ab", "sab", [a, b, d, const(0)])
            for ax in (0, 1):
                vs("angle-%s-%d" % (d, ax), "angle_between_vectors", "ab", "sab", [a2, b2, d, const(ax)])
    slerp(ck, I, C, W, A, has, F, vs, mk, num, arr, labs, l1)
    arcball(ck, I, C, W, A, has, F, vs, mk, num, arr, labs, l1)
    ck.guarded("registration", lambda: registration(ck, I, C, W, A, has, F, vs, mk, num, new, arr, labs, l1))


def slerp(ck, I, C, W, A, has, F, vs, mk, num, arr, labs, l1):
    n = "quaternion_slerp"
    q, r = arr("q", (4,)), arr("r", (4,))
    t = T.atom("t")
    vs("slerp", n, "s3", "slerp", [q, r, t])
    for sp in (0, 1, 2):
        vs("slerp-%d" % sp, n, "s4", "slerp", [q, r, t, const(sp)])
        for p in (TRUE, FALSE):
            vs("slerp-%d-%s" % (sp, p), n, "s5", "slerp", [q, r, t, const(sp), p])
    for f in (0, 1, -1, Fr(1, 3), 2, Fr(-5, 2), Fr(1, 2)):
        vs("slerp-f%s" % f, n, "s3", "slerp", [q, r, const(Fr(f))])
        for i, x in enumerate(QUATS):
            for j, y in enumerate(QUATS):
                if i == j:
                    continue
                for p in (TRUE, FALSE):
                    vs("slerp-f%s-%d%d%s" % (f, i, j, p), n, "s5", "slerp", [num(x), num(y), const(Fr(f)), const(0), p], labs=l1)
    for i, x in enumerate(QUATS[:4]):
        for s in (1, 3):
            y = tuple(z*s for z in x)

            def go():
                I.ov = {}
                if not has(n):
                    return
                o = ck.run(I, F("s3"), A(n), num(x), num(y), const(Fr(1, 3)))
                ck.note(I)
                if ck.noraise("slerp-eq%d%d" % (i, s), W + n, o, labs=l1):
                    ck.same("slerp-eq%d%d" % (i, s), W + n, ck.cap(I, ck.run(I, F("conv"), o.value).value),
                            ck.cap(I, ck.run(I, F("conv"), num(x)).value), labs=l1, rule="between equal orientations nothing turns")
            ck.guarded("slerp-eq%d%d" % (i, s), go)
    if not C:
        for i, x in enumerate(QUATS):
            for j, y in enumerate(QUATS + tuple(tuple(-z for z in w) for w in QUATS)):
                key = "sameq-%d%d" % (i, j)

                def go():
                    I.ov = {}
                    o = ck.run(I, F("same"), A("is_same_quaternion"), num(x), num(y))
                    ck.note(I)
                    if ck.noraise(key, W + "is_same_quaternion", o, labs=l1):
                        ck.same(key, W + "is_same_quaternion", ck.cap(I, o.value), ck.cap(I, const(i == j % len(QUATS))), labs=l1,
                                rule="equal up to sign")
                ck.guarded(key, go)


def arcball(ck, I, C, W, A, has, F, vs, mk, num, arr, labs, l1):
    n = "arcball_map_to_sphere"
    p, c, r = arr("p", (2,)), arr("c", (2,)), T.atom("rad")
    lst = lambda v: (lambda x: (I.freeze(), x)[1])(mk(v))
    ints = lambda q: (lambda x: (I.freeze(), x)[1])(I.new_list([const(int(z)) for z in q]))
    vs("sphere", n, "tosphere", "stosphere", [p, c, r])
    for i, (x, y, k) in enumerate((((3, 4), (0, 0), 10), ((3, 4), (0, 0), 5), ((3, 4), (0, 0), 2), ((-3, 4), (1, 1), 5), ((7, -2), (7, -2), 3),
                                   ((100, -4), (2, 3), 5), ((2, Fr(1, 2)), (1, 1), 2))):
        vs("sphere-%d" % i, n, "tosphere", "stosphere", [lst(x), lst(y), const(float(k))], labs=l1)
    n = "arcball_constrain_to_axis"
    for i, u in enumerate(UNITS):
        for j, v in enumerate(UNITS):
            for s in (1, -1):
                y = tuple(s*z for z in v)
                if sum(a*b for a, b in zip(u, y)) in (1, -1):
                    continue
                vs("axis-%d%d%+d" % (i, j, s), n, "toaxis", "stoaxis", [num(y), num(u)], labs=l1)
        if all(isinstance(z, int) for z in u):
            for j, y in enumerate(((3, 0, 4), (-1, 2, 2), (0, 4, 3))):
                if len([z for z in range(3) if y[z] and not u[z]]) == 2 or not all(isinstance(z, int) for z in y):
                    q = lambda z: npm.snap(I, I.call(I.externs["numpy"].table["array"], [I.new_list([const(c) for c in z])], {}))
                    vs("axis-int%d%d" % (i, j), n, "toaxis", "stoaxis", [q(y), q(u)], labs=l1)
        vs("axis-on%d" % i, n, "along", "salong", [num(u)], labs=l1, rule="a unit vector orthogonal to the axis")
    if C:
        return
    cls = [A("Arcball")]
    n = "Arcball"
    pt = [arr("p%d" % i, (2,)) for i in range(4)]
    pts = I.new_list([I.new_list(pt[:2]), I.new_list(pt[2:])])
    cc = lst((0, 0))
    one = const(1.)
    P = [(Fr(3, 5), 0), (0, Fr(4, 5)), (Fr(-8, 17), 0), (0, Fr(-3, 5)), (3, 4), (Fr(5, 13), 0)]
    I.freeze()

    def run(key, f, s, args, rule):
        if I.resolve(cls[0]) is None:
            return
        ck.vs(key, W + n, I, F(f), F(s), cls + args, labs=l1, rule=rule, frame=False)
    for i in range(len(P)):
        for j in range(len(P)):
            for init in (None, QUATS[2]):
                z = lst([[P[i], P[j], P[(i + 2) % 6]], [P[(j + 1) % 6], P[i]]])
                run("ball-%d%d%s" % (i, j, "q" if init else ""), "ball", "sball", [None if init is None else lst(init), cc, one, z],
                    "dragging turns by the rotation taking the pressed point to the current one, applied twice")
    z = lst([[(11, 4), (6, 3)], [(4, -1), (1, 8)]])
    run("ball-place", "ball", "sball", [None, lst((5, 7)), const(9.), z], "centre and radius are those placed")
    run("ball-norm", "ball", "sball", [lst((2, 1, -2, 4)), cc, one, z], "the initial quaternion is normalised")
    for i, q in enumerate(((2, 1, -2, 4), (1, 0, 0, 0))):
        run("ball-int%d" % i, "ball", "sball", [ints(q), cc, one, lst(())], "the initial quaternion is normalised")
        run("ball-keep%d" % i, "ballkeep", "sballkeep", [lst(q), lst(P[0]), lst(P[1])], "the initial quaternion given is not changed")
    axes = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
    for k, ax in enumerate((axes, axes[::-1], ((3, 4, 0), (0, 0, 2)), ((0, 0, 1),), ((1, 0, 0),))):
        for i in range(len(P)):
            for j in range(len(P)):
                if i == j:
                    continue
                on = (i + j + k) % 3 != 0
                near = distinct(ax, P[i], P[j]) if on else 0
                if near is None:
                    continue
                run("ballc-%d-%d%d" % (k, i, j), "ballc", "sballc", [lst(ax), TRUE if on else FALSE if (i + j) % 2 else None, lst(P[i]), lst(P[j]), const(near)],
                    "constrained rotations are about the axis nearest to the pressed point")
    for k, (ax, cyc) in enumerate(((axes, (True, False, True)), (axes[::-1], (False, True, False)), (((1, 0, 0), (0, 1, 0)), (True, True, False)))):
        ok = [(a, b, distinct(ax, a, b)) for a in P for b in P if a != b]
        ok = [z for z in ok if z[2] is not None]
        for i in range(4 if ok else 0):
            seq = [(on,) + ok[(i*5 + 7*j) % len(ok)] for j, on in enumerate(cyc)]
            run("ballt-%d%d" % (k, i), "ballt", "sballt",
                [lst(ax), (lambda x: (I.freeze(), x)[1])(I.new_list([I.new_list([TRUE if on else FALSE, mk(a), mk(b), const(n)]) for on, a, b, n in seq]))],
                "each press uses the constraint as it is then")
    for i, q in enumerate(((1, 0, 0, 0), (Fr(1, 2), Fr(1, 2), Fr(1, 2), Fr(-1, 2)))):
        for acc in (0, 1, -1, -2, -3, 2):
            run("ballnext-%d%s" % (i, acc), "ballnext", "sballnext", [lst(q), const(Fr(acc)), lst((Fr(3, 5), 0)), const(Fr(4, 5))], "next continues the last movement")


def sph(p):
    x, y = Fr(p[0]), -Fr(p[1])
    n = x*x + y*y
    if n > 1:
        r = {25: 5}.get(n)
        return (x/r, y/r, Fr(0)) if r else None
    z = {Fr(16, 25): Fr(4, 5), Fr(9, 25): Fr(3, 5), Fr(225, 289): Fr(15, 17), Fr(144, 169): Fr(12, 13), Fr(1): Fr(1)}.get(1 - n)
    return (x, y, z) if z is not None else None


def square(f):
    return all(math.isqrt(z)**2 == z for z in (f.numerator, f.denominator))


def distinct(ax, p, q):
    """the nearest axis if it is unique, neither point lies on it, and the result is not degenerate"""
    v, w = sph(p), sph(q)
    if v is None or w is None:
        return None
    d = []
    for n, a in enumerate(ax):
        s = sum(Fr(z)*z for z in a)
        k = sum(x*y for x, y in zip(a, v))
        kw = sum(x*y for x, y in zip(a, w))
        if k*k == s or kw*kw == s or not square(1 - k*k/s) or not square(1 - kw*kw/s):
            return None
        # the mirrored side is taken when the projection looks away; |projection| = sqrt(1 - k^2/s)
        z = v[2] - k*Fr(a[2])/s
        d.append(((1 if z >= 0 else -1)*(1 - k*k/s), n))
    d.sort()
    return d[-1][1] if (len(d) < 2 or d[-1][0] != d[-2][0]) and d[-1][0] > 0 else None


def registration(ck, I, C, W, A, has, F, vs, mk, num, new, arr, labs, l1):
    la = I.externs["numpy"].table["linalg"].table
    R3 = [[[Fr(z) for z in r] for r in m] for m in (
        ((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((Fr(3, 5), Fr(-4, 5), 0), (Fr(4, 5), Fr(3, 5), 0), (0, 0, 1)),
        ((Fr(2, 3), Fr(-2, 3), Fr(1, 3)), (Fr(1, 3), Fr(2, 3), Fr(2, 3)), (Fr(-2, 3), Fr(-1, 3), Fr(2, 3))),
        ((1, 0, 0), (0, -1, 0), (0, 0, -1)), ((0, 0, 1), (1, 0, 0), (0, 1, 0)))]
    R2 = [[[Fr(z) for z in r] for r in m] for m in (((1, 0), (0, 1)), ((Fr(3, 5), Fr(-4, 5)), (Fr(4, 5), Fr(3, 5))), ((Fr(-5, 13), Fr(12, 13)), (Fr(-12, 13), Fr(-5, 13))))]
    D = (7, 5, 2)
    T0, T1 = (3, -2, Fr(1, 2)), (-2, Fr(7, 2), 11)

    def sets(nd, R, s, mirror=False, shear=None):
        v0 = [[], [], []][:nd]
        for k in range(nd):
            for sg in (1, -1):
                for i in range(nd):
                    v0[i].append(Fr(sg*D[k] if i == k else 0))
        L = [[R[i][j]*s*(-1 if mirror and j == nd - 1 else 1) for j in range(nd)] for i in range(nd)]
        if shear:
            L = [[Fr(z) for z in r] for r in shear]
        v1 = [[sum(L[i][j]*v0[j][k] for j in range(nd)) + T1[i] for k in range(2*nd)] for i in range(nd)]
        c0 = [[z + T0[i] for z in r] for i, r in enumerate(v0)]
        return v0, c0, v1, L

    def full(nd, L):
        M = [list(L[i]) + [T1[i] - sum(L[i][j]*T0[j] for j in range(nd))] for i in range(nd)]
        return M + [[Fr(0)]*nd + [Fr(1)]]

    def case(key, name, f, nd, R, s, extra, want, mirror=False, strided=False, shear=None, homog=False):
        w = W + name
        key = name + "-" + key

        def go():
            I.ov = {}
            v0, c0, v1, L = sets(nd, R, s, mirror, shear)
            # the fourth row of homogeneous points takes no part
            e0, e1 = ([[Fr(1)]*len(c0[0])], [[Fr(1)]*len(c0[0])]) if homog else ([], [])
            u0, u1 = num(c0 + e0), num(v1 + e1)
            if strided:
                I.freeze()
                u0 = I.resolve(I.getattr_(new([list(r) for r in zip(*(c0 + e0))]), "T"))
                if strided > 1:
                    u1 = I.resolve(I.getattr_(new([list(r) for r in zip(*(v1 + e1))]), "T"))
            I.freeze()
            c1 = [[z - T1[i] for z in r] for i, r in enumerate(v1)]
            sv = [2*Fr(D[k])**2*s for k in range(nd)]
            cov = [[sum(c1[i][k]*v0[j][k] for k in range(2*nd)) for j in range(nd)] for i in range(nd)]
            stack = [list(r) for r in zip(*(v0 + c1))]
            log, near = [], []

            def svd(I, ar, k):
                z = conc(l1[0], cap(I, npm.snap(I, ar[0])))
                if z == conc(l1[0], cap(I, num(cov))):
                    u = [[R[i][j]*(-1 if mirror and j == nd - 1 else 1) for j in range(nd)] for i in range(nd)]
                    return (new(u), new(sv), new([[int(i == j) for j in range(nd)] for i in range(nd)]))
                if z == conc(l1[0], cap(I, num(stack))):
                    # rows spanning the row space; the rest orthogonal, never used
                    rows = [[Fr(int(i == j)) for j in range(nd)] + [L[j][i] for j in range(nd)] for i in range(nd)]
                    rows = [[a + 2*b for a, b in zip(rows[i], rows[(i + 1) % nd])] for i in range(nd)]
                    rows += [[Fr(1, 7 + i + j) for j in range(2*nd)] for i in range(nd)]
                    return (new([[1]]), new([1]*nd), new(rows))
                # another matrix: its singular vectors, rounded
                near.append(1)
                return tuple(new(x) for x in svdround(rat(ar[0])))

            def eigh(I, ar, k):
                n = npm.snap(I, ar[0])
                low = k.get("UPLO", ar[1] if len(ar) > 1 else "L") == "L"
                z = [[n.fn((const(max(i, j) if low else min(i, j)), const(min(i, j) if low else max(i, j)))) for j in range(4)] for i in range(4)]
                q = quat(R)
                lam = sum(sv)
                for i in range(4):
                    d = T.sub(add([T.mul(z[i][j], const(q[j])) for j in range(4)]), const(lam*q[i]))
                    if conc(l1[0], cap(I, d)) != conc(l1[0], cap(I, const(Fr(0)))):
                        # another matrix: its eigenvectors, rounded
                        if not all(T.isconst(c) for r in z for c in r):
                            raise AnalysisError("eigenvectors of unknowns")
                        near.append(1)
                        w, V = jacobi([[float(T.cval(c)) for c in r] for r in z])
                        return (new([Fr(x).limit_denominator(10**6) for x in w]), new([list(r) for r in zip(*(ratunit(c) for c in zip(*V)))]))
                return (new([-1, lam, 0, 1]), new([[Fr(1, 3), q[i]*Fr(-2), Fr(2, 7), Fr(1, 5)] for i in range(4)]))

            def rat(a):
                v = npm.snap(I, a)
                n = [int(T.cval(x)) for x in v.shape]
                z = [[v.fn((const(i), const(j))) for j in range(n[1])] for i in range(n[0])]
                if not all(T.isconst(c) for r in z for c in r):
                    raise AnalysisError("matrix of unknowns")
                return [[Fr(T.cval(c)) for c in r] for r in z]
            inv = lambda I, ar, k: num(gauss(rat(ar[0]))[0])
            stubs = dict(svd=svd, eigh=eigh, inv=inv, pinv=inv, det=lambda I, ar, k: const(gauss(rat(ar[0]))[1]),
                         solve=lambda I, ar, k: ck.run(I, F("dot2"), num(gauss(rat(ar[0]))[0]), ar[1]).value)
            keep = {n: la[n] for n in stubs}
            la.update({n: Builtin(n, g) for n, g in stubs.items()})
            cm = I.modules.get("electrode._transformations_c")
            ck_ = {}
            if C:
                lam = sum(sv)
                for n, g in (("f_tridiagonalize_symmetric_44", lambda I, a, k: const(0)),
                             ("f_max_eigenvalue_of_tridiag_44", lambda I, a, k: (log.append(1), const(lam))[1])):
                    ck_[n] = I.get(cm, n)
                    if ck_[n] is MISS:
                        raise AnalysisError("eigensolver not recognised")
                    I.set(cm, n, Builtin(n, g))
            try:
                o = ck.run(I, F(f), A(name), u0, u1, *extra)
            finally:
                la.update(keep)
                for n in ck_:
                    I.set(cm, n, ck_[n])
            ck.note(I)
            if not ck.noraise(key, w, o, labs=l1):
                return
            if C and not log:
                ck.ob(key, w, "registers the points")
                ck.unknown(key, "eigensolver not recognised")
                return
            rule = "the transformation that takes one set to the other"
            if near:
                close(ck, key, w, rule, conc(l1[0], ck.cap(I, o.value)), conc(l1[0], ck.cap(I, num(want(full, L)))))
                return
            ck.same(key, w, ck.cap(I, o.value), ck.cap(I, num(want(full, L))), labs=l1, rule=rule)
        ck.guarded(key, go)
    if not has("superimposition_matrix"):
        return
    for k, R in enumerate(R3):
        exact = lambda full, L: full(3, L)
        for s in (1, Fr(5, 2)):
            for st in (0, 1, 2):
                t = "%d-%s-%d" % (k, s, st)
                for svd in (TRUE, FALSE):
                    if s == 1:
                        case("%s-%s" % (t, svd), "superimposition_matrix", "reg", 3, R, s, [FALSE, svd], exact, strided=st)
                    case("s%s-%s" % (t, svd), "superimposition_matrix", "reg", 3, R, s, [TRUE, svd], exact, strided=st)
                    if k % 3 == st:
                        case("h%s-%s" % (t, svd), "superimposition_matrix", "reg", 3, R, s, [TRUE, svd], exact, strided=st, homog=True)
                    if not C and not st:
                        case("r%s-%s" % (t, svd), "affine_matrix_from_points", "aff", 3, R, s, [FALSE, TRUE, svd], exact)
                if s == 1:
                    case("d" + t, "superimposition_matrix", "regp", 3, R, s, [], exact, strided=st)
                else:
                    case("d" + t, "superimposition_matrix", "regs", 3, R, s, [TRUE], exact, strided=st)
                    noscale = lambda full, L: full(3, [[z/s for z in r] for r in L])
                    case("n" + t, "superimposition_matrix", "regp", 3, R, s, [], noscale, strided=st)
        if not C:
            mir = lambda full, L, R=R: full(3, R)
            case("m%d" % k, "affine_matrix_from_points", "aff", 3, R, 1, [FALSE, FALSE, TRUE], mir, mirror=True)
    if C:
        return
    for k, R in enumerate(R2):
        exact = lambda full, L: full(2, L)
        for s in (1, Fr(5, 2)):
            case("2r%d%s" % (k, s), "affine_matrix_from_points", "aff", 2, R, s, [FALSE, TRUE, TRUE], exact)
        case("2n%d" % k, "affine_matrix_from_points", "aff", 2, R, 1, [FALSE, FALSE, FALSE], exact)
    for nd, sh in ((2, ((2, 1), (-3, 5))), (3, ((2, 1, 0), (-3, 5, 1), (1, 1, 4))), (2, ((1, 0), (0, -1)))):
        exact = lambda full, L, nd=nd: full(nd, L)
        case("a%d%s" % (nd, sh[0][0]), "affine_matrix_from_points", "affd", nd, R3[0] if nd == 3 else R2[0], 1, [], exact, shear=sh)
    for k, (x, y) in enumerate((((2, 1), (2, 1)), ((3, 4), (3, 5)), ((1, 4), (1, 4)), ((3, 2), (3, 2)))):
        def bad():
            I.ov = {}
            o = ck.run(I, F("affd"), A("affine_matrix_from_points"), arr("a", x), arr("b", y))
            ck.note(I)
            ck.raises("affine-shape%d" % k, W + "affine_matrix_from_points", o, ("ValueError",), labs=l1)
        ck.guarded("affine-shape%d" % k, bad)


def close(ck, key, w, rule, x, y):
    """the matrices agree up to the rounding of the eigenvectors"""
    ck.ob(key, w, rule)
    if x[:2] != y[:2]:
        ck.fail(key, w, rule + ": another shape")
        return
    for a, b in zip(x[2], y[2]):
        a, b = rational(a) if type(a) is int else None, T.small(b)
        if a is None or b is None:
            ck.unknown(key, "eigenvectors of another matrix")
            return
        if abs(a - b) > Fr(1, 4)*(1 + abs(b)):
            ck.fail(key, w, "%s: %s for %s" % (rule, float(a), float(b)))
            return


def rational(a):
    r0, r1, s0, s1 = T.P, a, 0, 1
    while r1 > 1 << 31:
        q = r0//r1
        r0, r1, s0, s1 = r1, r0 - q*r1, s1, s0 - q*s1
    return Fr(r1, s1) if abs(s1) < 1 << 28 else None


def ratunit(v):
    """rational unit vector near a unit vector"""
    k = max(range(len(v)), key=lambda i: abs(v[i]))
    r = [Fr(round(16*x/(abs(v[k]) + 1)), 16) for x in v]
    r[k] = 0
    n = sum(x*x for x in r)
    r = [2*x/(1 + n) for x in r]
    r[k] = (1 - n)/(1 + n)*(1 if v[k] > 0 else -1)
    return r


def jacobi(a):
    """eigenvalues and eigenvectors (columns) of a symmetric matrix"""
    n = len(a)
    v = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-14:
                    continue
                t = 0.5*math.atan2(2*a[p][q], a[q][q] - a[p][p])
                c, s = math.cos(t), math.sin(t)
                for m in (a, v):
                    for r in m:
                        r[p], r[q] = c*r[p] - s*r[q], s*r[p] + c*r[q]
                for k in range(n):
                    a[p][k], a[q][k] = c*a[p][k] - s*a[q][k], s*a[p][k] + c*a[q][k]
    return [a[i][i] for i in range(n)], v


def svdround(a):
    a = [[float(z) for z in r] for r in a]
    n, m = len(a), len(a[0])
    if n > m or m > 8:
        raise AnalysisError("singular values of another matrix")
    w, V = jacobi([[sum(a[k][i]*a[k][j] for k in range(n)) for j in range(m)] for i in range(m)])
    x, U = jacobi([[sum(a[i][k]*a[j][k] for k in range(m)) for j in range(n)] for i in range(n)])
    vs = [v for _, v in sorted(zip(w, zip(*V)), key=lambda z: -z[0])]
    us = [u for _, u in sorted(zip(x, zip(*U)), key=lambda z: -z[0])]
    top = max([1e-300] + list(map(abs, w)))
    ss = []
    for k in range(n):
        t = max(sorted(w, reverse=True)[k], 0.)
        ss.append(math.sqrt(t) if t > 1e-9*top else 0.)
        if ss[-1]:
            us[k] = [sum(a[i][j]*vs[k][j] for j in range(m))/ss[-1] for i in range(n)]
    q = lambda z: Fr(round(z*256), 256)
    return [list(r) for r in zip(*(ratunit(u) for u in us))], [q(z) for z in ss], [ratunit(v) for v in vs]


def add(l):
    s = l[0]
    for z in l[1:]:
        s = T.add(s, z)
    return s


def quat(R):
    """rational quaternion (any length) of a rational rotation"""
    c = [[1 + R[0][0] + R[1][1] + R[2][2], R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1]],
         [R[2][1] - R[1][2], 1 + R[0][0] - R[1][1] - R[2][2], R[0][1] + R[1][0], R[0][2] + R[2][0]],
         [R[0][2] - R[2][0], R[0][1] + R[1][0], 1 - R[0][0] + R[1][1] - R[2][2], R[1][2] + R[2][1]],
         [R[1][0] - R[0][1], R[0][2] + R[2][0], R[1][2] + R[2][1], 1 - R[0][0] - R[1][1] + R[2][2]]]
    return max(c, key=lambda v: sum(z*z for z in v))

"""C34 homogeneous transformation matrices equal their definitions"""
import os
from fractions import Fraction as Fr
from .. import cprog
from ..check import *
from .c23 import Prefixed

DESC = ("The builders of homogeneous matrices (identity, translation, reflection, scale, projection, clip, shear, orthogonalization, "
        "composition, inverse, concatenation) are abstractly interpreted with unknown points, vectors and factors, both the interpreted "
        "variants and the compiled ones (translated from clang's syntax tree of transformations.c), and compared as value numbers with "
        "their definitions; the extractors are run on those matrices, with exact eigenvectors in place of the eigensolver's, and must give "
        "parameters that rebuild the matrix; decomposing and composing must give the matrix back.")

SRC = '''
import numpy as np
def rodrigues(C, S, d, p):
    n = d[0]*d[0] + d[1]*d[1] + d[2]*d[2]
    l = np.sqrt(n)
    u = [d[0]/l, d[1]/l, d[2]/l]
    K = [[0., -u[2], u[1]], [u[2], 0., -u[0]], [-u[1], u[0], 0.]]
    M = np.identity(4)
    for i in range(3):
        for j in range(3):
            M[i, j] = (C if i == j else 0.) + (1. - C)*u[i]*u[j] + S*K[i][j]
    if p is not None:
        for i in range(3):
            M[i, 3] = p[i] - M[i, 0]*p[0] - M[i, 1]*p[1] - M[i, 2]*p[2]
    return M
def rot(f, a, d): return f(a, d)
def rotp(f, a, d, p): return f(a, d, p)
def spec_rot(f, a, d): return rodrigues(np.cos(a), np.sin(a), d, None)
def spec_rotp(f, a, d, p): return rodrigues(np.cos(a), np.sin(a), d, p)
def vsq(n): return n[0]*n[0] + n[1]*n[1] + n[2]*n[2]
def vdot(a, b): return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]
def cross(a, b): return [a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]]
def hom(f, t):
    """matrix of x -> (x + f(x)) with translation t"""
    M = np.identity(4)
    for i in range(3):
        for j in range(3):
            M[i, j] = M[i, j] + f[i][j]
        M[i, 3] = t[i]
    return M
def rank1(k, a, b, t):
    """1 + k a b^T, translation t"""
    return hom([[k*a[i]*b[j] for j in range(3)] for i in range(3)], t)
def ident(f): return np.identity(4)
def transl(f, t): return hom([[0.]*3]*3, [t[0], t[1], t[2]])
def reflection(f, p, n):
    k = 2*vdot(p, n)/vsq(n)
    return rank1(-2/vsq(n), n, n, [k*n[0], k*n[1], k*n[2]])
def scale1(f, s): return np.diag([s, s, s, 1.])
def scale2(f, s, o):
    M = np.diag([s, s, s, 1.])
    for i in range(3):
        M[i, 3] = (1 - s)*o[i]
    return M
def scale3(f, s, o, d):
    k = (1 - s)*vdot(o, d)/vsq(d)
    return rank1(-(1 - s)/vsq(d), d, d, [k*d[0], k*d[1], k*d[2]])
def scale4(f, s, d): return rank1(-(1 - s)/vsq(d), d, d, [0., 0., 0.])
def ortho(f, p, n):
    k = vdot(p, n)/vsq(n)
    return rank1(-1/vsq(n), n, n, [k*n[0], k*n[1], k*n[2]])
def oblique(f, p, n, d):
    k = vdot(p, n)/vdot(d, n)
    return rank1(-1/vdot(d, n), d, n, [k*d[0], k*d[1], k*d[2]])
def persp(f, p, n, v, pseudo): return homog(perspraw(p, n, v, pseudo))
def perspraw(p, n, v, pseudo):
    l = np.sqrt(vsq(n))
    u = [n[0]/l, n[1]/l, n[2]/l]
    k = vdot([v[0] - p[0], v[1] - p[1], v[2] - p[2]], u)
    q = vdot(p, u)
    M = np.zeros((4, 4))
    for i in range(3):
        for j in range(3):
            M[i, j] = (k if i == j else 0.) - v[i]*u[j] - (u[i]*u[j] if pseudo else 0.)
        M[i, 3] = q*(v[i] + (u[i] if pseudo else 0.))
        M[3, i] = -u[i]
    M[3, 3] = vdot(v, u)
    return M
def homog(M):
    return M*(1/M[3, 3])
def perspp(f, p, n, v): return persp(f, p, n, v, False)
def perspq(f, p, n, v): return persp(f, p, n, v, True)
def clip(f, l, r, b, t, n, fa):
    return np.array([[2/(r - l), 0., 0., -(r + l)/(r - l)], [0., 2/(t - b), 0., -(t + b)/(t - b)],
                     [0., 0., 2/(fa - n), -(fa + n)/(fa - n)], [0., 0., 0., 1.]])
def clipp(f, l, r, b, t, n, fa):
    return np.array([[-2*n/(r - l), 0., (r + l)/(r - l), 0.], [0., -2*n/(t - b), (t + b)/(t - b), 0.],
                     [0., 0., -(fa + n)/(fa - n), 2*n*fa/(fa - n)], [0., 0., -1., 0.]])
def shear(f, a, d, p, n):
    ld, ln = np.sqrt(vsq(d)), np.sqrt(vsq(n))
    k = np.tan(a)/(ld*ln)
    q = k*vdot(p, n)
    return rank1(k, d, n, [-q*d[0], -q*d[1], -q*d[2]])
def gram(O):
    return [[O[0, i]*O[0, j] + O[1, i]*O[1, j] + O[2, i]*O[2, j] for j in range(3)] for i in range(3)], \\
        [O[i, 3] for i in range(3)], [O[3, i] for i in range(4)], [O[0, 1], O[0, 2], O[1, 2]], O[2, 2]
def cell(l, a):
    al, be, ga = [np.cos(np.radians(q)) for q in a]
    x = [[l[0]*l[0], l[0]*l[1]*ga, l[0]*l[2]*be], [l[0]*l[1]*ga, l[1]*l[1], l[1]*l[2]*al], [l[0]*l[2]*be, l[1]*l[2]*al, l[2]*l[2]]]
    return x, [0.]*3, [0., 0., 0., 1.], [0.]*3, l[2]
def mm(A, B):
    n = len(A)
    return np.array([[sum([A[i, k]*B[k, j] for k in range(n)]) for j in range(n)] for i in range(n)])
def elem(ax, C, S):
    u, v = (ax + 1) % 3, (ax + 2) % 3
    M = np.identity(4)
    M[u, u], M[u, v], M[v, u], M[v, v] = C, -S, S, C
    return M
def compose(f, scale, shear, angles, translate, perspective):
    P, T, Z, S = np.identity(4), np.identity(4), np.identity(4), np.identity(4)
    M = np.identity(4)
    if perspective is not None:
        for i in range(4):
            P[3, i] = perspective[i]
        M = mm(M, P)
    if translate is not None:
        for i in range(3):
            T[i, 3] = translate[i]
        M = mm(M, T)
    if angles is not None:
        for i in (2, 1, 0):
            M = mm(M, elem(i, np.cos(angles[i]), np.sin(angles[i])))
    if shear is not None:
        Z[0, 1], Z[0, 2], Z[1, 2] = shear
        M = mm(M, Z)
    if scale is not None:
        for i in range(3):
            S[i, i] = scale[i]
        M = mm(M, S)
    return homog(M)
def compose3(R, scale, shear, translate, perspective):
    M = compose(None, None, None, None, translate, perspective)
    for i in (2, 1, 0):
        M = mm(M, elem(i, R[i][0], R[i][1]))
    return mm(M, compose(None, scale, shear, None, None, None))
def concat(*a):
    M = np.identity(4)
    for m in a:
        M = mm(M, m)
    return M
def c0(f): return f()
def c1(f, a): return f(a)
def c2(f, a, b): return f(a, b)
def c3(f, a, b, c): return f(a, b, c)
def c4(f, a, b, c, d): return f(a, b, c, d)
def c6(f, a, b, c, d, e, g): return f(a, b, c, d, e, g)
def kdir(f, s, d): return f(s, direction=d)
def kodir(f, s, o, d): return f(s, direction=d, origin=o)
def kobl(f, p, n, d): return f(p, n, direction=d)
def kper(f, p, n, v): return homog(f(p, n, perspective=v))
def kperb(f, p, n, v): return homog(f(p, n, perspective=v, pseudo=True))
def kpern(f, p, n, v): return homog(f(p, n, None, v, False))
def kclip(f, l, r, b, t, n, fa): return f(left=l, right=r, bottom=b, top=t, near=n, far=fa)
def kclipp(f, l, r, b, t, n, fa): return f(l, r, b, t, n, fa, perspective=True)
def kgram(f, l, a): return gram(f(l, a))
def scell(f, l, a): return cell(l, a)
def minv(f, M):
    return mm(M, f(M))
def minvl(f, M):
    return mm(f(M), M)
def mulv(A, b): return np.dot(A, b)
def ninv(f, M): return np.linalg.inv(M)
def sinv(f, M): return np.identity(len(M))
def comp(f, a, b, c, d, e): return f(a, b, c, d, e)
def kcomp(f, a, b, c, d, e): return f(scale=a, shear=b, angles=c, translate=d, perspective=e)
def same(f, a, b): return f(a, b)
def times(M, w): return M*w
def bump(M, i, j, w):
    M = M.copy()
    M[i, j] = M[i, j] + w
    return M
def redo(comp, dec, M):
    a, b, c, d, e = dec(M)
    return comp(a, b, c, d, e)
def back(f, M): return f(M)
def backk(f, M, ps): return f(M, pseudo=ps)
def rodr(angle, d, p):
    C, S = np.cos(angle), np.sin(angle)
    x, y, z = d[0], d[1], d[2]
    R = [[C + (1 - C)*x*x, (1 - C)*x*y - S*z, (1 - C)*x*z + S*y],
         [(1 - C)*x*y + S*z, C + (1 - C)*y*y, (1 - C)*y*z - S*x],
         [(1 - C)*x*z - S*y, (1 - C)*y*z + S*x, C + (1 - C)*z*z]]
    M = np.identity(4)
    for i in range(3):
        for j in range(3):
            M[i, j] = R[i][j]
        M[i, 3] = p[i] - R[i][0]*p[0] - R[i][1]*p[1] - R[i][2]*p[2]
    return M
def rodr2(C, S, d, p): return rodr(np.arctan2(S, C), d, p)
def proj(p, n, d, v, ps):
    if v is not None:
        return persp(None, p, n, v, ps)
    return ortho(None, p, n) if d is None else oblique(None, p, n, d)
def scaleall(s, o, d): return scale2(None, s, o) if d is None else scale3(None, s, o, d)
def refl(p, n): return reflection(None, p, n)
def shearall(a, d, p, n): return shear(None, a, d, p, n)
def shtan(t, d, p, n): return rank1(t, d, n, [-t*vdot(p, n)*d[0], -t*vdot(p, n)*d[1], -t*vdot(p, n)*d[2]])
def smul(M, w): return M*w
def T3(M): return np.array([[M[j, i] for j in range(3)] for i in range(3)])
def b3(M): return np.array([[M[i, j] for j in range(3)] for i in range(3)])
def rebuild(M): return homog(M)
def tfrom(f, M): return np.array([M[0, 3], M[1, 3], M[2, 3]])
'''


def check(ck):
    I = ck.interp("electrode.transformations")
    variant(ck, I, "", "electrode/transformations.py: ", lambda n: ck.attr(I, "transformations", n), lambda n: True)
    path = os.path.join(ck.repo, "electrode", "transformations.c")
    got = []
    ck.guarded("compiled", lambda: got.append(cprog.load(ck, I, path)[0]))
    if got:
        fs = got[0]
        for n in CN:
            if n not in fs:
                ck.unknown("compiled", "%s is not in the method table" % n)
        variant(Prefixed(ck, "c-"), I, "c-", "electrode/transformations.c: ", lambda n: fs[n], lambda n: n in fs)


BIG = (((0, 2, 1, 3, 1), (4, 0, 1, 2, 1), (1, 5, 0, 1, 2), (2, 1, 7, 0, 1), (1, 1, 2, 9, 0)),
       ((5, 2, 1, 3, 1), (1, 6, 1, 2, 1), (1, 5, 7, 1, 2), (2, 1, 1, 8, 1), (1, 1, 2, 3, 9)),
       ((0, 0, 0, 0, 3), (0, 0, 5, 0, 1), (2, 0, 0, 0, 0), (0, 7, 0, 1, 0), (0, 0, 0, 4, 0)),
       ((0, 1, 2, 0, 3, 1), (1, 0, 5, 0, 1, 2), (2, 3, 0, 1, 0, 4), (5, 7, 0, 1, 0, 1), (0, 2, 0, 4, 1, 0), (3, 1, 1, 0, 2, 1)))
CN = ("identity_matrix", "translation_matrix", "reflection_matrix", "rotation_matrix", "scale_matrix", "projection_matrix", "clip_matrix", "shear_matrix",
      "orthogonalization_matrix", "inverse_matrix", "is_same_transform")


def variant(ck, I, C, W, A, has):
    m = ck.spec(I, SRC, "c34spec" + C)
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:3 if ck.tier == "quick" else 10]
    for l in labs:
        l.eps = True
    num = lambda *v: I.call(I.externs["numpy"].table["array"], [I.new_list([const(z) for z in v])], {})

    def vec(n, k=3, how="a"):
        a = npm.sym_array(I, n, (const(k),), "i" if how == "i" else "f")
        if how == "l":
            a = I.new_list([I.getitem(a, const(i)) for i in range(k)])
        I.freeze()
        return a

    def vs(key, n, f, spec, args, rule="equals its definition", **k):
        if not has(n):
            return None
        return ck.vs(key, W + n, I, F(f), F(spec), [A(n)] + args, labs=labs, rule=rule, **k)
    s, a = T.atom("s"), T.atom("a")
    vs("identity", "identity_matrix", "c0", "ident", [])
    for k, how in ((3, "a"), (3, "l"), (4, "a"), (3, "i")):
        v = "%d%s" % (k, how)
        p, n, d, u = vec("p", k, how), vec("n", k, how), vec("d", k, how), vec("v", k, how)
        vs("translation-" + v, "translation_matrix", "c1", "transl", [p])
        vs("rotation-" + v, "rotation_matrix", "rot", "spec_rot", [a, d])
        vs("rotation-p-" + v, "rotation_matrix", "rotp", "spec_rotp", [a, d, p])
        vs("reflection-" + v, "reflection_matrix", "c2", "reflection", [p, n])
        vs("scale-o-" + v, "scale_matrix", "c2", "scale2", [s, p])
        vs("scale-od-" + v, "scale_matrix", "c3", "scale3", [s, p, d])
        vs("scale-od-kw-" + v, "scale_matrix", "kodir", "scale3", [s, p, d])
        vs("scale-d-" + v, "scale_matrix", "kdir", "scale4", [s, d])
        vs("project-" + v, "projection_matrix", "c2", "ortho", [p, n])
        vs("project-d-" + v, "projection_matrix", "c3", "oblique", [p, n, d])
        vs("project-d-kw-" + v, "projection_matrix", "kobl", "oblique", [p, n, d])
        vs("project-v-" + v, "projection_matrix", "kper", "perspp", [p, n, u])
        vs("project-vp-" + v, "projection_matrix", "kperb", "perspq", [p, n, u])
        vs("project-vn-" + v, "projection_matrix", "kpern", "perspp", [p, n, u])

        def sh():
            I.ov = {}
            e = I.resolve(ck.run(I, F("cross"), n, u).value)
            e = I.new_list([I.getitem(e, const(q)) for q in range(3)] + ([const(1.)] if k == 4 else []))
            I.freeze()
            if how == "a":
                e = npm.snap(I, I.call(I.externs["numpy"].table["array"], [e], {}))
            I.freeze()
            vs("shear-" + v, "shear_matrix", "c4", "shear", [a, e, p, n])
            if has("shear_matrix"):
                I.ov = {}
                o = ck.run(I, F("c4"), A("shear_matrix"), a, d, p, n)
                ck.note(I)
                ck.raises("shear-oblique-" + v, W + "shear_matrix", o, ("ValueError",), labs=labs)
        ck.guarded("shear-" + v, sh)
    vs("scale", "scale_matrix", "c1", "scale1", [s])
    l, r, b, t, n, f = [T.atom("clip%d" % q) for q in range(6)]
    pre = T.and_(T.lt(l, r), T.and_(T.lt(b, t), T.lt(n, f)))
    vs("clip", "clip_matrix", "c6", "clip", [l, r, b, t, n, f], pre=pre)
    vs("clip-kw", "clip_matrix", "kclip", "clip", [l, r, b, t, n, f], pre=pre)
    vs("clip-p", "clip_matrix", "kclipp", "clipp", [l, r, b, t, n, f], pre=T.and_(pre, T.lt(const(0.), n)))
    good = [-2, 3, -5, 7, 1, 11]
    for how, kw in (("", "c6"), ("-p", "kclipp")):
        if not has("clip_matrix"):
            continue
        for j in (0, 2, 4, None, "near"):
            for w in ("eq", "gt") if j in (0, 2, 4) else ("",):
                g = list(good)
                if j == "near":
                    g[4] = -1
                elif j is not None:
                    g[j] = g[j + 1] + (1 if w == "gt" else 0)
                key = "clip%s-%s%s" % (how, j, w)

                def go():
                    I.ov = {}
                    o = ck.run(I, F(kw), A("clip_matrix"), *[const(float(z)) for z in g])
                    ck.note(I)
                    if j is None or (j == "near" and not how):
                        ck.noraise(key, W + "clip_matrix", o, labs=labs[:1])
                    else:
                        ck.raises(key, W + "clip_matrix", o, ("ValueError",), labs=labs[:1])
                ck.guarded(key, go)
    for how in "al":
        vs("cell-" + how, "orthogonalization_matrix", "kgram", "scell", [vec("l", 3, how), vec("g", 3, how)],
           rule="columns have the lengths and enclose the angles given, lower triangular")
    for k in (1, 2, 3, 4):
        M = npm.sym_array(I, "M%d" % k, (const(k), const(k)))
        I.freeze()
        if C:
            vs("inverse-%d" % k, "inverse_matrix", "minv", "sinv", [M], rule="product with the matrix is the identity")
            vs("inverse-l-%d" % k, "inverse_matrix", "minvl", "sinv", [M], rule="product with the matrix is the identity")
        else:
            vs("inverse-%d" % k, "inverse_matrix", "back", "ninv", [M], rule="the matrix inverse")
    if C:
        for k, v in enumerate(BIG):
            def inv():
                I.ov = {}
                M = I.new_list([I.new_list([const(Fr(z)) for z in r]) for r in v])
                M = npm.snap(I, I.call(I.externs["numpy"].table["array"], [M], {}))
                I.freeze()
                vs("inverse-b%d" % k, "inverse_matrix", "minv", "sinv", [M], rule="product with the matrix is the identity")
            ck.guarded("inverse-b%d" % k, inv)
        for k in range(1, 7):
            def sing():
                I.ov = {}
                M = I.new_list([I.new_list([const(Fr((i + 2)*(j + 1)) if k > 1 else Fr(0)) for j in range(k)]) for i in range(k)])
                M = npm.snap(I, I.call(I.externs["numpy"].table["array"], [M], {}))
                I.freeze()
                o = ck.run(I, A("inverse_matrix"), M)
                ck.note(I)
                ck.raises("inverse-s%d" % k, W + "inverse_matrix", o, ("ValueError", "LinAlgError"), labs=labs[:1])
            ck.guarded("inverse-s%d" % k, sing)
    M = [npm.sym_array(I, "M_%d" % k, (const(4), const(4))) for k in range(3)]
    I.freeze()
    if not C:
        for k in range(4):
            ck.vs("concat-%d" % k, W + "concatenate_matrices", I, A("concatenate_matrices"), F("concat"), M[:k], labs=labs,
                  rule="product in the order given")
        vs("translation-back", "translation_from_matrix", "back", "tfrom", [M[0]])
        full = [vec("sc"), vec("shr"), vec("an"), vec("tr"), vec("pe", 4)]
        for i in range(32):
            g = [x if i >> k & 1 else None for k, x in enumerate(full)]
            vs("compose-%d" % i, "compose_matrix", "comp" if i % 2 else "kcomp", "compose", g)
        ck.guarded("extract", lambda: extract(ck, I, W, A, F, labs))
    ck.guarded("same", lambda: same(ck, I, W, A, has, F, labs))


def same(ck, I, W, A, has, F, labs):
    if not has("is_same_transform"):
        return
    w = W + "is_same_transform"
    vals = [[Fr(q) for q in r] for r in ((2, 3, -5, 7), (1, -4, 6, 2), (3, 8, -1, 5), (1, -2, 3, 4))]

    def arr(v):
        return npm.snap(I, I.call(I.externs["numpy"].table["array"], [I.new_list([I.new_list([const(z) for z in r]) for r in v])], {}))

    def one(key, a, b, want):
        def go():
            I.ov = {}
            x, y = arr(a), arr(b)
            I.freeze()
            o = ck.run(I, A("is_same_transform"), x, y)
            ck.note(I)
            if ck.noraise(key, w, o, labs=labs[:1]):
                ck.same(key, w, ck.cap(I, o.value), ck.cap(I, TRUE if want else FALSE), labs=labs[:1],
                        rule="matrices are the same exactly if they are proportional")
        ck.guarded(key, go)
    one("same-equal", vals, vals, True)
    one("same-scaled", vals, [[z*Fr(-3, 2) for z in r] for r in vals], True)
    for i in range(4):
        for j in range(4):
            b = [list(r) for r in vals]
            b[i][j] += Fr(1, 2)
            one("differ-%d%d" % (i, j), vals, b, False)
            one("differ-r%d%d" % (i, j), b, vals, False)


def gauss(m):
    """inverse and determinant of a rational matrix"""
    n = len(m)
    m = [list(r) + [Fr(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    det = Fr(1)
    for k in range(n):
        p = [i for i in range(k, n) if m[i][k]]
        if not p:
            return None, Fr(0)
        if p[0] != k:
            m[k], m[p[0]] = m[p[0]], m[k]
            det = -det
        det *= m[k][k]
        m[k] = [z/m[k][k] for z in m[k]]
        for i in range(n):
            if i != k:
                m[i] = [a - m[i][k]*b for a, b in zip(m[i], m[k])]
    return [r[n:] for r in m], det


def extract(ck, I, W, A, F, labs):
    """parameters extracted from a matrix rebuild it; the eigensolver's answer
    is given (all it promises: columns are eigenvectors of the eigenvalues)"""
    labs = labs[:1]
    la = I.externs["numpy"].table["linalg"].table
    num = lambda v: npm.snap(I, I.call(I.externs["numpy"].table["array"], [v], {}))
    new = lambda v: I.call(I.externs["numpy"].table["array"], [v], {})

    def mk(v):
        return I.new_list([mk(z) for z in v]) if isinstance(v, (list, tuple)) else v if isinstance(v, Node) else const(Fr(v))

    def case(key, name, M, rebuild, eigs, extra=(), want=None, exc=None, kw=None, check=None):
        """eigs: list of (matrix, eigenvalues, columns)"""
        w = W + name
        key = name + "-" + key

        def go():
            I.ov = {}
            Mv = new(mk(M))
            M0 = ck.cap(I, Mv)
            known = []
            for m, ev, cols in eigs:
                known.append((ck.cap(I, num(mk(m))), num(mk(ev)), num(mk([[c[i] for c in cols] for i in range(len(cols[0]))]))))
            I.freeze()
            lost = []

            def eig(I, ar, k):
                z = npm.snap(I, ar[0])
                if z.ndim != 2 or not T.same_dim(*z.shape):
                    I.throw("ValueError", "eigenvectors of a matrix that is not square")
                c = cap(I, z)
                for m, ev, V in known:
                    if conc(labs[0], c) == conc(labs[0], m):
                        return (ev, V)
                lost.append(1)
                raise AnalysisError("eigenvectors of another matrix")
            keep = {n: la[n] for n in ("eig", "eigh")}
            la["eig"] = la["eigh"] = Builtin("eig", eig)
            try:
                o = ck.run(I, F("back" if kw is None else "backk"), A(name), Mv, *([] if kw is None else [kw]))
            finally:
                la.update(keep)
            ck.note(I)
            if exc:
                ck.raises(key, w, o, exc, labs=labs)
                return
            if not ck.noraise(key, w, o, labs=labs):
                return
            ck.same(key + "-kept", w, ck.cap(I, Mv), M0, labs=labs, rule="the matrix given is unchanged")
            v = o.value
            v = I.resolve(v)
            items = v if isinstance(v, tuple) else [I.getitem(v, const(i)) for i in range(len(v.items))]
            ck.same(key, w, ck.cap(I, ck.run(I, F(rebuild), *items).value), ck.cap(I, ck.run(I, F("rebuild"), Mv).value), labs=labs,
                    rule="the parameters found rebuild the matrix")
        ck.guarded(key, go)

    def val(f, *a):
        """a spec matrix of concrete parameters as nested lists of terms"""
        I.ov = {}
        v = ck.run(I, F(f), *[z if z is None else mk(z) for z in a]).value
        v = npm.snap(I, v)
        n = [int(x.x[1]) for x in v.shape]
        return [[v.fn((const(i), const(j))) for j in range(n[1])] for i in range(n[0])]
    tr = lambda M: [[M[j][i] for j in range(3)] for i in range(3)]
    b3 = lambda M: [r[:3] for r in M[:3]]
    U = [(Fr(2, 3), Fr(1, 3), Fr(2, 3)), (Fr(3, 5), Fr(-4, 5), 0), (1, 0, 0), (0, 1, 0), (0, 0, -1), (Fr(-6, 7), Fr(2, 7), Fr(3, 7))]
    P = (3, -5, 7)
    G3, G4 = (Fr(1, 7), Fr(3, 7), Fr(-2, 7)), (Fr(1, 9), Fr(3, 9), Fr(-2, 9), Fr(5, 9))
    h = lambda p, s: tuple(z*s for z in p) + (s,)
    neg = lambda v: tuple(-z for z in v)
    for k, u in enumerate(U):
        for s in (1, -1):
            v = tuple(s*z for z in u)
            M = val("refl", P, u)
            case("%d%+d" % (k, s), "reflection_from_matrix", M, "refl",
                 [(b3(M), (1, -1, 1), (G3, v, G3)), (M, (-1, 1, 1, 1), (G4, G4, G4, h(P, Fr(s, 3))))])
            for C, S in ((Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(-12, 13)), (0, 1)):
                M = val("rodr2", const(Fr(C)), const(Fr(S)), u, P)
                case("%d%+d-%s" % (k, s, C), "rotation_from_matrix", M, "rodr",
                     [(tr(M), (C, 1, C), (G3, v, G3)), (b3(M), (C, 1, C), (G3, v, G3)), (M, (C, C, 1, 1), (G4, G4, G4, h(P, Fr(s, 2))))])
            for f in (Fr(-5, 2), Fr(3, 2)):
                M = val("scaleall", f, P, u)
                case("d%d%+d%s" % (k, s, f), "scale_from_matrix", M, "scaleall",
                     [(b3(M), (1, f, 1), (G3, v, G3)), (M, (f, 1, 1, 1) if f < 0 else (1, 1, 1, f),
                                                         (G4, G4, G4, h(P, Fr(s, 3))) if f < 0 else (G4, G4, h(P, Fr(s, 3)), G4))])
            n = U[(k + 1) % len(U)]
            M = val("proj", P, u, None, None, FALSE)
            z0 = [(b3(M), (1, 0, 1) if k % 2 else (0, 1, 1), (G3, v, G3) if k % 2 else (v, G3, G3)), (tr(M), (1, 1, 0), (G3, G3, v)), (M, (0, 1, 1, 1), (G4, G4, G4, h(P, Fr(s, 3))))]
            case("o%d%+d" % (k, s), "projection_from_matrix", M, "proj", z0)
            vp = (2, 9, -11)
            kk = sum((a - b)*c for a, b, c in zip(vp, P, u))
            for ps in (0, 1):
                if kk and kk != 1 and sum(a*b for a, b in zip(P, u)):
                    M = val("perspraw", P, u, vp, TRUE if ps else FALSE)
                    case("p%d-%d%+d" % (ps, k, s), "projection_from_matrix", M, "proj",
                         [(M, (0, kk, kk, kk), (G4, G4, G4, h(P, Fr(s, 3)))), (b3(M), (0, 0, 0), (G3, G3, G3)), (tr(M), (0, 0, 0), (G3, G3, G3))],
                         kw=TRUE if ps else FALSE)
            d = n if sum(a*b for a, b in zip(u, n)) else tuple(a + b for a, b in zip(u, n))
            M = val("proj", P, u, d, None, FALSE)
            dn = tuple(s*z for z in d)
            if sum(z*z for z in d) == 1:
                case("d%d%+d" % (k, s), "projection_from_matrix", M, "proj",
                     [(b3(M), (1, 0, 1) if k % 2 else (0, 1, 1), (G3, dn, G3) if k % 2 else (dn, G3, G3)), (tr(M), (1, 1, 0), (G3, G3, v)), (M, (0, 1, 1, 1), (G4, G4, G4, h(P, Fr(s, 3))))])
    for k, f in enumerate((Fr(7, 2), Fr(-1, 3))):
        M = val("scaleall", f, P, None)
        case("u%d" % k, "scale_from_matrix", M, "scaleall",
             [(b3(M), (f, f, f), (G3, G3, G3)), (M, (f, f, f, 1), (G4, G4, G4, h(P, Fr(2, 3))))])
    case("none", "reflection_from_matrix", [[2, 0, 0, 0], [0, 3, 0, 0], [0, 0, 4, 0], [0, 0, 0, 1]], "refl", [([[2, 0, 0], [0, 3, 0], [0, 0, 4]], (2, 3, 4), (G3, G3, G3))],
         exc=("ValueError",))
    case("none", "rotation_from_matrix", [[2, 0, 0, 0], [0, 3, 0, 0], [0, 0, 4, 0], [0, 0, 0, 1]], "rodr",
         [([[2, 0, 0], [0, 3, 0], [0, 0, 4]], (2, 3, 4), (G3, G3, G3))], exc=("ValueError",))
    for k, (d, n, e0) in enumerate((((1, 0, 0), (0, Fr(3, 5), Fr(4, 5)), (0, Fr(4, 5), Fr(-3, 5))),
                                   ((Fr(2, 3), Fr(1, 3), Fr(2, 3)), (Fr(1, 3), Fr(2, 3), Fr(-2, 3)), (Fr(-2, 3), Fr(2, 3), Fr(1, 3))))):
        for t in (Fr(3, 4), Fr(-5, 2)):
            for s in (1, -1):
                M = val("shtan", t, d, P, n)
                if t > 0:
                    e = tuple(3*x/5 + 4*y/5 for x, y in zip(map(Fr, d), e0))
                else:
                    e = e0
                case("%d%s%+d" % (k, t, s), "shear_from_matrix", M, "shearall",
                     [(b3(M), (1, 1, 1), (d, tuple(s*z for z in e), d) if s > 0 else (d, neg(d), e)), (M, (2, 2, 1, 1), (G4, G4, G4, h(P, Fr(s, 3))))])
    I.ov = {}
    def rat(a):
        v = npm.snap(I, a)
        n = [int(T.cval(x)) for x in v.shape]
        z = [[v.fn((const(i), const(j))) for j in range(n[1])] for i in range(n[0])]
        if not all(T.isconst(c) for r in z for c in r):
            raise AnalysisError("matrix of unknowns")
        return [[Fr(T.cval(c)) for c in r] for r in z]

    def dec(key, M, whole=False):
        def go():
            I.ov = {}
            A4 = new(I.new_list([I.new_list([const(int(T.cval(z))) for z in r]) for r in M]) if whole else mk(M))
            M0 = ck.cap(I, A4)
            I.freeze()
            keep = {n: la[n] for n in ("inv", "det", "solve")}

            la["inv"] = Builtin("inv", lambda I, ar, k: num(mk(gauss(rat(ar[0]))[0])))
            la["det"] = Builtin("det", lambda I, ar, k: const(gauss(rat(ar[0]))[1]))
            la["solve"] = Builtin("solve", lambda I, ar, k: ck.run(I, F("mulv"), num(mk(gauss(rat(ar[0]))[0])), ar[1]).value)
            try:
                o = ck.run(I, F("redo"), A("compose_matrix"), A("decompose_matrix"), A4)
            finally:
                la.update(keep)
            ck.note(I)
            if ck.noraise(key, W + "decompose_matrix", o, labs=labs):
                ck.same(key + "-kept", W + "decompose_matrix", ck.cap(I, A4), M0, labs=labs, rule="the matrix given is unchanged")
                ck.same(key, W + "decompose_matrix", ck.cap(I, o.value), ck.cap(I, ck.run(I, F("rebuild"), A4).value), labs=labs,
                        rule="composing the factors gives the matrix back")
        ck.guarded(key, go)
    cs = ((Fr(3, 5), Fr(4, 5)), (Fr(-5, 13), Fr(12, 13)), (Fr(8, 17), Fr(-15, 17)), (Fr(1), Fr(0)), (Fr(0), Fr(1)), (Fr(0), Fr(-1)))
    q = 0
    for R in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 1, 1), (3, 3, 3), (0, 4, 3), (2, 5, 3), (4, 0, 5), (1, 3, 4)):
        for S in ((2, Fr(3, 2), 5), (2, Fr(3, 2), -5), (-1, 3, Fr(1, 2))):
            q += 1
            Z = ((Fr(1, 3), -2, 3), (0, 0, 0), (0, 0, 5))[q % 3]
            T_ = (P, (0, 0, 0))[q % 2]
            E = (None, (Fr(1, 7), -1, 2, 3), (0, 0, 0, 1), (0, 3, 0, 2))[q % 4]
            M = val("compose3", [list(cs[k]) for k in R], S, Z, T_, E)
            dec("decompose-%d" % q, M)
            if q < 4:
                # a matrix of integers
                M = val("compose3", [list(cs[k]) for k in ((3, 4, 3), (4, 5, 3), (3, 3, 4))[q - 1]], (2, 3, -5), (1, -2, 3), (4, -1, 2), (0, 0, 0, 2))
                M = [[T.mul(z, const(Fr(2))) for z in r] for r in M]
                if all(T.cval(z) == int(T.cval(z)) for r in M for z in r):
                    dec("decompose-i%d" % q, M, True)
                else:
                    ck.unknown("decompose-i%d" % q, "not a matrix of integers")
            dec("decompose-s%d" % q, [[T.mul(z, const(Fr(-5, 3))) for z in r] for r in M])
    for k, M in enumerate(([[1, 2, 3, 4], [2, 4, 6, 1], [1, 1, 1, 1], [0, 0, 0, 1]], [[1, 2, 3, 4], [2, 5, 6, 1], [1, 1, 1, 1], [0, 0, 0, 0]])):
        def sing():
            I.ov = {}
            keep = la["det"]
            la["det"] = Builtin("det", lambda I, ar, k: const(gauss(rat(ar[0]))[1]))
            try:
                o = ck.run(I, A("decompose_matrix"), num(mk(M)))
            finally:
                la["det"] = keep
            ck.note(I)
            ck.raises("decompose-e%d" % k, W + "decompose_matrix", o, ("ValueError",), labs=labs)
        ck.guarded("decompose-e%d" % k, sing)

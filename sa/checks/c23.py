from ._sys import *
from .. import cprog
import os
from fractions import Fraction as Fr

DESC = ("The builders and converters of transformations.py (and the compiled variants, translated from clang's syntax tree of transformations.c) are abstractly interpreted with unknown angles, axes, points "
        "and quaternions for all 24 axis conventions, given as names and as tuples, and compared as value numbers with products of elementary "
        "rotations about the named axes, Rodrigues' formula and Hamilton's product; converting back is checked to give the same rotation, at "
        "the poles too. The matrix whose eigenvector is taken as quaternion is compared with its closed form.")

SRC = '''
import numpy as np
def elem(ax, C, S):
    R = np.identity(4)
    a = (ax + 1) % 3
    b = (ax + 2) % 3
    R[a, a] = C
    R[b, b] = C
    R[a, b] = -S
    R[b, a] = S
    return R
def seq(frame, ax, A, B, C):
    a = elem(ax[0], A[0], A[1])
    b = elem(ax[1], B[0], B[1])
    c = elem(ax[2], C[0], C[1])
    if frame == 's':
        return np.dot(c, np.dot(b, a))
    return np.dot(a, np.dot(b, c))
def cs(a): return np.cos(a), np.sin(a)
def half(h): return np.cos(h)**2 - np.sin(h)**2, 2*np.sin(h)*np.cos(h)
def spec_euler(frame, ax, ai, aj, ak): return seq(frame, ax, cs(ai), cs(aj), cs(ak))
def spec_half(frame, ax, hi, hj, hk): return seq(frame, ax, half(hi), half(hj), half(hk)), 1.
def qmat(q):
    n = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
    w, x, y, z = q[0], q[1], q[2], q[3]
    M = np.identity(4)
    M[0, 0] = 1. - 2.*(y*y + z*z)/n
    M[1, 1] = 1. - 2.*(x*x + z*z)/n
    M[2, 2] = 1. - 2.*(x*x + y*y)/n
    M[0, 1] = 2.*(x*y - w*z)/n
    M[1, 0] = 2.*(x*y + w*z)/n
    M[0, 2] = 2.*(x*z + w*y)/n
    M[2, 0] = 2.*(x*z - w*y)/n
    M[1, 2] = 2.*(y*z - w*x)/n
    M[2, 1] = 2.*(y*z + w*x)/n
    return M
def qnorm(q): return q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
def mq(q): return qmat(q), qnorm(q)
def unitq(a, b, c):
    return np.array([np.cos(a)*np.cos(b), np.cos(a)*np.sin(b), np.sin(a)*np.cos(c), np.sin(a)*np.sin(c)])
def elemq(ax, h):
    q = np.array([np.cos(h), 0., 0., 0.])
    q[1 + ax] = np.sin(h)
    return q
def seqq(frame, ax, a, b, c):
    a, b, c = elemq(ax[0], a), elemq(ax[1], b), elemq(ax[2], c)
    if frame == 's':
        return spec_mul(None, c, spec_mul(None, b, a))
    return spec_mul(None, a, spec_mul(None, b, c))
def euler(f, ai, aj, ak, axes): return f(ai, aj, ak, axes)
def eulerd(f, ai, aj, ak): return f(ai, aj, ak)
def back(f, M, axes): return f(M, axes)
def backd(f, M): return f(M)
def ident(*a): return np.identity(4)
def rodrigues(C, S, d, p):
    n = d[0]*d[0] + d[1]*d[1] + d[2]*d[2]
    l = np.sqrt(n)
    u = [d[0]/l, d[1]/l, d[2]/l]
    K = [[0., -u[2], u[1]], [u[2], 0., -u[0]], [-u[1], u[0], 0.]]
    M = np.identity(4)
    for i in range(3):
        for j in range(3):
            M[i, j] = (C if i == j else 0.) + (1. - C)*u[i]*u[j] + S*K[i][j]
    if p is not None:
        for i in range(3):
            M[i, 3] = p[i] - M[i, 0]*p[0] - M[i, 1]*p[1] - M[i, 2]*p[2]
    return M
def rot(f, a, d): return f(a, d)
def rotp(f, a, d, p): return f(a, d, p)
def spec_rot(f, a, d): return rodrigues(np.cos(a), np.sin(a), d, None)
def spec_rotp(f, a, d, p): return rodrigues(np.cos(a), np.sin(a), d, p)
def qaa(f, h, d): return mq(f(2*h, d))
def spec_qaa(f, h, d): return rodrigues(np.cos(h)**2 - np.sin(h)**2, 2*np.sin(h)*np.cos(h), d, None), 1.
def q1(f, q): return f(q)
def q2(f, a, b): return f(a, b)
def spec_qmat(f, q): return qmat(q) if qnorm(q) != 0 else np.identity(4)
def spec_mul(f, a, b):
    w = a[0]*b[0] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3]
    x = a[0]*b[1] + a[1]*b[0] + a[2]*b[3] - a[3]*b[2]
    y = a[0]*b[2] - a[1]*b[3] + a[2]*b[0] + a[3]*b[1]
    z = a[0]*b[3] + a[1]*b[2] - a[2]*b[1] + a[3]*b[0]
    return np.array([w, x, y, z])
def spec_conj(f, q): return np.array([q[0], -q[1], -q[2], -q[3]])
def spec_inv(f, q): return np.array([q[0]/qnorm(q), -q[1]/qnorm(q), -q[2]/qnorm(q), -q[3]/qnorm(q)])
def spec_real(f, q): return q[0]
def spec_imag(f, q): return np.array([q[1], q[2], q[3]])
def qfm(f, M, p): return f(M, p)
def qfmd(f, M): return f(M)
def scaled(M, w): return M*w
def pick(w, V): return V[:, np.argmax(w)]
def order(v):
    s = 1.
    if v[3] < 0:
        s = -1.
    return np.array([s*v[3], s*v[0], s*v[1], s*v[2]])
def kdef(K, q):
    # lower triangle proportional to 4 v v^T - 1, with a positive factor
    v = [q[1], q[2], q[3], q[0]]
    r = []
    g = K[3, 3]
    for i in range(4):
        for j in range(i + 1):
            r.append(K[i, j]*(4*q[0]*q[0] - 1.) - g*(4*v[i]*v[j] - (1. if i == j else 0.)))
    return r
def kdefu(K, q): return kdef(K.T, q)
def ksum(K): return K[0, 0] + K[1, 1] + K[2, 2] + K[3, 3]
def rq(f, r): return qnorm(f(r)), f(r)
def spec_rq(f, r):
    a = np.sqrt(1. - r[0])
    b = np.sqrt(r[0])
    t = 2*np.pi*r[1]
    u = 2*np.pi*r[2]
    return 1., np.array([np.cos(u)*b, np.sin(t)*a, np.cos(t)*a, np.sin(u)*b])
def rr(f, r): return f(r)
def spec_rr(f, r): return qmat(spec_rq(f, r)[1])
'''
STAT = {"x": 0, "y": 1, "z": 2}


def allaxes():
    for f in "sr":
        for a in "xyz":
            for b in "xyz":
                for c in "xyz":
                    if a != b and b != c:
                        yield f + a + b + c


def tup(ax):
    f, s = ax[0], [STAT[c] for c in ax[1:]]
    if f == "r":
        s.reverse()
    return (s[0], 0 if s[1] == (s[0] + 1) % 3 else 1, int(s[0] == s[2]), int(f == "r"))


def check(ck):
    I = ck.interp("electrode.transformations")
    variant(ck, I, "", "electrode/transformations.py: ", lambda n: ck.attr(I, "transformations", n), lambda n: True)
    path = os.path.join(ck.repo, "electrode", "transformations.c")
    got = []

    def load():
        got.append(cprog.load(ck, I, path)[0])
    ck.guarded("compiled", load)
    if got:
        fs = got[0]
        for n in ("euler_matrix", "euler_from_matrix", "quaternion_from_euler", "rotation_matrix", "quaternion_about_axis", "quaternion_matrix",
                  "quaternion_multiply", "quaternion_conjugate", "quaternion_inverse", "quaternion_from_matrix"):
            if n not in fs:
                ck.unknown("compiled", "%s is not in the method table" % n)
        variant(Prefixed(ck, "c-"), I, "c-", "electrode/transformations.c: ", lambda n: fs[n], lambda n: n in fs)


Z, N1 = Fr(0), Fr(1)
a, b, c = Fr(2, 3), Fr(1, 3), Fr(-2, 3)
QS = ((N1, Z, Z, Z), (Z, N1, Z, Z), (Z, Z, N1, Z), (Z, Z, Z, N1), (Z, Fr(3, 5), Fr(4, 5), Z), (Z, Fr(4, 5), Fr(3, 5), Z),
              (Z, Fr(3, 5), Z, Fr(4, 5)), (Z, Fr(4, 5), Z, Fr(3, 5)), (Z, Z, Fr(3, 5), Fr(4, 5)), (Z, Z, Fr(4, 5), Fr(-3, 5)),
              (Z, a, b, c), (Z, b, a, c), (Z, c, a, b), (Fr(3, 5), Fr(4, 5), Z, Z), (Fr(-3, 5), Z, Fr(4, 5), Z), (Fr(3, 5), Z, Z, Fr(-4, 5)),
              (Fr(1, 2), Fr(1, 2), Fr(1, 2), Fr(1, 2)), (Fr(1, 2), Fr(-1, 2), Fr(1, 2), Fr(1, 2)))
del a, b, c


class Prefixed(object):
    """the checker, with obligations named for a variant"""

    def __init__(self, ck, pre):
        self.__dict__.update(ck=ck, pre=pre)

    def __getattr__(self, n):
        f = getattr(self.ck, n)
        if n in ("ob", "fail", "unknown", "same", "noraise", "guarded", "vs", "agree", "raises"):
            return lambda key, *a, **k: f(self.pre + key, *a, **k)
        return f


def variant(ck, I, C, W, A, has):
    m = ck.spec(I, SRC, "c23spec" + C)
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:3 if ck.tier == "quick" else 10]
    for l in labs:
        l.eps = True
    ai, aj, ak = T.atom("ai"), T.atom("aj"), T.atom("ak")
    hh = [T.atom("h%s" % c) for c in "ijk"]
    two = lambda h: T.mul(const(2.), h)
    pi = T.PI

    def val(key, w, f, args, want, rule, n=None):
        """impl call f(*args) against the value of the function 'want'"""
        def go():
            I.ov = {}
            o = ck.run(I, f, *args)
            ck.note(I)
            if not ck.noraise(key, w, o, labs=labs):
                return
            got = ck.cap(I, I.resolve(o.value))
            I.ov = {}
            ck.same(key, w, got, ck.cap(I, want()), labs=labs, rule=rule)
        ck.guarded(key, go)

    axs = list(allaxes())
    for ax in axs:
        sp = (ax[0], I.new_list([const(STAT[c]) for c in ax[1:]]))
        I.freeze()

        def euler(key, name, axes):
            val(key, W + "euler_matrix", F("euler"), [A("euler_matrix"), ai, aj, ak, axes],
                lambda: ck.run(I, F("spec_euler"), *sp, ai, aj, ak).value, "product of the elementary rotations named by %s" % ax)
        euler("euler-" + ax, ax, ax)
        euler("euler-t" + ax, ax, tuple(const(q) for q in tup(ax)))

        def back(key, axes, a, b, c):
            def go():
                I.ov = {}
                M = ck.run(I, F("spec_euler"), *sp, a, b, c).value
                M = npm.snap(I, M)
                o = ck.run(I, F("back"), A("euler_from_matrix"), M, axes)
                ck.note(I)
                w = W + "euler_from_matrix"
                if not ck.noraise(key, w, o, labs=labs):
                    return
                v = I.resolve(o.value)
                v = [I.getitem(v, const(q)) for q in range(3)]
                got = ck.cap(I, ck.run(I, F("spec_euler"), *sp, *v).value)
                I.ov = {}
                ck.same(key, w, got, ("arr", M), labs=labs, rule="the angles found give the same rotation")
            ck.guarded(key, go)
        back("back-" + ax, ax, ai, aj, ak)
        back("back-t" + ax, tuple(const(q) for q in tup(ax)), ai, aj, ak)
        if ax[1] == ax[3]:
            back("back-zero-" + ax, ax, ai, const(0.), ak)
            back("back-pi-" + ax, ax, ai, pi, ak)
        else:
            back("back-pole-" + ax, ax, ai, T.mul(const(.5), pi), ak)
            back("back-npole-" + ax, ax, ai, T.mul(const(-.5), pi), ak)

        def qeuler(key, axes):
            def go():
                I.ov = {}
                o = ck.run(I, F("euler"), A("quaternion_from_euler"), *[two(h) for h in hh], axes)
                ck.note(I)
                w = W + "quaternion_from_euler"
                if not ck.noraise(key, w, o, labs=labs):
                    return
                got = ck.cap(I, ck.run(I, F("mq"), o.value).value)
                I.ov = {}
                ck.same(key, w, got, ck.cap(I, ck.run(I, F("spec_half"), *sp, *hh).value), labs=labs,
                        rule="unit quaternion of the product of the elementary rotations named by %s" % ax)
            ck.guarded(key, go)
        qeuler("quat-" + ax, ax)
        qeuler("quat-t" + ax, tuple(const(q) for q in tup(ax)))
    sx = ("s", I.new_list([const(q) for q in (0, 1, 2)]))
    I.freeze()
    val("euler-default", W + "euler_matrix", F("eulerd"), [A("euler_matrix"), ai, aj, ak], lambda: ck.run(I, F("spec_euler"), *sx, ai, aj, ak).value,
        "default axes are sxyz")

    def bdef():
        I.ov = {}
        M = npm.snap(I, ck.run(I, F("spec_euler"), *sx, ai, aj, ak).value)
        o = ck.run(I, F("backd"), A("euler_from_matrix"), M)
        p = ck.run(I, F("back"), A("euler_from_matrix"), M, "sxyz")
        ck.same("back-default", W + "euler_from_matrix", ck.cap(I, o.value), ck.cap(I, p.value), labs=labs, rule="default axes are sxyz")
        for ax in axs if has("euler_from_quaternion") else ():
            sp = (ax[0], I.new_list([const(STAT[c]) for c in ax[1:]]))
            Q = npm.snap(I, ck.run(I, F("seqq"), *sp, *hh).value)
            o = ck.run(I, F("back"), A("euler_from_quaternion"), Q, ax)
            ck.note(I)
            if not ck.noraise("qback-" + ax, W + "euler_from_quaternion", o, labs=labs):
                continue
            v = I.resolve(o.value)
            v = [I.getitem(v, const(q)) for q in range(3)]
            ck.same("qback-" + ax, W + "euler_from_quaternion", ck.cap(I, ck.run(I, F("spec_euler"), *sp, *v).value),
                    ck.cap(I, ck.run(I, F("qmat"), Q).value), labs=labs, rule="the angles found give the rotation of the quaternion")
    ck.guarded("back-default", bdef)

    def qdef():
        I.ov = {}
        o = ck.run(I, F("eulerd"), A("quaternion_from_euler"), *[two(h) for h in hh])
        p = ck.run(I, F("euler"), A("quaternion_from_euler"), *[two(h) for h in hh], "sxyz")
        ck.same("quat-default", W + "quaternion_from_euler", ck.cap(I, o.value), ck.cap(I, p.value), labs=labs, rule="default axes are sxyz")
    ck.guarded("quat-default", qdef)

    def vec(n, k, lst=False):
        a = npm.sym_array(I, n, (const(k),), "i" if lst == 2 else "f")
        if lst == 1:
            a = I.new_list([I.getitem(a, const(i)) for i in range(k)])
        I.freeze()
        return a
    a, h = T.atom("a"), T.atom("h")
    for k, lst in ((3, 0), (4, 0), (3, 1), (3, 2)):
        v = "%d%s" % (k, ("", "l", "i")[lst])
        d = vec("d", k, lst)
        p = vec("p", k, lst)
        ck.vs("rot-" + v, W + "rotation_matrix", I, F("rot"), F("spec_rot"), [A("rotation_matrix"), a, d], labs=labs, rule="Rodrigues' formula")
        ck.vs("rotp-" + v, W + "rotation_matrix", I, F("rotp"), F("spec_rotp"), [A("rotation_matrix"), a, d, p], labs=labs,
              rule="rotation about an axis through the point")
        ck.vs("qaa-" + v, W + "quaternion_about_axis", I, F("qaa"), F("spec_qaa"), [A("quaternion_about_axis"), h, d], labs=labs,
              rule="unit quaternion of the rotation")
    ls = [T.Labelling("%s/%s/q%d" % (ck.pid, ck.seed, i), "rand", (1, 3)) for i in range(12)]
    for l in ls:
        l.eps = True
    for lst in (0, 1, 2):
        v = "ali"[lst]
        q, r = vec("q", 4, lst), vec("r", 4, lst)
        for n, s in (("quaternion_matrix", "spec_qmat"), ("quaternion_conjugate", "spec_conj"), ("quaternion_inverse", "spec_inv"),
                     ("quaternion_real", "spec_real"), ("quaternion_imag", "spec_imag")):
            if not has(n):
                continue
            ck.vs("%s-%s" % (n, v), W + n, I, F("q1"), F(s), [A(n), q], labs=ls, rule="equals its definition",
                  pre=T.lt(const(0.), ck.run(I, F("qnorm"), q).value))
        ck.vs("mul-" + v, W + "quaternion_multiply", I, F("q2"), F("spec_mul"), [A("quaternion_multiply"), q, r], labs=labs, rule="Hamilton product")
    r3 = vec("u", 3)
    ck.vs("random", W + "random_quaternion", I, F("rq"), F("spec_rq"), [A("random_quaternion"), r3], labs=labs, rule="unit quaternion of the given deviates")
    ck.vs("random-m", W + "random_rotation_matrix", I, F("rr"), F("spec_rr"), [A("random_rotation_matrix"), r3], labs=labs,
          rule="rotation of the random quaternion")

    def precise(how, q=None, scale=None):
        key = "qfm-" + how
        w = W + "quaternion_from_matrix"

        def go():
            I.ov = {}
            if q is None:
                Q = ck.run(I, F("unitq"), *hh).value
            else:
                Q = I.call(I.externs["numpy"].table["array"], [I.new_list([const(z) for z in q])], {})
            Q = npm.snap(I, Q)
            M = npm.snap(I, ck.run(I, F("qmat"), Q).value)
            G = npm.snap(I, ck.run(I, F("scaled"), M, const(scale)).value) if scale else M
            o = ck.run(I, F("qfm"), A("quaternion_from_matrix"), G, TRUE)
            ck.note(I)
            ls = labs[:1] if q else [T.Labelling("%s/%s/qfm%d" % (ck.pid, ck.seed, i), "rand", (1, 3)) for i in range(12)]
            if not ck.noraise(key, w, o, labs=ls):
                return
            ck.same(key, w, ck.cap(I, ck.run(I, F("mq"), o.value).value), ("tuple", ("arr", M), ck.cap(I, const(1.))), labs=ls,
                    rule="unit quaternion of the given rotation, whichever element is largest")
            if C:
                return
            r = npm.snap(I, o.value)
            ck.ob(key + "/sign", w, "non-negative real part")
            for l in ls:
                if l(T.lt(r(const(0)), const(0.))):
                    ck.fail(key + "/sign", w, "quaternion with negative real part")
                    break
        ck.guarded(key, go)
    precise("precise")
    for q in QS:
        precise("precise-" + "/".join(str(z) for z in q), q)
        precise("precise-scaled-" + "/".join(str(z) for z in q), q, Fr(9, 4))
    def zero():
        for lst in (0, 1):
            I.ov = {}
            v = [const(0.)]*4
            z = I.new_list(v) if lst else I.call(I.externs["numpy"].table["array"], [I.new_list(v)], {})
            o = ck.run(I, F("q1"), A("quaternion_matrix"), z)
            ck.note(I)
            if ck.noraise("zero-%d" % lst, W + "quaternion_matrix", o, labs=labs[:1]):
                ck.same("zero-%d" % lst, W + "quaternion_matrix", ck.cap(I, o.value), ck.cap(I, ck.run(I, F("ident")).value),
                        labs=labs[:1], rule="the zero quaternion gives the identity")
    ck.guarded("zero", zero)

    def eig(how, args):
        key = "qfm-" + how
        w = W + "quaternion_from_matrix"
        tab = I.externs["numpy"].table["linalg"].table
        eigh = tab["eigh"]
        log = []

        def spy(I, ar, kw):
            log.append((npm.snap(I, ar[0]), kw.get("UPLO", ar[1] if len(ar) > 1 else "L")))
            return (npm.sym_array(I, "ew", (const(4),)), npm.sym_array(I, "ev", (const(4), const(4))))

        def go():
            I.ov = {}
            Q = npm.snap(I, ck.run(I, F("unitq"), *hh).value)
            M = npm.snap(I, ck.run(I, F("qmat"), Q).value)
            tab["eigh"] = Builtin("eigh", spy)
            try:
                o = ck.run(I, F("qfm" if args else "qfmd"), A("quaternion_from_matrix"), M, *args)
            finally:
                tab["eigh"] = eigh
            ck.note(I)
            if not ck.noraise(key, w, o, labs=labs):
                return
            if len(log) != 1:
                ck.ob(key, w, "eigenvector of the largest eigenvalue of K")
                ck.unknown(key, "eigensolver not recognised")
                return
            K, uplo = log[0]
            d = ck.run(I, F("kdef" if uplo == "L" else "kdefu"), K, Q)
            ck.same(key, w, ck.cap(I, d.value), ck.cap(I, I.new_list([const(0.)]*10)), labs=labs, rule="K is proportional to 4 v v^T - 1")
            got = ck.cap(I, o.value)
            I.ov = {}
            v = ck.run(I, F("pick"), npm.sym_array(I, "ew", (const(4),)), npm.sym_array(I, "ev", (const(4), const(4)))).value
            ck.same(key + "/order", w, got, ck.cap(I, ck.run(I, F("order"), v).value), labs=labs,
                    rule="eigenvector of the largest eigenvalue, reordered to real part first, real part non-negative")
        ck.guarded(key, go)
    if C:
        ceig(ck, I, F, A, labs, hh, W)
    else:
        eig("default", [])
        eig("imprecise", [FALSE])


def ceig(ck, I, F, A, labs, hh, W):
    """the compiled eigenvector route with the iterative search for the
    largest eigenvalue replaced by its value: K is 4 v v^T - 1 up to a
    positive factor, so that it is 3/2 tr K^3 / tr K^2"""
    w = W + "quaternion_from_matrix"
    m = I.modules["electrode._transformations_c"]
    names = ("f_tridiagonalize_symmetric_44", "f_max_eigenvalue_of_tridiag_44")
    for how, args, q in [("default", [], q) for q in QS[:7]] + [("imprecise", [FALSE], q) for q in QS]:
        key = "qfm-%s-%s" % (how, "/".join(str(z) for z in q))
        log, keep = {}, {}

        def tri(I, a, k, log=log):
            g = I.get(m, "__c_get__")
            log["N"] = [I.call(g, [a[0], const(i)], {}) for i in range(16)]
            return const(0)

        def big(I, a, k, log=log):
            N = log["N"]
            K = [[N[4*min(i, j) + max(i, j)] for j in range(4)] for i in range(4)]
            t2 = t3 = const(0)
            for i in range(4):
                for j in range(4):
                    t2 = T.add(t2, T.mul(K[i][j], K[i][j]))
                    for l in range(4):
                        t3 = T.add(t3, T.mul(K[i][j], T.mul(K[j][l], K[l][i])))
            return T.div(T.mul(const(3), t3), T.mul(const(2), t2))

        def go():
            I.ov = {}
            if any(I.get(m, n) is MISS for n in names):
                ck.ob(key, w, "unit quaternion of the given rotation")
                ck.unknown(key, "eigensolver not recognised")
                return
            Q = npm.snap(I, I.call(I.externs["numpy"].table["array"], [I.new_list([const(z) for z in q])], {}))
            M = npm.snap(I, ck.run(I, F("qmat"), Q).value)
            for n, f in zip(names, (tri, big)):
                keep[n] = I.get(m, n)
                I.set(m, n, Builtin(n, f))
            try:
                o = ck.run(I, F("qfm" if args else "qfmd"), A("quaternion_from_matrix"), M, *args)
            finally:
                for n in names:
                    I.set(m, n, keep[n])
            ck.note(I)
            ls = labs[:1]
            if not ck.noraise(key, w, o, labs=ls):
                return
            if "N" not in log:
                ck.ob(key, w, "unit quaternion of the given rotation")
                ck.unknown(key, "eigensolver not recognised")
                return
            ck.same(key, w, ck.cap(I, ck.run(I, F("mq"), o.value).value), ("tuple", ("arr", M), ck.cap(I, const(1.))), labs=ls,
                    rule="unit quaternion of the given rotation")
        ck.guarded(key, go)

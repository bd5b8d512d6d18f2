from ..check import *
import itertools
import math
from fractions import Fraction

DESC = ("utils.cartesian_to_spherical_harmonics is abstractly interpreted for orders 0..5 with unknown derivatives and a batch of points; "
        "linearity is decided by value numbering, the constant coefficients are folded from the source and compared with the projections of "
        "the harmonic polynomial onto real orthonormal spherical harmonics (m = -l..l, Condon-Shortley phase), computed exactly from the "
        "repository's own component names.")

W = "electrode/utils.py: cartesian_to_spherical_harmonics"
F = Fraction


def number(n):
    """float value of a constant node"""
    if n.op == "const":
        return float(n.x[1])
    if n is T.PI:
        return math.pi
    a = [number(x) for x in n.args]
    if n.op == "add":
        return math.fsum(a)
    if n.op == "sub":
        return a[0] - a[1]
    if n.op == "neg":
        return -a[0]
    if n.op == "mul":
        r = 1.
        for x in a:
            r *= x
        return r
    if n.op == "div":
        return a[0]/a[1]
    if n.op == "pow":
        return a[0]**float(n.x)
    if n.op in ("toreal", "real"):
        return a[0]
    if n.op == "fn":
        if n.x == "sqrt":
            return math.sqrt(a[0])
        if n.x in ("factorial", "spfactorial"):
            return float(math.factorial(int(a[0])))
        if n.x == "gamma":
            return math.gamma(a[0])
        if n.x == "abs":
            return abs(a[0])
    if n.op == "floordiv":
        return float(a[0]//a[1])
    raise T.EvalError("constant %s %s" % (n.op, n.x))


def monos(l):
    return [(a, b, l - a - b) for a in range(l + 1) for b in range(l - a + 1)]


def tensor(l, names, j):
    """values of all order l derivatives of the harmonic function whose named
    component j is one and whose other named components are zero"""
    ms = monos(l)
    pos = dict((q, i) for i, q in enumerate(ms))
    rows = []
    for a, b, c in monos(l - 2) if l > 1 else ():
        r = [F(0)]*(len(ms) + 1)
        for q in ((a + 2, b, c), (a, b + 2, c), (a, b, c + 2)):
            r[pos[q]] += 1
        rows.append(r)
    for i, nm in enumerate(names):
        r = [F(0)]*(len(ms) + 1)
        r[pos[tuple(nm.count(z) for z in "xyz")]] = F(1)
        r[-1] = F(int(i == j))
        rows.append(r)
    n = len(ms)
    for k in range(n):
        p = [i for i in range(k, len(rows)) if rows[i][k]]
        if not p:
            return None
        rows[k], rows[p[0]] = rows[p[0]], rows[k]
        rows[k] = [x/rows[k][k] for x in rows[k]]
        for i in range(len(rows)):
            if i != k and rows[i][k]:
                f = rows[i][k]
                rows[i] = [x - f*y for x, y in zip(rows[i], rows[k])]
    return dict((q, rows[i][-1]) for i, q in enumerate(ms))


def fact2(n):
    return 1 if n <= 0 else n*fact2(n - 2)


def moment(a, b, c):
    """integral of x^a y^b z^c over the unit sphere / (4 pi)"""
    if a % 2 or b % 2 or c % 2:
        return F(0)
    return F(fact2(a - 1)*fact2(b - 1)*fact2(c - 1), fact2(a + b + c + 1))


def harmonic(l, m):
    """real solid harmonic without its norm: exact polynomial"""
    am = abs(m)
    # (x + iy)^m
    re, im = {}, {}
    for k in range(am + 1):
        v = math.comb(am, k)
        t = re if k % 2 == 0 else im
        t[(am - k, k)] = F(v*(-1)**(k//2))
    pl = re if m >= 0 else im
    out = {}
    # Pi_l^m = sum_k (-1)^k C(l,k) C(2l-2k,l) (l-2k)!/(l-2k-m)! r^2k z^(l-2k-m)
    for k in range((l - am)//2 + 1):
        c = F((-1)**k*math.comb(l, k)*math.comb(2*l - 2*k, l)*math.factorial(l - 2*k), math.factorial(l - 2*k - am))
        for i in range(k + 1):
            for j in range(k - i + 1):
                d = c*math.factorial(k)/(math.factorial(i)*math.factorial(j)*math.factorial(k - i - j))
                for (a, b), v in pl.items():
                    key = (a + 2*i, b + 2*j, 2*(k - i - j) + l - 2*k - am)
                    out[key] = out.get(key, 0) + d*v
    return out


def coefficient(l, m, D):
    """integral of Y_lm times the function with derivatives D over the unit sphere"""
    h = harmonic(l, m)
    norm = sum(u*v*moment(*[x + y for x, y in zip(p, q)]) for p, u in h.items() for q, v in h.items())
    s = F(0)
    for p, u in h.items():
        for q, d in D.items():
            f = F(1, math.factorial(q[0])*math.factorial(q[1])*math.factorial(q[2]))
            s += u*d*f*moment(*[x + y for x, y in zip(p, q)])
    return (-1)**abs(m)*float(s)*math.sqrt(4*math.pi)/math.sqrt(float(norm))


SRC = '''
def impl(f, c): return f(c)
'''


def check(ck):
    I = ck.interp("electrode.utils")
    f = ck.attr(I, "utils", "cartesian_to_spherical_harmonics")
    m = ck.spec(I, SRC, "c26spec")
    impl = I.get(m, "impl")
    labs = [l for l in ck.labs() if l.mode == "rand"]
    d2n = ck.attr(I, "utils", "deriv_to_name")
    np_ = I.externs["numpy"].table
    npts = 2 if ck.tier == "quick" else 4
    for l in range(6):
        def go():
            k = 2*l + 1
            names = [pv(I, ck.run(I, d2n, const(l), const(i)).value) for i in range(k)]
            co = {}
            for j in range(k):
                I.ov = {}
                c = I.call(np_["array"], [I.new_list([I.new_list([const(float(i == j))]) for i in range(k)])], {})
                o = ck.run(I, impl, f, c)
                ck.note(I)
                if not ck.noraise("unit-%d-%d" % (l, j), W, o):
                    return
                s = npm.snap(I, o.value)
                ck.ob("shape-%d" % l, W, "2l+1 values per point")
                if [T.cval(q) for q in s.shape] != [k, 1]:
                    ck.fail("shape-%d" % l, W, "order %d gives shape %s for one point" % (l, [T.cval(q) for q in s.shape]))
                    return
                for i in range(k):
                    co[i, j] = s.fn((const(i), const(0)))
            I.ov = {}
            c = npm.sym_array(I, "c", (const(k), const(npts)))
            I.freeze()
            b = ck.cap(I, c)
            o = ck.run(I, impl, f, c)
            if not ck.noraise("order-%d" % l, W, o):
                return
            s = npm.snap(I, o.value)
            cs = npm.snap(I, c)
            for i in range(k):
                for p in range(npts):
                    w = const(0.)
                    for j in range(k):
                        w = T.add(w, T.mul(co[i, j], cs.fn((const(j), const(p)))))
                    ck.same("linear-%d-%d-%d" % (l, i, p), W, s.fn((const(i), const(p))), w, labs=labs, rule="each point's output is a linear form of that point's derivatives")
            ck.same("frame-%d" % l, W, b, ck.cap(I, c), labs=labs[:2], rule="derivatives are unchanged")
            for j in range(k):
                D = tensor(l, names, j)
                if D is None:
                    ck.unknown("tensor-%d" % l, "component names %s do not determine a harmonic tensor" % names)
                    return
                for i in range(k):
                    key = "coeff-%d-m%+d-%s" % (l, i - l, names[j])
                    ck.ob(key, W, "coefficient of the real spherical harmonic (l, m)")
                    want = coefficient(l, i - l, D)
                    got = number(co[i, j])
                    if abs(got - want) > 1e-9*(1 + abs(want)):
                        ck.fail(key, W, "harmonic (%d, %+d) takes %s with factor %.12g instead of %.12g" % (l, i - l, names[j], got, want))
        ck.guarded("order-%d" % l, go)

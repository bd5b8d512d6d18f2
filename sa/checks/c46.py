"""Spherical coordinates and spherical harmonic analysis and synthesis."""
from fractions import Fraction
from ..check import *

DESC = ("spherical_harmonics: coordinate maps and differential maps are compared with their definitions for unknown coordinates (and the maps composed); "
        "SphericalHarmonics(n) for n = 1..4 is abstractly interpreted with unknown quadrature nodes, weights and associated Legendre values: the coefficient "
        "table is the documented bijection, the sampled harmonics are the normalised ones, analysis is the quadrature of f conj(Y) and synthesis the sum "
        "of a Y, with the discrete Fourier transform as its defining sum over unknown roots of unity.")

SRC = '''
import numpy as np
from scipy import special

def cplx(a, b): return a + 1j*b
def s2c(r, t, p): return spherical_to_cartesian(r, t, p)
def ws2c(r, t, p): return [r*np.sin(t)*np.cos(p), r*np.sin(t)*np.sin(p), r*np.cos(t)]
def c2s(x, y, z): return cartesian_to_spherical(x, y, z)
def wc2s(x, y, z): return [np.sqrt(x*x + y*y + z*z), np.arctan2(np.sqrt(x*x + y*y), z), np.arctan2(y, x)]
def jac(d, r, t, p, how): return [q for q in derivatives_spherical_cartesian(d, r, t, p, how)]
def jac_(d, r, t, p): return [q for q in derivatives_spherical_cartesian(d, r, t, p)]
def wjac(d, r, t, p, how):
    ct, st, cp, sp = np.cos(t), np.sin(t), np.cos(p), np.sin(p)
    if how == "to_spherical":
        return [cp*st*d[0] + sp*st*d[1] + ct*d[2], (cp*ct*d[0] + sp*ct*d[1] - st*d[2])/r, (cp*d[1] - sp*d[0])/(r*st)]
    return [cp*st*d[0] + r*cp*ct*d[1] - r*sp*st*d[2], sp*st*d[0] + r*sp*ct*d[1] + r*cp*st*d[2], ct*d[0] - r*st*d[1]]

def pq(n, m, nmax):
    return (m, n) if m >= 0 else (nmax + m, nmax - 1 - n)
def order(nmax):
    return [(n, m) for n in range(nmax) for m in range(-n, n + 1)]
def table(nmax):
    s = SphericalHarmonics(nmax)
    return [tuple(q) for q in s.indices()], [[(s.n[p, q], s.m[p, q]) for q in range(nmax)] for p in range(nmax)], s.nmax
def wtable(nmax):
    t = [[None]*nmax for p in range(nmax)]
    for n, m in order(nmax):
        p, q = pq(n, m, nmax)
        t[p][q] = (n, m)
    return [(n, m) + pq(n, m, nmax) for n, m in order(nmax)], t, nmax
def fact(n):
    r = 1
    for i in range(2, n + 1):
        r = r*i
    return r
def norm(n, m, nmax, x):
    a = abs(m)
    v = np.sqrt((2*n + 1)*fact(n - a)/(4*np.pi*fact(n + a)))*special.lpmn(nmax - 1, nmax - 1, x)[0][a, n]
    return -v if m < 0 and m % 2 else v
def sampled(nmax):
    s = SphericalHarmonics(nmax)
    return s.ptmn, s.theta, s.phi, s.spherical_grid()
def wsampled(nmax):
    x, w = special.orthogonal.p_roots(nmax)
    y = np.zeros((nmax, nmax, nmax))
    for n, m in order(nmax):
        p, q = pq(n, m, nmax)
        for i in range(nmax):
            y[i, p, q] = norm(n, m, nmax, x[i])
    th = np.array([[np.arccos(x[i])] for i in range(nmax)])
    ph = np.array([[j*np.pi/nmax for j in range(2*nmax)]])
    return y, th, ph, [np.array([[th[i, 0] for j in range(2*nmax)] for i in range(nmax)]), np.array([[ph[0, j] for j in range(2*nmax)] for i in range(nmax)])]
def grid(nmax, r): return SphericalHarmonics(nmax).cartesian_grid(r)
def grid_(nmax): return SphericalHarmonics(nmax).cartesian_grid()
def wgrid(nmax, r):
    t, p = wsampled(nmax)[3]
    return [r*np.sin(t)*np.cos(p), r*np.sin(t)*np.sin(p), r*np.cos(t)]
def ana(nmax, f): return SphericalHarmonics(nmax).analysis(f)
def wana(nmax, f):
    x, w = special.orthogonal.p_roots(nmax)
    a = np.zeros((nmax, nmax), complex)
    for n, m in order(nmax):
        t = 0.
        for i in range(nmax):
            for j in range(2*nmax):
                t = t + w[i]*np.pi/nmax*norm(n, m, nmax, x[i])*f[i, j]*root(2*nmax, -m*j)
        a[pq(n, m, nmax)] = t
    return a
def syn(nmax, a): return SphericalHarmonics(nmax).synthesis(a)
def wsyn(nmax, a):
    x, w = special.orthogonal.p_roots(nmax)
    f = np.zeros((nmax, 2*nmax), complex)
    for i in range(nmax):
        for j in range(2*nmax):
            t = 0.
            for n, m in order(nmax):
                t = t + a[pq(n, m, nmax)]*norm(n, m, nmax, x[i])*root(2*nmax, m*j)
            f[i, j] = t
    return f
'''
W = "electrode/spherical_harmonics.py: "


def root(N, t):
    """exp(2j pi t/N)"""
    t %= N
    if 4*t % N == 0:
        return const([1, 1j, -1, -1j][4*t//N])
    g = Fraction(t, N)
    t, N = g.numerator, g.denominator
    s = 1
    if 2*t > N:
        # conjugate roots
        t, s = N - t, -1
    k = T.atom("cos%d_%d" % (t, N))
    j = T.atom("sin%d_%d" % (t, N))
    return T.add(k, T.mul(const(1j if s > 0 else -1j), j))


calls = [0]


def fft(sign):
    def go(I, a, k):
        calls[0] += 1
        x = npm.snap(I, a[0])
        ax = int(T.cval(k.get("axis", a[2] if len(a) > 2 else const(-1))))
        if len(a) > 1 and a[1] is not None or set(k) - {"axis"}:
            raise AnalysisError("fft called with other arguments")
        sh = [int(T.cval(q)) for q in x.shape]
        ax %= len(sh)
        N = sh[ax]
        import itertools
        out = []
        for idx in itertools.product(*[range(q) for q in sh]):
            t = const(0)
            for j in range(N):
                i2 = list(idx)
                i2[ax] = j
                t = T.add(t, T.mul(x(*[const(q) for q in i2]), root(N, sign*j*idx[ax])))
            out.append(T.div(t, const(N)) if sign > 0 else t)
        np_ = I.externs["numpy"].table
        r = I.call(np_["array"], [I.new_list(out)], {"dtype": I.builtins["complex"]})
        return I.call(I.getattr_(r, "reshape"), [const(q) for q in sh], {})
    return Builtin("fft" if sign < 0 else "ifft", go)


def check(ck):
    I = ck.interp("electrode.spherical_harmonics")
    mod = ["spherical_to_cartesian", "cartesian_to_spherical", "derivatives_spherical_cartesian", "SphericalHarmonics"]
    m = ck.spec(I, SRC, "c46spec", root=Builtin("root", lambda I, a, k: root(T.cval(a[0]), T.cval(a[1]))),
                **{n: ck.attr(I, "spherical_harmonics", n) for n in mod})
    ft = I.externs["numpy.fft"].table
    ft["fft"], ft["ifft"] = fft(-1), fft(1)
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:3]
    arr = lambda nm, *s, **k: npm.sym_array(I, nm, tuple(const(q) for q in s), *k.values())

    def val(nm, kind, *s):
        if kind == "f":
            return arr(nm, *s)
        return ck.run(I, F("cplx"), arr(nm + "re", *s), arr(nm + "im", *s)).value

    def cmp(key, fn, a, b, rule):
        w = W + fn

        def go():
            I.ov = {}
            calls[0] = 0
            o1 = ck.run(I, F(a[0]), *[x() if callable(x) else x for x in a[1:]])
            ck.note(I)
            c1 = ck.cap(I, o1.value) if o1.value is not None else None
            if a[0] in ("ana", "syn") and not calls[0] and o1.value is not None:
                raise AnalysisError("the transform is not a discrete Fourier transform of numpy")
            I.ov = {}
            o2 = ck.run(I, F(b[0]), *[x() if callable(x) else x for x in b[1:]])
            c2 = ck.cap(I, o2.value) if o2.value is not None else None
            ck.agree(key, w, o1, o2, c1, c2, labs=labs, rule=rule)
        ck.guarded(key, go)
    for nm, sh in (("scalar", None), ("array", (2,)), ("grid", (2, 3))):
        v = [(lambda n=n: T.atom(n) if sh is None else arr(n, *sh)) for n in ("u", "v", "w")]
        if sh is not None:
            cmp("to-cartesian-" + nm, "spherical_to_cartesian", ("s2c",) + tuple(v), ("ws2c",) + tuple(v), "x, y, z of the spherical coordinates")
            cmp("to-spherical-" + nm, "cartesian_to_spherical", ("c2s",) + tuple(v), ("wc2s",) + tuple(v), "radius, polar and azimuthal angle")
            d = [lambda: I.new_list([arr("d%d" % i, *sh) for i in range(3)])]
            for how in ("to_spherical", "to_cartesian"):
                cmp("differential-%s-%s" % (how, nm), "derivatives_spherical_cartesian", ("jac",) + tuple(d + v) + (how,), ("wjac",) + tuple(d + v) + (how,),
                    "components in the order of the coordinates")
            cmp("differential-default-" + nm, "derivatives_spherical_cartesian", ("jac_",) + tuple(d + v), ("wjac",) + tuple(d + v) + ("to_spherical",), "default direction")
    for n in (1, 2, 3, 4) if ck.tier == "quick" else (1, 2, 3, 4, 5, 6):
        N = const(n)
        cmp("table-%d" % n, "SphericalHarmonics.indices", ("table", N), ("wtable", N), "documented place of each coefficient")
        cmp("sampled-%d" % n, "SphericalHarmonics", ("sampled", N), ("wsampled", N), "sampled normalised harmonics on the Gauss-Legendre grid")
        r = T.atom("rad")
        cmp("grid-%d" % n, "SphericalHarmonics.cartesian_grid", ("grid", N, r), ("wgrid", N, r), "cartesian sample points")
        if n < 3:
            cmp("grid-%d-unit" % n, "SphericalHarmonics.cartesian_grid", ("grid_", N), ("wgrid", N, const(1)), "unit sphere by default")
        for kind in ("f", "c"):
            cmp("analysis-%d%s" % (n, kind), "SphericalHarmonics.analysis", ("ana", N, lambda: val("f", kind, n, 2*n)), ("wana", N, lambda: val("f", kind, n, 2*n)),
                "quadrature of f conj(Y)")
            cmp("synthesis-%d%s" % (n, kind), "SphericalHarmonics.synthesis", ("syn", N, lambda: val("a", kind, n, n)), ("wsyn", N, lambda: val("a", kind, n, n)),
                "sum of a Y")

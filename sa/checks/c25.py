from ._sys import *
from ._kern import differentiator

DESC = ("utils.mathieu is abstractly interpreted for cutoffs 0..3, dimensions 1..3 and 1..4 unknown coefficient matrices; the matrix handed to "
        "the eigensolver is compared entry by entry with the Floquet expansion of the stated equation (either sign of the frequency index). "
        "System.mathieu: coefficients and the pairing/selection of exponents. Mathieu class: derivative outputs are derived by symbolic "
        "differentiation of the value graph, series coefficients satisfy the three term recurrence, normalisation, initial values, the "
        "integrated right hand side and the Hill determinant.")

SRC = '''
import numpy as np
def floquet(f, r, a): return f(r, *a)
def spec_floquet(r, a, sign):
    n = a[0].shape[0]
    R = 2*r + 1
    m = np.zeros((R*2*n, R*2*n), complex)
    for l in range(R):
        for d in range(2):
            for i in range(n):
                m[(l*2 + d)*n + i, (l*2 + d)*n + i] = m[(l*2 + d)*n + i, (l*2 + d)*n + i] + sign*2j*(l - r)
        for i in range(n):
            m[(l*2)*n + i, (l*2 + 1)*n + i] = 1.
        for p in range(R):
            d = abs(l - p)
            if d < len(a):
                for i in range(n):
                    for j in range(n):
                        m[(l*2 + 1)*n + i, (p*2)*n + j] = m[(l*2 + 1)*n + i, (p*2)*n + j] - a[d][i, j]
    return m
def spec_eig(m): return np.linalg.eig(m)
def sysm(s, x, c, r): return s.mathieu(x, c, r)
def sysm_d(s, x, c): return s.mathieu(x, c)
def sysm_u(s, x, c, r): return s.mathieu(x, c, r, sorted=False)
def selected(mu, b, k):
    return np.array([mu[i]/2 for i in k]), np.array([[b[j, i] for i in k] for j in range(len(b))])
def unsorted(mu, b): return mu/2, b
def hess(s, x, typ): return elpot(s, x, 2, typ, True)[0]
def new(M): return M()
def setup(m, nu, cc, cs):
    m.nu = nu
    m.Cn = (cc, cs)
def y1(m, t, d): return m.sol_y1(t, d)
def y2(m, t, d): return m.sol_y2(t, d)
def y1d(m, t): return m.sol_y1(t)
def y2d(m, t): return m.sol_y2(t)
def ser(nu, c, t, f):
    k = (len(c) - 1)//2
    r = 0.
    for n in range(-k, k + 1):
        r = r + c[n + k]*f((nu + 2*n)*t)
    return r
def ser1(nu, c, t): return ser(nu, c, t, np.cos)
def ser2(nu, c, t): return ser(nu, c, t, np.sin)
def coeff(m, a, q, nu, nc, ng): return m.coeff_Cn(a, q, nu, nc, ng)
def ratio(m, a, q, nu, nc, ng): return m.coeff_ratio(a, q, nu, nc, ng)
def defects(cc, cs, c, a, q, nu, nc, ng):
    # all zero if the coefficients solve the truncated recurrence
    g = lambda n: (a - (nu + 2*n)**2)/q
    r = [c[nc] - 1.]
    def tail(s):
        f = 1/g(s*(nc + ng))
        for i in range(nc + ng - 1, nc - 1, -1):
            f = 1/(g(s*i) - f)
        return f
    for n in range(1, nc):
        r.append(g(n)*c[nc + n] - c[nc + n - 1] - c[nc + n + 1])
        r.append(g(-n)*c[nc - n] - c[nc - n - 1] - c[nc - n + 1])
    r.append(c[2*nc] - tail(1)*c[2*nc - 1])
    r.append(c[0] - tail(-1)*c[1])
    s1, s2 = 0., 0.
    for n in range(-nc, nc + 1):
        s1 = s1 + cc[n + nc]
        s2 = s2 + (nu + 2*n)*cs[n + nc]
        r.append(cc[n + nc]*c[nc] - c[n + nc]*cc[nc])
        r.append(cs[n + nc]*c[nc] - c[n + nc]*cs[nc])
    r.append(s1 - 1)
    r.append(s2 - 1)
    return r
def ratios(rn, rp, c, nc):
    r = []
    for n in range(nc):
        r.append(rp[n]*c[nc + n] - c[nc + n + 1])
        r.append(rn[-1 - n]*c[nc - n] - c[nc - n - 1])
    return r
def gnf(m, n, a, q, nu): return m.gn(n, a, q, nu)
def spec_gn(n, a, q, nu): return (a - (nu + 2*n)**2)/q
def iv(m, y0, t0): return m.init_value(y0, t0)
def iv_defect(m, ab, y0, t0):
    return [ab[0]*m.sol_y1(t0, d) + ab[1]*m.sol_y2(t0, d) - y0[d] for d in (0, 1)]
def iv0(m, y0): return m.init_value(y0)
def asarr(y): return np.array(y)
def ivp(m, a, q): return m.nu_exp_ivp(a, q)
def ivp_n(m, a, q, n): return m.nu_exp_ivp(a, q, n)
def spec_rhs(a, q, t, y): return [y[1], -(a - 2*q*np.cos(2*t))*y[0]]
def spec_nu(y): return np.arccos(y)/np.pi
def spec_ivpnu(ys):
    y = ys[0, -1]
    if abs(y) > 1:
        return np.arccosh(y + 0j)/np.pi
    return np.arccos(y)/np.pi
def d0ap(m, a, q): return m.nu_exp_d0ap(a, q)
def bla(m, a, q): return m.nu_exp_bla(a, q)
# cos(pi nu) to order q^2 for any a, and q^4 with its a = 0 value, from nu^2 = q^2/2 + 25 q^4/128
def spec_d0ap(a, q):
    r = np.sqrt(a)
    c = np.cos(np.pi*r) + q**2*np.pi*np.sin(np.pi*r)/(4*r*(a - 1)) + q**4*((np.pi**2/4)**2/6 - np.pi**2/2*25/128)
    return np.arccos(c)/np.pi
def spec_bla(a, q): return (a + q**2/2)**.5
def det(m, a, q, n): return m.nu_exp_det(a, q, n)
def spec_det(a, q, n):
    d = np.zeros((2*n + 1, 2*n + 1))
    for i in range(-n, n + 1):
        d[i + n, i + n] = 1.
        if i < n:
            d[i + n, i + n + 1] = q/(4*i**2 - a)
        if i > -n:
            d[i + n, i + n - 1] = q/(4*i**2 - a)
    return d
def spec_detnu(a, d):
    rhs = np.linalg.det(d)*np.sin(np.pi/2*np.sqrt(a))**2
    return rhs, 2./np.pi*np.arcsin(np.sqrt(rhs))
def ini(m, a, q, nc, ng, mode): return m.init_sol(a, q, nc, ng, mode=mode)
def ini_d(m, a, q, mode): return m.init_sol(a, q, mode=mode)
def state(m): return m.nu, m.Cn[0], m.Cn[1]
def tol(m, a, q, e, n): return m.nu_tolerance(a, q, e, n)
'''
W = "electrode/mathieu.py: Mathieu."


def check(ck):
    matrix(ck)
    system(ck)
    solutions(ck)


def matrix(ck):
    I = ck.interp("electrode.utils")
    m = ck.spec(I, SRC, "c25spec")
    F = lambda n: I.get(m, n)
    f = ck.attr(I, "utils", "mathieu")
    w = "electrode/utils.py: mathieu"
    labs = [l for l in ck.labs() if l.mode == "rand"]
    eig = I.externs["numpy"].table["linalg"].table["eig"]

    def one(r, n, k):
        key = "floquet-%d-%d-%d" % (r, n, k)

        def go():
            I.ov = {}
            a = [npm.sym_array(I, "a%d" % i, (const(n), const(n))) for i in range(k)]
            log = []

            def spy(I, ar, kw):
                log.append(npm.snap(I, ar[0]))
                return eig.f(I, ar, kw) if hasattr(eig, "f") else I.call(eig, ar, kw)
            tab = I.externs["numpy"].table["linalg"].table
            tab["eig"] = Builtin("eig", spy)
            try:
                o = ck.run(I, F("floquet"), f, const(r), I.new_list(a))
            finally:
                tab["eig"] = eig
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            got = ck.cap(I, I.resolve(o.value))
            ck.ob(key, w, "the eigenproblem is the Floquet expansion of the stated equation")
            if len(log) != 1:
                ck.unknown(key, "eigensolver not recognised")
                return
            ok = []
            for s in (1., -1.):
                I.ov = {}
                a = [npm.sym_array(I, "a%d" % i, (const(n), const(n))) for i in range(k)]
                M = ck.run(I, F("spec_floquet"), const(r), I.new_list(a), const(s)).value
                want = ck.cap(I, M)
                try:
                    bad = None
                    for lab in labs[:3]:
                        ck.n_lab += 1
                        x, y = conc(lab, ("arr", log[0])), conc(lab, want)
                        if x != y:
                            bad = differ(x, y)
                            break
                except (T.Unbound, T.EvalError) as e:
                    ck.unknown(key, e)
                    return
                ok.append(bad)
            if all(ok):
                ck.fail(key, w, "matrix of cutoff %d, dimension %d and %d coefficients is not that of the equation: %s" % (r, n, k, ok[0]))
                return
            I.ov = {}
            ev = ck.run(I, F("spec_eig"), log[0])
            ck.same(key + "/pair", w, got, ck.cap(I, I.resolve(ev.value)), labs=labs[:2], rule="eigenvalues and eigenvectors are returned as computed")
        ck.guarded(key, go)
    for r in (0, 1, 2) if ck.tier == "quick" else (0, 1, 2, 3, 4):
        for n in (1, 2, 3) if r < 2 or ck.tier != "quick" else (1, 2):
            for k in (1, 2, 3, 4, 6) if n == 1 else (1, 2, 3):
                one(r, n, k)


def system(ck):
    E = SysEnv(ck)
    I = E.I
    m = ck.spec(I, SRC, "c25sys")
    F = lambda n: I.get(m, n)
    w = "electrode/system.py: System.mathieu"
    labs = [l for l in ck.labs() if l.mode == "rand"][:3]
    log = []

    def mus(n):
        import random
        r = random.Random("c25/%s/%d" % (ck.seed, n))
        im = [q + 1. for q in range(n)]
        r.shuffle(im)
        l = []
        for q in range(n):
            l.append(complex(r.randint(-2, 2), -im[q] if q % 2 else im[q] - (1. if q == 0 else 0)))
        return l

    def stub(I, a, k):
        log.append([a[0] if isinstance(a[0], Node) else a[0]] + [npm.snap(I, q) for q in a[1:]])
        r = T.cval(a[0])
        n = 6*(2*r + 1)
        mu = I.call(I.externs["numpy"].table["array"], [I.new_list([const(q) for q in mus(n)])], {})
        b = npm.sym_array(I, "ev", (const(n), const(n)))
        return (mu, b)
    I.stubs["utils.mathieu"] = stub
    sc = T.atom("sc")

    def one(how, r, ne):
        key = "system-%s-%d-%d" % (how, r, ne)

        def go():
            I.ov = {}
            s = E.make(ne)
            x = npm.sym_array(I, "x", (const(3),))
            I.freeze()
            del log[:]
            o = ck.run(I, F(how), s, x, sc, *([const(r)] if how != "sysm_d" else []))
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            got = ck.cap(I, I.resolve(o.value))
            ck.ob(key + "/args", w, "the equation's coefficients are the curvatures in dimensionless time")
            if len(log) != 1:
                ck.unknown(key, "no call of utils.mathieu")
                return
            if T.cval(log[0][0]) != r:
                ck.fail(key + "/r", w, "band cutoff %s is used instead of %d" % (T.cval(log[0][0]), r))
                return
            if len(log[0]) != 3:
                ck.fail(key + "/n", w, "%d coefficient matrices" % (len(log[0]) - 1))
                return
            for i, (typ, fac) in enumerate((("dc", 16.), ("rf", 8.))):
                I.ov = {}
                x = npm.sym_array(I, "x", (const(3),))
                s = E.make(ne)
                h = ck.run(I, E.fn("elpot"), s, x, const(2), typ, TRUE).value
                h = I.getitem(h, const(0))
                want = npm.snap(I, I.binop("Mult", T.mul(const(fac), T.mul(sc, sc)), h))
                ck.same("%s/%s" % (key, typ), w, ("arr", log[0][i + 1]), ("arr", want), labs=labs,
                        rule="%s curvature enters as %g scale^2" % (typ, fac))
            I.ov = {}
            n = 6*(2*r + 1)
            mu = I.call(I.externs["numpy"].table["array"], [I.new_list([const(q) for q in mus(n)])], {})
            b = npm.sym_array(I, "ev", (const(n), const(n)))
            k = [i for i, q in enumerate(mus(n)) if q.imag >= 0]
            k.sort(key=lambda i: mus(n)[i].imag)
            sp = ck.run(I, F("unsorted"), mu, b) if how == "sysm_u" else ck.run(I, F("selected"), mu, b, I.new_list([const(i) for i in k]))
            ck.same(key, w, got, ck.cap(I, I.resolve(sp.value)), labs=labs, rule="exponents (in units of the rf frequency) and vectors stay paired, "
                    + ("as computed" if how == "sysm_u" else "non-negative frequencies in ascending order"))
        ck.guarded(key, go)
    for ne in (1, 2):
        for r in (0, 1):
            one("sysm", r, ne)
        one("sysm_u", 1, ne)
    one("sysm_d", 2, 1)


def solutions(ck):
    I = ck.interp("electrode.mathieu")
    m = ck.spec(I, SRC, "c25sol")
    F = lambda n: I.get(m, n)
    M = ck.attr(I, "mathieu", "Mathieu")
    labs = [l for l in ck.labs() if l.mode == "rand"]
    t, nu, a, q = T.atom("t"), T.atom("nu"), T.atom("a"), T.atom("q")

    def mk(n):
        o = ck.run(I, F("new"), M).value
        ck.run(I, F("setup"), o, nu, npm.sym_array(I, "cc", (const(n),)), npm.sym_array(I, "cs", (const(n),)))
        I.freeze()
        return o

    def series(n, nm, spec, c):
        w = W + "sol_" + nm

        def go():
            I.ov = {}
            o = mk(n)
            D = differentiator(t)
            s = I.resolve(ck.run(I, F(spec), nu, npm.sym_array(I, c, (const(n),)), t).value)
            want = npm.snap(I, s)()
            for d in range(6 if ck.tier == "quick" else 9):
                key = "%s-%d-d%d" % (nm, n, d)
                r = ck.run(I, F(nm), o, t, const(d))
                ck.note(I)
                if ck.noraise(key, w, r):
                    ck.same(key, w, npm.snap(I, r.value)(), want, labs=labs, rule="order %d output is the %d. time derivative of the series" % (d, d))
                if d == 0:
                    r = ck.run(I, F(nm + "d"), o, t)
                    if ck.noraise(key + "/default", w, r):
                        ck.same(key + "/default", w, npm.snap(I, r.value)(), want, labs=labs[:2], rule="default is the value")
                want = D(want)
        ck.guarded("%s-%d" % (nm, n), go)
    for n in (1, 3, 5):
        series(n, "y1", "ser1", "cc")
        series(n, "y2", "ser2", "cs")

    def coeffs(nc, ng):
        key = "coeff-%d-%d" % (nc, ng)
        w = W + "coeff_Cn"

        def go():
            I.ov = {}
            o = mk(3)
            r = ck.run(I, F("coeff"), o, a, q, nu, const(nc), const(ng))
            ck.note(I)
            if not ck.noraise(key, w, r):
                return
            v = I.resolve(r.value)
            ck.ob(key + "/len", w, "2 nc + 1 coefficients")
            for x in v[:3]:
                if [T.cval(z) for z in npm.snap(I, x).shape] != [2*nc + 1]:
                    ck.fail(key + "/len", w, "coefficients have shape %s" % [T.cval(z) for z in npm.snap(I, x).shape])
                    return
            d = ck.run(I, F("defects"), v[0], v[1], v[2], a, q, nu, const(nc), const(ng))
            c = ck.cap(I, d.value)
            z = ck.cap(I, I.new_list([const(0.)]*len(I.items_of(I.resolve(d.value)))))
            ck.same(key, w, c, z, labs=labs, rule="three term recurrence, continued fraction tail and normalisation")
            rr = ck.run(I, F("ratio"), o, a, q, nu, const(nc), const(ng))
            if ck.noraise(key + "/ratio", W + "coeff_ratio", rr):
                rv = I.resolve(rr.value)
                d = ck.run(I, F("ratios"), rv[0], rv[1], v[2], const(nc))
                z = ck.cap(I, I.new_list([const(0.)]*len(I.items_of(I.resolve(d.value)))))
                ck.same(key + "/ratio", W + "coeff_ratio", ck.cap(I, d.value), z, labs=labs[:3], rule="ratios of neighbouring coefficients")
        ck.guarded(key, go)
    for nc in (1, 2, 3, 5):
        for ng in (1, 2, 4):
            coeffs(nc, ng)

    def gn():
        I.ov = {}
        o = mk(3)
        for n in (-2, 0, 3):
            r = ck.run(I, F("gnf"), o, const(n), a, q, nu)
            ck.same("gn%d" % n, W + "gn", ck.cap(I, r.value), ck.cap(I, ck.run(I, F("spec_gn"), const(n), a, q, nu).value), labs=labs[:3])
    ck.guarded("gn", gn)

    def init(kind, t0):
        key = "init-%s-%s" % (kind, "t0" if t0 is not None else "0")
        w = W + "init_value"

        def go():
            I.ov = {}
            o = mk(3)
            y = [T.atom("ya"), T.atom("yb")]
            y = tuple(y) if kind == "tuple" else I.new_list(y) if kind == "list" else npm.sym_array(I, "y", (const(2),))
            I.freeze()
            r = ck.run(I, F("iv"), o, y, t0) if t0 is not None else ck.run(I, F("iv0"), o, y)
            ck.note(I)
            if not ck.noraise(key, w, r, labs=labs):
                return
            if t0 is None:
                ck.same(key, w, ck.cap(I, r.value), ck.cap(I, ck.run(I, F("asarr"), y).value), labs=labs[:3],
                        rule="coefficients at time zero are the initial values")
                return
            d = ck.run(I, F("iv_defect"), o, r.value, y, t0)
            for i, g in enumerate(I.items_of(I.resolve(d.value))):
                ck.same("%s-%d" % (key, i), w, npm.snap(I, g)(), const(0.), labs=labs, guard=T.not_(T.eq(t0, const(0.))),
                        rule="A y1 + B y2 has the given value and velocity at t0")
        ck.guarded(key, go)
    for kind in ("tuple", "list", "array"):
        for t0 in (None, T.atom("t0")):
            init(kind, t0)

    def ivp(n):
        key = "ivp-%s" % n
        w = W + "nu_exp_ivp"

        def go():
            I.ov = {}
            st = I.module("scipy_integrate")
            o = mk(3)
            r = ck.run(I, F("ivp"), o, a, q) if n is None else ck.run(I, F("ivp_n"), o, a, q, const(n))
            ck.note(I)
            if not ck.noraise(key, w, r):
                return
            log = I.items_of(I.get(st, "_log"))
            ck.ob(key + "/calls", w, "the equation is integrated once")
            if len(log) != 1:
                ck.fail(key + "/calls", w, "%d integrations" % len(log))
                return
            g = lambda nm: I.getitem(log[0], nm)
            rhs = ck.cap(I, I.call(F("asarr"), [g("rhs")], {}))
            want = ck.cap(I, I.call(F("asarr"), [ck.run(I, F("spec_rhs"), a, q, g("t"), g("y")).value], {}))
            ck.same(key + "/rhs", w, rhs, want, labs=labs, rule="y'' = -(a - 2q cos 2t) y")
            ck.same(key + "/span", w, ck.cap(I, I.call(F("asarr"), [g("t_span")], {})), ck.cap(I, I.call(F("asarr"), [I.new_list([const(0.), T.PI])], {})),
                    labs=labs, rule="over one period")
            ck.same(key + "/y0", w, ck.cap(I, g("y0")), ck.cap(I, I.call(F("asarr"), [I.new_list([const(1.), const(0.)])], {})), labs=labs, rule="from unit value at rest")
            wn = ck.run(I, F("spec_ivpnu"), g("ys"))
            ck.agree(key + "/nu", w, r, wn, ck.cap(I, r.value), ck.cap(I, wn.value), rule="cos(pi nu) is the solution's value after one period", labs=labs)
            te = g("t_eval")
            if n is not None:
                s = npm.snap(I, te)
                ck.same(key + "/teval", w, s.fn((T.sub(s.shape[0], const(1)),)), T.PI, labs=labs[:3], rule="last evaluated time is the period")
        ck.guarded(key, go)
    def approx(nm):
        def go():
            I.ov = {}
            o = mk(3)
            r = ck.run(I, F(nm), o, a, q)
            ck.note(I)
            wn = ck.run(I, F("spec_" + nm), a, q)
            ck.agree(nm, W + "nu_exp_" + nm, r, wn, ck.cap(I, r.value), ck.cap(I, wn.value), labs=labs, rule="the characteristic exponent's small-parameter expansion")
        ck.guarded(nm, go)
    approx("d0ap")
    approx("bla")
    ivp(None)
    ivp(3)

    def det(n):
        key = "det-%d" % n
        w = W + "nu_exp_det"

        def go():
            I.ov = {}
            o = mk(3)
            tab = I.externs["numpy"].table["linalg"].table
            old = tab["det"]
            log = []

            def spy(I, ar, kw):
                log.append(npm.snap(I, ar[0]))
                return I.call(old, ar, kw)
            tab["det"] = Builtin("det", spy)
            try:
                r = ck.run(I, F("det"), o, a, q, const(n))
            finally:
                tab["det"] = old
            ck.note(I)
            if not ck.noraise(key, w, r):
                return
            got = ck.cap(I, r.value)
            if len(log) != 1:
                ck.unknown(key, "determinant not recognised")
                return
            d = ck.run(I, F("spec_det"), a, q, const(n)).value
            ck.same(key + "/matrix", w, ("arr", log[0]), ck.cap(I, d), labs=labs[:3], rule="truncated Hill determinant of order n")
            s = I.resolve(ck.run(I, F("spec_detnu"), a, log[0]).value)
            rhs = npm.snap(I, s[0])()
            ck.same(key, w, got, ck.cap(I, s[1]), labs=labs, guard=T.and_(T.le(const(0.), rhs), T.le(rhs, const(1.))),
                    rule="sin^2(pi nu/2) = det sin^2(pi sqrt(a)/2) for bounded motion")
        ck.guarded(key, go)
    for n in (1, 2, 3):
        det(n)

    def initsol(mode, nc, dflt):
        key = "initsol-%s-%s" % (mode, nc)
        w = W + "init_sol"

        def go():
            I.ov = {}
            for nm in ("nu_exp_d0ap", "nu_exp_ivp", "nu_exp_det"):
                I.stubs["mathieu.Mathieu." + nm] = (lambda nm: lambda I, ar, k: T.atom("nu_" + nm))(nm)
            I.stubs["mathieu.Mathieu.nu_tolerance"] = lambda I, ar, k: (T.atom("nu_tol"), const(2))
            rec = []

            def cn(I, ar, k):
                rec.append(list(ar[1:]) + [k])
                return tuple(npm.sym_array(I, "K%d" % i, (const(3),)) for i in range(3))
            I.stubs["mathieu.Mathieu.coeff_Cn"] = cn
            try:
                o = ck.run(I, F("new"), M).value
                I.freeze()
                r = ck.run(I, F("ini_d"), o, a, q, mode) if dflt else ck.run(I, F("ini"), o, a, q, const(nc), const(4), mode)
                ck.note(I)
                if not ck.noraise(key, w, r):
                    return
                got = ck.cap(I, I.resolve(ck.run(I, F("state"), o).value))
            finally:
                for nm in ("nu_exp_d0ap", "nu_exp_ivp", "nu_exp_det", "nu_tolerance", "coeff_Cn"):
                    I.stubs.pop("mathieu.Mathieu." + nm, None)
            want = {"det": "nu_tol", "d0ap": "nu_nu_exp_d0ap", "ivp": "nu_nu_exp_ivp"}[mode]
            c = ck.cap(I, (T.atom(want), npm.sym_array(I, "K0", (const(3),)), npm.sym_array(I, "K1", (const(3),))))
            ck.same(key, w, got, c, labs=labs[:3], rule="exponent of the chosen mode and its even and odd coefficients are kept")
            ck.ob(key + "/args", w, "coefficients are computed for the same a, q and exponent")
            if len(rec) != 1:
                ck.unknown(key, "coeff_Cn not called once")
                return
            if not dflt and not rec[0][-1]:
                g = tuple(rec[0][:5])
                ck.same(key + "/args", w, ck.cap(I, tuple(npm.snap(I, z)() for z in g)), ck.cap(I, (a, q, T.atom(want), const(nc), const(4))), labs=labs[:3])
        ck.guarded(key, go)
    for mode in ("det", "d0ap", "ivp"):
        initsol(mode, 2, False)
        initsol(mode, None, True)

    def tolerance(nstart, tol, vals, dflt=False):
        key = "tol-%d-%g" % (nstart, tol)
        w = W + "nu_tolerance"

        def go():
            I.ov = {}
            f = lambda n: vals(n)
            I.stubs["mathieu.Mathieu.nu_exp_det"] = lambda I, ar, k: const(f(T.cval(ar[3] if len(ar) > 3 else k["ntr"])))
            try:
                o = ck.run(I, F("new"), M).value
                r = ck.run(I, F("tol"), o, a, q, const(tol), const(nstart))
                ck.note(I)
                ck.ob(key, w, "the exponent returned is that of the returned order, and tolerance is met")
                good = [n for i in range(100) for n in [nstart*(i + 1)] if abs(f(n) - f(2*n)) < tol]
                if r.live is FALSE:
                    if good or any(e[1] != "ValueError" for e in r.excs):
                        ck.fail(key, w, "raises %s" % r.excs[-1][1])
                    return
                v = [T.cval(npm.snap(I, x)()) for x in I.resolve(r.value)]
                if not good:
                    ck.fail(key, w, "returns %s although no order meets the tolerance" % v)
                elif v[1] not in good and v[1] not in [2*n for n in good] or abs(float(v[0]) - f(v[1])) > 0:
                    ck.fail(key, w, "returns %s; orders %s.. meet the tolerance" % ([float(x) for x in v], good[:2]))
            finally:
                I.stubs.pop("mathieu.Mathieu.nu_exp_det", None)
        ck.guarded(key, go)
    tolerance(5, 1e-5, lambda n: .5)
    tolerance(1, .01, lambda n: .5 + 1./2**n)
    tolerance(2, .01, lambda n: .5 - 1./2**n)
    tolerance(2, .1, lambda n: float(n % 7))
    tolerance(3, 1e-9, lambda n: float(n))

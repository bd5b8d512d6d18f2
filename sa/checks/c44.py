"""The textual analysis of a point."""
from ._sys import *

DESC = ("System.analyze_static is abstractly interpreted on assemblies of 1..3 contract electrodes at an unknown point with unknown mass, charge, length "
        "and frequency; the searches, normal modes and exponents are replaced by unknown answers (their own checks are C13, C14, C15, C25). Each line that "
        "states a quantity must be the text of that quantity of that point in the stated unit, and the searches must be asked for what the caller asked.")

SRC = '''
import numpy as np
import scipy.constants as ct
def report(s, x, **kw): return list(s.analyze_static(x, **kw))
def logged(s, x, lvl, **kw): return s.analyze_static(x, log=lvl, **kw)
def listed(s, x, **kw): return list(s.analyze_static([x[0], x[1], x[2]], **kw))
def vec(*a): return np.array(a)
def mat(*a): return np.array(a).reshape(3, 3)
def add(x, y): return x + y
def spec(s, x, m, q, l, o, off, soff, axis, method, min_off, nosad, ions):
    if o is None:
        o = 2e6*np.pi
    if m is None:
        m = ct.atomic_mass
    if q is None:
        q = ct.elementary_charge
    trap = x if min_off else u_minimum(s, x + off, axis, np.identity(3), method)
    sad = None if nosad else u_saddle(s, x + soff, axis, np.identity(3))
    curves, modes_pp = u_modes(s, x, True)
    mu, b = u_mathieu(s, x, s.rf_coeff, 4, True)
    mm = np.array([[b[len(b)//2 - 3 + i, j].real for j in range(3)] for i in range(3)])
    fr = np.array([mu[j].imag*o/(2*np.pi) for j in range(3)])
    ang_pp, ang_m = u_euler(modes_pp, "rzxz"), u_euler(mm, "rzxz")
    um = l/1e-6
    r = []
    r.append(" f=%.3g MHz, m=%.3g amu, q=%.3g qe, l=%.3g \\xb5m, scale=%.3g V'/V_SI" % (
        o/(2*np.pi)/1e6, m/ct.atomic_mass, q/ct.elementary_charge, um, s.rf_coeff))
    r.append(" analyze point: %s" % (x,))
    r.append("               (%s \\xb5m)" % (x*um,))
    r.append(" minimum is at offset: %s" % (trap - x,))
    r.append("                      (%s \\xb5m)" % ((trap - x)*um,))
    dc, rf = elpot(s, x, 0, "dc")[0], pseudo(s, x, 0)[0]
    r.append(" dc electrical: %.2g eV" % dc)
    r.append(" rf pseudo: %.2g eV" % rf)
    if sad is not None:
        xs, p = sad
        r.append(" saddle offset: %s" % (xs - x,))
        r.append("               (%s \\xb5m)" % ((xs - x)*um,))
        r.append(" saddle height: %.2g eV" % (p - (dc + rf)))
    else:
        r.append(" saddle not found")
    f = elpot(s, x, 1, "dc")[0]
    r.append(" dc electrical: %s eV/l" % (f,))
    r.append("               (%s eV/m)" % (f/l,))
    f = pseudo(s, x, 1)[0]
    r.append(" rf pseudo: %s eV/l" % (f,))
    r.append("           (%s eV/m)" % (f/l,))
    r.append(" pp+dc normal curvatures: %s" % (curves,))
    r.append(" motion is bounded: %s" % np.allclose(mu.real, 0))
    fp = np.array([np.sqrt(q*curves[j]/m)/l/(2*np.pi) for j in range(3)])
    for nm, ff, mo, an in (("pseudopotential", fp, modes_pp, ang_pp), ("mathieu", fr, mm, ang_m)):
        r.append(" %s modes:" % nm)
        for j in range(3):
            r.append("  %s: %.4g MHz, %s" % ("abc"[j], ff[j]/1e6, mo[:, j]))
        r.append("  euler angles (rzxz): %s deg" % (np.array([an[j]*180/np.pi for j in range(3)]),))
    r.append(" heating for %.2g nV\\xb2/Hz white uncorrelated on each electrode:" % 1.)
    g = indiv(s, x, 1)[:, 0]*1e-9/l
    psd = 0.
    for i in range(len(g)):
        psd = psd + g[i]**2
    r.append("  field-noise psd: %s V\\xb2/(m\\xb2 Hz)" % (psd,))
    for j in range(3):
        a = 0.
        for i in range(len(g)):
            a = a + (g[i, 0]*mm[0, j] + g[i, 1]*mm[1, j] + g[i, 2]*mm[2, j])**2
        r.append("  %s: ndot=%.4g /s, S_E*f=%.4g (V\\xb2 Hz)/(m\\xb2 Hz)" % ("abc"[j], a*q**2/(4*m*ct.h*fr[j]), a*fr[j]))
    if ions == 2:
        c = np.sqrt(q/(4*np.pi*ct.epsilon_0)/l)
        xi, ci, mi = u_ions(s, np.zeros((2, 3)), np.array([c, c]))
        d = xi[1] - xi[0]
        d = np.sqrt(d[0]**2 + d[1]**2 + d[2]**2)
        r.append(" separation: %.3g (%.3g \\xb5m, %.3g \\xb5m harmonic)" % (d, d*um, (q*l**2/(2*np.pi*ct.epsilon_0*curves[0]))**(1/3.)/1e-6))
        for j in range(6):
            f = np.sqrt(q*ci[j]/m)/(2*np.pi*l)
            r.append(" %s: %.4g MHz, %s/%s" % ("abcdef"[j], f/1e6, mi[0, :, j], mi[1, :, j]))
    return r
'''
W = "electrode/system.py: System.analyze_static"


def answers(I, state):
    """the searches and solvers as unknown functions of what they are asked"""
    np_ = lambda n: I.externs["numpy"].table[n]

    def norm(v):
        v = I.resolve(v)
        if v is None or isinstance(v, str) or isinstance(v, Node):
            return I.as_o(v)
        return npm.pack(I, npm.snap(I, I.call(np_("array"), [v], {})))

    def bound(a, k, names, defaults):
        d = dict(defaults)
        d.update(zip(names, a))
        d.update(k)
        if set(d) != set(names):
            I.throw("TypeError", "arguments")
        return [norm(d[n]) for n in names]

    def arr(name, args, shape, cplx=False):
        def el(j):
            e = const(0) if state.get("stable") and name == "mu" else T.call("%s_%d" % (name, j), args, sort="r")
            return T.add(e, T.mul(const(1j), T.call("im%s_%d" % (name, j), args, sort="r"))) if cplx else e
        n = 1
        for q in shape:
            n *= q
        a = I.call(np_("array"), [I.new_list([el(j) for j in range(n)])], {})
        return I.call(I.getattr_(a, "reshape"), [const(q) for q in shape], {})
    ident = lambda: I.call(np_("identity"), [const(3)], {})
    axes = (const(0), const(1), const(2))

    def minimum(I, a, k):
        return arr("min", bound(a[1:], k, ["x0", "axis", "coord", "method"], {"axis": axes, "coord": ident(), "method": "Newton-CG"}), [3])

    def saddle(I, a, k):
        d = bound(a[1:], k, ["x0", "axis", "coord"], {"axis": axes, "coord": ident()})
        if state.get("nosaddle"):
            I.throw("ValueError", "no saddle")
        return (arr("sad", d, [3]), T.call("sadp", d, sort="r"))

    def modes(I, a, k):
        d = bound(a[1:], k, ["x", "sorted"], {"sorted": TRUE})
        return (arr("curv", d, [3]), arr("mpp", d, [3, 3]))

    def mathieu(I, a, k):
        d = bound(a[1:], k, ["x", "scale", "r", "sorted"], {"r": const(2), "sorted": TRUE})
        n = 6*(2*T.cval(d[2]) + 1)
        return (arr("mu", d, [n], True), arr("ev", d, [n, n], True))

    def euler(I, a, k):
        d = bound(a, k, ["matrix", "axes"], {"axes": "sxyz"})
        M = I.call(np_("array"), [(a[0] if a else k["matrix"])], {})
        M = I.getitem(M, (Slice(None, const(3), None), Slice(None, const(3), None)))
        d[0] = norm(M)
        return tuple(T.call("ang%d" % j, d, sort="r") for j in range(3))

    def ions(I, a, k):
        d = dict(zip(("x0", "q"), a[1:]))
        d.update(k)
        if set(d) != {"x0", "q"}:
            I.throw("TypeError", "arguments")
        sh = [T.cval(n) for n in npm.snap(I, I.call(np_("array"), [d["x0"]], {})).shape]
        if sh != [2, 3]:
            I.throw("ValueError", "start positions of shape %s" % (sh,))
        q = [norm(d["q"])]
        return (arr("ix", q, [2, 3]), arr("iw", q, [6]), arr("iv", q, [2, 3, 6]))
    return minimum, saddle, modes, mathieu, euler, ions


def check(ck):
    state = {}
    E = SysEnv(ck)
    I = E.I
    fs = answers(I, state)
    m = ck.spec(I, SRC, "c44spec", elpot=E.fn("elpot"), pseudo=E.fn("pseudo"), indiv=E.fn("indiv"),
                **{"u_" + f.__name__: Builtin(f.__name__, f) for f in fs})
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:3]
    for f in fs[:4] + fs[5:]:
        I.stubs["system.System." + f.__name__] = f
    for n in ("transformations.euler_from_matrix", "transformations._py_euler_from_matrix"):
        I.stubs[n] = fs[4]
    arr = lambda nm, *s: npm.sym_array(I, nm, tuple(const(q) for q in s))
    par = dict(m=T.atom("mass"), q=T.atom("charge"), l=T.atom("len"), o=T.atom("om"))

    def one(key, ne, par, nosaddle=False, stable=False, lvl=None, aslist=False, **opts):
        def go():
            I.ov = {}
            state.update(nosaddle=nosaddle, stable=stable)
            s = E.make(ne)
            x = arr("x", 3)
            kw = dict(par)
            for n, v in opts.items():
                kw[n] = arr(v, 3) if n.endswith("offset") else v
            I.freeze()
            if lvl is not None:
                del lines[:]
                o = ck.run(I, F("logged"), s, x, const(lvl), **kw)
            else:
                o = ck.run(I, F("listed" if aslist else "report"), s, x, **kw)
            ck.note(I)
            if not ck.noraise(key, W, o):
                return
            got = [I.resolve(q) for q in (I.items_of(I.resolve(o.value)) if lvl is None else lines)]
            got = [q for q in got if not isinstance(q, str) or q.startswith(" ")]
            got = [ck.cap(I, q) for q in got]
            I.ov = {}
            s = E.make(ne)
            x = arr("x", 3)
            zero = lambda: I.call(I.externs["numpy"].table["zeros"], [const(3)], {})
            off = {n: arr(opts[n], 3) if n in opts else zero() for n in ("min_offset", "saddle_offset")}
            o = ck.run(I, F("spec"), s, x, par.get("m"), par.get("q"), par.get("l", const(1e-4)), par.get("o"), off["min_offset"], off["saddle_offset"],
                       opts.get("axis", (const(0), const(1), const(2))), opts.get("min_method", "Nelder-Mead"), opts.get("min_off", FALSE),
                       TRUE if nosaddle else FALSE, opts.get("ions", const(1)))
            want = [ck.cap(I, I.resolve(q)) for q in I.items_of(I.resolve(o.value))]
            ck.ob(key, W, "the report states every quantity")
            if len(got) != len(want):
                ck.fail(key, W, "%d lines state a quantity instead of %d" % (len(got), len(want)))
                return
            for i, (g, w) in enumerate(zip(got, want)):
                ck.same("%s/line%d" % (key, i), W, g, w, labs=labs, rule="the line states the quantity it names, of the analysed point, in its unit")
        ck.guarded(key, go)
    lines = []

    def logto(I, a, k):
        lvl, msg, rest = a[0], a[1], list(a[2:])
        lines.append(I.fmt_mod(msg, tuple(rest)) if rest else msg)
        if T.cval(lvl) != 20:
            lines.append("logged at another level")
    lg = I.resolve(I.get(ck.mod(I, "system"), "logger"))
    if hasattr(lg, "table"):
        lg.table["log"] = Builtin("log.log", logto)
    ax = lambda *a: tuple(const(q) for q in a)
    for n in (1, 2, 3):
        one("all-%d" % n, n, par)
    one("defaults", 2, {})
    for k in "mqlo":
        one("only-" + k, 1, {k: par[k]})
    one("stable", 1, par, stable=True)
    one("two", 1, par, ions=const(2))
    one("two-here", 2, par, ions=const(2), min_off=TRUE, axis=ax(2, 0))
    one("list", 2, par, aslist=True)
    one("axis-1", 2, par, axis=ax(1))
    one("axis-12", 2, par, axis=ax(1, 2))
    one("axis-20", 2, par, axis=ax(2, 0), nosaddle=True)
    one("nosaddle", 2, par, nosaddle=True)
    one("here", 2, par, min_off=TRUE)
    one("here-offset", 1, par, min_off=TRUE, min_offset="mo")
    one("offset", 2, par, min_offset="mo")
    one("saddle-offset", 2, par, saddle_offset="so", min_method="Powell")
    one("method", 1, par, min_method="Powell", axis=ax(0))
    one("logged", 2, par, lvl=20)
    one("logged-axis", 1, par, lvl=20, axis=ax(2), saddle_offset="so", min_offset="mo")

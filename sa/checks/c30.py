from ._sys import *

DESC = ("System.trajectory is abstractly interpreted with a recording integrator (passed as callable, or found by name in a stand-in gni module) "
        "on assemblies of contract electrodes, for every axis choice and order, unknown start position/velocity (array, list, integers), "
        "1..4 steps; callback values, integrator arguments, state hand-over, reported times, copies and the caller's arrays are compared with the specification.")

SRC = '''
import numpy as np
class Integ(object):
    def __init__(self, newp, newq, probes):
        self.log = []
        self.newp, self.newq, self.probes = newp, newq, probes
    def __call__(self, ddx, nsteps, t, p, q, t1, *args, **kwargs):
        i = len(self.log)
        f = np.zeros(len(q))
        r = []
        for pt, pq in self.probes:
            f[:] = 7.
            ddx(pt, pq, f)
            r.append(f.copy())
        self.log.append((nsteps, t, t1, p.copy(), q.copy(), r, args, sorted(kwargs.items())))
        p[:] = self.newp[i]
        q[:] = self.newq[i]
class Gni(object):
    def __init__(self, i):
        self.gni_irk2 = i
        self.gni_lmm2 = i
def integ(newp, newq, probes): return Integ(newp, newq, probes)
def gni(i): return Gni(i)
def walk(s, i, x, v, kw):
    return [r for r in s.trajectory(x, v, integ=i, **kw)]
def walk_gni(s, x, v, kw):
    return [r for r in s.trajectory(x, v, **kw)]
def walk_args(s, i, x, v, axis, t0, dt, t1, n):
    return [r for r in s.trajectory(x, v, axis, t0, dt, t1, n, i, "more", k=3)]
def log(i): return i.log
def steps(t0, dt, t1):
    l = []
    t = t0
    while t < t1:
        l.append((t, t + dt))
        t = t + dt
    return l
def force(s, x, axis, t, q):
    y = np.zeros(3)
    y[:] = x
    for i in range(len(axis)):
        y[axis[i]] = q[i]
    g = timepot(s, y, 1, t, True)[0]
    return np.array([g[i] for i in axis])
def pick(a, axis): return np.array([a[i] for i in axis])*1.
'''
w = "electrode/system.py: System.trajectory"


def check(ck):
    E = SysEnv(ck)
    I = E.I
    m = ck.spec(I, SRC, "c30spec", timepot=E.fn("timepot"))
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"]

    def one(key, axis, how="array", t0=0., dt=.25, n=2, nsteps=None, ne=2, kind="callable", axt=tuple, extra=None, end=None, order_kw=True):
        t1 = end if end is not None else t0 + dt*(n - .5)

        def go():
            I.ov = {}
            s = E.make(ne)
            d = len(axis)
            x, v = npm.sym_array(I, "x", (const(3),)), npm.sym_array(I, "v", (const(3),))
            if how == "list":
                x, v = (I.new_list([T.atom(c + str(i)) for i in range(3)]) for c in "xv")
            elif how == "tuple":
                x, v = (tuple(T.atom(c + str(i)) for i in range(3)) for c in "xv")
            elif how == "int":
                x, v = (I.call(I.externs["numpy"].table["array"], [I.new_list([const(i + c) for i in range(3)])], {}) for c in (1, 5))
            pr = [(T.atom("pt%d" % i), npm.sym_array(I, "pq%d" % i, (const(d),))) for i in range(2)]
            ig = ck.run(I, F("integ"), npm.sym_array(I, "np", (const(9), const(d))), npm.sym_array(I, "nq", (const(9), const(d))), I.new_list(pr)).value
            if kind != "callable":
                I.set(I.module("electrode.system"), "gni", ck.run(I, F("gni"), ig).value)
            I.freeze()
            xb, vb, sb = ck.cap(I, x), ck.cap(I, v), ck.cap(I, s)
            ax = axt(const(i) for i in axis) if axt is tuple else I.new_list([const(i) for i in axis])
            if kind == "args":
                o = ck.run(I, F("walk_args"), s, ig, x, v, ax, const(t0), const(dt), const(t1), const(nsteps))
            else:
                kw = [("axis", ax), ("dt", const(dt)), ("t1", const(t1))]
                if t0:
                    kw.append(("t0", const(t0)))
                if nsteps:
                    kw.append(("nsteps", const(nsteps)))
                kw += list((extra or {}).items())
                if axis == (0, 1, 2) and kind == "callable" and order_kw:
                    kw = kw[1:]
                kd = I.call(I.builtins["dict"], [], dict(kw))
                o = ck.run(I, F("walk"), s, ig, x, v, kd) if kind == "callable" else ck.run(I, F("walk_gni"), s, x, v, kd)
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            ev = [ck.cap(I, e) for e in I.items_of(I.resolve(o.value))]
            lg = [I.resolve(e) for e in I.items_of(I.resolve(ck.run(I, F("log"), ig).value))]
            lg = [list(e[:5]) + [I.items_of(I.resolve(e[5]))] + list(e[6:]) for e in lg]
            caps = [([ck.cap(I, z) for z in e[:5]], [npm.snap(I, z) for z in e[5]], ck.cap(I, e[6]), ck.cap(I, e[7])) for e in lg]
            after = (ck.cap(I, x), ck.cap(I, v), ck.cap(I, s))
            st = [tuple(T.cval(q) for q in I.resolve(e)) for e in I.items_of(I.resolve(ck.run(I, F("steps"), const(t0), const(dt), const(t1)).value))]
            x_, v_ = npm.snap(I, x), npm.snap(I, v)
            nq, np_ = npm.sym_array(I, "nq", (const(9), const(d))), npm.sym_array(I, "np", (const(9), const(d)))
            axl = I.new_list([const(i) for i in axis])
            ck.ob(key + "/steps", w, "one integration and one report per time step until the final time")
            if len(ev) != len(st) or len(caps) != len(st):
                ck.fail(key + "/steps", w, "%d reports of %d integrations for %d time steps" % (len(ev), len(caps), len(st)))
                return
            row = lambda a, i: I.getitem(a, const(i))
            p = ck.run(I, F("pick"), v_, axl).value
            q = ck.run(I, F("pick"), x_, axl).value
            for i, (ta, tb) in enumerate(st):
                g, fs, ar, kws = caps[i]
                ck.same("%s/step%d" % (key, i), w, ("tuple",) + tuple(g[:5]),
                        ("tuple", const(nsteps or 1), const(ta), const(tb), ck.cap(I, p), ck.cap(I, q)), labs=labs,
                        rule="step continues from the previous velocity and position on the varied axes")
                p, q = row(np_, i), row(nq, i)
                ck.same("%s/report%d" % (key, i), w, ev[i], ("tuple", const(tb), ck.cap(I, q), ck.cap(I, p)), labs=labs,
                        rule="reports time, position and velocity after the step, unaffected by later steps")
                for j, f in enumerate(fs):
                    want = ck.run(I, F("force"), s, x_, axl, pr[j][0], npm.sym_array(I, "pq%d" % j, (const(d),))).value
                    ck.same("%s/force%d-%d" % (key, i, j), w, ("arr", f), ck.cap(I, want), labs=labs,
                            rule="callback is the gradient of the instantaneous potential along the varied axes, others at their start values")
                if kind == "args":
                    ck.same(key + "/args", w, ("tuple", ar, kws), ("tuple", ck.cap(I, ("more",)), ck.cap(I, I.new_list([("k", const(3))]))), labs=labs[:2], rule="further arguments reach the integrator")
                elif kind == "gni":
                    ck.same(key + "/args", w, ar, ck.cap(I, (const((extra or {}).get("methc", const(2))),)), labs=labs[:2], rule="method constant reaches the integrator")
            ck.same(key + "/frame", w, ("tuple", xb, vb, sb), ("tuple",) + after, labs=labs[:3], rule="start position, velocity and electrodes are unchanged")
        ck.guarded(key, go)
        I.set(I.module("electrode.system"), "gni", None)
    axes = [(0, 1, 2), (0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (2, 0), (2, 1, 0), (1, 2, 0)]
    for i, a in enumerate(axes):
        one("axis-%s" % "".join(map(str, a)), a, how=("array", "list", "tuple", "int")[i % 4], axt=(tuple, list)[i % 2], n=1 + i % 3)
        one("axisb-%s" % "".join(map(str, a)), a, how=("int", "array", "list")[i % 3], t0=(.5, -1.)[i % 2], dt=.125, n=2, nsteps=3 if i % 2 else None)
    one("args", (0, 2), kind="args", nsteps=4, t0=1.)
    one("none", (0, 1, 2), n=0, end=-1.)
    one("exact", (0, 1), end=.5)
    one("gni", (0, 2), kind="gni")
    one("gni-methc", (0, 1, 2), kind="gni", extra={"methc": const(4)}, nsteps=2)
    one("gni-name", (1,), kind="gni", extra={"integ": "gni_lmm2"})
    one("empty", (0, 1, 2), ne=0)
    if ck.tier != "quick":
        for n in (4, 7):
            one("long%d" % n, (0, 1, 2), n=n, ne=3)

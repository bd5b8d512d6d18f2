from ._sys import *

DESC = ("System.plot_contour is abstractly interpreted with a recording axes object on assemblies of contract electrodes, for all three slice "
        "axes, unknown offset, explicit (cubic and non-cubic, unknown centre and step) and default grids, potentials tot/dc/rf; the plotted "
        "coordinates, every plotted value, the axis labels and the returned extrema are compared with the specification.")

SRC = '''
import numpy as np
class Ax(object):
    def __init__(self):
        self.log = []
        self.lab = {}
    def set_xlabel(self, s, **k): self.lab["x"] = s
    def set_ylabel(self, s, **k): self.lab["y"] = s
    def set(self, xlabel=None, ylabel=None, **k):
        if xlabel is not None:
            self.lab["x"] = xlabel
        if ylabel is not None:
            self.lab["y"] = ylabel
    def set_title(self, s, **k): pass
    def set_aspect(self, s, **k): pass
    def contour(self, *a, **k):
        self.log.append(("contour", a, k))
        return "CS"
    def contourf(self, *a, **k):
        self.log.append(("contourf", a, k))
        return "CSF"
def ax(): return Ax()
def grid(G, c, s, h): return G(c, s, h)
def draw(s, a, kw): return s.plot_contour(a, **kw)
def log(a): return a.log, a.lab
def dress(s, o, d, n):
    s[0].origin, s[0].spacing, s[0].data = o, d, [n]
def asf(x): return np.array(x)*1.
def nodes(c, s, h, k): return np.array([c[k] + s[k]*(i - (h[k] - 1)/2.) for i in range(h[k])])
def nodes0(o, s, h, k): return np.array([o[k] + s[k]*i for i in range(h[k])])
def values(s, typ, e3, xs, ys, kx, ky, k3):
    z = np.zeros((len(ys), len(xs)))
    for j in range(len(ys)):
        for i in range(len(xs)):
            p = np.zeros(3)
            p[kx], p[ky], p[k3] = xs[i], ys[j], e3
            z[j, i] = combined(s, p, 0, typ)[0]
    return z
def extrema(z): return np.amax(z), np.amin(z)
def spread(x, z): return x*np.ones(z.shape)
def spread_y(y, z): return y[:, None]*np.ones(z.shape)
'''
w = "electrode/system.py: System.plot_contour"


def check(ck):
    E = SysEnv(ck, extra=("electrode.grid",))
    I = E.I
    m = ck.spec(I, SRC, "c31spec", combined=E.fn("combined"))
    F = lambda n: I.get(m, n)
    G = ck.attr(I, "grid", "Grid")
    labs = [l for l in ck.labs() if l.mode == "rand"]
    v3 = lambda n: npm.sym_array(I, n, (const(3),))

    def one(slc, shape, typ, default=False, fill=False, at=True, lst=False, how="kw", div=None):
        key = "%s-%s-%s%s%s%s%s" % (slc, "x".join(map(str, shape)), typ, "-default" if default else "", "-fill" if fill else "", "" if at else "-zero", "-list" if lst else "")

        def go():
            I.ov = {}
            e3 = T.atom("at") if at else const(0.)

            def world():
                s = E.make(2)
                c, d = v3("c"), v3("s")
                if lst:
                    c, d = (I.new_list([T.atom(n + str(i)) for i in range(3)]) for n in "cs")
                if default:
                    ck.run(I, F("dress"), s, c, d, npm.sym_array(I, "data", tuple(const(q) for q in shape) + (const(1),)))
                return s, c, d
            s, c, d = world()
            a = ck.run(I, F("ax")).value
            kw = {}
            if slc != "dflt":
                kw["slc"] = slc
            if typ != "dflt":
                kw["typ"] = typ
            if not default:
                kw["grid"] = ck.run(I, F("grid"), G, c, d, I.new_list([const(q) for q in shape])).value
            if at:
                kw["slc_at"] = e3
            if fill:
                kw["fill"] = TRUE
            if div:
                kw["divide_max"] = const(div)
            I.freeze()
            sb = ck.cap(I, s)
            o = ck.run(I, F("draw"), s, a, I.call(I.builtins["dict"], [], kw))
            ck.note(I)
            if not ck.noraise(key, w, o, labs=labs):
                return
            r = I.resolve(o.value)
            lg, lab = [I.resolve(q) for q in I.resolve(ck.run(I, F("log"), a).value)]
            lg = [I.resolve(q) for q in I.items_of(lg)]
            ck.ob(key + "/call", w, "one contour plot with axis labels")
            if len(lg) != 1:
                ck.fail(key + "/call", w, "%d contour plots" % len(lg))
                return
            lx, ly = (I.resolve(I.getitem(lab, q)) for q in "xy")
            S = "x" if slc == "dflt" else slc
            ax_ = {"x": 0, "y": 1, "z": 2}
            if not (isinstance(lx, str) and isinstance(ly, str)):
                ck.unknown(key, "labels are not constant")
                return
            if sorted((lx[:1], ly[:1], S)) != ["x", "y", "z"]:
                ck.fail(key + "/label", w, "slice perpendicular to %s is labelled %r and %r" % (S, lx, ly))
                return
            kx, ky, k3 = ax_[lx[0]], ax_[ly[0]], ax_[S]
            X, Y, Z = (npm.snap(I, q) for q in lg[0][1][:3])
            ret = ck.cap(I, r[1])
            fn = lg[0][0]
            after = ck.cap(I, s)
            I.ov = {}
            s, c, d = world()
            h = I.new_list([const(q) for q in shape])
            nd = "nodes0" if default else "nodes"
            xs = ck.run(I, F(nd), c, d, h, const(kx)).value
            ys = ck.run(I, F(nd), c, d, h, const(ky)).value
            z = ck.run(I, F("values"), s, "tot" if typ == "dflt" else typ, e3, xs, ys, const(kx), const(ky), const(k3)).value
            ex = ck.run(I, F("extrema"), Z).value
            wx = xs if X.ndim == 1 else ck.run(I, F("spread"), xs, z).value
            wy = ys if Y.ndim == 1 else ck.run(I, F("spread_y"), ys, z).value
            ck.same(key + "/x", w, ("arr", X), ck.cap(I, wx), labs=labs, rule="plotted %s coordinates are the grid nodes'" % lx[0])
            ck.same(key + "/y", w, ("arr", Y), ck.cap(I, wy), labs=labs, rule="plotted %s coordinates are the grid nodes'" % ly[0])
            ck.same(key + "/z", w, ("arr", Z), ck.cap(I, z), labs=labs, rule="value plotted at (%s, %s) is the potential at that point of the plane %s = offset" % (lx[0], ly[0], S))
            ck.same(key + "/extrema", w, ret, ck.cap(I, ex), labs=labs, rule="returned extrema are those of the plotted values")
            ck.ob(key + "/fill", w, "filled contours on request")
            if fn != ("contourf" if fill else "contour"):
                ck.fail(key + "/fill", w, "%s is drawn with fill=%s" % (fn, fill))
            ck.same(key + "/frame", w, sb, after, labs=labs[:2], rule="the assembly is unchanged")
        ck.guarded(key, go)
    for slc in "xyz":
        for typ in ("tot", "dc", "rf"):
            one(slc, (2, 3, 4), typ, fill=typ == "dc")
        one(slc, (3, 3, 3), "dc")
        one(slc, (3, 2, 2), "dc", lst=True)
        one(slc, (4, 2, 3), "dc", default=True)
        one(slc, (1, 2, 3), "rf", at=False, div=1.)
    one("dflt", (2, 3, 4), "dflt")
    one("dflt", (2, 3, 2), "dflt", default=True, at=False)
    if ck.tier != "quick":
        for slc in "xyz":
            for shape in ((5, 4, 3), (1, 1, 1), (2, 1, 6)):
                for typ in ("tot", "dc", "rf"):
                    one(slc, shape, typ)

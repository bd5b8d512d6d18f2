"""Drawings of electrodes and assemblies."""
from ._sys import *

DESC = ("Electrode.plot, System.plot and System.plot_voltages are abstractly interpreted with recording axes, patches and collections on point and polygon "
        "electrodes (0..3 outlines of 3..4 unknown vertices, 0..2 unknown patches, holes included) and assemblies of 0..3 (and 13) electrodes with unknown voltages; "
        "every outline and circle drawn, its colour, the labels with their places, and the order are compared with the electrodes; other drawing methods are undecided.")

SRC = '''
import numpy as np
class Path(object):
    STOP, MOVETO, LINETO, CURVE3, CURVE4, CLOSEPOLY = 0, 1, 2, 3, 4, 79
    code_type = np.uint8
    def __init__(self, vertices, codes=None, closed=False, readonly=False, _interpolation_steps=1):
        self.vertices, self.codes = np.array(vertices), codes
class PathPatch(object):
    def __init__(self, path, **kw):
        self.path, self.kw = path, kw
class EllipseCollection(object):
    def __init__(self, widths, heights, angles, units="points", offsets=None, **kw):
        self.w, self.h, self.u, self.o, self.kw = widths, heights, units, offsets, kw
class Ax(object):
    transData = "data"
    def __init__(self):
        self.log = []
    def add_patch(self, p):
        self.log.append(p)
        return p
    def add_collection(self, p, autolim=True):
        self.log.append(p)
        return p
    def text(self, x, y, s, fontdict=None, **k):
        self.log.append((x, y, s))
def ax(): return Ax()

def face(kw):
    for n in ("facecolor", "facecolors", "fc", "color"):
        if n in kw:
            return kw[n]
    return None

def shown(a):
    out = []
    for p in a.log:
        if isinstance(p, tuple):
            out.append(("text", p[0], p[1], p[2]))
        elif isinstance(p, PathPatch):
            v, c = p.path.vertices, p.path.codes
            out.append(("path", [(v[i, 0], v[i, 1], None if c is None else c[i]) for i in range(len(v))], face(p.kw), p.kw.get("alpha")))
        else:
            w, h, o = np.array(p.w), np.array(p.h), np.array(p.o)
            out.append(("round", [(o[i, 0], o[i, 1], w[i], h[i]) for i in range(len(o))], face(p.kw), p.kw.get("alpha"), p.u))
    return out

def poly(name, paths): return PolygonPixelElectrode(name=name, paths=paths)
def point(name, pts, areas): return PointPixelElectrode(name=name, points=pts, areas=areas)
def mean(p): return sum([p[i, 0] for i in range(len(p))])/len(p), sum([p[i, 1] for i in range(len(p))])/len(p)
def expect_poly(paths, name, label):
    t = name if label is None else label
    return [("out", [[(p[i, 0], p[i, 1]) for i in range(len(p))] for p in paths])] + ([("text",) + mean(p) + (t,) for p in paths] if t else [])
def expect_point(pts, areas, name, label):
    t = name if label is None else label
    return [("round", [(pts[i, 0], pts[i, 1], 2*np.sqrt(areas[i]/np.pi)) for i in range(len(pts))])] + ([("text",) + mean(pts) + (t,)] if t else [])
def draw(e, a, kw): return e.plot(a, **kw)
class K(Electrode):
    def __init__(self, name="", dc=0., rf=0.):
        super(K, self).__init__(name=name, dc=dc, rf=rf)
    def plot(self, ax, label=None, color=None, **kw):
        ax.log.append((self.name, color, kw, label))
def assembly(System, dcs): return System([K(name="e%d" % i, dc=dcs[i]) for i in range(len(dcs))])
def log(a): return a.log
def plot(s, a, kw): return s.plot(a, **kw)
def volts(s, a, kw): return s.plot_voltages(a, **kw)
def cmap(x): return ("colour", x)
def wplot(n, kw):
    k = dict(kw)
    k["alpha"] = k.get("alpha", .3)
    return [("e%d" % i, tuple([set3[i % 12][j]/255. for j in range(3)]), k, k.pop("label", None) if "label" in k else None) for i in range(n)]
def wvolts(dcs, u, um, kw):
    u = dcs if u is None else u
    if um is None:
        um = max([abs(q) for q in u]) or 1. if len(u) else 1.
    return [("e%d" % i, ("colour", (u[i]/um + 1)/2), kw, None) for i in range(len(dcs))]
'''
WE = "electrode/electrode.py: "
WS = "electrode/system.py: "


def check(ck):
    E = SysEnv(ck, extra=("electrode.colors",))
    I = E.I
    at = lambda n: ck.attr(I, "electrode", n)
    m = ck.spec(I, SRC, "c48spec", Electrode=at("Electrode"), PolygonPixelElectrode=at("PolygonPixelElectrode"), PointPixelElectrode=at("PointPixelElectrode"),
                set3=ck.attr(I, "colors", "set3"))
    F = lambda n: I.get(m, n)

    def no(n):
        def f(name):
            if name.startswith("__"):
                return None
            raise AnalysisError("drawing with %s.%s" % (n, name))
        return f
    sub = {"path": {"Path": F("Path")}, "patches": {"PathPatch": F("PathPatch")}, "collections": {"EllipseCollection": F("EllipseCollection")},
           "cm": {"RdBu_r": F("cmap")}}
    pl = {"cm": NS("matplotlib.pyplot.cm", sub["cm"], fallback=no("matplotlib.cm")), "get_cmap": Builtin("get_cmap", lambda I, a, k: F("cmap")
                                                                                           if a and a[0] == "RdBu_r" else no("matplotlib")("get_cmap"))}
    top = {"pyplot": NS("matplotlib.pyplot", pl, fallback=no("matplotlib.pyplot"))}
    for n, t in sub.items():
        top[n] = NS("matplotlib." + n, t, fallback=no("matplotlib." + n))
    for n in top:
        I.externs["matplotlib." + n] = top[n]
    I.externs["matplotlib"] = NS("matplotlib", top, fallback=no("matplotlib"))
    labs = [l for l in ck.labs() if l.mode == "rand"][:4]
    arr = lambda nm, *s: npm.sym_array(I, nm, tuple(const(q) for q in s))

    def outlines(pts):
        """outlines of a compound path: split where the pen is put down"""
        out = []
        for t in pts:
            x, y, c = t[1:]
            if c in (79, (0, 79)):
                continue
            if not out or c in (1, (0, 1)):
                out.append([])
            out[-1].append((x, y))
        return [o[:-1] if len(o) > 1 and o[0] == o[-1] else o for o in out]

    def turns(o):
        """starting vertex does not matter"""
        k = o.index(min(o, key=repr)) if o else 0
        return o[k:] + o[:k]

    def one(key, where, make, kw, expect):
        def go():
            I.ov = {}
            e = make()
            a = ck.run(I, F("ax")).value
            k2 = I.call(I.builtins["dict"], [], kw)
            I.freeze()
            o = ck.run(I, F("draw"), e, a, k2)
            ck.note(I)
            if not ck.noraise(key, where, o, labs=labs):
                return
            got = ck.cap(I, ck.run(I, F("shown"), a).value)
            I.ov = {}
            want = ck.cap(I, expect())
            ck.ob(key, where, "drawn at its outlines, in its colour, labelled in their middle")
            for lab in labs:
                try:
                    g, w = conc(lab, got)[1:], conc(lab, want)[1:]
                    col = conc(lab, ck.cap(I, kw["color"])) if "color" in kw else None
                except (T.Unbound, T.EvalError) as x:
                    return ck.unknown(key, x)
                texts = sorted([t[2:] for t in g if t[1] == ("o", T._h("const", repr("text")))], key=repr)
                wt = sorted([t[2:] for t in w if t[1] == ("o", T._h("const", repr("text")))], key=repr)
                if texts != wt:
                    return ck.fail(key, where, "labels: drawn %s, specified %s" % (str(texts)[:150], str(wt)[:150]))
                art = [t for t in g if t[1] != ("o", T._h("const", repr("text")))]
                ref = [t for t in w if t[1] != ("o", T._h("const", repr("text")))][0]
                if ref[1] == ("o", T._h("const", repr("out"))):
                    sh = []
                    for t in art:
                        sh += outlines(t[2][1:])
                    sh = sorted([turns(q) for q in sh], key=repr)
                    wr = sorted([turns([tuple(v[1:]) for v in q[1:]]) for q in ref[2][1:]], key=repr)
                else:
                    sh, wr = [], [tuple(v[1:]) for v in ref[2][1:]]
                    for t in art:
                        for v in t[2][1:]:
                            if v[3] != v[4] or t[5] != ("o", T._h("const", repr("xy"))):
                                return ck.fail(key, where, "patch drawn with different width and height, or not in the units of the plane")
                            sh.append(tuple(v[1:4]))
                    sh, wr = sorted(sh, key=repr), sorted(wr, key=repr)
                if sh != wr:
                    return ck.fail(key, where, "shapes: drawn %s, specified %s" % (str(sh)[:200], str(wr)[:200]))
                for t in art:
                    if t[3] != (col if "color" in kw else conc(lab, None)):
                        return ck.fail(key, where, "colour: drawn %s, specified %s" % (str(t[3])[:80], str(col)[:80]))
        ck.guarded(key, go)

    col = (T.atom("red"), T.atom("green"), T.atom("blue"))
    for nm, sizes in (("triangle", (3,)), ("two", (4, 3)), ("three", (3, 3, 4))):
        for lb, kw in (("", {}), ("-label", {"label": "lab"}), ("-nolabel", {"label": ""}), ("-colour", {"color": ("tuple",) + col})):
            def paths(sizes=sizes):
                return I.new_list([arr("p%d" % i, n, 2) for i, n in enumerate(sizes)])
            kk = {n: (tuple(v[1:]) if isinstance(v, tuple) else v) for n, v in kw.items()}
            for name in ("e", ""):
                one("poly-%s%s%s" % (nm, lb, "" if name else "-unnamed"), WE + "PolygonPixelElectrode.plot",
                    lambda name=name, paths=paths: ck.run(I, F("poly"), name, paths()).value, kk,
                    lambda name=name, paths=paths, kw=kw: ck.run(I, F("expect_poly"), paths(), name, kw.get("label")).value)
    for n in (1, 2, 3):
        for lb, kw in (("", {}), ("-label", {"label": "lab"}), ("-nolabel", {"label": ""}), ("-colour", {"color": ("tuple",) + col})):
            kk = {q: (tuple(v[1:]) if isinstance(v, tuple) else v) for q, v in kw.items()}
            for name in ("e", ""):
                one("point-%d%s%s" % (n, lb, "" if name else "-unnamed"), WE + "PointPixelElectrode.plot",
                    lambda name=name, n=n: ck.run(I, F("point"), name, arr("c", n, 2), arr("area", n)).value, kk,
                    lambda name=name, n=n, kw=kw: ck.run(I, F("expect_point"), arr("c", n, 2), arr("area", n), name, kw.get("label")).value)

    System = E.System

    def whole(key, where, fn, n, kw, spec):
        def go():
            I.ov = {}
            dcs = tuple(T.atom("dc%d" % i) for i in range(n))
            s = ck.run(I, F("assembly"), System, dcs).value
            a = ck.run(I, F("ax")).value
            k2 = I.call(I.builtins["dict"], [], {q: v() if callable(v) else v for q, v in kw.items()})
            I.freeze()
            sb = ck.cap(I, s)
            o = ck.run(I, F(fn), s, a, k2)
            ck.note(I)
            if not ck.noraise(key, where, o, labs=labs):
                return
            got = ck.cap(I, ck.run(I, F("log"), a).value)
            after = ck.cap(I, s)
            I.ov = {}
            w = ck.cap(I, spec(dcs))
            ck.same(key, where, got, w, labs=labs, rule="every electrode once, in order, with its colour")
            ck.same(key + "/frame", where, sb, after, labs=labs[:2], rule="the assembly is unchanged")
        ck.guarded(key, go)
    dct = lambda **k: I.call(I.builtins["dict"], [], k)
    for n in (0, 1, 3, 13):
        whole("all-%d" % n, WS + "System.plot", "plot", n, {}, lambda d, n=n: ck.run(I, F("wplot"), const(n), dct()).value)
    whole("all-alpha", WS + "System.plot", "plot", 3, {"alpha": T.atom("al"), "zorder": const(3)},
          lambda d: ck.run(I, F("wplot"), const(3), dct(alpha=T.atom("al"), zorder=const(3))).value)
    cm = F("cmap")
    for n in (1, 2, 3):
        for c in ("", "-cmap"):
            kc = {"cmap": cm} if c else {}
            for un, u in (("", None), ("-u", lambda n=n: arr("u", n))):
                ku = {"u": u} if u else {}
                for mn, um in (("", None), ("-um", T.atom("um"))):
                    km = {"um": um} if um is not None else {}
                    ex = {"zorder": const(2)} if n == 2 else {}
                    whole("volts-%d%s%s%s" % (n, c, un, mn), WS + "System.plot_voltages", "volts", n, dict(list(kc.items()) + list(ku.items()) + list(km.items()) + list(ex.items())),
                          lambda d, u=u, um=um, ex=ex: ck.run(I, F("wvolts"), d, u() if u else None, um, dct(**ex)).value)
    whole("volts-zero", WS + "System.plot_voltages", "volts", 2, {"u": lambda: I.call(I.externs["numpy"].table["zeros"], [const(2)], {})},
          lambda d: ck.run(I, F("wvolts"), d, (const(0.), const(0.)), const(1.), dct()).value)

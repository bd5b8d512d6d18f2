from ..check import *
from .c27 import geo
from fractions import Fraction as Fr

DESC = ("Polygons.to_system and from_system, PolygonPixelElectrode.to_points and orientations and utils.area_centroid are abstractly "
        "interpreted (shapely's classes are modelled; an operation outside the model leaves the obligation undecided): outlines with "
        "unknown coordinates of either orientation, validity and emptiness are compared edge by edge (independent of the starting vertex "
        "and of the order of the outlines of one electrode), nested outlines are given coordinates; names, voltages, cover parameters, "
        "areas and centroids are compared with their definitions.")

SRC = '''
import numpy as np
from shapely import geometry

def poly(c, holes=(), valid=True, area=1):
    p = geometry.Polygon(c, holes)
    p._valid, p._area = valid, area
    return p

def ring(a):
    return list(a) + [a[0]]

def sig(p):
    """independent of the first vertex, not of the direction"""
    r = 0
    for i in range(len(p)):
        a, b = p[i], p[(i + 1) % len(p)]
        r = r + (a[0] + 3*a[1] + 5)**2*(7*b[0] + b[1] - 2)**3
    return r

def outline(ps):
    s = [sig(p) for p in ps]
    n = 0
    for p in ps:
        n = n + len(p)
    t1, t2 = 0, 0
    for x in s:
        t1, t2 = t1 + x, t2 + x*x
    return len(ps), n, t1, t2

def pts(p):
    p = np.asarray(p)
    if p.shape[1] != 2:
        return [(0, 0)]
    return [(p[i, 0], p[i, 1]) for i in range(len(p))]

def described(s):
    return [(isinstance(e, PolygonPixelElectrode), e.name, e.dc, e.rf, outline([pts(p) for p in e.paths])) for e in s]

def system(polys):
    return isinstance(Polygons(polys).to_system(), System), described(Polygons(polys).to_system())

def turned(c, s):
    c = [(p[0], p[1]) for p in list(c)[:-1]]
    return c if geometry.signed(ring(c))*s > 0 else c[::-1]

def wsystem(polys):
    r = []
    for n, g in polys:
        ps = []
        for p in (g.geoms if hasattr(g, "geoms") else [g]):
            if p._valid and p._area:
                ps.append(turned(p.exterior.coords, 1))
                for h in p.interiors:
                    ps.append(turned(h.coords, -1))
        r.append((True, n, 0., 0., outline(ps)))
    return True, r

def areas(c, k):
    r = 1
    i = 0
    for n in k:
        r = r*geometry.signed(ring(c[i:i + n]))
        i += n
    return r != 0

def set1(c):
    return [("a", poly(ring(c[0:3]))), ("b", poly(ring(c[3:6]), [ring(c[6:9])]))]

def set2(c):
    M = geometry.MultiPolygon
    return [("c", M([poly(ring(c[0:3])), poly(ring(c[3:6]))])), ("c", poly(ring(c[6:9]))), ("", M([]))]

def set3(c):
    return [("bad", poly(ring(c[0:3]), valid=False)), ("line", poly(ring(c[3:6]), area=0)), ("none", geometry.Polygon()),
            ("ok", poly(ring(c[6:9])))]

def set4(c):
    M = geometry.MultiPolygon
    return [("z", M([poly(ring(c[0:3]), valid=False), poly(ring(c[3:6])), poly(ring(c[6:9]), area=0)]))]

def set5(c):
    return [("h", poly(ring(c[0:3]), [ring(c[3:6]), ring(c[6:9])]))]

def set6(c):
    c = [(p[0], p[1], 3*p[0] + 1) for p in c]
    return [("s", poly(ring(c[0:3]), [ring(c[3:6])])), ("t", poly(ring(c[6:9])))]

def points(e):
    p = e.to_points()
    return (isinstance(p, PointPixelElectrode), p.name, p.dc, p.rf, p.cover_nmax, p.cover_height, [a for a in p.areas],
            [(q[0], q[1]) for q in p.points], len(p.areas) == len(p.points))

def tri(p):
    p = pts(p)
    a, cx, cy = 0, 0, 0
    o = p[0]
    for i in range(1, len(p) - 1):
        q, r = p[i], p[i + 1]
        t = ((q[0] - o[0])*(r[1] - o[1]) - (r[0] - o[0])*(q[1] - o[1]))/2
        a, cx, cy = a + t, cx + t*(o[0] + q[0] + r[0])/3, cy + t*(o[1] + q[1] + r[1])/3
    return a, (cx/a, cy/a)

def wpoints(e):
    v = [tri(p) for p in e.paths]
    return (True, e.name, e.dc, e.rf, e.cover_nmax, e.cover_height, [x[0] for x in v], [x[1] for x in v], True)

def centroid(p):
    a, c = area_centroid(p)
    return a, (c[0], c[1])

def orient(e):
    return list(e.orientations())

def worient(e):
    r = []
    for p in e.paths:
        a = tri(p)[0]
        r.append(1 if a > 0 else -1)
    return r

def positive(e):
    """no outline is degenerate"""
    r = 1
    for p in e.paths:
        r = r*tri(p)[0]
    return r != 0

def positive1(p):
    return tri(p)[0] != 0

def electrode(paths, **kw):
    return PolygonPixelElectrode(paths=[np.array(p) for p in paths], **kw)

# -- nested outlines, coordinates given

def sq(x, y, w, s, k=0, h=None):
    h = w if h is None else h
    c = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    c = c[k:] + c[:k]
    return c if s > 0 else c[::-1]

def build(names, outlines):
    return System([electrode(o, name=n, dc=i + 1., rf=2. - i) for i, (n, o) in enumerate(zip(names, outlines))])

def other(s, k, e):
    r = System()
    for i, x in enumerate(s):
        if i == k:
            r.append(e)
        r.append(x)
    return r

def start(r):
    k = 0
    for i in range(len(r)):
        if r[i] < r[k]:
            k = i
    return r[k:] + r[:k]

def loops(ps):
    return sorted([start(pts(p)) for p in ps])

def inside(p, c):
    return geometry._side(p, ring(c)) > 0

def cells(s):
    """a point of each cell of the grid through all vertices"""
    xs, ys = [], []
    for e in s:
        if hasattr(e, "paths"):
            for p in e.paths:
                for q in pts(p):
                    xs.append(q[0])
                    ys.append(q[1])
    xs, ys = sorted(set(xs)), sorted(set(ys))
    return [((xs[i] + xs[i + 1])/2, (ys[j] + ys[j + 1])/2) for i in range(len(xs) - 1) for j in range(len(ys) - 1)]

def group(s):
    c = cells(s)
    return [(n, [g.has(p[0], p[1]) for p in c]) for n, g in Polygons.from_system(s)]

def wgroup(s):
    """metal is what the smallest outline around it says"""
    c = cells(s)
    r = []
    for e in s:
        if not hasattr(e, "paths"):
            continue
        ps = sorted([(abs(geometry.signed(ring(pts(p)))), geometry.signed(ring(pts(p))), pts(p)) for p in e.paths])
        has = []
        for q in c:
            v = False
            for a, b, p in reversed(ps):
                if inside(q, p):
                    v = b > 0
            has.append(v)
        r.append((e.name, has))
    return r

def back(s):
    return [(e.name, loops(e.paths)) for e in Polygons.from_system(s).to_system()]

def wback(s):
    return [(e.name, loops(e.paths)) for e in s if hasattr(e, "paths")]
'''

# outlines (x, y, w, direction, first vertex[, h]) of each electrode
NEST = [
    [[(0, 0, 1, 1, 0)]],
    [[(0, 0, 4, 1, 1), (1, 1, 2, -1, 2)], [(5, 0, 1, 1, 3), (7, 0, 2, 1, 0)]],
    [[(1, 1, 2, -1, 0), (0, 0, 4, 1, 0)]],
    [[(0, 0, 10, 1, 0), (1, 1, 8, -1, 1), (2, 2, 6, 1, 2), (3, 3, 4, -1, 3), (4, 4, 2, 1, 0)]],
    [[(4, 4, 2, 1, 1), (3, 3, 4, -1, 0), (1, 1, 8, -1, 2), (2, 2, 6, 1, 0), (0, 0, 10, 1, 3)]],
    [[(0, 0, 10, 1, 0), (1, 1, 2, -1, 0), (5, 5, 1, -1, 0), (7, 1, 2, -1, 3)], [(20, 0, 3, 1, 0)], [(30, 0, 3, 1, 2), (31, 1, 1, -1, 0)]],
    [[(0, 0, 4, 1, 0), (1, 1, 1, -1, 0), (10, 0, 3, 1, 0), (11, 1, 1, -1, 1), (20, 0, 2, 1, 0), (Fr(41, 2), Fr(1, 2), 1, -1, 0)]],
    [[(-3, -3, 2, 1, 0), (Fr(-5, 2), Fr(-5, 2), Fr(1, 2), -1, 0), (5, 5, 9, 1, 0), (6, 6, 5, -1, 0), (7, 7, 1, 1, 0), (9, 9, 1, 1, 0)]],
    [[(0, 0, Fr(1, 2), 1, 0), (Fr(1, 8), Fr(1, 8), Fr(1, 8), -1, 0), (1, 0, Fr(3, 4), 1, 1)]],
    [[(0, 0, 8, 1, 0), (1, 1, 2, -1, 0), (4, 4, 3, -1, 0), (5, 5, 1, 1, 0)], [(10, 10, 1, 1, 0)]],
]


def check(ck):
    I = ck.interp("electrode.polygons", "electrode.electrode", prep=geo)
    inj = dict((n, ck.attr(I, "polygons", n)) for n in ("Polygons",))
    inj.update((n, ck.attr(I, "electrode", n)) for n in ("PolygonPixelElectrode", "PointPixelElectrode", "CoverElectrode"))
    inj["System"] = ck.attr(I, "system", "System")
    inj["area_centroid"] = ck.attr(I, "utils", "area_centroid")
    m = ck.spec(I, SRC, "spec28", **inj)
    F = lambda n: I.get(m, n)
    L = lambda a: I.new_list(list(a))
    small = lambda: [l for l in ck.labs() if l.mode == "small"]

    def compare(key, where, impl, spec, mk, rule, pre=None, labs=None):
        def go():
            I.freeze()
            args = mk()
            cond = None
            if pre is not None:
                cond = pre(args)
            I.freeze()
            outs = []
            for f in (impl, spec):
                I.ov = {}
                o = ck.run(I, F(f), *args)
                outs.append((o, ck.cap(I, o.value)))
                if f == impl:
                    ck.note(I)
            I.ov = {}
            ck.agree(key, where, outs[0][0], outs[1][0], ("tuple", outs[0][1]), ("tuple", outs[1][1]), rule=rule, pre=cond,
                     labs=labs and labs())
        ck.guarded(key, go)

    W = "electrode/polygons.py: Polygons.%s"
    cs = [(T.atom("x%d" % i), T.atom("y%d" % i)) for i in range(12)]
    sizes = dict(set1=(3, 3, 3), set2=(3, 3, 3), set3=(3, 3, 3), set4=(3, 3, 3), set5=(3, 3, 3), set6=(3, 3, 3))
    for b, k in sorted(sizes.items()):
        nd = ck.run(I, F("areas"), L(cs), tuple(const(n) for n in k)).value
        I.freeze()
        compare("to_system/" + b, W % "to_system", "system", "wsystem", lambda b=b: [ck.run(I, F(b), L(cs)).value],
                "exteriors run counter-clockwise, holes clockwise, closing vertices are dropped, names and order are kept",
                pre=lambda a, nd=nd: nd, labs=small)

    E = lambda a: "electrode/electrode.py: PolygonPixelElectrode.%s" % a
    for key, n, extra in (("one", (3,), {}), ("three", (3, 4, 5), dict(cover_nmax=T.atom("nmax", "i"), cover_height=T.atom("h"))),
                          ("none", (), dict(cover_height=T.atom("h")))):
        def mk(n=n, extra=extra):
            ps = []
            for q, k in enumerate(n):
                ps.append(L([(T.atom("x%d_%d" % (q, i)), T.atom("y%d_%d" % (q, i))) for i in range(k)]))
            return [ck.run(I, F("electrode"), L(ps), name="n", dc=T.atom("dc"), rf=T.atom("rf"), **extra).value]
        compare("to_points/" + key, E("to_points"), "points", "wpoints", mk,
                "name, voltages and cover parameters are kept, every outline gives its signed area at its centroid",
                pre=lambda a: ck.run(I, F("positive"), *a).value)
        if n:
            compare("orientations/" + key, E("orientations"), "orient", "worient", mk, "the sign of every outline's area",
                    pre=lambda a: ck.run(I, F("positive"), *a).value, labs=small)
    for k in (3, 4, 6):
        compare("area_centroid/%d" % k, "electrode/utils.py: area_centroid", "centroid", "tri",
                lambda k=k: [npm.sym_array(I, "p", (const(k), const(2)))], "the polygon's signed area and centroid",
                pre=lambda a: ck.run(I, F("positive1"), *a).value)

    names = ("a", "b", "a", "c")
    for q, ns in enumerate(NEST):
        def mk(ns=ns, cover=None):
            os_ = L([L([ck.run(I, F("sq"), *[const(v) for v in o]).value for o in e]) for e in ns])
            s = ck.run(I, F("build"), L(names[:len(ns)]), os_).value
            if cover is not None:
                c = I.call(inj["CoverElectrode"], [], {})
                s = ck.run(I, F("other"), s, const(cover), c).value
            return [s]
        compare("from_system/%d" % q, W % "from_system", "group", "wgroup", mk,
                "every electrode's outlines become its polygons, each hole in the smallest outline around it")
        compare("there-and-back/%d" % q, W % "from_system, Polygons.to_system", "back", "wback", mk,
                "names, order and oriented outlines survive")
        if q in (1, 5):
            compare("from_system/cover%d" % q, W % "from_system", "group", "wgroup", lambda mk=mk: mk(cover=1),
                    "electrodes without outlines are left out")

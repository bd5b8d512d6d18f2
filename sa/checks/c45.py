"""Editing operations of polygon sets."""
from ..check import *
from .c27 import geo
from fractions import Fraction as Fr

DESC = ("The editing operations of Polygons are abstractly interpreted on sets of rectilinear shapes (with holes, several parts, overlapping, touching, nested, "
        "empty, equal names; shapely's classes are modelled, overlays by membership): the result is compared, cell by cell of the grid of all vertices, with the "
        "stated set operation; names and order stay, the given set stays; parameters handed to buffer, simplify and the smoothing spline are captured; pads are "
        "assigned one to one; pad positions follow from pitch, edge, and corner for unknown pitch.")

SRC = '''
import numpy as np
from shapely import geometry
G = geometry.Polygon
M = geometry.MultiPolygon

def box(x0, x1, y0, y1, *holes):
    return G([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], [[(h[0], h[2]), (h[1], h[2]), (h[1], h[3]), (h[0], h[3])] for h in holes])

def L(x, y, a, b):
    return G([(x, y), (x + b, y), (x + b, y + a), (x + a, y + a), (x + a, y + b), (x, y + b)])

def set0():
    return [("a", box(0, 4, 0, 4)), ("b", box(2, 6, 2, 6)), ("c", box(3, 8, 1, 3))]

def set1():
    return [("a", box(0, 9, 0, 9, (2, 7, 2, 7))), ("b", box(3, 6, 3, 6)), ("a", M([box(1, 5, 1, 5), box(8, 12, 8, 12)])), ("d", box(-1, 13, 4, 5))]

def set2():
    return [("x", L(0, 0, 2, 6)), ("y", M([box(1, 3, 1, 7), box(4, 5, -1, 1)])), ("x", L(-2, -2, 3, 5)), ("y", box(20, 21, 20, 22))]

def set3():
    return [("", box(0, 1, 0, 1)), ("", box(1, 2, 0, 1)), ("z", box(0, 2, 1, 2)), ("w", M([box(0, 5, 3, 5, (1, 2, 4 - 1/2, 4), (3, 4, 3 + 1/2, 4)), box(6, 7, 0, 1)]))]

def set4():
    return []

def set5():
    return [("m", M([box(0, 3, 0, 3), box(2, 5, 2, 5)])), ("n", M([box(1, 4, 1, 4)])), ("m", box(0, 5, 0, 5, (1, 2, 1, 2)))]

SETS = [set0, set1, set2, set3, set4, set5]

def grid(polys, extra=()):
    xs, ys = [-50, 50], [-50, 50]
    for n, g in list(polys) + [("", g) for g in extra]:
        for r in g.outlines():
            for p in r.coords:
                if p[0] not in xs:
                    xs.append(p[0])
                if p[1] not in ys:
                    ys.append(p[1])
    xs, ys = sorted(xs), sorted(ys)
    return [((xs[i] + xs[i + 1])/2, (ys[j] + ys[j + 1])/2) for i in range(len(xs) - 1) for j in range(len(ys) - 1)]

def member(g, pts):
    return __native_member__(g, pts)

def desc(polys, pts):
    return [(n, member(g, pts)) for n, g in polys]

def rings(g):
    return [[(p[0], p[1]) for p in r.coords] for r in g.outlines()]

def kept(p, before, polys):
    # the set itself is not changed
    if len(p) != len(polys):
        return False
    for a, b, r in zip(p, polys, before):
        if a[0] != b[0] or a[1] is not b[1] or rings(b[1]) != r:
            return False
    return True

def edit(op, k, args, extra=()):
    polys = SETS[k]()
    before = [rings(g) for n, g in polys]
    p = Polygons(polys)
    r = getattr(p, op)(*args)
    return isinstance(r, Polygons), r is p, desc(r, grid(polys, extra)), kept(p, before, polys)

def spec_overlaps(k):
    polys = SETS[k]()
    pts = grid(polys)
    r = []
    for i in range(len(polys)):
        m = member(polys[i][1], pts)
        for j in range(i):
            o = member(polys[j][1], pts)
            m = [a and not b for a, b in zip(m, o)]
        r.append((polys[i][0], m))
    return True, False, r, True

def spec_same(k):
    polys = SETS[k]()
    return True, False, desc(polys, grid(polys)), True

def spec_names(k):
    polys = SETS[k]()
    pts = grid(polys)
    names, r = [], []
    for n, g in polys:
        if n not in names:
            names.append(n)
    for n in names:
        m = [False]*len(pts)
        for nn, g in polys:
            if nn == n:
                m = [a or b for a, b in zip(m, member(g, pts))]
        r.append((n, m))
    return True, False, r, True

def spec_restrict(k, g):
    polys = SETS[k]()
    pts = grid(polys, [g])
    c = member(g, pts)
    return True, False, [(n, [a and b for a, b in zip(member(q, pts), c)]) for n, q in polys], True

def clip(k, i):
    g = [box(1, 4, -3, 5), box(-30, 30, -30, 30), L(0, 0, 3, 9), box(0, 9, 0, 9, (3, 5, 2, 4)), M([box(0, 1, 0, 2), box(3, 5, 3, 6)])][i]
    return edit("restrict", k, (g,), [g])

def wclip(k, i):
    g = [box(1, 4, -3, 5), box(-30, 30, -30, 30), L(0, 0, 3, 9), box(0, 9, 0, 9, (3, 5, 2, 4)), M([box(0, 1, 0, 2), box(3, 5, 3, 6)])][i]
    return spec_restrict(k, g)

def inside(k, e):
    return edit("within", k, (e,), [box(-e/2, e/2, -e/2, e/2)])

def winside(k, e):
    return spec_restrict(k, box(-e/2, e/2, -e/2, e/2))

def inside_default(k):
    return edit("within", k, (), [box(-25, 25, -25, 25)])

def made(r):
    return [(n, g._op, g._arg, g._opt) if isinstance(g, geometry.Made) else (n, "same", 0, True) for n, g in r]

def derived(op, k, args, kw, frail):
    polys = SETS[k]()
    for i in frail:
        polys[i][1]._frail = True
    before = [rings(g) for n, g in polys]
    p = Polygons(polys)
    r = getattr(p, op)(*args, **kw)
    return isinstance(r, Polygons), r is p, desc(r, grid(polys)), kept(p, before, polys), made(r)

def wderived(op, k, arg, opt, frail):
    polys = SETS[k]()
    return True, False, desc(polys, grid(polys)), True, [(polys[i][0], "same", 0, True) if i in frail else (polys[i][0], op, arg, opt) for i in range(len(polys))]

def valid(bad):
    polys = set1()
    for i, j in bad:
        (polys[i][1] if j < 0 else polys[i][1].geoms[j])._valid = False
    return Polygons(polys).validate()

def wvalid(bad):
    if len(bad):
        raise ValueError("invalid")

def small(c):
    # areas around 1e-2: outlines c wide
    polys = [("p", box(0, 1, 0, 1, (1/4, 3/4, 1/4, 1/4 + c))), ("q", box(2, 3, 0, c)), ("r", M([box(4, 5, 0, 1), box(6, 7, 0, c), box(8, 9, 0, 1, (8 + 1/4, 9 - 1/4, 1/4, 3/4))])),
             ("p", M([box(10, 11, 0, c)]))]
    return polys

def sift(c, deep):
    polys = small(c)
    before = [rings(g) for n, g in polys]
    p = Polygons(polys)
    r = p.filter() if deep is None else p.filter(None, deep)
    return isinstance(r, Polygons), r is p, desc(r, grid(polys)), kept(p, before, polys)

def sized(n, b):
    return abs(G(b).area) > 2 and n != "d" if isinstance(b, geometry.LinearRing) else False

def named(n, b):
    return n != "a" and b.area > 2 if isinstance(b, G) else False

def sift2(k, deep):
    polys = SETS[k]()
    before = [rings(g) for n, g in polys]
    p = Polygons(polys)
    r = p.filter(sized) if deep else p.filter(named, deep=False)
    return isinstance(r, Polygons), r is p, desc(r, grid(polys)), kept(p, before, polys)

def wsift(polys, test, deep):
    pts = grid(polys)
    r = []
    for n, g in polys:
        m, some = [False]*len(pts), False
        for q in (g.geoms if hasattr(g, "geoms") else [g]):
            if not (test(n, q.exterior) if deep else test(n, q)):
                continue
            some = True
            o = member(G(q.exterior), pts)
            for h in q.interiors:
                if not deep or test(n, h):
                    o = [a and not b for a, b in zip(o, member(G(h), pts))]
            m = [a or b for a, b in zip(m, o)]
        if some:
            r.append((n, m))
    return True, False, r, True

def wsift1(c, deep):
    return wsift(small(c), (lambda n, b: abs(G(b).area) > 1/100) if deep is None or deep else (lambda n, q: q.area > 1/100), deep is None or deep)

def wsift2(k, deep):
    return wsift(SETS[k](), sized if deep else named, deep)

def canon(rs):
    # rings as directionless closed outlines, in any order
    s = []
    for r in rs:
        t = 0
        for i in range(len(r) - 1):
            a, b = r[i], r[i + 1]
            t = t + (a[0] + b[0] + 3*(a[1] + b[1]) + 7)**2*((a[0] - b[0])**2 + 2*(a[1] - b[1])**2 + 1)
        s.append(t)
    return sorted(s)

def gaps(k):
    p = Polygons(SETS[k]())
    g = p.gaps_union()
    return canon([[(q[0], q[1]) for q in r.coords] for r in geometry._lines(g)])

def wgaps(k):
    r = []
    for n, g in SETS[k]():
        r = r + rings(g)
    return canon(r)

def pads(k, at):
    p = Polygons(SETS[k]())
    return [(a, b) for a, b in p.assign_to_pad(at)]

def wpads(k, at):
    polys = SETS[k]()
    done, r = [], []
    for j in range(len(at)):
        for i in range(len(polys)):
            if i not in done and geometry.Point(at[j][0], at[j][1]).intersects(polys[i][1]):
                r.append((j, i))
                done.append(i)
                break
    for i in range(len(polys)):
        if i not in done:
            r.append((None, i))
    return r

def square(step, edge, kw):
    return square_pads(step, edge, **kw)

def square_(step, edge, odd, corner):
    return square_pads(step=step, edge=edge, odd=odd, start_corner=corner)

def wsquare(step, edge, n, corner):
    a = edge/2 - step/2
    r = []
    for s in range(4):
        for i in range(n):
            t = (i - (n - 1)/2)*step
            r.append([(-a, -t), (t, -a), (a, t), (-t, a)][(s + corner) % 4])
    return np.array(r)

def moved(x, y, f):
    return [(f(a, b)) for a, b in zip(x, y)]

def smoothed(k, kw):
    polys = SETS[k]()
    before = [rings(g) for n, g in polys]
    p = Polygons(polys)
    r = p.smooth(**kw)
    return isinstance(r, Polygons), r is p, [(n, [([(q[0], q[1]) for q in g.exterior.coords], [[(q[0], q[1]) for q in h.coords] for h in g.interiors])
        for g in (m.geoms if hasattr(m, "geoms") else [m])]) for n, m in r], kept(p, before, polys)

def wsmoothed(k, spline, kw):
    def ring(r):
        c = [(q[0], q[1]) for q in r.coords]
        x, y = spline([q[0] for q in c], [q[1] for q in c], **kw)
        c = list(zip(x, y))
        return c + [c[0]] if len(c) and c[0] != c[-1] else c
    polys = SETS[k]()
    r = []
    for n, m in polys:
        parts = []
        for g in (m.geoms if hasattr(m, "geoms") else [m]):
            e = ring(g.exterior)
            if len(e) > 3:
                parts.append((e, [h for h in [ring(h) for h in g.interiors] if len(h) > 3]))
        r.append((n, parts))
    return True, False, r, True
'''
W = "electrode/polygons.py: "
NSETS = 6


def check(ck):
    I = ck.interp("electrode.polygons", prep=geo)
    m = ck.spec(I, SRC, "c45spec", Polygons=ck.attr(I, "polygons", "Polygons"), square_pads=ck.attr(I, "polygons", "square_pads"))
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "small"][:1]
    wide = [l for l in ck.labs() if l.mode == "rand"][:2]
    R = lambda *a: const(Fr(*a))

    def cmp(key, fn, spec, a, b, rule, labs=labs):
        w = W + fn

        def go():
            I.ov = {}
            o1 = ck.run(I, F(a[0]), *[x() if callable(x) and not hasattr(x, "fn") else x for x in a[1:]])
            ck.note(I)
            c1 = ck.cap(I, o1.value) if o1.value is not None else None
            I.ov = {}
            o2 = ck.run(I, F(b[0]), *[x() if callable(x) and not hasattr(x, "fn") else x for x in b[1:]])
            c2 = ck.cap(I, o2.value) if o2.value is not None else None
            ck.agree(key, w, o1, o2, c1, c2, labs=labs, rule=rule)
        ck.guarded(key, go)
    empty = lambda: ()
    for k in range(NSETS):
        n = "-%d" % k
        K = const(k)
        cmp("overlaps" + n, "Polygons.remove_overlaps", None, ("edit", "remove_overlaps", K, empty), ("spec_overlaps", K),
            "each electrode loses exactly what preceding ones cover")
        cmp("names" + n, "Polygons.unify_by_name", None, ("edit", "unify_by_name", K, empty), ("spec_names", K), "one union per name")
        cmp("unify" + n, "Polygons.unify", None, ("edit", "unify", K, empty), ("spec_same", K), "each electrode keeps its region, name and place")
        for i in range(5):
            cmp("restrict%s-%d" % (n, i), "Polygons.restrict", None, ("clip", K, const(i)), ("wclip", K, const(i)), "each electrode keeps its part inside the geometry")
        for e in (5, 8, 40):
            cmp("within%s-%d" % (n, e), "Polygons.within", None, ("inside", K, const(e)), ("winside", K, const(e)), "each electrode keeps its part inside the centred square")
        cmp("within%s-default" % n, "Polygons.within", None, ("inside_default", K), ("winside", K, const(50)), "the default square has edges of length 50")
        cmp("gaps" + n, "Polygons.gaps_union", None, ("gaps", K), ("wgaps", K), "all boundaries of all electrodes")
        for j, at in enumerate(PADS):
            pts = lambda at=at: I.new_list([(R(*x), R(*y)) for x, y in at])
            cmp("pads%s-%d" % (n, j), "Polygons.assign_to_pad", None, ("pads", K, pts), ("wpads", K, pts), "each pad gets the first free electrode under it; the rest are unmatched")
        g = T.atom("gap")
        fr = [()] + ([(0,)] if k in (0, 1) else []) + ([(1, 2)] if k == 2 else [])
        for f in fr:
            fl = lambda f=f: tuple(const(q) for q in f)
            nn = n + "".join("f%d" % q for q in f)
            cmp("add_gaps" + nn, "Polygons.add_gaps", None, ("derived", "add_gaps", K, (g,), lambda: I.new_dict({}), fl), ("wderived", "buffer", K, T.div(g, const(-2)), TRUE, fl),
                "each electrode is shrunk by half a gap, or kept where that is not valid", wide)
        for opt in (None, TRUE, FALSE):
            kw = lambda opt=opt: I.new_dict({} if opt is None else {("s", "preserve_topology"): ("preserve_topology", opt)})
            cmp("simplify%s-%s" % (n, opt is not None and opt.x[1]), "Polygons.simplify", None, ("derived", "simplify", K, (R(3, 7),), kw, empty),
                ("wderived", "simplify", K, R(3, 7), FALSE if opt is None else opt, empty), "each electrode is simplified with the given tolerance")
        cmp("simplify%s-zero" % n, "Polygons.simplify", None, ("edit", "simplify", K, empty), ("spec_same", K), "no tolerance keeps the region")
        for deep in (TRUE, FALSE):
            cmp("filter%s-%s" % (n, deep.x[1]), "Polygons.filter", None, ("sift2", K, deep), ("wsift2", K, deep), "exactly what passes the test stays")
    for c in ((1, 50), (1, 200)):
        for deep in (None, TRUE, FALSE):
            cmp("filter-%d-%s" % (c[1], deep is not None and deep.x[1]), "Polygons.filter", None, ("sift", R(*c), deep), ("wsift1", R(*c), deep), "areas below 1e-2 are dropped")
    for bad in ((), ((1, -1),), ((2, 1),), ((0, -1), (3, -1)), ((3, -1),)):
        bl = lambda bad=bad: tuple((const(i), const(j)) for i, j in bad)
        cmp("validate-" + "".join("%d%d" % q for q in bad).replace("-", "m"), "Polygons.validate", None, ("valid", bl), ("wvalid", bl), "raises exactly for invalid shapes")
    for step, edge, odd, n in ((10, 200, 0, 20), (10, 200, 1, 21), (4, 21, 0, 5), (3, 10, 0, 3), (Fr(1, 2), 2, 0, 4), (Fr(1, 2), 2, 1, 5), (7, 7, 0, 1), (2, 13, 1, 7)):
        for c in range(4):
            cmp("square-%s-%s-%d-%d" % (step, edge, odd, c), "square_pads", None, ("square_", R(step), R(edge), TRUE if odd else FALSE, const(c)),
                ("wsquare", R(step), R(edge), const(n), const(c)), "pads are spaced by the pitch, inwards by half of it, counter clockwise from the corner")
    cmp("square-defaults", "square_pads", None, ("square", R(10), R(200), lambda: I.new_dict({})), ("wsquare", R(10), R(200), const(20), const(0)), "defaults: even number, from the top left")
    smoothing(ck, I, F, cmp, labs)


PADS = ((((1, 2), (1, 2)), ((5, 1), (5, 1)), ((7, 1), (2, 1)), ((30, 1), (1, 1))),
        (((9, 2), (9, 2)), ((7, 2), (7, 2)), ((1, 2), (3, 2)), ((1, 2), (1, 2)), ((4, 1), (9, 2)), ((-1, 1), (-1, 1))),
        (),
        (((1, 2), (1, 2)),)*6)


def smoothing(ck, I, F, cmp, labs):
    def spline(I, a, k):
        x, y = [I.items_of(I.resolve(v)) if not isinstance(I.resolve(v), (Arr, npm.Snap)) else I.iterate(v) for v in a[:2]]
        x, y = list(x), list(y)
        n = len(x) if len(x) != 7 else 2
        w = k.get("smoothing", a[2] if len(a) > 2 else const(1))
        if [q for q in k if q not in ("smoothing", "corner")]:
            raise AnalysisError("smooth called with other arguments")
        w = T.add(w, T.mul(const(7), k.get("corner", const(1))))
        lin = lambda p, q, r: I.call(I.externs["numpy"].table["array"], [I.new_list([
            I.binop("Add", I.binop("Mult", const(p), x[i]), I.binop("Add", I.binop("Mult", const(q), y[i]), const(r))) for i in range(n)])], {})
        return (lin(2, 1, 1), lin(-1, 3, 5))
    I.stubs["polygons.smooth"] = spline
    b = Builtin("spline", spline)
    for k in range(NSETS):
        for j, kw in enumerate(({}, {"smoothing": const(3)}, {"corner": const(2), "smoothing": const(Fr(1, 3))})):
            d = lambda kw=kw: I.new_dict(dict((("s", n), (n, v)) for n, v in kw.items()))
            cmp("smooth-%d-%d" % (k, j), "Polygons.smooth", None, ("smoothed", const(k), d), ("wsmoothed", const(k), b, d),
                "every outline is smoothed as asked; outlines stay with their electrode")

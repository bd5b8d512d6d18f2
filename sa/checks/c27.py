from ..check import *
import os
from fractions import Fraction as Fr

DESC = ("Polygons.to_gds and from_gds are abstractly interpreted against models of the shapely and gdsii classes they use (the geometry's "
        "validity, emptiness, area and clipping results are given; an operation outside the model leaves the obligation undecided) on "
        "polygon sets with unknown coordinates, length scale and file unit, named and unnamed, single and multi-part, with holes, all "
        "layer choices, gap width and clipping outcomes; the written elements (kind, layers, integer coordinates, attribute, text, "
        "width) and the data handed to Polygons.from_data are compared with the interface's, and a written set is read back.")

SRC = '''
import numpy as np
from shapely import geometry
from gdsii import elements, library, structure

class Known(geometry.Polygon):
    """a polygon whose clipping to the square of edge 10 is given"""
    def __init__(self, c, holes=(), clip=None):
        geometry.Polygon.__init__(self, c, holes)
        self._area = 1
        self._clip = clip
        self._inter = clipped

def clipped(self, field):
    c = list(field.exterior.coords)
    ok = len(c) == 5 and abs(geometry.signed(c)) == 100 and all([abs(p[0]) == 5 and abs(p[1]) == 5 for p in c])
    if not ok or field.interiors:
        return Known([(91, 91), (92, 91), (92, 92), (91, 91)])
    return self if self._clip is None else self._clip

def grid(c, s, u):
    r = np.rint(np.array([[p[0], p[1]] for p in c])*s/u).astype(int)
    return [[r[i, 0], r[i, 1]] for i in range(len(r))]

def plain(e):
    a = np.array(e.xy)
    if a.dtype.kind not in "iu":
        return "coordinates that are not integers", None
    return "integers", [[a[i, 0], a[i, 1]] for i in range(len(a))]

def props(e):
    return sorted(dict(e.properties).values()) if e.properties else []

def dump(lib):
    head = (lib.physical_unit, len(lib), lib[0].name)
    bs = [(e.layer, e.data_type, plain(e), props(e)) for e in lib[0] if isinstance(e, elements.Boundary)]
    ts = [(e.layer, e.text_type, plain(e), e.string) for e in lib[0] if isinstance(e, elements.Text)]
    ps = [(e.layer, e.data_type, plain(e), e.width) for e in lib[0] if isinstance(e, elements.Path)]
    return head, bs, ts, ps, len(lib[0]) == len(bs) + len(ts) + len(ps)

def keys(lib):
    r = []
    for e in lib[0]:
        if isinstance(e, elements.Boundary) and e.properties:
            r.extend(list(dict(e.properties).keys()))
    return r

def write(polys, kw):
    return dump(Polygons(polys).to_gds(**kw))

def parts(g):
    if isinstance(g, geometry.Polygon):
        return [] if g.is_empty else [g]
    if hasattr(g, "geoms"):
        r = []
        for p in g.geoms:
            r.extend(parts(p))
        return r
    return []

def wwrite(polys, kw):
    get = kw.get
    s, u, edge = get("scale", 1.), get("phys_unit", 1e-9), get("edge", None)
    pl, gl, tl = get("poly_layer", (0, 0)), get("gap_layer", (1, 0)), get("text_layer", (0, 0))
    name = get("name", "trap_electrodes").encode("ascii")
    bs, ts, ps = [], [], []
    for n, g in polys:
        for p in parts(g):
            for q in (parts(p._clip) if edge and p._clip is not None else [p]):
                xy = grid(q.exterior.coords, s, u)
                a = [n.encode("ascii")] if n else []
                if pl is not None:
                    bs.append((pl[0], pl[1], ("integers", xy), a))
                if tl is not None and n:
                    ts.append((tl[0], tl[1], ("integers", xy[:1]), n.encode("ascii")))
                if gl is not None:
                    for r in [q.exterior] + list(q.interiors):
                        ps.append((gl[0], gl[1], ("integers", grid(r.coords, s, u)), int(get("gap_width", 0.)*s/u)))
    return (u, 1, name), bs, ts, ps, True

def ring(a):
    return list(a) + [a[0]]

def sample(c):
    """c: list of 40 (x, y)"""
    P = geometry.MultiPolygon
    return [("a", Known(ring(c[0:3]))),
            ("", Known(ring(c[3:7]), [ring(c[7:10]), ring(c[10:14])])),
            ("bc", P([Known(ring(c[14:17])), Known(ring(c[17:20]), [ring(c[20:23])])])),
            ("none", P([])),
            ("d1", Known(ring(c[23:26])))]

def clips(c):
    P, G = geometry.MultiPolygon, geometry.GeometryCollection
    K = lambda i, clip: Known(ring(c[i:i + 3]), (), clip)
    return [("in", K(0, None)),
            ("cut", K(3, Known(ring(c[6:10]), [ring(c[10:13])]))),
            ("split", K(13, P([Known(ring(c[16:19])), Known(ring(c[19:22]))]))),
            ("out", K(22, geometry.Polygon())),
            ("far", K(22, G([]))),
            ("touch", K(25, geometry.LineString(c[25:27]))),
            ("corner", K(25, geometry.Point(c[27]))),
            ("mixed", K(28, G([geometry.Point(c[28]), Known(ring(c[29:32]))]))),
            ("multi", P([K(32, geometry.Polygon()), K(32, Known(ring(c[35:38]))), K(38 - 3, None)]))]

def one(c):
    return [("x", Known(ring(c[0:4]), [ring(c[4:7])]))]

def empties(c):
    return [("e", geometry.Polygon()), ("f", Known(ring(c[0:3])))]

def nothing(c):
    return []

def library_(cells, unit):
    lib = library.Library(5, b"lib", unit, 1e-3)
    for name, els in cells:
        s = structure.Structure(name)
        for e in els:
            s.append(e)
        lib.append(s)
    return lib

def named(e, key, n):
    e.properties = [(key, n)] if n is not None else []
    return e

def cell(c, key):
    B, P, T = elements.Boundary, elements.Path, elements.Text
    return [named(B(0, 0, ring(c[0:3])), key, b"a"),
            named(P(1, 0, c[3:5]), key, None),
            named(T(0, 0, c[5:6], b"ta"), key, b"ta"),
            named(B(13, 6, ring(c[6:9])), key, None),
            named(B(6, 13, ring(c[9:12])), key, b"bc"),
            named(P(2, 0, c[12:15]), key, b"route"),
            named(P(3, 1, c[15:17]), key, None),
            named(P(3, 2, c[17:19]), key, None),
            named(P(1, 0, c[19:20]), key, None),
            named(elements.Node(1, 0, c[20:21]), key, None),
            named(T(5, 0, c[21:22], b"tb"), key, None),
            named(T(5, 3, c[22:24], b"tc"), key, None)]

def lib2(c, unit, key):
    return library_([(b"one", cell(c, key)), (b"two", cell(c[10:], key)), (b"three", [])], unit)

def plist(a, s):
    r = []
    for x in a:
        x = np.asarray(x)
        r.append([[x[i, 0], x[i, 1]] for i in range(len(x))])
    return r

def canon(r):
    po, ga, ro, br, na, rest = r
    return ([(n, plist([p], 1)) for n, p in po], plist(ga, 1), plist(ro, 1), plist(br, 1), [(n, [p[0], p[1]]) for n, p in na], rest)

def read(lib, kw):
    library._files[:] = [lib]
    return canon(Polygons.from_gds("file", **kw))

def wread(lib, kw):
    get = kw.get
    s, name = get("scale", 1.), get("name", None)
    own = ("scale", "name", "poly_layers", "gap_layers", "route_layers", "bridge_layers", "name_layers")
    st = [x for x in lib if name is None or x.name == name.encode("ascii")][0]
    po, ga, ro, br, na = [], [], [], [], []
    for e in st:
        p = [[a*lib.physical_unit/s, b*lib.physical_unit/s] for a, b in e.xy]
        if isinstance(e, elements.Boundary):
            if get("poly_layers") is None or (e.layer, e.data_type) in get("poly_layers"):
                n = [v for k, v in e.properties]
                po.append((n[0].decode() if n else "", np.array(p)))
        elif isinstance(e, elements.Path):
            if len(p) < 2:
                continue
            ij = e.layer, e.data_type
            if get("gap_layers") is None or ij in get("gap_layers"):
                ga.append(p)
            elif ij in get("route_layers", []):
                ro.append(p)
            elif ij in get("bridge_layers", []):
                br.append(p)
        elif isinstance(e, elements.Text):
            if get("name_layers") is None or e.layer in get("name_layers"):
                na.append((e.string.decode(), p[0]))
    return canon((po, ga, ro, br, na, dict([(k, v) for k, v in kw.items() if k not in own])))

def start(r):
    k = 0
    for i in range(len(r)):
        if r[i] < r[k]:
            k = i
    return r[k:] + r[:k]

def shape(g):
    c = [(p[0], p[1]) for p in list(g.exterior.coords)[:-1]]
    if not g.exterior.is_ccw:
        c = c[::-1]
    return start(c), len(g.interiors)

def outlines(polys):
    r = []
    for n, g in polys:
        for p in parts(g):
            r.append((n, shape(p)))
    return sorted(r)

def trip(polys, kw, rkw):
    lib = Polygons(polys).to_gds(**kw)
    for e in lib[0]:
        if e.properties is None:
            e.properties = []
    library._files[:] = [lib]
    return outlines(Polygons.from_gds("file", **rkw))

def wtrip(polys, kw, rkw):
    r = []
    for n, g in polys:
        for p in parts(g):
            r.append((n, (shape(p)[0], 0)))
    return sorted(r)

def boxes(names):
    r = []
    for i, n in enumerate(names):
        x, w = 3*(i % 4) - 6, 1 + i % 2
        y = 3*(i // 4) - 4
        c = [(x, y), (x + w, y), (x + w, y + 2), (x + w/4, y + 5/4)]
        if i % 2:
            c = c[::-1]
        r.append((n, geometry.Polygon(c)))
    return r

def multi():
    P = geometry.Polygon
    return [("m", geometry.MultiPolygon([P([(0, 0), (1, 0), (1, 1)]), P([(4, 0), (5, 0), (5, 1)])])),
            ("n", P([(1, 0), (2, 0), (2, 2), (1, 2)])), ("o", P([(1, 2), (2, 2), (2, 3)]))]
'''
ANYEXC = ("ValueError", "KeyError", "LookupError", "IndexError", "AssertionError", "RuntimeError", "Exception", "NameError", "TypeError",
          "OSError", "StopIteration")


class Native(object):
    """membership, area and rectilinearity of shapes with given coordinates,
    computed on the python side (None: some coordinate is not a number)"""

    def __init__(self, I):
        self.I = I
        self.cache = {}
        for n in ("where", "area", "rect", "member"):
            I.builtins["__native_%s__" % n] = Builtin(n, lambda I, a, k, f=getattr(self, n): f(*a))

    def num(self, v):
        v = self.I.resolve(v)
        if isinstance(v, Node) and T.isconst(v) and v.sort in "ir":
            return T.cval(v)
        raise LookupError

    def ring(self, r):
        return [tuple(self.num(q) for q in self.I.items_of(self.I.resolve(p))[:2]) for p in self.I.items_of(self.I.resolve(self.I.getattr_(r, "coords")))]

    def shape(self, g):
        I = self.I
        g = I.resolve(g)
        if not isinstance(g, PObj):
            raise LookupError
        if id(g) in self.cache:
            return self.cache[id(g)][1]
        names = [c.name for c in I.mro(g.cls)] if hasattr(I, "mro") else [c.name for c in g.cls.mro]
        if "Region" in names:
            r = (I.getattr_(g, "_op"), self.shape(I.getattr_(g, "_a")), self.shape(I.getattr_(g, "_b")))
        elif "Made" in names:
            r = self.shape(I.getattr_(g, "_of"))
        elif "BaseMulti" in names:
            return ("U", [self.shape(p) for p in I.items_of(g)])
        elif "Polygon" in names and "Rest" not in names:
            r = ("P", self.ring(I.getattr_(g, "exterior")), [self.ring(h) for h in I.items_of(I.resolve(I.getattr_(g, "interiors")))])
        else:
            raise LookupError
        self.cache[id(g)] = (g, r)
        return r

    def rings(self, s):
        if s[0] == "P":
            return [s[1]] + s[2]
        if s[0] == "U":
            return [r for p in s[1] for r in self.rings(p)]
        return self.rings(s[1]) + self.rings(s[2])

    def side(self, x, y, c):
        k = False
        for (a, b), (d, e) in zip(c, c[1:]):
            z = (d - a)*(y - b) - (e - b)*(x - a)
            if z == 0 and min(a, d) <= x <= max(a, d) and min(b, e) <= y <= max(b, e):
                return 0
            if (b > y) != (e > y) and (z > 0) == (e > b):
                k = not k
        return 1 if k else -1

    def pos(self, s, x, y):
        r = self.side(x, y, s[1])
        if r > 0:
            for h in s[2]:
                t = self.side(x, y, h)
                if t >= 0:
                    return -t
        return r

    def has(self, s, x, y):
        if s[0] == "P":
            return self.pos(s, x, y) > 0
        if s[0] == "U":
            return any(self.has(p, x, y) for p in s[1])
        a, b = self.has(s[1], x, y), self.has(s[2], x, y)
        return {"-": a and not b, "|": a or b, "^": a != b, "&": a and b}[s[0]]

    def where(self, g, p):
        try:
            x, y = [self.num(q) for q in self.I.items_of(self.I.resolve(p))[:2]]
            return const(self.pos(self.shape(g), x, y))
        except LookupError:
            return None

    def member(self, g, pts):
        s = self.shape(g)
        return self.I.new_list([const(bool(self.has(s, *[self.num(q) for q in self.I.items_of(self.I.resolve(p))]))) for p in self.I.items_of(self.I.resolve(pts))])

    def rect(self, g):
        try:
            return const(all(a == d or b == e for r in self.rings(self.shape(g)) for (a, b), (d, e) in zip(r, r[1:])))
        except LookupError:
            return None

    def area(self, g):
        try:
            s = self.shape(g)
        except LookupError:
            return None
        rs = self.rings(s)
        xs, ys = sorted({p[0] for r in rs for p in r}), sorted({p[1] for r in rs for p in r})
        return const(sum(((xs[i + 1] - xs[i])*(ys[j + 1] - ys[j]) for i in range(len(xs) - 1) for j in range(len(ys) - 1)
                          if self.has(s, Fr(xs[i] + xs[i + 1])/2, Fr(ys[j] + ys[j + 1])/2)), Fr(0)))


def geo(I):
    Native(I)
    I.stubdirs = list(I.stubdirs) + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs_geo")]


def coords(n, rat=None):
    if rat:
        from fractions import Fraction as F
        out = []
        for i in range(n):
            out.append((const(F((7*i*i + 3*i + 11) % 101 - 50, rat)), const(F((5*i*i*i + 2*i + 29) % 97 - 48, rat))))
        return out
    return [(T.atom("x%d" % i), T.atom("y%d" % i)) for i in range(n)]


def handed(I, a, k):
    """what a call of from_data(polys, gaps, routes, bridges, names, edge, buffer) hands over"""
    ns = ["polys", "gaps", "routes", "bridges", "names", "edge", "buffer"]
    if len(a) > 1 + len(ns) or [x for x in k if x not in ns]:
        raise AnalysisError("from_data called with other arguments")
    d = dict(zip(ns, a[1:]))
    d.update(k)
    vals = [d.pop(n) if n in d else I.new_list([]) for n in ns[:5]]
    return tuple(vals) + (I.new_dict(dict((("s", n), (n, v)) for n, v in d.items())),)


def check(ck):
    I = ck.interp("electrode.polygons", prep=geo)
    m = ck.spec(I, SRC, "spec27", Polygons=ck.attr(I, "polygons", "Polygons"))
    F = lambda n: I.get(m, n)
    W = "electrode/polygons.py: Polygons.%s"

    def kw(d):
        return I.new_dict(dict((("s", n), (n, v)) for n, v in d.items()))

    def mk(build, *args):
        def go():
            v = ck.run(I, F(build), *args)
            if v.excs or v.live is FALSE:
                raise AnalysisError("the model of the geometry fails: %s" % (v.excs[:1],))
            return v.value
        return go
    from fractions import Fraction as Fr
    L = lambda a: I.new_list(a)
    t = lambda *a: tuple(const(x) for x in a)
    s, u, g = T.atom("scale"), T.atom("unit"), T.atom("width")

    def written(key, build, d, n=40):
        """unknown coordinates first; where only the rounding is written differently, coordinates of the file's grid decide"""
        def attempt(sub, rat):
            sub_ck = ck
            cs = coords(n, rat)
            dd = dict(d)
            if rat:
                dd.update(scale=const(Fr(1, 20000)) if "scale" in d else None, phys_unit=const(Fr(1, 10**8)) if "phys_unit" in d else None)
                if "gap_width" in d:
                    dd["gap_width"] = const(Fr(3, 50))
                dd = dict((k, v) for k, v in dd.items() if v is not None)
            I.freeze()
            polys = mk(build, L([tuple(c) for c in cs]))()
            I.freeze()
            outs = []
            for f in ("write", "wwrite"):
                I.ov = {}
                o = ck.run(I, F(f), polys, kw(dd))
                outs.append((o, ck.cap(I, o.value)))
                if f == "write":
                    ck.note(I)
            I.ov = {}
            nv, nu = len(ck.violations), len(ck.undecided)
            r = ck.agree(sub, W % "to_gds", outs[0][0], outs[1][0], ("tuple", outs[0][1]), ("tuple", outs[1][1]),
                         rule="the elements written carry the layers, integer coordinates, names and widths asked for")
            if r is False and not rat and not [x for x in outs[0][0].excs]:
                v = ck.violations[nv:]
                del ck.violations[nv:]
                return v
            return r

        def go():
            r = attempt(key, None)
            if isinstance(r, list):
                bad = False
                for q, rat in enumerate((1, 7, 23)):
                    if attempt(key + "/grid%d" % rat, rat) is False:
                        bad = True
                        break
                if not bad:
                    ck.unknown(key, "differs in the rounding of unknown coordinates only")
        ck.guarded(key, go)
    base = dict(scale=s, phys_unit=u)
    written("write/defaults", "sample", {})
    written("write/scaled", "sample", base)
    written("write/layers", "sample", dict(base, poly_layer=t(7, 3), gap_layer=t(8, 2), text_layer=t(9, 1), gap_width=g, name="cell"))
    for k in ("poly_layer", "gap_layer", "text_layer"):
        written("write/no-" + k, "sample", dict(base, **{k: None}))
    written("write/width", "one", dict(base, gap_width=g))
    written("write/empty", "empties", base)
    written("write/nothing", "nothing", base)
    written("write/clip", "clips", dict(base, edge=const(10)))
    written("write/clip-layers", "clips", dict(base, edge=const(10), poly_layer=t(7, 3), gap_layer=t(8, 2), text_layer=t(9, 1)))

    # rounding to the nearest unit, decided on given coordinates
    def rounded(rat, unit):
        key = "write/round/%d" % rat

        def go():
            I.freeze()
            polys = mk("sample", L([tuple(c) for c in coords(40, rat)]))()
            I.freeze()
            outs = []
            for f in ("write", "wwrite"):
                I.ov = {}
                o = ck.run(I, F(f), polys, kw(dict(scale=const(1), phys_unit=const(unit))))
                outs.append((o, ck.cap(I, o.value)))
            I.ov = {}
            ck.agree(key, W % "to_gds", outs[0][0], outs[1][0], ("tuple", outs[0][1]), ("tuple", outs[1][1]),
                     rule="coordinates are those of the nearest grid point of the file")
        ck.guarded(key, go)
    for rat, unit in ((7, 1), (13, Fr(1, 10)), (11, 3)):
        rounded(rat, unit)

    # the attribute number that the writer uses
    I.ov = {}
    key = None

    def attr():
        nonlocal key
        cs = coords(8)
        polys = mk("one", L([tuple(c) for c in cs]))()
        lib = ck.run(I, I.getattr_(I.call(I.getattr_(m, "Polygons"), [polys], {}), "to_gds"))
        v = ck.run(I, F("keys"), lib.value)
        ks = I.items_of(v.value)
        if len(ks) == 1 and isinstance(ks[0], Node) and T.isconst(ks[0]):
            key = ks[0]
    ck.guarded("write/attribute", attr)
    I.ov = {}
    if key is None:
        ck.unknown("read", "the attribute number that carries the name was not found")
    else:
        reads(ck, I, m, F, W, kw, key, L, t)
    trips(ck, I, m, F, W, kw, L, t)
    ck.guarded("xic", lambda: xic(ck))


def reads(ck, I, m, F, W, kw, key, L, t):
    s, u = T.atom("scale"), T.atom("unit")
    pl = lambda *a: L([t(*x) for x in a])

    def one(k, d):
        def go():
            I.freeze()
            lib = ck.run(I, F("lib2"), L([tuple(c) for c in coords(40)]), u, key).value
            I.freeze()
            outs = []
            I.stubs["polygons.Polygons.from_data"] = handed
            try:
                for f in ("read", "wread"):
                    I.ov = {}
                    o = ck.run(I, F(f), lib, kw(d))
                    outs.append((o, ck.cap(I, o.value)))
                    if f == "read":
                        ck.note(I)
            finally:
                del I.stubs["polygons.Polygons.from_data"]
            I.ov = {}
            ck.agree("read/" + k, W % "from_gds", outs[0][0], outs[1][0], ("tuple", outs[0][1]), ("tuple", outs[1][1]),
                     rule="outlines, paths and names of the chosen layers are handed on in length units with their names")
        ck.guarded("read/" + k, go)
    one("defaults", {})
    one("scaled", dict(scale=s))
    one("cell-one", dict(scale=s, name="one"))
    one("cell-two", dict(scale=s, name="two"))
    one("cell-three", dict(scale=s, name="three"))
    one("polys", dict(scale=s, poly_layers=pl((0, 0), (6, 13))))
    one("no-polys", dict(scale=s, poly_layers=L([])))
    one("gaps", dict(scale=s, gap_layers=pl((1, 0), (3, 2))))
    one("gap-order", dict(scale=s, gap_layers=pl((0, 1), (2, 3), (1, 3))))
    one("routes", dict(scale=s, gap_layers=pl((1, 0)), route_layers=pl((2, 0)), bridge_layers=pl((3, 1))))
    one("bridges", dict(scale=s, gap_layers=L([]), route_layers=pl((3, 2), (1, 0)), bridge_layers=pl((2, 0), (3, 2))))
    one("names", dict(scale=s, name_layers=L([const(5)])))
    one("no-names", dict(scale=s, name_layers=L([])))
    one("all", dict(scale=s, name="two", poly_layers=pl((13, 6)), gap_layers=pl((2, 0)), route_layers=pl((3, 1)),
                    bridge_layers=pl((3, 2)), name_layers=L([const(0)])))
    one("options", dict(scale=s, edge=T.atom("edge"), buffer=T.atom("buffer")))

    def missing(k, n):
        def go():
            I.freeze()
            lib = ck.run(I, F("lib2"), L([tuple(c) for c in coords(40)]), u, key).value
            I.freeze()
            I.stubs["polygons.Polygons.from_data"] = handed
            try:
                o = ck.run(I, F("read"), lib, kw(dict(name=n)))
            finally:
                del I.stubs["polygons.Polygons.from_data"]
            I.ov = {}
            ck.raises("read/missing/" + k, W % "from_gds (a cell that is not in the file)", o, ANYEXC)
        ck.guarded("read/missing/" + k, go)
    missing("other", "four")
    missing("empty", "")
    missing("prefix", "thre")


def trips(ck, I, m, F, W, kw, L, t):
    from fractions import Fraction as Fr
    sc = dict(scale=const(Fr(1, 20000)))

    def one(k, build, d, r, *args):
        def go():
            I.freeze()
            polys = ck.run(I, F(build), *args).value
            I.freeze()
            outs = []
            for f in ("trip", "wtrip"):
                I.ov = {}
                o = ck.run(I, F(f), polys, kw(d), kw(r))
                outs.append((o, ck.cap(I, o.value)))
            I.ov = {}
            ck.agree("trip/" + k, W % "to_gds, from_gds", outs[0][0], outs[1][0], ("tuple", outs[0][1]), ("tuple", outs[1][1]),
                     rule="a set that was written is read back with its names and outlines")
        ck.guarded("trip/" + k, go)
    no = dict(gap_layers=L([]))
    names = [L(["a", "b", "c"]), L(["a", "", "b", "cc", "d"]), L(["", ""]), L(["rf", "dc1", "dc2", "", "dc3", "dc4", "x", "dc1"])]
    for q, n in enumerate(names):
        one("boxes%d" % q, "boxes", sc, dict(sc, **no), n)
    one("no-text", "boxes", dict(sc, text_layer=None), dict(sc, **no), names[3])
    one("no-gaps", "boxes", dict(sc, gap_layer=None), sc, names[3])
    one("unit", "boxes", dict(sc, phys_unit=const(Fr(1, 10**7))), dict(sc, **no), names[3])
    one("layers", "boxes", dict(sc, poly_layer=t(7, 3), gap_layer=t(8, 2), text_layer=t(9, 1), name="cell"),
        dict(sc, name="cell", poly_layers=L([t(7, 3)]), gap_layers=L([]), name_layers=L([const(9)])), names[3])
    one("multi", "multi", sc, dict(sc, **no))


XIC = '''
import numpy as np

def text(outlines, extra, nl):
    r = []
    if extra:
        r.extend(["(Symbol trap);", "9 trap;", "DS 0 1 1;", "L METAL;", ""])
    for k, o in enumerate(outlines):
        if extra and k % 2:
            r.extend(["L GAP;", "", "94 name 3 4;", "5 22 0;"])
        r.append("P " + o[0])
        for c in o[1:-1]:
            r.append("  " + c)
        r.append("  " + o[-1] + ";")
    if extra:
        r.extend(["DF;", "E"])
    return [l + nl for l in r]

def want(outlines):
    return [[[float(x)*1e-8 for x in c.split()] for c in o] for o in outlines]

def rows(es):
    return [np.array(e).tolist() for e in es]

def got(f, outlines, extra, nl):
    return rows(f(text(outlines, extra, nl)))

def expected(f, outlines, extra, nl):
    return rows(want(outlines))
'''


def xic(ck):
    I = ck.interp("electrode.xic")
    f = ck.attr(I, "xic", "xic_to_list")
    m = ck.spec(I, XIC, "specxic")
    L = lambda a: I.new_list(a)
    tri = L(["0 0", "1000 0", "1000 2500", "0 0"])
    quad = L(["-300 17", "4000 -17", "4001 250.5", "-3e2 250", "-300 17"])
    long = L(["%d %d" % (7*k, k*k - 40) for k in range(9)])
    hole = L(["0 0", "100 0", "100 100", "50 100", "50 50", "40 50", "40 60", "50 60", "50 50", "50 100", "0 100", "0 0"])
    for k, (o, extra, nl) in enumerate([([hole], FALSE, "\n"), ([tri, hole, tri], TRUE, "\n"), ([tri], FALSE, "\n"), ([tri], FALSE, ""), ([tri, quad], FALSE, "\n"), ([quad, long, tri, quad], TRUE, "\n"),
                                        ([long, tri], TRUE, "\r\n"), ([], TRUE, "\n"), ([], FALSE, "\n"), ([L(["1 2", "3 4"])], FALSE, "\n")]):
        def go():
            lines = L(o)
            I.freeze()
            outs = []
            for g in ("got", "expected"):
                I.ov = {}
                v = ck.run(I, I.get(m, g), f, lines, extra, nl)
                outs.append((v, ck.cap(I, v.value)))
                if g == "got":
                    ck.note(I)
            I.ov = {}
            ck.agree("xic/%d" % k, "electrode/xic.py: xic_to_list", outs[0][0], outs[1][0], ("tuple", outs[0][1]), ("tuple", outs[1][1]),
                     rule="every outline of the text file is read with all its corners, in order and in length units")
        ck.guarded("xic/%d" % k, go)

"""what the conversions need of shapely 1.8; anything else is outside the model (the check becomes undecided)"""
from shapely.geometry import polygon


def _pts(c):
    if hasattr(c, "coords"):
        c = c.coords
    return [tuple([v for v in p]) for p in c]


class Coords(list):
    _absent = ()

    @property
    def xy(self):
        return [p[0] for p in self], [p[1] for p in self]


class BaseGeometry(object):
    _absent = ("geoms",)
    _valid = True
    _empty = False
    _area = None
    _inter = None
    _frail = False

    @property
    def is_valid(self):
        return self._valid

    @property
    def is_empty(self):
        return self._empty

    @property
    def area(self):
        return 0.

    def within(self, other):
        return other.contains(self)

    def covered_by(self, other):
        return other.contains(self)

    def disjoint(self, other):
        return not self.intersects(other)

    def buffer(self, distance, *a, **k):
        return Made("buffer", self, distance, True)

    def simplify(self, tolerance, preserve_topology=True):
        return Made("simplify", self, tolerance, preserve_topology)


class Point(BaseGeometry):
    _absent = ("geoms", "exterior", "interiors")

    def __init__(self, *a):
        if len(a) == 1:
            a = a[0]
        if len(a) == 0:
            self._empty = True
        self.coords = Coords([(a[0], a[1])] if len(a) else [])

    @property
    def x(self):
        return self.coords[0][0]

    @property
    def y(self):
        return self.coords[0][1]

    def intersects(self, other):
        return False if self._empty else other.intersects(self)

    def intersection(self, other):
        if self._empty or not self.intersects(other):
            return GeometryCollection([])
        return self

    def union(self, other):
        if not self._empty:
            __unsupported__("union with a point")
        return other


class LineString(BaseGeometry):
    _absent = ("geoms", "exterior", "interiors", "__len__")

    def __init__(self, c=()):
        self.coords = Coords(_pts(c))
        if not len(self.coords):
            self._empty = True

    def union(self, other):
        return Lines(list(_lines(self)) + list(_lines(other)))


class LinearRing(LineString):
    def __init__(self, c=()):
        c = _pts(c)
        if len(c) and not (c[0][0] == c[-1][0] and c[0][1] == c[-1][1]):
            c = c + [c[0]]
        self.coords = Coords(c)
        if not len(c):
            self._empty = True

    @property
    def is_ring(self):
        return True

    @property
    def is_ccw(self):
        return signed(self.coords) > 0


def signed(c):
    a = 0
    for i in range(len(c) - 1):
        a = a + (c[i][0]*c[i + 1][1] - c[i + 1][0]*c[i][1])
    return a/2


def _side(p, c):
    """1 inside, 0 on the outline, -1 outside (exact coordinates)"""
    x, y = p[0], p[1]
    k = False
    for i in range(len(c) - 1):
        a, b, d, e = c[i][0], c[i][1], c[i + 1][0], c[i + 1][1]
        z = (d - a)*(y - b) - (e - b)*(x - a)
        if z == 0 and min(a, d) <= x <= max(a, d) and min(b, e) <= y <= max(b, e):
            return 0
        if (b > y) != (e > y):
            if (z > 0) == (e > b):
                k = not k
    return 1 if k else -1


class Polygon(BaseGeometry):
    _absent = ("geoms", "__len__", "__iter__", "coords")

    def __init__(self, shell=None, holes=None):
        if isinstance(shell, Polygon):
            if holes is None:
                holes = shell.interiors
            shell = shell.exterior
        if shell is None:
            shell = ()
        self.exterior = shell if isinstance(shell, LinearRing) else LinearRing(shell)
        self.interiors = [h if isinstance(h, LinearRing) else LinearRing(h) for h in (holes if holes is not None else [])]
        if not len(self.exterior.coords):
            self._empty = True

    @property
    def area(self):
        if self._area is not None:
            return self._area
        a = abs(signed(self.exterior.coords))
        for h in self.interiors:
            a = a - abs(signed(h.coords))
        return a

    @property
    def bounds(self):
        x, y = self.exterior.coords.xy
        return min(x), min(y), max(x), max(y)

    @property
    def boundary(self):
        if not self.interiors:
            return LineString(self.exterior)
        return MultiLineString([self.exterior] + list(self.interiors))

    def _where(self, p):
        s = __native_where__(self, p)
        if s is not None:
            return s
        s = _side(p, self.exterior.coords)
        if s > 0:
            for h in self.interiors:
                t = _side(p, h.coords)
                if t == 0:
                    return 0
                if t > 0:
                    return -1
        return s

    def contains(self, other):
        if isinstance(other, Polygon):
            other = other.exterior
        if isinstance(other, Point):
            return self._where(other.coords[0]) > 0
        if not isinstance(other, LineString):
            __unsupported__("contains")
        return all([self._where(p) >= 0 for p in other.coords])

    def covers(self, other):
        if isinstance(other, Point):
            return self._where(other.coords[0]) >= 0
        return self.contains(other)

    def intersects(self, other):
        if isinstance(other, Point):
            return self._where(other.coords[0]) >= 0
        __unsupported__("intersects")

    touches = covers

    def intersection(self, other):
        if self._inter is not None:
            return self._inter(self, other)
        if isinstance(other, BaseMulti):
            return other.intersection(self)
        if not isinstance(other, Polygon):
            __unsupported__("intersection")
        if other._inter is not None:
            return other._inter(other, self)
        if (other.interiors or len(other.exterior.coords) > 5) and rectilinear(self) and rectilinear(other):
            return Region("&", self, other)
        if other.contains(self):
            return self
        if flat(self) and flat(other):
            return Region("&", self, other)
        __unsupported__("intersection")

    def has(self, x, y):
        return self._where((x, y)) > 0

    def outlines(self):
        return [self.exterior] + list(self.interiors)

    def difference(self, other):
        if rectilinear(self) and rectilinear(other):
            return Region("-", self, other)
        return Rest(self)

    def union(self, other):
        return Region("|", self, other)

    def symmetric_difference(self, other):
        return Region("^", self, other)

    def __sub__(self, other):
        return self.difference(other)

    def __or__(self, other):
        return self.union(other)

    def __xor__(self, other):
        return self.symmetric_difference(other)


def rectilinear(g):
    if isinstance(g, (Rest, Point, LineString)):
        return False
    if not isinstance(g, Region) and g.is_empty:
        return True
    s = __native_rect__(g)
    if s is not None:
        return s
    for r in g.outlines():
        c = r.coords
        for i in range(len(c) - 1):
            if c[i][0] != c[i + 1][0] and c[i][1] != c[i + 1][1]:
                return False
    return True


def flat(g):
    return not isinstance(g, (Rest, Point, LineString, MultiLineString))


class Region(BaseGeometry):
    """a boolean combination of rectilinear regions"""
    _absent = ()

    def __init__(self, op, a, b):
        if not flat(a) or not flat(b):
            __unsupported__("overlay")
        self._op, self._a, self._b = op, a, b

    def has(self, x, y):
        a, b = self._a.has(x, y), self._b.has(x, y)
        return {"-": a and not b, "|": a or b, "^": a != b, "&": a and b}[self._op]

    def outlines(self):
        return self._a.outlines() + self._b.outlines()

    @property
    def area(self):
        if not rectilinear(self):
            __unsupported__("area of a slanted overlay")
        a = __native_area__(self)
        if a is not None:
            return a
        xs, ys = [], []
        for r in self.outlines():
            for p in r.coords:
                if p[0] not in xs:
                    xs.append(p[0])
                if p[1] not in ys:
                    ys.append(p[1])
        xs, ys = sorted(xs), sorted(ys)
        a = 0
        for i in range(len(xs) - 1):
            for j in range(len(ys) - 1):
                if self.has((xs[i] + xs[i + 1])/2, (ys[j] + ys[j + 1])/2):
                    a = a + (xs[i + 1] - xs[i])*(ys[j + 1] - ys[j])
        return a

    @property
    def is_empty(self):
        return self.area == 0

    def difference(self, other):
        return Region("-", self, other)

    def union(self, other):
        return Region("|", self, other)

    def symmetric_difference(self, other):
        return Region("^", self, other)

    def intersection(self, other):
        return Region("&", self, other)

    __sub__, __or__, __xor__, __and__ = difference, union, symmetric_difference, intersection

    def __iter__(self):
        __unsupported__("the parts of an overlay")

    @property
    def geoms(self):
        __unsupported__("the parts of an overlay")


class Rest(Polygon):
    """what is left of the field: its shape is outside the model"""

    def __init__(self, of):
        self._of = of

    @property
    def exterior(self):
        __unsupported__("the rest of the field")

    interiors = exterior
    is_empty = exterior
    area = exterior


class Made(BaseGeometry):
    """a shape derived from another one by an operation outside the model"""
    _absent = ()

    def __init__(self, op, of, arg, opt):
        self._op, self._of, self._arg, self._opt = op, of, arg, opt
        self._valid = not (op == "buffer" and of._frail)

    def has(self, x, y):
        return self._of.has(x, y)

    @property
    def area(self):
        __unsupported__("area")

    is_empty = area


def _lines(g):
    if isinstance(g, Lines):
        return g._lines
    if isinstance(g, MultiLineString):
        return list(g)
    if not isinstance(g, LineString):
        __unsupported__("union of lines and areas")
    return [] if g.is_empty else [g]


class Lines(LineString):
    """a union of lines"""
    _absent = ()

    def __init__(self, lines):
        self._lines = lines

    @property
    def coords(self):
        __unsupported__("coordinates")

    is_empty = coords


class BaseMulti(BaseGeometry, list):
    _absent = ("exterior", "interiors", "coords")

    def __init__(self, parts=()):
        list.__init__(self, list(parts))

    @property
    def geoms(self):
        return list(self)

    @property
    def boundary(self):
        return MultiLineString(self.outlines())

    def intersects(self, other):
        return any([p.intersects(other) for p in self])

    @property
    def is_empty(self):
        return all([p.is_empty for p in self])

    def has(self, x, y):
        return any([p.has(x, y) for p in self])

    def outlines(self):
        r = []
        for p in self:
            r.extend(p.outlines())
        return r

    def difference(self, other):
        return Region("-", self, other)

    def union(self, other):
        return Region("|", self, other)

    def symmetric_difference(self, other):
        return Region("^", self, other)

    __sub__, __or__, __xor__ = difference, union, symmetric_difference

    @property
    def is_valid(self):
        return all([p.is_valid for p in self])

    @property
    def area(self):
        a = 0
        for p in self:
            a = a + p.area
        return a

    def intersection(self, other):
        r = []
        for p in self:
            q = p.intersection(other)
            if q.is_empty:
                continue
            if isinstance(q, BaseMulti):
                r.extend(list(q))
            else:
                r.append(q)
        if len(r) == 1:
            return r[0]
        for q in r:
            if not isinstance(q, Polygon):
                return GeometryCollection(r)
        if not r:
            return GeometryCollection([])
        return MultiPolygon(r)


class MultiPolygon(BaseMulti):
    def __init__(self, parts=()):
        list.__init__(self, [p if isinstance(p, Polygon) else Polygon(p[0], p[1]) for p in parts])


class MultiLineString(BaseMulti):
    def union(self, other):
        return Lines(list(self) + list(_lines(other)))

    def __init__(self, parts=()):
        list.__init__(self, [p if isinstance(p, LineString) else LineString(p) for p in parts])


class GeometryCollection(BaseMulti):
    pass


def box(minx, miny, maxx, maxy, ccw=True):
    c = [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)]
    return Polygon(c if ccw else c[::-1])

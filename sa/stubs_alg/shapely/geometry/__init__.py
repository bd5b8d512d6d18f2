"""shapely as a set algebra: every operation is recorded, parts and outlines of results are unknown"""
import numpy as np

_given = []     # coordinates handed to constructors
_rings = []     # (tree, which outline) of outlines asked for
_multi = [True]


def _lines_of(c):
    if isinstance(c, BaseGeometry):
        return c
    return LineString(c)


class BaseGeometry(object):
    is_valid = True
    is_empty = False

    def difference(self, other):
        return Op(("-", self.tree, other.tree))

    def union(self, other):
        if isinstance(self, _LINES) and isinstance(other, _LINES):
            return Lines(("U", self.tree, other.tree))
        return Op(("|", self.tree, other.tree))

    def symmetric_difference(self, other):
        return Op(("^", self.tree, other.tree))

    def intersection(self, other):
        return Op(("&", self.tree, other.tree))

    __sub__, __or__, __and__, __xor__ = difference, union, intersection, symmetric_difference

    def buffer(self, distance, resolution=16, quadsegs=None, cap_style=1, join_style=1, mitre_limit=5., single_sided=False):
        if isinstance(self, _LINES):
            return Op(("B", self.tree, distance))
        __unsupported__("buffer of an area")


class LineString(BaseGeometry):
    def __init__(self, c=()):
        _given.append(c)
        self.tree = ("L", len(_given) - 1)


class Ring(BaseGeometry):
    def __init__(self, tree, which):
        self.coords = __ring__(tree, which)
        self.tree = ("ring", tree, which)


LinearRing = Ring


class MultiLineString(BaseGeometry):
    def __init__(self, c=()):
        _given.append(c)
        self.tree = ("L", len(_given) - 1)


class Lines(BaseGeometry):
    def __init__(self, tree):
        self.tree = tree


class Polygon(BaseGeometry):
    def __init__(self, shell=None, holes=None):
        _given.append((shell, [] if holes is None else list(holes)))
        self.tree = ("P", len(_given) - 1)

    @property
    def exterior(self):
        return Ring(self.tree, 0)

    @property
    def interiors(self):
        return [Ring(self.tree, 1), Ring(self.tree, 2)]


class MultiPolygon(BaseGeometry):
    def __init__(self, parts=()):
        t = None
        for p in parts:
            t = p.tree if t is None else ("|", t, p.tree)
        self.tree = t if t is not None else ("none",)

    @property
    def geoms(self):
        return [Op(("part", self.tree, k), Polygon) for k in (0, 1)]

    def __iter__(self):
        return iter(self.geoms)

    def __len__(self):
        return 2

    def __getitem__(self, i):
        return self.geoms[i]


class GeometryCollection(MultiPolygon):
    pass


_LINES = (LineString, MultiLineString, Lines, Ring)


def Op(tree, cls=None):
    if cls is None:
        cls = MultiPolygon if _multi[0] else Polygon
    r = cls()
    r.tree = tree
    return r


def box(minx, miny, maxx, maxy, ccw=True):
    return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])

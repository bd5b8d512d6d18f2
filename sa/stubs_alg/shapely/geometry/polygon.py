from shapely.geometry import Polygon, LinearRing, Op


def orient(polygon, sign=1.0):
    return Op(("O", polygon.tree), Polygon)

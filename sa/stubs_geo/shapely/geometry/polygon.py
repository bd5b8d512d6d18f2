def orient(p, sign=1.0):
    from shapely import geometry
    s = 1 if sign >= 0 else -1
    rings = []
    for r in [p.exterior] + list(p.interiors):
        c = list(r.coords)
        if (1 if r.is_ccw else -1) != s:
            c = c[::-1]
        rings.append(geometry.LinearRing(c))
        if len(rings) == 1:
            s = -s
    return geometry.Polygon(rings[0], rings[1:])

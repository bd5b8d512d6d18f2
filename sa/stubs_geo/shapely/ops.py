from shapely import geometry


def polygonize(lines):
    r = []
    for p in lines:
        c = geometry._pts(p)
        if not (c[0][0] == c[-1][0] and c[0][1] == c[-1][1]):
            return []
        r.append(geometry.Polygon(c))
    if len(r) > 1:
        __unsupported__("polygonize")
    return r


def merged(r):
    g = r[0]
    for p in r[1:]:
        g = geometry.Region("|", g, p)
    return g


def unary_union(parts):
    r = []
    parts = list(parts.geoms) if hasattr(parts, "geoms") else list(parts)
    if parts and all([isinstance(p, (geometry.LineString, geometry.MultiLineString)) for p in parts]):
        for p in parts:
            r.extend(list(geometry._lines(p)))
        return geometry.Lines(r)
    for p in parts:
        if isinstance(p, geometry.BaseMulti):
            r.extend(list(p))
        else:
            r.append(p)
    r = [p for p in r if not p.is_empty]
    for p in r:
        if isinstance(p, geometry.Region):
            return merged(r)
    for i in range(len(r)):
        for j in range(i):
            a, b = r[i], r[j]
            # disjoint parts stay as they are (one may lie in a hole of the other)
            for q in a.exterior.coords:
                if b._where(q) >= 0:
                    return merged(r)
            for q in b.exterior.coords:
                if a._where(q) >= 0:
                    return merged(r)
    if not r:
        return geometry.GeometryCollection([])
    if len(r) == 1:
        return r[0]
    return geometry.MultiPolygon(r)


cascaded_union = unary_union

from shapely import geometry


def polygonize(lines):
    if isinstance(lines, geometry.BaseGeometry):
        return [geometry.Op(("cell", lines.tree, k), geometry.Polygon) for k in (0, 1)]
    lines = list(lines)
    if len(lines) == 1 and not isinstance(lines[0], geometry.BaseGeometry):
        geometry._given.append(lines[0])
        return [geometry.Op(("given", len(geometry._given) - 1), geometry.Polygon)]
    t = None
    for l in lines:
        l = geometry._lines_of(l)
        t = l.tree if t is None else ("U", t, l.tree)
    return [geometry.Op(("cell", t, k), geometry.Polygon) for k in (0, 1)]


def unary_union(parts):
    r = None
    for p in parts:
        r = p if r is None else r.union(p)
    return r


cascaded_union = unary_union

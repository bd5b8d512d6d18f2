from ._kern import *
import itertools

DESC = ("The compiled point and polygon kernels (Cython source) are abstractly interpreted for one unknown evaluation point, one unknown "
        "point patch and closed outlines of 3 and 4 unknown vertices, unknown voltage, orders 0..5. The resulting value graphs are "
        "differentiated (forward mode) with respect to each coordinate and compared by global value numbering with the component of "
        "the next order the names state (or its Laplace expansion when that component is not stored); at order 5 the Laplacian of "
        "every component must vanish. Order zero is compared with area*z/(2 pi r^3) and the signed solid angle over 2 pi.")

SPEC = '''
import numpy as np
def point(x, points, areas, pot):
    o = np.zeros((len(x), 1))
    for i in range(len(x)):
        for p, a in zip(points, areas):
            u, v, w = x[i, 0] - p[0], x[i, 1] - p[1], x[i, 2]
            o[i, 0] += pot*a*w/(2*np.pi*np.sqrt(u**2 + v**2 + w**2)**3)
    return o
def polygon(x, paths, pot):
    o = np.zeros((len(x), 1))
    for i in range(len(x)):
        z = x[i, 2]
        s = np.abs(z)
        for path in paths:
            for k in range(len(path)):
                a, b = x[i, :2] - path[k - 1], x[i, :2] - path[k]
                ra, rb = np.sqrt(a[0]**2 + a[1]**2 + z**2), np.sqrt(b[0]**2 + b[1]**2 + z**2)
                o[i, 0] += pot/np.pi*np.arctan2(z*(a[0]*b[1] - a[1]*b[0]), s*(ra*rb + a[0]*b[0] + a[1]*b[1] + s*(s + ra + rb)))
    return o
'''


def canon(name):
    return "".join(sorted(name))


def expansion(name, names):
    """indices and sign such that d^name = sign * sum(components)"""
    for i, n in enumerate(names):
        if canon(n) == name:
            return 1, (i,)
    pos = {canon(n): i for i, n in enumerate(names)}
    for a in "zyx":
        if name.count(a) >= 2:
            rest = name.replace(a, "", 2)
            t = [canon(rest + 2 * b) for b in "xyz" if b != a]
            if all(q in pos for q in t):
                return -1, tuple(pos[q] for q in t)
    return None


def check(ck):
    K = Kern(ck, COMP, "utils")
    I = K.I
    sp = ck.spec(I, SPEC, "kernspec")
    dn = ck.cap(I, ck.attr(I, "utils", "_derivative_names"))
    labs = [l for l in ck.labs() if l.mode == "rand"]
    names = [[I_name(q) for q in lst] for lst in nested(dn)]
    xs = K.x(1)
    at = [npm.snap(I, xs).fn((const(0), const(a))) for a in range(3)]
    D = [differentiator(a) for a in at]
    pot, h = T.atom("pot"), T.atom("h")
    pts, areas = K.arr("pt", 1, 2), K.arr("ar", 1)
    pts2, areas2 = K.arr("pt", 2, 2), K.arr("ar", 2)
    kinds = [("point", lambda d: K.point(COMP, xs, pts, areas, pot, d, 0, h, None),
              lambda: ck.run(I, I.get(sp, "point"), xs, pts, areas, pot)),
             ("points2", lambda d: K.point(COMP, xs, pts2, areas2, pot, d, 0, h, None),
              lambda: ck.run(I, I.get(sp, "point"), xs, pts2, areas2, pot))]
    for nv in (3, 4):
        pl = I.new_list([K.arr("poly%d" % nv, nv, 2)])
        kinds.append(("polygon%d" % nv, lambda d, pl=pl: K.polygon(COMP, xs, pl, pot, d, 0, h, None),
                      lambda pl=pl: ck.run(I, I.get(sp, "polygon"), xs, pl, pot)))
    pl = I.new_list([K.arr("polya", 3, 2), K.arr("polyb", 3, 2)])
    kinds.append(("polygons", lambda d, pl=pl: K.polygon(COMP, xs, pl, pot, d, 0, h, None),
                  lambda pl=pl: ck.run(I, I.get(sp, "polygon"), xs, pl, pot)))
    I.freeze()
    for kind, run, ref in kinds:
        full = kind not in ("polygon4", "polygons", "points2") or ck.tier != "quick"
        comp = {}
        for d in range(6 if full else 3):
            def go():
                I.ov = {}
                key = "%s/order%d" % (kind, d)
                w = W[COMP] + ("point_potential" if kind.startswith("point") else "polygon_potential")
                ck.ob(key, w, "returns one row of 2*order+1 components")
                o = run(d)
                ck.note(I)
                if o.live is FALSE:
                    ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                    return
                s = npm.snap(I, o.value)
                if [int(T.cval(q)) for q in s.shape] != [1, 2*d + 1]:
                    ck.fail(key, w, "result shape %s" % (s.shape,))
                    return
                comp[d] = [s.fn((const(0), const(i))) for i in range(2*d + 1)]
                I.ov = {}
                if d == 0:
                    r = ref()
                    ck.same(key + "/value", w, comp[0][0], npm.snap(I, r.value).fn((const(0), const(0))), labs=labs,
                            rule="order zero is the closed form potential")
                    I.ov = {}
            ck.guarded("%s/order%d" % (kind, d), go)
        for d in range(6 if full else 3):
            if d not in comp:
                continue
            w = W[COMP] + ("point_potential_expr" if kind.startswith("point") else "edge_potential_expr")
            for i, nm in enumerate(names[d]):
                for ax in range(3):
                    def go():
                        target = canon(nm + "xyz"[ax])
                        key = "%s/d%s(%s)" % (kind, "xyz"[ax], nm or "1")
                        if d + 1 not in comp:
                            return
                        e = expansion(target, names[d + 1])
                        if e is None:
                            ck.unknown(key, "no expansion of %s" % target)
                            return
                        g = D[ax](comp[d][i])
                        r = const(0.)
                        for j in e[1]:
                            r = T.add(r, comp[d + 1][j])
                        if e[0] < 0:
                            r = T.neg(r)
                        ck.same(key, w, g, r, labs=labs, rule="derivative of component %r along %s is component %s%s" % (
                            nm, "xyz"[ax], "-" if e[0] < 0 else "", "-".join(names[d + 1][j] for j in e[1])))
                    ck.guarded("%s/d%s(%s)" % (kind, "xyz"[ax], nm), go)
                if d == 5 and (full and kind in ("point", "polygon3")):
                    def lap():
                        key = "%s/laplace(%s)" % (kind, nm)
                        r = const(0.)
                        for ax in range(3):
                            r = T.add(r, D[ax](D[ax](comp[d][i])))
                        ck.same(key, w, r, const(0.), labs=labs[:2], rule="component %r is harmonic" % nm)
                    ck.guarded("%s/laplace(%s)" % (kind, nm), lap)


def nested(c):
    """captured list of lists -> python lists of captured items"""
    out = []
    for s in c[1]:
        for l in s[1]:
            out.append([x for t in l[1] for x in t[1]])
    return out


def I_name(q):
    if isinstance(q, str):
        return q
    raise AnalysisError("derivative name %r" % (q,))

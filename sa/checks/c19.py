from ..check import *
from ..values import PList
import itertools

DESC = ("Grid, UnstructuredGrid and SphericalGrid views are abstractly interpreted for unknown centre, step, indices and coordinates over "
        "cubic and non-cubic shapes (axes of length 1 included); node list, mesh, axis arrays, slices, origin and index map are compared with centre + step*(i - (shape-1)/2), "
        "the coordinate map must be its inverse in both directions.")

SRC = '''
import numpy as np
def mk(G, c, s, h): return G(center=c, step=s, shape=h)
def origin(g): return g.get_origin()
def points(g): return g.to_points()
def mesh(g): return g.to_mgrid()
def axes(g): return list(g.to_xyz())
def i2c(g, i): return g.indices_to_coordinates(i)
def c2i(g, x): return g.coordinates_to_indices(x)
def back(g, i): return g.coordinates_to_indices(g.indices_to_coordinates(i))
def forth(g, x): return g.indices_to_coordinates(g.coordinates_to_indices(x))
def node(c, s, h, idx):
    return [c[k] + s[k]*(idx[k] - (h[k] - 1)/2.) for k in range(len(h))]
def spec_axes(c, s, h):
    return [np.array([c[k] + s[k]*(i - (h[k] - 1)/2.) for i in range(h[k])]) for k in range(len(h))]
def spec_mesh(c, s, h):
    m = np.zeros([len(h)] + list(h))
    for a in range(h[0]):
        for b in range(h[1]):
            for d in range(h[2]):
                for k in range(3):
                    m[k, a, b, d] = c[k] + s[k]*([a, b, d][k] - (h[k] - 1)/2.)
    return m
def spec_points(c, s, h):
    l = []
    for a in range(h[0]):
        for b in range(h[1]):
            for d in range(h[2]):
                l.append(node(c, s, h, [a, b, d]))
    return np.array(l)
def spec_origin(c, s, h): return np.array(node(c, s, h, [0, 0, 0]))
def spec_i2c(c, s, h, i):
    i = np.array(i)
    r = np.zeros(i.shape)
    for k in range(3):
        r[..., k] = c[k] + s[k]*(i[..., k] - (h[k] - 1)/2.)
    return r
def asf(x): return np.array(x)*1.
def un(U, p): return U(p)
def spec_un(p): return np.array(p).T
def shape(g): return tuple(g.shape)
def sph(S, o, r, n): return S(o, r, n)
def sph_d(S, o): return S(o)
def sph_mesh(g): return g.to_mgrid()
def spec_sph(g, o, r, n):
    o = np.atleast_2d(o)
    th, ph = g.theta, g.phi
    m = np.zeros((3, o.shape[0]) + th.shape)
    for k in range(o.shape[0]):
        for a in range(th.shape[0]):
            for b in range(th.shape[1]):
                t, f = th[a, b], ph[a, b]
                m[0, k, a, b] = o[k, 0] + r*np.sin(t)*np.cos(f)
                m[1, k, a, b] = o[k, 1] + r*np.sin(t)*np.sin(f)
                m[2, k, a, b] = o[k, 2] + r*np.cos(t)
    return m
'''
W = "electrode/grid.py: "


def check(ck):
    I = ck.interp("electrode.grid")
    m = ck.spec(I, SRC, "c19spec")
    F = lambda n: I.get(m, n)
    G, U, S = (ck.attr(I, "grid", n) for n in ("Grid", "UnstructuredGrid", "SphericalGrid"))
    labs = [l for l in ck.labs() if l.mode == "rand"]
    np_ = I.externs["numpy"].table
    shapes = [(2, 3, 4), (3, 3, 3), (4, 2, 1), (1, 1, 1), (5, 1, 2)]
    if ck.tier != "quick":
        shapes += [s for s in itertools.product((1, 2, 3, 6), repeat=3) if s not in shapes]

    def args(shape, how):
        c, s = (npm.sym_array(I, n, (const(3),)) for n in "cs")
        h = I.new_list([const(q) for q in shape])
        if how == "list":
            c, s = (I.new_list([T.atom(n + str(i)) for i in range(3)]) for n in "cs")
        elif how == "tuple":
            c, s = (tuple(T.atom(n + str(i)) for i in range(3)) for n in "cs")
            h = tuple(const(q) for q in shape)
        elif how == "arrshape":
            h = I.call(np_["array"], [h], {})
        return c, s, h

    def view(shape, how, name, key, spec, rule, extra=None):
        key = "%s-%s-%s" % (key, "x".join(map(str, shape)), how)
        w = W + "Grid." + name

        def go():
            I.ov = {}
            a = args(shape, how)
            ex = [extra()] if extra else []
            g = ck.run(I, F("mk"), G, *a).value
            I.freeze()
            o = ck.run(I, F(F_[name]), g, *ex)
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            v = o.value
            if name not in ("to_xyz",):
                v = I.call(F("asf"), [v], {}) if name != "indices" else v
            got = ck.cap(I, v)
            if name == "to_xyz":
                got = ("tuple",) + tuple(ck.cap(I, q) for q in I.items_of(I.resolve(v)))
            I.ov = {}
            a = args(shape, how)
            ex = [extra()] if extra else []
            s = ck.run(I, F(spec), *(a + tuple(ex))) if spec else None
            want = ck.cap(I, s.value) if s else ck.cap(I, I.call(F("asf"), ex, {}))
            if name == "to_xyz":
                want = ("tuple",) + tuple(ck.cap(I, q) for q in I.items_of(I.resolve(s.value)))
            ck.same(key, w, got, want, labs=labs, rule=rule)
        ck.guarded(key, go)
    F_ = {"get_origin": "origin", "to_points": "points", "to_mgrid": "mesh", "to_xyz": "axes", "indices_to_coordinates": "i2c",
          "coordinates_to_indices.inverse": "back", "indices_to_coordinates.inverse": "forth"}
    node = "node (i, j, k) is at centre + step*((i, j, k) - (shape-1)/2)"
    idx = lambda *s: (lambda: npm.sym_array(I, "idx", tuple(const(q) for q in s), "i", rng=(-3, 9)))
    xs = lambda *s: (lambda: npm.sym_array(I, "xx", tuple(const(q) for q in s)))
    tup = lambda: tuple(T.atom("t%d" % i, "i", rng=(-3, 9)) for i in range(3))
    for i, shape in enumerate(shapes):
        for how in ("array", "list", "tuple", "arrshape") if i < 3 else ("array",):
            view(shape, how, "get_origin", "origin", "spec_origin", node)
            view(shape, how, "to_mgrid", "mesh", "spec_mesh", node)
            view(shape, how, "to_points", "points", "spec_points", "nodes in C order, one row each; " + node)
            view(shape, how, "to_xyz", "axes", "spec_axes", "axis arrays are the nodes' coordinates; " + node)
            for tag, ex in (("1", idx(3)), ("n", idx(4, 3)), ("nn", idx(2, 2, 3)), ("x", xs(3)), ("t", tup)):
                view(shape, how, "indices_to_coordinates", "i2c" + tag, "spec_i2c", node, ex)
                view(shape, how, "coordinates_to_indices.inverse", "back" + tag, None, "coordinate-to-index map inverts the index-to-coordinate map", ex)
            for tag, ex in (("1", xs(3)), ("n", xs(4, 3)), ("nn", xs(2, 2, 3))):
                view(shape, how, "indices_to_coordinates.inverse", "forth" + tag, None, "index-to-coordinate map inverts the coordinate-to-index map", ex)

    def frame():
        I.ov = {}
        a = args((2, 3, 4), "array")
        g = ck.run(I, F("mk"), G, *a).value
        I.freeze()
        b = ck.cap(I, g)
        for n in ("origin", "points", "mesh", "axes"):
            ck.run(I, F(n), g)
        for n in ("i2c", "c2i"):
            ck.run(I, F(n), g, idx(3)())
        c = ck.cap(I, g)
        I.ov = {}
        ck.same("frame", W + "Grid", b, c, labs=labs[:2], rule="views do not modify the grid")
    ck.guarded("frame", frame)

    def unstructured():
        for n in (1, 2, 4):
            I.ov = {}
            p = npm.sym_array(I, "p", (const(3), const(n)))
            o = ck.run(I, F("un"), U, p)
            if not ck.noraise("un%d" % n, W + "UnstructuredGrid", o):
                continue
            I.freeze()
            q = ck.run(I, F("points"), o.value)
            if not ck.noraise("unp%d" % n, W + "UnstructuredGrid.to_points", q):
                continue
            sh = ck.run(I, F("shape"), o.value)
            got = ("tuple", ck.cap(I, q.value), ck.cap(I, sh.value))
            z = ck.run(I, F("mesh"), o.value)
            mesh = (z.live is FALSE, [e[1] for e in z.excs], ck.cap(I, z.value) if z.value is not None else None)
            I.ov = {}
            ck.ob("un-mesh", W + "UnstructuredGrid.to_mgrid", "an unstructured grid has no mesh")
            if mesh[0] and set(mesh[1]) - {"NotImplementedError"}:
                ck.fail("un-mesh", W + "UnstructuredGrid.to_mgrid", "raises %s instead of NotImplementedError" % sorted(set(mesh[1])))
            want = ("tuple", ck.cap(I, ck.run(I, F("spec_un"), npm.sym_array(I, "p", (const(3), const(n)))).value), ("tuple", const(n)))
            ck.same("un%d" % n, W + "UnstructuredGrid.to_points", got, want, labs=labs[:4], rule="one row per point, in order")
            I.ov = {}
    ck.guarded("unstructured", unstructured)
    u = T.atom("r0")

    def spherical(n, no, dflt=False):
        key = "sph-%d-%d%s" % (n, no, dflt)

        def go():
            mk = lambda: npm.sym_array(I, "o", (const(no), const(3))) if no else npm.sym_array(I, "o", (const(3),))
            I.ov = {}
            o = ck.run(I, F("sph_d"), S, mk()) if dflt else ck.run(I, F("sph"), S, mk(), u, const(n))
            if not ck.noraise(key, W + "SphericalGrid", o):
                return
            I.freeze()
            g = o.value
            r = ck.run(I, F("sph_mesh"), g)
            ck.note(I)
            if not ck.noraise(key + "/mesh", W + "SphericalGrid.to_mgrid", r):
                return
            got = ck.cap(I, r.value)
            I.ov = {}
            s = ck.run(I, F("spec_sph"), g, mk(), const(1e-2) if dflt else u, const(n))
            want = ck.cap(I, s.value)
            I.ov = {}
            ck.same(key, W + "SphericalGrid", got, want, labs=labs[:4], rule="points are origin + r*(sin t cos p, sin t sin p, cos t) for the grid's own angles")
        ck.guarded(key, go)
    for n in (1, 2, 3) if ck.tier == "quick" else (1, 2, 3, 4, 6):
        for no in (0, 1, 2):
            spherical(n, no)
    spherical(6, 1, True)

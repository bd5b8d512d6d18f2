"""Adaptive refinement of the electrode boundaries."""
from ._sys import *
import re
from .. import interp

DESC = ("adapt_mesh, paths_to_mesh and the symmetry helpers are abstractly interpreted on boundaries, meshes and transformations with unknown coordinates; "
        "the triangulation delivers a given sequence of meshes (unknown points, all adjacency patterns of the sequence) and records what it is given, the "
        "optimization is an unknown function of the electrodes and constraints it is given. What the triangulation is asked for in every pass and what is returned are "
        "compared with the stated refinement.")

SRC = '''
import numpy as np
import bem.pytriangle as tri

def outline(p): return p
def mesh(points, triangles, neighbors, seg):
    return {"points": points, "triangles": np.array(triangles), "neighbors": np.array(neighbors), "segments": seg, "segmentmarkers": seg}
def p2m(paths): return paths_to_mesh(paths)
def seg_args(r): return r["points"], r["segments"], r["segmentmarkers"]
def spec_points(paths):
    r = []
    for p in paths:
        for q in p:
            r.append([q[0], q[1]])
    return np.array(r)

def copies(ts, path): return transformer(ts)(path)
def spec_copies(ts, path):
    out = []
    for t, sign in ts:
        im = [[t[i, 0]*p[0] + t[i, 1]*p[1] + t[i, 3] for i in range(2)] for p in path]
        out.append(np.array(im if sign == 1 else im[::-1]))
    return out

def mirror(p):
    return [p, p[::-1]*np.array([[-1, 1]])]

def impl(cons, variable, fixed, sym, meshes, kw, opt):
    tri._meshes = meshes
    s, v, c = adapt_mesh(cons, variable, fixed, **kw) if sym is None else adapt_mesh(cons, variable, fixed, symmetry=sym, **kw)
    return [[(e, None) if i < len(fixed) else ([np.array(p) for p in e.paths], e.cover_height) for i, e in enumerate(s)], v, c, \
        [[(k, l[1][k]) for k in ("points", "triangles", "segments", "segmentmarkers", "triangleareas")] for l in tri._log[1:]], len(fixed)]

def fulls(fixed, tris): return len(fixed) + len(tris)

def spec(cons, variable, fixed, sym, meshes, kw, opt):
    log = []
    for m in meshes:
        n = len(m["triangles"])
        if n > kw["nmax"]:
            break
        pts, t, nb = m["points"], m["triangles"], m["neighbors"]
        paths = [np.array([[pts[i, 0], pts[i, 1]] for i in t[j]]) for j in range(n)]
        imgs = [[p] if sym is None else sym(p) for p in paths]
        v, c = opt(cons, list(fixed) + imgs)
        areas = []
        for j in range(n):
            p = paths[j]
            ar = ((p[1][0] - p[0][0])*(p[2][1] - p[0][1]) - (p[2][0] - p[0][0])*(p[1][1] - p[0][1]))/2
            jump = False
            for k in nb[j]:
                if k >= 0:
                    jump = jump or abs(v[len(fixed) + k] - v[len(fixed) + j]) > kw["threshold"]
            areas.append(ar/kw["down"] if jump else ar*kw["up"])
        els = [(e, None) for e in fixed] + [([np.array(p) for p in im], kw["cover_height"]) for im in imgs]
        log.append([("points", pts), ("triangles", t), ("segments", m["segments"]), ("segmentmarkers", m["segmentmarkers"]), ("triangleareas", np.array(areas))])
    return [els, v, c, log, len(fixed)]
'''
W = "electrode/adaptive.py: "


def check(ck):
    E = SysEnv(ck, extra=("electrode.adaptive",))
    I = E.I
    np_ = lambda n: I.externs["numpy"].table[n]

    def flat(v):
        """values that identify an electrode or a list of outlines"""
        v = I.resolve(v)
        if isinstance(v, (Arr, Snap)):
            s = npm.snap(I, v)
            n = [int(T.cval(d)) for d in s.shape]
            return [T.to_real(s.fn(tuple(const(i) for i in ix))) for ix in itertools.product(*map(range, n))]
        if isinstance(v, interp.PObj):
            return flat(I.getattr_(v, "tag" if I.get(v, "tag") is not interp.MISS else "paths"))
        if isinstance(v, (interp.PList, tuple)):
            return [q for e in I.items_of(v) for q in flat(e)]
        return [I.as_o(v)]

    def optimum(cons, els):
        args = flat(cons) + [q for e in els for q in [I.as_o("/")] + flat(e)]
        v = I.call(np_("array"), [I.new_list([T.call("opt_%d" % j, args, sort="r") for j in range(len(els))])], {})
        return (v, T.call("opt_c", args, sort="r"))
    I.stubs["system.System.optimize"] = lambda I, a, k: optimum(a[1] if len(a) > 1 else k["constraints"], I.items_of(a[0]))
    opt = Builtin("opt", lambda I, a, k: optimum(a[0], I.items_of(a[1])))
    names = ("adapt_mesh", "paths_to_mesh", "transformer", "transformed_copy")
    m = ck.spec(I, SRC, "c49spec", **{n: ck.attr(I, "adaptive", n) for n in names})
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:3]
    arr = lambda n, *s: npm.sym_array(I, n, tuple(const(q) for q in s))
    ints = lambda v: I.call(np_("array"), [I.new_list([I.new_list([const(q) for q in r]) for r in v])], {})

    def p2m(sizes):
        key = "input-%s" % "-".join(map(str, sizes))
        w = W + "paths_to_mesh"

        def go():
            I.ov = {}
            ps = I.new_list([arr("p%d" % j, n, 2) for j, n in enumerate(sizes)])
            r = ck.run(I, F("p2m"), ps)
            ck.note(I)
            if not ck.noraise(key, w, r):
                return
            pts, seg, mark = I.resolve(ck.run(I, F("seg_args"), r.value).value)
            wp = ck.run(I, F("spec_points"), ps).value
            ck.same(key + "/points", w, ck.cap(I, pts), ck.cap(I, wp), labs=labs, rule="the points are the outlines' corners in order")
            s, mk = npm.snap(I, seg), npm.snap(I, mark)
            got = {}
            for i in range(int(T.cval(s.shape[0]))):
                e = tuple(sorted(int(T.cval(s.fn((const(i), const(j))))) for j in range(2)))
                got.setdefault(int(T.cval(mk.fn((const(i),)))), []).append(e)
            want, n0 = [], 0
            for n in sizes:
                want.append(sorted(tuple(sorted((n0 + i, n0 + (i + 1) % n))) for i in range(n)))
                n0 += n
            ck.ob(key + "/segments", w, "each outline is closed by segments of a marker of its own")
            if sorted(map(sorted, got.values())) != sorted(want) or any(k < 2 for k in got):
                ck.fail(key + "/segments", w, "segments by marker %s for outlines of %s corners" % (got, sizes))
        ck.guarded(key, go)
    p2m((3,))
    p2m((4, 3))
    p2m((3, 5, 4))
    p2m((4, 4))
    p2m((3, 4, 3, 3))

    def copies(signs):
        key = "copies-%s" % "".join("+-"[s < 0] for s in signs)
        w = W + "transformed_copy"

        def go():
            I.ov = {}
            ts = I.new_list([(arr("t%d" % j, 4, 4), const(s)) for j, s in enumerate(signs)])
            p = arr("p", 3, 2)
            I.freeze()
            r = ck.run(I, F("copies"), ts, p)
            ck.note(I)
            c1 = ck.cap(I, r.value)
            I.ov = {}
            o = ck.run(I, F("spec_copies"), ts, p)
            ck.agree(key, w, r, o, c1, ck.cap(I, o.value), labs=labs, rule="images of the corners, reversed for orientation reversing ones")
        ck.guarded(key, go)
    copies((1,))
    copies((1, -1))

    TRI = {1: ([[0, 1, 2]], [[-1, -1, -1]]), 2: ([[0, 1, 2], [0, 2, 3]], [[-1, 1, -1], [-1, -1, 0]]),
           3: ([[0, 1, 4], [1, 2, 4], [2, 3, 4]], [[1, -1, -1], [2, 0, -1], [-1, 1, -1]]),
           4: ([[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]], [[1, 3, -1], [2, 0, -1], [3, 1, -1], [0, 2, -1]])}

    def one(seq, nmax, nfixed, sym, q=20., a=1., thr=.5):
        key = "%s/max%d/fixed%d/%s" % ("-".join(map(str, seq)), nmax, nfixed, sym)
        w = W + "adapt_mesh"

        def go():
            res = []
            I.ov = {}
            meshes = I.new_list([I.call(F("mesh"), [arr("pts%d" % j, 5, 2), ints(TRI[n][0]), ints(TRI[n][1]), arr("seg%d" % j, 3, 2)], {}) for j, n in enumerate(seq)])
            fixed = I.new_list(I.items_of(E.make(nfixed, tag="f"))) if nfixed else I.new_list([])
            var = I.new_list([arr("va", 3, 2), arr("vb", 4, 2)])
            cons = I.new_list([T.atom("con0"), T.atom("con1")])
            kw = {k: T.atom(k) for k in ("up", "down", "cover_height")}
            kw.update(nmax=const(nmax), a=const(a), q=const(q), threshold=const(thr))
            kw = I.call(I.builtins["dict"], [], kw)
            sy = F("mirror") if sym == "mirror" else None
            I.freeze()
            frame = [meshes, fixed, var, cons]
            before = [ck.cap(I, z) for z in frame]
            st = I.module("bem.pytriangle")
            for f in ("impl", "spec"):
                I.ov = {}
                r = ck.run(I, F(f), cons, var, fixed, sy, meshes, kw, opt)
                if f == "impl":
                    ck.note(I)
                    log = I.items_of(I.get(st, "_log"))
                    after = [ck.cap(I, z) for z in frame]
                    if log:
                        ck.ob(key + "/options", w, "first triangulation asks for the given angle and area and for neighbours")
                        op, args = I.resolve(log[0])
                        op = str(I.pyval(op))
                        mq, ma = re.search(r"q([\d.]+)", op), re.search(r"a([\d.]+)", op)
                        if not (mq and ma and "n" in op and float(mq.group(1)) == q and float(ma.group(1)) == a):
                            ck.fail(key + "/options", w, "options %r for q=%g a=%g" % (op, q, a))
                        ap = ck.cap(I, I.getitem(args, "points"))
                res.append((r, ck.cap(I, r.value) if r.value is not None else None))
            (o1, c1), (o2, c2) = res
            ck.agree(key, w, o1, o2, c1, c2, labs=labs, rule="electrodes, potentials, strength and area limits of every pass")
            I.ov = {}
            ck.same(key + "/start", w, ap, ck.cap(I, ck.run(I, F("spec_points"), var).value), labs=labs, rule="starts from the given outlines")
            for z, b, c in zip(("meshes", "fixed", "variable", "constraints"), before, after):
                ck.same(key + "/frame-" + z, w, c, b, labs=labs, rule="%s unchanged" % z)
        ck.guarded(key, go)
    one((1, 4), 3, 0, None)
    one((2, 3, 4), 3, 0, None)
    one((2, 4), 3, 1, "mirror", 25., .5)
    one((1, 2, 4), 3, 2, None, 30., 2., .125)
    one((3, 2, 4), 3, 1, None)
    if ck.tier != "quick":
        one((2, 1, 3, 2, 4), 3, 2, "mirror")
        one((4, 3, 4, 4, 4), 4, 1, None)

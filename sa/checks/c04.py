from ._kern import *

DESC = ("The compiled kernels (Cython source) and the interpreted fallback kernels are abstractly interpreted on the same unknown "
        "points, patches, outlines, edges, voltages, cover height and accumulator contents (1..2 points, 0..2 patches, 0..2 outlines "
        "of 2..4 vertices, 0..3 mesh edges, expansion order 0..2, derivative order 0..5, accumulator given or not); every cell "
        "returned must have the same value number, also for points on the electrode plane, and identity of result and accumulator "
        "must agree.")


def check(ck):
    K = Kern(ck)
    I = K.I
    labs = [l for l in ck.labs() if l.mode == "rand"]
    pot, h = T.atom("pot"), T.atom("h")
    I.freeze()

    def one(key, fname, nx, args, d, nmax, out, plane=False, boundary=False):
        w = W[COMP] + fname

        def go():
            res = []
            for mod in (COMP, INTP):
                I.ov = {}
                a = args()
                xs = K.x(nx)
                if plane:
                    z = npm.sym_array(I, "x", (const(nx), const(2)))
                    np_ = I.externs["numpy"].table
                    zero = I.call(np_["zeros"], [(const(nx), const(1))], {})
                    xs = I.call(np_["concatenate"], [(z, zero)], {"axis": const(1)})
                o = K.arr("out", nx, 2*d + 1) if out else None
                r = ck.run(I, K.fn(mod, fname), xs, *(a + [const(d), const(nmax), h, o]))
                ck.note(I)
                res.append((r, ck.cap(I, r.value) if r.live is not FALSE else None, ck.cap(I, o) if out else None))
                I.ov = {}
            (r1, v1, o1), (r2, v2, o2) = res
            ck.agree(key, w, r1, r2, ("tuple", v1, o1), ("tuple", v2, o2), labs=labs, any_exc=True,
                     rule="compiled and interpreted kernel return and leave the same values")
        ck.guarded(key, go)
    for d in range(7):
        for nmax in (0, 1, 2):
            for out in (False, True):
                if nmax == 2 and d not in (0, 2):
                    continue
                for nx, nv in ((2, 2), (1, 1), (2, 0), (0, 1)):
                    if (nx, nv) != (2, 2) and (nmax or d > 1):
                        continue
                    one("point/%d/n%d/%s/%dx%d" % (d, nmax, "out" if out else "none", nx, nv), "point_potential", nx,
                        lambda: [K.arr("pt", nv, 2), K.arr("ar", nv), pot], d, nmax, out)
                for nx, sh in ((2, (3,)), (1, (3, 4)), (1, (2,)), (2, ())):
                    if d > 2 and (nx, sh) != (1, (3, 4)) or nmax == 2 and len(sh) == 2:
                        continue
                    one("polygon/%d/n%d/%s/%dx%s" % (d, nmax, "out" if out else "none", nx, "-".join(map(str, sh))), "polygon_potential", nx,
                        lambda: [I.new_list([K.arr("p%d" % i, q, 2) for i, q in enumerate(sh)]), pot], d, nmax, out)
                for nx, edges, polys, npt, npol in ((2, [[0, 1], [1, 2], [2, 0]], [0, 0, 1], 3, 2), (1, [], [], 2, 1)):
                    if not edges and d:
                        continue
                    one("mesh/%d/n%d/%s/%d" % (d, nmax, "out" if out else "none", len(edges)), "mesh_potential", nx,
                        lambda: [K.arr("pt", npt, 2), K.ints(edges) if edges else K.empty((0, 2)), K.ints(polys) if polys else K.empty((0,)), K.arr("v", npol)],
                        d, nmax, out)
    for d in range(6):
        one("plane/polygon/%d" % d, "polygon_potential", 1, lambda: [I.new_list([K.arr("p0", 3, 2)]), pot], d, 0, False, plane=True)
        one("plane/point/%d" % d, "point_potential", 1, lambda: [K.arr("pt", 1, 2), K.arr("ar", 1), pot], d, 0, False, plane=True)
        one("plane/mesh/%d" % d, "mesh_potential", 1, lambda: [K.arr("pt", 3, 2), K.ints([[0, 1], [1, 2], [2, 0]]), K.ints([0, 0, 0]), K.arr("v", 1)],
            d, 0, False, plane=True)

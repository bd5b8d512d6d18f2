from ._kern import *
from .. import cyload
import ast
import os

DESC = ("The Cython source is interpreted abstractly with unchecked buffer and pointer accesses as the directives declare (no bounds "
        "check, no wrap-around): for every kernel, all sizes 0..3 of each array dimension that the arguments can disagree in, missing "
        "arrays, index arrays with entries below, inside and beyond the arrays they point into, accumulators too small, too large or of "
        "another order, orders -2..7 and outlines of 0..3 and 40 vertices, no access falls outside its array on any path; pointers are "
        "only taken into buffers declared contiguous.")


def check(ck):
    K = Kern(ck, COMP)
    I = K.I
    pyx = os.path.join(ck.repo, "electrode", "cexpressions.pyx")
    contiguous(ck, pyx)
    pot, h = T.atom("pot"), T.atom("h")
    np_ = I.externs["numpy"].table

    def zeros(sh, dt="double"):
        return I.call(np_["zeros"], [tuple(const(q) for q in sh), np_[dt]], {})

    def table(rows, cols):
        if not rows or not cols:
            return zeros((len(rows), cols) if cols is not None else (len(rows),), "intc")
        return K.ints(rows)

    runs = [0]

    def go(key, w, rule, f):
        def inner():
            I.ov = {}
            I.oob, I.oob_unknown = [], []
            ck.ob(key, w, rule)
            runs[0] += 1
            f()
            for loc, text in dict.fromkeys(I.oob):
                ck.fail(key, "%s:%s %s" % ("electrode/cexpressions.pyx", loc[1] if loc else "?", loc[2] if loc else ""), "the compiled code accesses " + text)
            for loc, text in dict.fromkeys(I.oob_unknown):
                ck.unknown(key, "%s at %s" % (text, loc))
        ck.guarded(key, inner)

    def out(nx, d, dr, dc):
        if dr is None:
            return None
        if (nx + dr) < 0 or 2*d + 1 + dc < 0:
            return None
        return zeros((nx + dr, 2*d + 1 + dc))

    OUTS = [(None, 0), (0, 0), (-1, 0), (1, 0), (0, -1), (0, 1), (0, -2), (0, 2), (-1, -1), (-2, 0)]

    # ---------------------------------------------------------------- point
    w = W[COMP] + "point_potential"

    def point(key, nx=2, xc=3, nv=2, pc=2, na=None, d=0, nmax=0, o=(None, 0), none=None):
        def f():
            a = [K.arr("x", nx, xc), K.arr("p", nv, pc), K.arr("a", nv if na is None else na), out(nx, d, *o)]
            if none is not None:
                a[none] = None
            K.point(COMP, a[0], a[1], a[2], pot, d, nmax, h, a[3])
        go("point/" + key, w, "all accesses lie inside the arrays or the call is rejected", f)
    for nx in range(3):
        for nv in range(3):
            for na in range(4):
                point("sizes/%d/%d/%d" % (nx, nv, na), nx=nx, nv=nv, na=na)
    for xc in range(5):
        for pc in range(4):
            point("columns/%d/%d" % (xc, pc), nx=1, nv=1, xc=xc, pc=pc)
    for d in range(-2, 8):
        for o in OUTS:
            point("out/%d/%s/%d" % (d, o[0], o[1]), nx=1, nv=1, d=d, o=o)
            if d < 3:
                point("out2/%d/%s/%d" % (d, o[0], o[1]), nx=2, nv=1, d=d, o=o)
    for nmax in (-1, 1, 2):
        point("images/%d" % nmax, nx=1, nv=1, nmax=nmax)
    for none in range(3):
        point("none/%d" % none, none=none)

    # -------------------------------------------------------------- polygon
    w = W[COMP] + "polygon_potential"

    def polygon(key, nx=2, xc=3, polys=((3, 2),), d=0, nmax=0, o=(None, 0), none=False, kind="list"):
        def f():
            a = [K.arr("x", nx, xc), out(nx, d, *o)]
            p = [None if q is None else K.arr("v%d" % i, *q) for i, q in enumerate(polys)]
            ps = I.new_list(p) if kind == "list" else tuple(p)
            if none == "polygons":
                ps = None
            K.polygon(COMP, None if none == "x" else a[0], ps, pot, d, nmax, h, a[1])
        go("polygon/" + key, w, "all accesses lie inside the arrays or the call is rejected", f)
    for nx in range(3):
        for polys in ((), ((0, 2),), ((1, 2),), ((2, 2),), ((3, 2),), ((3, 2), (0, 2)), ((0, 2), (2, 2)), ((3, 2), (1, 2), (2, 2)), ((2, 2), None), (None,), ((2, 2), (4, 2))):
            polygon("sizes/%d/%s" % (nx, ",".join("None" if q is None else str(q[0]) for q in polys)), nx=nx, polys=polys)
    for xc in range(5):
        for pc in range(4):
            polygon("columns/%d/%d" % (xc, pc), nx=1, xc=xc, polys=((2, pc),))
            polygon("columns2/%d/%d" % (xc, pc), nx=1, xc=xc, polys=((2, 2), (2, pc)))
    polygon("long", nx=1, polys=((40, 2),))
    for d in range(-2, 8):
        for o in OUTS:
            polygon("out/%d/%s/%d" % (d, o[0], o[1]), nx=1, polys=((2, 2),), d=d, o=o)
            if d < 2:
                polygon("out2/%d/%s/%d" % (d, o[0], o[1]), nx=2, polys=((1, 2),), d=d, o=o)
    for nmax in (-1, 1, 2):
        polygon("images/%d" % nmax, nx=1, polys=((1, 2),), nmax=nmax)
    for none in ("x", "polygons"):
        polygon("none/" + none, none=none)

    # ----------------------------------------------------------------- mesh
    w = W[COMP] + "mesh_potential"

    def mesh(key, nx=1, xc=3, npt=2, pc=2, edges=((0, 1), (1, 0)), ec=2, polys=(0, 1), npot=2, d=0, nmax=0, o=(None, 0), none=None):
        def f():
            a = [K.arr("x", nx, xc), K.arr("p", npt, pc), table(edges, ec), table(polys, None) if not polys else K.ints(polys), K.arr("v", npot), out(nx, d, *o)]
            if none is not None:
                a[none] = None
            K.mesh(COMP, a[0], a[1], a[2], a[3], a[4], d, nmax, h, a[5])
        go("mesh/" + key, w, "all accesses lie inside the arrays or the call is rejected", f)
    bad = (-2**31, -3, -1, 0, 1, 2, 3, 2**31 - 1)
    for npt in (0, 1, 2):
        for e in bad:
            mesh("first/%d/%d" % (npt, e), npt=npt, edges=((e, 0),), polys=(0,))
            mesh("second/%d/%d" % (npt, e), npt=npt, edges=((0, e),), polys=(0,))
            mesh("later/%d/%d" % (npt, e), npt=npt, edges=((0, 0), (0, e)), polys=(0, 0))
            mesh("later1/%d/%d" % (npt, e), npt=npt, edges=((0, 0), (e, 0)), polys=(0, 0))
    for npot in (0, 1, 2):
        for e in bad:
            mesh("label/%d/%d" % (npot, e), npot=npot, edges=((0, 1),), polys=(e,))
            mesh("label2/%d/%d" % (npot, e), npot=npot, polys=(0, e))
    for nx in range(3):
        for ne in range(3):
            for npl in range(4):
                mesh("sizes/%d/%d/%d" % (nx, ne, npl), nx=nx, edges=((0, 1),)*ne, polys=(0,)*npl)
    for xc in range(5):
        for pc in range(4):
            mesh("columns/%d/%d" % (xc, pc), xc=xc, pc=pc)
    for ec, e in ((0, ()), (1, ((0,),)), (3, ((0, 1, 5),))):
        mesh("edges/%d" % ec, edges=e, ec=ec, polys=(0,)*len(e))
    mesh("distinct", npt=3, edges=((2, 2),), polys=(1,), npot=2)
    mesh("distinct2", npt=1, edges=((0, 0),), polys=(1,), npot=2)
    mesh("distinct3", npt=3, edges=((2, 2),), polys=(2,), npot=2)
    for d in range(-2, 8):
        for o in OUTS:
            mesh("out/%d/%s/%d" % (d, o[0], o[1]), edges=((0, 1),), polys=(0,), d=d, o=o)
            if d < 2:
                mesh("out2/%d/%s/%d" % (d, o[0], o[1]), nx=2, edges=((0, 1),), polys=(0,), d=d, o=o)
    for nmax in (-1, 1, 2):
        mesh("images/%d" % nmax, edges=((0, 1),), polys=(0,), nmax=nmax)
    for none in range(5):
        mesh("none/%d" % none, none=none)
    # other kernels of the file
    known = {"point_potential", "polygon_potential", "mesh_potential"}
    for n, m in cyload.load(pyx).cymeta.items():
        if not m["cdef"] and n not in known:
            ck.unknown("other/" + n, "kernel without a driver")
    ck.note(I)


def contiguous(ck, pyx):
    """raw pointers walk an array in memory order: the buffer they are taken
    from must be declared contiguous"""
    tree = cyload.load(pyx)
    src = open(pyx, encoding="utf8").read()
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or f.name not in tree.cymeta:
            continue
        m = tree.cymeta[f.name]
        kinds = dict(m["locals"])
        kinds.update({n: k for n, k, _ in m["args"]})
        for c in ast.walk(f):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("__cy_addr__", "__cy_data__") and isinstance(c.args[0], ast.Name):
                k = kinds.get(c.args[0].id, ("obj",))
                if k[0] != "buf":
                    continue
                key = "pointer/%s/%s" % (f.name, c.args[0].id)
                w = "electrode/cexpressions.pyx:%d %s" % (c.lineno, f.name)
                ck.ob(key, w, "the buffer is declared C-contiguous")
                if len(k) > 3 and k[3] == "c" or k[1] is None:
                    continue
                if "contig" in src.lower():
                    ck.unknown(key, "contiguity is established in another way")
                else:
                    ck.fail(key, w, "a pointer walks %s, which is not declared mode=\"c\": strided arrays are overrun" % c.args[0].id)

"""Drivers: one call of every evaluating entry point of the library with
unknown arguments, for the properties about what a call leaves behind."""
from ._lp import *
from ._kinds import Kinds
from .c30 import SRC as TSRC

DSRC = '''
import numpy as np
def method(s, name, *a): return getattr(s, name)(*a)
def fn(f, *a): return f(*a)
def kw(f, a, k): return f(*a, **k)
def methodkw(s, name, a, k): return getattr(s, name)(*a, **k)
def walk_m(s, x, v, axis, newp, newq, probes): return walk(s, Integ(newp, newq, probes), x, v, {"axis": axis, "t0": 0., "dt": .25, "t1": .5})
def walk_0(s, x, v, newp, newq, probes): return walk(s, Integ(newp, newq, probes), x, v, {"t0": 0., "dt": .25, "t1": .5})
def static_0(s, x, m, q, l, o): return list(s.analyze_static(x, m=m, q=q, l=l, o=o))
def static_1(s, x, axis, mo, so): return list(s.analyze_static(x, axis, min_offset=mo, saddle_offset=so, min_off=True))
def voltages(s, d, r):
    for i, e in enumerate(s):
        e.dc = d[i]
        e.rf = r[i]
        e.tag = e.tag + "*"     # another geometry
def withv(s, d, r, x):
    with s.with_voltages(d, r):
        v = s.electrical_potential(x, 1, "dc")
    return v
def epot(C, args, x, d, p, out): return C.potential(x, d, p, out)
def epot0(C, args, x, d): return C.potential(x, d)
def obj(o, s, v): return [r for r in o.objective(s, v)]
def con(o, s, v): return [(r.kind, r.val - 0) for r in o.constraints(s, v)]
def var(n):
    import cvxopt.modeling
    return cvxopt.modeling.variable(n)
def getter(o, n): return getattr(o, n)
'''


class D(object):
    """one driver; mk(tag) makes the argument list; frame: indices whose state
    may change; hist: the result may be compared with an earlier one"""
    def __init__(self, key, where, f, mk, may=(), hist=True, mutate=None, kw=None):
        self.key, self.where, self.f, self.mk, self.may, self.hist, self.mutate = key, where, f, mk, may, hist, mutate


def fresh(I, name, *shape):
    return npm.sym_array(I, name, tuple(const(s) for s in shape))


def system_drivers(ck):
    L = LP(ck)
    I = L.I
    E = L.E
    m = ck.spec(I, TSRC + DSRC, "drvsys", timepot=E.fn("timepot"))
    F = lambda n: I.get(m, n)
    S = "electrode/system.py: System."
    out = []

    def sysx(extra, n=2, shape=(3,), lst=False):
        def mk(tag):
            s = E.make(n, tag="s")
            x = fresh(I, "x" + tag, *shape)
            if lst:
                x = I.new_list([I.new_list([I.getitem(x, (const(i), const(j))) for j in range(3)]) for i in range(shape[0])])
            return [s] + [x if e is Ellipsis else e(tag) if callable(e) else e for e in extra]
        return mk

    def mutate(I, args):
        ck.run(I, F("voltages"), args[0], fresh(I, "nd", 4), fresh(I, "nr", 4))
        for a in args[1:]:
            if isinstance(a, Arr):
                sh = npm.snap(I, a).shape
                if npm.snap(I, a).dt.kind in "f" if hasattr(npm.snap(I, a).dt, "kind") else True:
                    I.setitem(a, Ellipsis, npm.sym_array(I, "new%d" % args.index(a), sh))

    def add(key, name, extra, **k):
        kk = {q: k.pop(q) for q in ("n", "shape", "lst") if q in k}
        out.append(D("%s" % key, S + name, F("method"), sysx([name] + extra, **kk), mutate=mutate, **k))
    X = Ellipsis
    for lst in (False, True):
        v = "/list" if lst else ""
        for d in (0, 1, 2):
            for typ in ("dc", "rf"):
                add("electrical/%d%s%s" % (d, typ, v), "electrical_potential", [X, const(d), typ, FALSE], shape=(2, 3), lst=lst)
            add("individual/%d%s" % (d, v), "individual_potential", [X, const(d)], shape=(2, 3), lst=lst)
            add("pseudo/%d%s" % (d, v), "pseudo_potential", [X, const(d)], shape=(2, 3), lst=lst)
        add("electrical/expand" + v, "electrical_potential", [X, const(2), "dc", TRUE], shape=(2, 3), lst=lst)
        add("time" + v, "time_potential", [X, const(1), lambda t: T.atom("t" + t), FALSE], shape=(2, 3), lst=lst)
        add("time/expand" + v, "time_potential", [X, const(2), lambda t: T.atom("t" + t), TRUE], shape=(2, 3), lst=lst)
        for typ in ("tot", "dc", "rf"):
            add("potential/%s%s" % (typ, v), "potential", [X, const(1), typ], shape=(2, 3), lst=lst)
    add("electrical/point", "electrical_potential", [X, const(1)])
    add("time/default", "time_potential", [X])
    add("modes", "modes", [X])
    add("modes/unsorted", "modes", [X, FALSE])
    add("mathieu", "mathieu", [X, lambda t: T.atom("sc" + t), const(1)])
    for nm in ("names", "dcs", "rfs"):
        out.append(D(nm, S + nm, F("getter"), sysx([nm]), mutate=mutate))
    out.append(D("with", S + "with_voltages", F("withv"), sysx([lambda t: fresh(I, "vd" + t, 2), lambda t: fresh(I, "vr" + t, 2), X], shape=(2, 3)), mutate=mutate))
    lst3 = lambda t: I.new_list([const(0), const(2)])
    cb = lambda t: fresh(I, "c" + t, 3, 3)
    ints = lambda t: I.new_list([const(0), const(2), const(1)])
    for meth in ("minimum", "saddle"):
        add(meth, meth, [X, lst3, cb], hist=False)
        add(meth + "/default", meth, [X], hist=False)
        out.append(D(meth + "/ints", S + meth, F("method"), lambda tag, meth=meth: [E.make(2, tag="s"), meth, ints(tag)], hist=False))
    pr = lambda d: lambda t: I.new_list([(T.atom("pt0" + t), fresh(I, "pq" + t, d))])
    w = lambda d: [lambda t: fresh(I, "np" + t, 4, d), lambda t: fresh(I, "nq" + t, 4, d), pr(d)]
    vel = lambda t: fresh(I, "v" + t, 3)
    out.append(D("trajectory", S + "trajectory", F("walk_m"), sysx([X, vel, lst3] + w(2)), mutate=mutate))
    out.append(D("trajectory/default", S + "trajectory", F("walk_0"), sysx([X, vel] + w(3)), mutate=mutate))
    I.stubs["system.System.ions"] = lambda I, a, k: None
    out.append(D("static", S + "analyze_static", F("static_0"), sysx([X] + [lambda t, q=q: T.atom(q + t) for q in "mqlo"]), hist=False))
    out.append(D("static/offsets", S + "analyze_static", F("static_1"),
                 sysx([X, lst3, lambda t: fresh(I, "mo" + t, 3), lambda t: fresh(I, "so" + t, 3)]), hist=False))
    # voltage design
    mod = ck.mod(I, "pattern_constraints")
    g = lambda n: I.getattr_(mod, n)
    pm = ck.spec(I, '''
import numpy as np
def cons(PO, MP, RC, SV, x, R, b):
    po = PO(x=x, derivative="y", rotation=R, value=1.)
    p2 = PO(x=x, derivative="zz", value=0.)
    p3 = PO(x=x, derivative="xy", rotation=R, min=-1., max=2.)
    mp = MP(components=[PO(x=x, derivative="xx", value=1.), PO(x=x, derivative="yy", value=b)], value=0.)
    return [po, p2, p3, mp, RC(min=-1., max=1.), RC(max=b, index=1)]
def opt(s, c): return s.optimize(c, verbose=False)
def sol(s, l, g): return s.solve(l, g, verbose=False)
def shims(s, r, o, c): return s.shims(r, o, c)
def shims0(s, r): return s.shims(r)
def req(x, R): return [(x, None, "x"), (x, R, "yz")]
''', "drvcons")
    P = lambda n: I.get(pm, n)
    names = ("PotentialObjective", "MultiPotentialObjective", "PatternRangeConstraint", "SingleValueConstraint")

    def cons(tag, n=None):
        x, R = fresh(I, "cx" + tag, 3), fresh(I, "cR" + tag, 3, 3)
        l = ck.run(I, P("cons"), *[g(q) for q in names], x, R, T.atom("b" + tag)).value
        return l if n is None else I.new_list([I.getitem(l, const(q)) for q in n])
    out.append(D("optimize", S + "optimize", P("opt"), lambda t: [E.make(4, tag="s"), cons(t, (0, 1, 3, 4))], hist=False))
    out.append(D("solve", S + "solve", P("sol"), lambda t: [E.make(2, tag="s"), I.new_list([cons(t, (0, 4)), cons(t + "b", (0, 4))]), I.new_list([])], hist=False))
    req = lambda t: ck.run(I, P("req"), fresh(I, "rx" + t, 3), fresh(I, "rR" + t, 3, 3)).value
    out.append(D("shims", S + "shims", P("shims"), lambda t: [E.make(6, tag="s"), req(t), cons(t, (0, 3)), cons(t + "b", (4,))], hist=False))
    out.append(D("shims/default", S + "shims", P("shims0"), lambda t: [E.make(4, tag="s"), req(t)], hist=False))
    PC = "electrode/pattern_constraints.py: "
    for i, nm in enumerate(("PotentialObjective", "PotentialObjective", "PotentialObjective", "MultiPotentialObjective", "PatternRangeConstraint",
                            "PatternRangeConstraint")):
        for q in ("obj", "con"):
            def mk(t, i=i):
                l = cons(t)
                return [I.getitem(l, const(i)), E.make(2, tag="s"), ck.run(I, F("var"), const(2)).value]
            out.append(D("%s/%d/%s" % (q, i, nm), PC + nm, F(q), mk, mutate=lambda I, a: ck.run(I, F("voltages"), a[1], fresh(I, "nd", 4), fresh(I, "nr", 4)) if q == "obj" else None))
    return I, F, out


def kind_drivers(ck):
    K = Kinds(ck)
    I = K.I
    I.module("electrode.system")
    m = ck.spec(I, DSRC.replace("def walk_m", "def _w").replace("import cvxopt.modeling", "pass"), "drvkind")
    F = lambda n: I.get(m, n)
    out = []
    W = "electrode/electrode.py: "
    for kind in ("cover", "point", "poly", "mesh", "grid"):
        for d in (0, 1, 2):
            for how in ("out", "fresh"):
                def mk(tag, kind=kind, d=d, how=how):
                    a = K.args()
                    o = K.make(kind, a, const(1), T.atom("h")).value
                    x = fresh(I, "x" + tag, 2, 3)
                    if how == "fresh":
                        return [o, a, x, const(d)]
                    return [o, a, x, const(d), T.atom("v" + tag), fresh(I, "o" + tag, 2, 2*d + 1)]

                def mutate(I, args):
                    for q, a in enumerate(args[2:3]):
                        I.setitem(a, Ellipsis, fresh(I, "new", 2, 3))
                out.append(D("%s/%d/%s" % (kind, d, how), W + K.cls[kind].name + ".potential", F("epot" if how == "out" else "epot0"), mk,
                             may=(5,), mutate=mutate))
    out.append(D("to_points", W + "PolygonPixelElectrode.to_points", F("method"),
                 lambda t: [K.make("poly", K.args(), const(1), T.atom("h")).value, "to_points"]))
    S = ck.attr(I, "system", "System")
    sm = ck.spec(I, '''
import numpy as np
def build(C, S, paths, dcs, n, h): return S([C(paths=paths[:2], dc=dcs[0], cover_nmax=n, cover_height=h), C(paths=paths[2:], dc=dcs[1], cover_nmax=n, cover_height=h)])
def group(s, t, v): return s.group(t, v)
def group0(s): return s.group()
def mesh(C, s): return C.from_polygon_system(s)
''', "drvkind2")
    P = lambda n: I.get(sm, n)

    def poly(tag):
        paths = I.new_list([K.arr("p%s%d" % (tag, i), 3, 2) for i in range(3)])
        return ck.run(I, P("build"), K.cls["poly"], S, paths, I.new_list([const(-.5), const(1.5 if tag else .5)]), const(1), T.atom("h" + tag)).value
    out.append(D("group", "electrode/system.py: System.group", P("group"),
                 lambda t: [poly(t), I.new_list([const(-1.), const(2.)]), I.new_list([const(3.), const(.25)])]))
    out.append(D("group/default", "electrode/system.py: System.group", P("group0"), lambda t: [poly(t)]))
    out.append(D("from_polygons", W + "MeshPixelElectrode.from_polygon_system", P("mesh"), lambda t: [K.cls["mesh"], poly(t)]))
    return I, F, out


def util_drivers(ck):
    I = ck.interp("electrode.utils", "electrode.grid", "electrode.spherical_harmonics", "electrode.transformations")
    m = ck.spec(I, DSRC.replace("import cvxopt.modeling", "pass"), "drvutil")
    F = lambda n: I.get(m, n)
    out = []

    def fn(mod, name, args, key=None, may=()):
        f = ck.attr(I, mod, name)
        out.append(D(key or name, "electrode/%s.py: %s" % (mod, name), F("fn"), lambda t: [f] + [a(t) if callable(a) else a for a in args], may=may,
                     mutate=lambda I, a: [I.setitem(x, Ellipsis, npm.sym_array(I, "new%d" % i, npm.snap(I, x).shape)) for i, x in enumerate(a) if isinstance(x, Arr)] and None))
    A = lambda n, *s: lambda t: fresh(I, n + t, *s)
    for k in (1, 2, 3):
        fn("utils", "rotate_tensor", [A("c", 2, *[3]*k), A("r", 3, 3)], "rotate/%d" % k)
        fn("utils", "rotate_tensor", [A("c", *[3]*k), A("r", 3, 3), const(k)], "rotate/o%d" % k)
        fn("utils", "select_tensor", [A("c", 2, *[3]*k)], "select/%d" % k)
    for k in (0, 1, 2, 3, 4):
        fn("utils", "expand_tensor", [A("c", 2, 2*k + 1)], "expand/%d" % k)
    fn("utils", "norm", [A("c", 2, 3)])
    fn("utils", "area_centroid", [A("p", 4, 2)])
    fn("utils", "cartesian_to_spherical_harmonics", [A("c", 5, 1)], "c2sh/2")
    fn("utils", "cartesian_to_spherical_harmonics", [A("c", 3, 2)], "c2sh/1")
    fn("utils", "mathieu", [const(1), A("a", 2, 2), A("q", 2, 2)])
    fn("spherical_harmonics", "spherical_to_cartesian", [A("r", 2), A("th", 2), A("ph", 2)])
    fn("spherical_harmonics", "cartesian_to_spherical", [A("x", 2), A("y", 2), A("z", 2)])
    # grids
    G = ck.attr(I, "grid", "Grid")
    gm = ck.spec(I, 'def mk(G, c, s, h): return G(center=c, step=s, shape=h)', "drvgrid")
    for nm, args in (("get_origin", []), ("to_slices", []), ("to_mgrid", []), ("to_points", []), ("to_xyz", []), ("indices_to_coordinates", [A("i", 2, 3)]),
                     ("coordinates_to_indices", [A("x", 2, 3)])):
        out.append(D("grid/" + nm, "electrode/grid.py: Grid." + nm, F("method"), lambda t, nm=nm, args=args: [
            ck.run(I, I.get(gm, "mk"), G, fresh(I, "gc" + t, 3), fresh(I, "gs" + t, 3), (const(2), const(3), const(2))).value, nm] + [a(t) for a in args]))
    # transformations
    T_ = "transformations"
    q = A("q", 4)
    v, p, M = A("v", 3), A("p", 3), A("M", 4, 4)
    S = lambda n: lambda t: T.atom(n + t)
    for nm, args in (("translation_matrix", [v]), ("reflection_matrix", [p, v]), ("rotation_matrix", [S("a"), v, p]), ("scale_matrix", [S("a"), p, v]),
                     ("scale_matrix", [S("a"), p]), ("translation_from_matrix", [M]),
                     ("projection_matrix", [p, v]), ("projection_matrix", [p, v, A("d", 3)]), ("projection_matrix", [p, v, None, A("d", 3)]),
                     ("projection_matrix", [p, v, None, A("d", 3), TRUE]), ("compose_matrix", [v, p, A("g", 3), A("t", 3), q]),
                     ("euler_from_matrix", [M]), ("euler_from_matrix", [M, "rzxz"]), ("euler_from_quaternion", [q]), ("quaternion_matrix", [q]),
                     ("quaternion_about_axis", [S("a"), v]), ("quaternion_from_matrix", [M, TRUE]), ("quaternion_from_matrix", [M]), ("quaternion_multiply", [q, A("r", 4)]),
                     ("quaternion_conjugate", [q]), ("quaternion_inverse", [q]), ("quaternion_imag", [q]), ("quaternion_slerp", [q, A("r", 4), S("f")]),
                     ("quaternion_slerp", [q, A("r", 4), S("f"), const(1), FALSE]), ("arcball_map_to_sphere", [A("w", 2), A("ce", 2), S("rad")]),
                     ("arcball_constrain_to_axis", [v, p]), ("vector_norm", [v]), ("vector_norm", [A("m", 2, 3), const(1)]), ("unit_vector", [v]),
                     ("unit_vector", [A("m", 2, 3), const(1)]), ("inverse_matrix", [M]), ("concatenate_matrices", [M, A("N", 4, 4)]),
                     ("is_same_transform", [M, A("N", 4, 4)]), ("orthogonalization_matrix", [v, p]),
                     ("decompose_matrix", [M]), ("is_same_quaternion", [q, A("r", 4)]), ("angle_between_vectors", [v, p]), ("angle_between_vectors", [v, p, FALSE]),
                     ("vector_product", [v, p]), ("arcball_nearest_axis", [v, A("ax", 2, 3)]), ("shear_matrix", [S("a"), v, p, A("d", 3)]),
                     ("clip_matrix", [S(c) for c in "lrbtnf"]), ("clip_matrix", [S(c) for c in "lrbtnf"] + [TRUE]),
                     ("projection_from_matrix", [M]), ("affine_matrix_from_points", [A("a", 3, 4), A("b", 3, 4)]),
                     ("affine_matrix_from_points", [A("a", 3, 4), A("b", 3, 4), FALSE]), ("affine_matrix_from_points", [A("a", 3, 4), A("b", 3, 4), FALSE, TRUE, FALSE]),
                     ("superimposition_matrix", [A("a", 3, 4), A("b", 3, 4)])):
        fn(T_, nm, args, "tf/%s/%d" % (nm, len(out)))
    return I, F, out

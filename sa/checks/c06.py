from ._kinds import *

DESC = ("MeshPixelElectrode.from_polygon_system is abstractly interpreted on assemblies of 1..3 polygon electrodes with 0..2 outlines of 1..4 "
        "unknown vertices, unknown (or given, including zero and negative) dc and unknown rf voltages and shared unknown cover parameters, followed by potential() at unknown points "
        "and scale for orders 0..5 (through the compiled kernels); the value graph is compared with the voltage-weighted sum of the "
        "polygon electrodes' own contributions. The assembly must be unchanged.")

SRC = '''
import numpy as np
def build(C, S, shapes, paths, dcs, rfs, n, h):
    l = []
    for sh, d, r in zip(shapes, dcs, rfs):
        l.append(C(paths=[paths[i] for i in sh], dc=d, rf=r, cover_nmax=n, cover_height=h))
    return S(l)
def impl(M, s, x, d, v):
    return M.from_polygon_system(s).potential(x, d, potential=v)
def ref(M, s, x, d, v):
    r = np.zeros((len(x), 2*d + 1))
    for e in s:
        r = r + v*e.dc*e.potential(x, d)
    return r
def unit(M, s, x, d, v):
    m = M.from_polygon_system(s)
    return m.potential(x, d, potential=m.dc)
def uref(M, s, x, d, v):
    r = np.zeros((len(x), 2*d + 1))
    for e in s:
        e.potential(x, d, potential=e.dc, out=r)
    return r
'''

CASES = {
    "one": [(3,)], "two-outlines": [(3, 4)], "two": [(3,), (4,)], "three": [(3,), (3, 4), (4,)], "empty-first": [(), (3,)],
    "empty-middle": [(3,), (), (4,)], "small": [(1,), (2, 3)],
}


def check(ck):
    K = Kinds(ck)
    I = K.I
    I.module("electrode.system")
    S = ck.attr(I, "system", "System")
    m = ck.spec(I, SRC, "c06spec")
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"]
    h, v = T.atom("h"), T.atom("v")
    w = "electrode/electrode.py: MeshPixelElectrode.from_polygon_system"

    def one(nm, d, n, fi="impl", fr="ref", zero=None):
        key = "%s/%d/N%d/%s%s" % (nm, d, n, fi, "" if zero is None else "/dc0-%d" % zero)

        def go():
            I.ov = {}
            paths, shapes, q = [], [], 0
            for sh in CASES[nm]:
                r = []
                for k in sh:
                    paths.append(K.arr("p%d" % q, k, 2))
                    r.append(const(q))
                    q += 1
                shapes.append(I.new_list(r))
            ne = len(shapes)
            dcs = I.new_list([T.atom("dc%d" % i) if zero is None else const(0.) if i == zero else const((3., -2., .5)[i]) for i in range(ne)])
            rfs = I.new_list([T.atom("rf%d" % i) for i in range(ne)])
            s = ck.run(I, F("build"), K.cls["poly"], S, I.new_list(shapes), I.new_list(paths), dcs, rfs, const(n), h).value
            x = K.x(1 if d > 1 else 2)
            I.freeze()
            before = ck.cap(I, s)
            ck.vs(key, w, I, F(fi), F(fr), [K.cls["mesh"], s, x, const(d), v], labs=labs,
                  rule="the mesh contributes the voltage weighted sum of the polygons")
            I.ov = {}
            o = ck.run(I, F(fi), K.cls["mesh"], s, x, const(d), v)
            ck.same(key + "/frame", w, ck.cap(I, s), before, labs=labs, rule="the assembly is unchanged")
            I.ov = {}
        ck.guarded(key, go)
    for nm in CASES:
        for d in range(6):
            for n in (0, 1):
                if d > 2 and nm not in ("two", "two-outlines") or n and d not in (0, 1):
                    continue
                one(nm, d, n)
        one(nm, 1, 1, "unit", "uref")
        for z in range(len(CASES[nm])):
            one(nm, 0, 0, zero=z)
        one(nm, 0, 0, zero=-1)

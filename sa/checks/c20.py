from ..check import *

DESC = ("GridElectrode.__init__, generate, derive, potential and from_result are abstractly interpreted on anisotropic grids with unknown "
        "data, origin, spacing, voltage and points, for every stored/requested order; interpolation (map_coordinates, uninterpreted) is "
        "compared argument by argument with the specification, finite differences value number by value number, and the stored data of "
        "available orders must be kept.")

SRC = '''
import numpy as np
from scipy.ndimage import map_coordinates
def new(C, data, o, d): return C(data=data, origin=o, spacing=d)
def new0(C, data): return C(data=data)
def new_kw(C, data, o, d): return C(data=data, origin=o, spacing=d, name="g", dc=3., rf=4.)
def attrs(e): return e.data, e.origin, e.spacing
def settings(e): return e.name, e.dc, e.rf
def spec_attrs(data, o, d):
    return [np.array(q, np.double) for q in data], np.array(o, np.double), np.array(d, np.double)
def gen(e, m): return e.generate(m)
def gen_d(e): return e.generate()
def pot(e, x, k, u, out): return e.potential(x, k, u, out)
def pot_d(e, x): return e.potential(x)
def spec_pot(data, o, d, x, k, u, out):
    y = np.empty((len(x), 3))
    for i in range(len(x)):
        for j in range(3):
            y[i, j] = (x[i, j] - o[j])/d[j]
    r = np.zeros((len(x), 2*k + 1)) if out is None else out
    dat = np.array(data[k], np.double)
    for i in range(2*k + 1):
        v = map_coordinates(dat[..., i], y.T, order=1, mode="nearest")
        for n in range(len(x)):
            r[n, i] = r[n, i] + u*v[n]
    return r
def fd(f, j, k, h):
    # one component's difference along axis k
    n = f.shape[k]
    g = np.zeros(f.shape[:3])
    for a in range(f.shape[0]):
        for b in range(f.shape[1]):
            for c in range(f.shape[2]):
                p, q = [a, b, c], [a, b, c]
                p[k] = min(p[k] + 1, n - 1)
                q[k] = max(q[k] - 1, 0)
                g[a, b, c] = (f[p[0], p[1], p[2], j] - f[q[0], q[1], q[2], j])/((p[k] - q[k])*h)
    return g
def put(api, name, shape, o, d, arrays):
    api.CONTENT[name] = (tuple(shape), tuple(o), tuple(d), [(n, a) for n, a in arrays])
def vtk(C, f, m): return C.from_vtk(f, m)
def spec_vtk(arrays, shape, o, d):
    l = []
    for a, k in arrays:
        b = np.zeros((shape[0], shape[1], shape[2], k))
        for x in range(shape[0]):
            for y in range(shape[1]):
                for z in range(shape[2]):
                    for c in range(k):
                        n = x + shape[0]*(y + shape[1]*z)
                        b[x, y, z, c] = a[n] if k == 1 else a[n, c]
        l.append(b)
    return l, np.array(o), np.array(d)
def res(C, r): return C.from_result(r)
def res_m(C, r, m): return C.from_result(r, m)
class R(object):
    def __init__(self, g, p, f):
        self.grid = g
        self.potential = p
        self.field = f
def mkres(G, c, s, shape, p, f): return R(G(c, s, shape), p, f)
def spec_res(c, s, shape, p, f):
    o = [c[i] - s[i]*(shape[i] - 1)/2 for i in range(3)]
    a = np.zeros((shape[0], shape[1], shape[2], 1))
    a[..., 0] = p
    l = [a]
    if f is not None:
        b = np.zeros((shape[0], shape[1], shape[2], 3))
        for i in range(3):
            b[..., i] = f[i]
        l.append(b)
    return l, o, s
'''
W = "electrode/electrode.py: GridElectrode."


def check(ck):
    I = ck.interp("electrode.electrode", "electrode.grid", "electrode.utils")
    C = ck.attr(I, "electrode", "GridElectrode")
    m = ck.spec(I, SRC, "c20spec")
    F = lambda n: I.get(m, n)
    arr = lambda n, *s: npm.sym_array(I, n, tuple(const(q) for q in s))
    names = {}
    I.ov = {}
    for l in range(5):
        names[l] = [pv(I, ck.run(I, ck.attr(I, "utils", "deriv_to_name"), const(l), const(i)).value) for i in range(2*l + 1)]
    labs = ck.labs()
    u = T.atom("u")
    shapes = [(3, 4, 2)] if ck.tier == "quick" else [(3, 4, 2), (2, 2, 3), (5, 3, 4)]

    def mk(orders, shape):
        data = [arr("d%d" % l, *(shape + (2*l + 1,))) for l in orders]
        return data, arr("o", 3), arr("s", 3)

    def new():
        for n in (0, 1, 3):
            data, o, d = mk(range(n), (3, 4, 2))
            for how in ("new", "new_kw"):
                I.ov = {}
                data, o, d = mk(range(n), (3, 4, 2))
                dl = I.new_list(data)
                a = ck.run(I, F(how), C, dl, o, d)
                ck.note(I)
                if not ck.noraise("new%d" % n, W + "__init__", a):
                    continue
                got = ck.cap(I, ck.run(I, F("attrs"), a.value).value)
                if how == "new_kw":
                    s = [ck.cap(I, q) for q in I.resolve(ck.run(I, F("settings"), a.value).value)]
                    ck.same("settings", W + "__init__", ("tuple",) + tuple(s), ("tuple", "g", const(3.), const(4.)), labs=labs[:2], rule="name and voltages are kept")
                I.ov = {}
                data, o, d = mk(range(n), (3, 4, 2))
                w = ck.cap(I, ck.run(I, F("spec_attrs"), I.new_list(data), o, d).value)
                ck.same("new%d-%s" % (n, how), W + "__init__", got, w, labs=labs[:4], rule="data, origin and spacing are kept as given")
        I.ov = {}
        data, o, d = mk(range(1), (3, 4, 2))
        a = ck.run(I, F("new0"), C, I.new_list(data))
        if ck.noraise("new-default", W + "__init__", a):
            got = ck.cap(I, I.resolve(ck.run(I, F("attrs"), a.value).value)[1:])
            I.ov = {}
            w = ck.cap(I, I.resolve(ck.run(I, F("spec_attrs"), I.new_list([]), I.new_list([const(0.)]*3), I.new_list([const(1.)]*3)).value)[1:])
            ck.same("new-default", W + "__init__", got, w, labs=labs[:2], rule="default origin 0 and unit spacing")
    ck.guarded("new", new)

    def potential(shape, l, np_, how, out, dflt=False):
        key = "pot-%s-%d-%d-%s%s" % ("x".join(map(str, shape)), l, np_, how, "-out" if out else "")
        w = W + "potential"

        def go():
            I.ov = {}
            data, o, d = mk(range(3 if l < 3 else l + 1), shape)
            e = ck.run(I, F("new"), C, I.new_list(data), o, d).value
            x = arr("x", np_, 3)
            r0 = arr("r", np_, 2*l + 1) if out else None
            I.freeze()
            before, xb = ck.cap(I, e), ck.cap(I, x)
            a = ck.run(I, F("pot"), e, x, const(l), u, r0) if not dflt else ck.run(I, F("pot_d"), e, x)
            ck.note(I)
            if not ck.noraise(key, w, a):
                return
            v = ck.cap(I, a.value)
            after, xa = ck.cap(I, e), ck.cap(I, x)
            rv = ck.cap(I, r0) if out else None
            I.ov = {}
            data, o, d = mk(range(3 if l < 3 else l + 1), shape)
            s = ck.run(I, F("spec_pot"), I.new_list(data), o, d, arr("x", np_, 3), const(l), u if not dflt else const(1.),
                       arr("r", np_, 2*l + 1) if out else None)
            want = ck.cap(I, s.value)
            I.ov = {}
            ck.same(key, w, v, want, labs=labs, rule="linear interpolation of every component at (x - origin)/spacing, scaled by the voltage and added")
            if out:
                ck.same(key + "/out", w, rv, want, labs=labs[:4], rule="contribution is added to the given array")
            ck.same(key + "/frame", w, ("tuple", before, xb), ("tuple", after, xa), labs=labs[:3], rule="electrode and points are unchanged")
        ck.guarded(key, go)
    for shape in shapes:
        for l in range(3 if ck.tier == "quick" else 5):
            for np_ in (1, 2):
                for out in (False, True):
                    potential(shape, l, np_, "n", out)
        potential(shape, 0, 2, "default", False, dflt=True)

    def ints():
        """integer data, points, origin and spacing"""
        key = "pot-int"
        I.ov = {}
        iarr = lambda nm, *s: npm.sym_array(I, nm, tuple(const(q) for q in s), "i")
        D = I.new_list([iarr("Di", 3, 4, 2, 1)])
        o, d, x = iarr("oi", 3), iarr("di", 3), iarr("xi", 2, 3)
        e = ck.run(I, F("new"), C, D, o, d).value
        I.freeze()
        a = ck.run(I, F("pot"), e, x, const(0), u, None)
        ck.note(I)
        if not ck.noraise(key, W + "potential", a):
            return
        v = ck.cap(I, a.value)
        I.ov = {}
        want = ck.cap(I, ck.run(I, F("spec_pot"), D, o, d, x, const(0), u, None).value)
        ck.same(key, W + "potential", v, want, labs=labs, rule="linear interpolation at (x - origin)/spacing, for integer data and points too")
    ck.guarded("pot-int", ints)

    def derive(shape, have, upto, dflt=False):
        key = "derive-%s-%d-%d" % ("x".join(map(str, shape)), have, upto)
        w = W + "generate/derive"

        def go():
            I.ov = {}
            data, o, d = mk(range(have), shape)
            e = ck.run(I, F("new"), C, I.new_list(data), o, d).value
            I.freeze()
            a = ck.run(I, F("gen"), e, const(upto)) if not dflt else ck.run(I, F("gen_d"), e)
            ck.note(I)
            if not ck.noraise(key, w, a):
                return
            got = I.resolve(ck.run(I, F("attrs"), e).value)
            data_ = [npm.snap(I, q) for q in I.items_of(got[0])]
            frame = ck.cap(I, (got[1], got[2]))
            given = [ck.cap(I, q) for q in data]
            I.ov = {}
            _, o, d = mk((), shape)
            ck.same(key + "/frame", w, frame, ck.cap(I, (o, d)), labs=labs[:2], rule="origin and spacing are unchanged")
            ck.ob(key + "/count", w, "all requested orders are present")
            if len(data_) < max(have, upto):
                ck.fail(key + "/count", w, "only %d orders after generating up to %d" % (len(data_), upto))
                return
            for l, s in enumerate(data_):
                if l < have:
                    ck.same("%s/kept%d" % (key, l), w, ("arr", s), given[l], labs=labs[:4], rule="available orders are kept as given")
                    continue
                ck.ob("%s/shape%d" % (key, l), w, "order l has 2l+1 components on the same grid")
                if [T.cval(q) for q in s.shape] != list(shape) + [2*l + 1]:
                    ck.fail("%s/shape%d" % (key, l), w, "order %d has shape %s" % (l, [T.cval(q) for q in s.shape]))
                    return
                p = data_[l - 1]
                hs = npm.snap(I, d)
                for i, nm in enumerate(names[l]):
                    k2 = "%s/%s" % (key, nm)
                    ck.ob(k2, w, "component is the difference of a lower order component along the axis its name adds")
                    comp = Snap(tuple(const(q) for q in shape), (lambda s, i: lambda idx: s.fn(idx + (const(i),)))(s, i), "f")
                    bad = None
                    ok = False
                    # any stored component plus one axis which gives this name
                    for j, lo in enumerate(names[l - 1]):
                        for ax in range(3):
                            if sorted(lo + "xyz"[ax]) != sorted(nm):
                                continue
                            sp = npm.snap(I, ck.run(I, F("fd"), p, const(j), const(ax), hs.fn((const(ax),))).value)
                            try:
                                r = all(conc(lab, ("arr", comp)) == conc(lab, ("arr", sp)) for lab in labs[:5])
                            except (T.Unbound, T.EvalError) as ex:
                                ck.unknown(k2, ex)
                                bad = True
                                break
                            ck.n_lab += 5
                            ok = ok or r
                    if not ok and not bad:
                        ck.fail(k2, w, "%s of order %d is no finite difference of a stored order %d component along the axis its name adds, with that axis' spacing" % (nm, l, l - 1))
        ck.guarded(key, go)
    for shape in shapes:
        for have, upto in ((1, 2), (1, 4), (2, 3), (2, 2), (3, 4), (1, 1), (3, 2)):
            derive(shape, have, upto)

    def result(shape, field, m_):
        key = "result-%s-%s-%s" % ("x".join(map(str, shape)), field, m_)
        w = W + "from_result"

        def go():
            G = ck.attr(I, "grid", "Grid")

            def args():
                sh = I.new_list([const(q) for q in shape])
                return (arr("c", 3), arr("s", 3), sh, arr("p", *shape), arr("f", 3, *shape) if field else None)
            I.ov = {}
            a = args()
            r = ck.run(I, F("mkres"), G, *a).value
            I.freeze()
            o = ck.run(I, F("res_m"), C, r, const(m_)) if m_ is not None else ck.run(I, F("res"), C, r)
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            got = I.resolve(ck.run(I, F("attrs"), o.value).value)
            n = 2 if field else 1
            data_ = I.items_of(got[0])
            ck.ob(key, w, "at least the given orders are present")
            if len(data_) < max(n, m_ or 1):
                ck.fail(key, w, "%d orders present" % len(data_))
                return
            cls = cls_of(I, o.value)
            g = ck.cap(I, (I.new_list(data_[:n]), I.new_list([got[1]]), got[2]))
            I.ov = {}
            s = I.resolve(ck.run(I, F("spec_res"), *args()).value)
            oa = I.call(I.externs["numpy"].table["array"], [s[1]], {})
            want = ck.cap(I, (s[0], I.new_list([oa]), s[2]))
            ck.same(key, w, g, want, labs=labs[:5], rule="potential and field become orders 0 and 1 on the result's grid, whose first node is the origin")
        ck.guarded(key, go)
    for shape in shapes:
        result(shape, True, 2)
        result(shape, False, 2)
        result(shape, True, None)

    def vtk(shape, names_, m_):
        key = "vtk-%s-%s" % ("x".join(map(str, shape)), "+".join(names_))
        w = W + "from_vtk"

        def go():
            n = shape[0]*shape[1]*shape[2]

            def args():
                sh = I.new_list([const(q) for q in shape])
                ar = []
                for q in names_:
                    k = 3 if q == "field" else 1
                    ar.append((q, arr("v" + q, n, 3) if k == 3 else arr("v" + q, n), k))
                o, d = (I.new_list([T.atom(c + str(i)) for i in range(3)]) for c in "os")
                return ar, sh, o, d
            I.ov = {}
            api = I.module("tvtk.api")
            I.freeze()
            ar, sh, o, d = args()
            f = "data.vtk"
            I.files = {f}
            ck.run(I, F("put"), api, f, sh, o, d, I.new_list([(q, a) for q, a, k in ar]))
            I.freeze()
            r = ck.run(I, F("vtk"), C, f, const(m_))
            ck.note(I)
            if not ck.noraise(key, w, r):
                return
            got = I.resolve(ck.run(I, F("attrs"), r.value).value)
            data_ = I.items_of(got[0])
            keep = [q for q in ar if q[0] in ("potential", "field")]
            ck.ob(key, w, "every available order is loaded")
            if len(data_) < len(keep):
                ck.fail(key, w, "%d orders present" % len(data_))
                return
            g = ck.cap(I, (I.new_list(data_[:len(keep)]), got[1], got[2]))
            I.ov = {}
            ar, sh, o, d = args()
            keep = [q for q in ar if q[0] in ("potential", "field")]
            s = I.resolve(ck.run(I, F("spec_vtk"), I.new_list([(a, const(k)) for q, a, k in keep]), sh, o, d).value)
            ck.same(key, w, g, ck.cap(I, (s[0], s[1], s[2])), labs=labs[:5],
                    rule="voxel (i, j, k) holds the file's value i + nx*(j + ny*k); pseudopotential arrays are not used")
        ck.guarded(key, go)
    for shape in shapes:
        vtk(shape, ("potential",), 1)
        vtk(shape, ("potential", "field"), 2)
        vtk(shape, ("potential", "field", "x_pondpot"), 3)
        vtk(shape, ("x_pondpot", "other", "potential"), 2)


def cls_of(I, o):
    return getattr(getattr(I.resolve(o), "cls", None), "name", None)

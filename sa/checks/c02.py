from ._kinds import *

DESC = ("Electrode.potential of every kind (cover, point, polygon, mesh, gridded) is abstractly interpreted, through the compiled "
        "kernels, for unknown geometry, points, voltage scale and accumulator contents, orders 0..5 (grids: the stored orders). "
        "Obligations per kind and order: shape of a fresh result, default scale one, proportionality to the scale, accumulation "
        "onto every cell of the caller's array, which is itself returned, other arguments unchanged, rows independent of other points.")

SRC = '''
import numpy as np
def fresh(e, x, d): return e.potential(x, d)
def default(e, x): return e.potential(x)
def named(e, x, d): return e.potential(x=x, derivative=d)
def plain(e, x, d, s): return e.potential(x, d, potential=s)
def accum(e, x, d, s, out):
    r = e.potential(x, d, potential=s, out=out)
    return r is out
def accum_pos(e, x, d, s, out):
    r = e.potential(x, d, s, out)
    return r is out
def double(v): return np.array(v, np.double)
def scaled(v, s): return v*s
def plus(v, out): return out + v
def row(e, x, d, s, i): return e.potential(x[i:i + 1], d, potential=s)[0]
def pick(v, i): return v[i]
'''


def check(ck):
    K = Kinds(ck)
    I = K.I
    m = ck.spec(I, SRC, "c02spec")
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"]
    s, h = T.atom("s"), T.atom("h")

    def one(kind, d, nmax, zero=False):
        key = "%s/%d/n%d%s" % (kind, d, nmax, "z" if zero else "")
        w = "electrode/electrode.py: %s.potential" % CLS[kind]

        def go():
            I.ov = {}
            a = K.args(d < 3)
            if kind == "grid":
                a = K.args(True)
            e = K.make(kind, a, const(nmax), h).value
            x = K.x(2)
            sc = const(0.) if zero else s
            out = K.arr("out", 2, 2*d + 1)
            dd = const(d)
            I.freeze()
            frame = [("points", x), ("electrode", e)]
            before = [ck.cap(I, q) for _, q in frame]
            out0 = ck.cap(I, out)

            def run(f, *args):
                I.ov = {}
                o = ck.run(I, F(f), *args)
                ck.note(I)
                v = ck.cap(I, o.value) if o.live is not FALSE else None
                return o, v
            ck.ob(key, w, "returns one row per point and 2*order+1 columns")
            of, vf = run("fresh", e, x, dd)
            if of.live is FALSE:
                ck.fail(key, w, "raises in every case: %s at %s" % (of.excs[-1][1], loc_str(of.excs[-1][2])))
                return
            if vf[0] != "arr" or [int(T.cval(q)) for q in vf[1].shape] != [2, 2*d + 1]:
                ck.fail(key, w, "a fresh result has shape %s" % (vf[1].shape if vf[0] == "arr" else vf[0],))
                return
            ck.noraise(key + "/raise", w, of, labs=labs)
            after = [ck.cap(I, q) for _, q in frame]
            for (nm, q), b, c in zip(frame, before, after):
                ck.same(key + "/frame-" + nm, w, c, b, labs=labs, rule="%s unchanged" % nm)
            if d == 0:
                _, vd = run("default", e, x)
                ck.same(key + "/default", w, vd, vf, labs=labs, rule="the default is order zero at scale one")
            _, vn = run("named", e, x, dd)
            ck.same(key + "/named", w, vn, vf, labs=labs, rule="arguments may be given by name")
            op, vp = run("plain", e, x, dd, sc)
            _, vs = run("scaled", snapval(I, vf), sc)
            ck.same(key + "/linear", w, vp, vs, labs=labs, rule="contribution is the scale times the contribution at scale one")
            for f in ("accum", "accum_pos"):
                I.ov = {}
                oa = ck.run(I, F(f), e, x, dd, sc, out)
                ident = ck.cap(I, oa.value)
                got = ck.cap(I, out)
                after = [ck.cap(I, q) for _, q in frame]
                I.ov = {}
                orf = ck.run(I, F("plus"), snapval(I, vs), out)
                want = ck.cap(I, orf.value)
                I.ov = {}
                ck.noraise(key + "/" + f + "/raise", w, oa, labs=labs)
                ck.same(key + "/" + f + "/identity", w, ident, TRUE, labs=labs, rule="the accumulator itself is returned")
                ck.same(key + "/" + f, w, got, want, labs=labs, rule="the contribution is added onto what the accumulator held")
                for (nm, q), b, c in zip(frame, before, after):
                    ck.same(key + "/" + f + "/frame-" + nm, w, c, b, labs=labs, rule="%s unchanged" % nm)
            if nmax == 0 or d < 2:
                for i in range(2):
                    I.ov = {}
                    orow, vrow = run("row", e, x, dd, sc, const(i))
                    I.ov = {}
                    ref = ck.run(I, F("pick"), snapval(I, vp), const(i))
                    ck.same(key + "/row%d" % i, w, vrow, ck.cap(I, ref.value), labs=labs, rule="a point's row does not depend on the other points")
                    I.ov = {}
        ck.guarded(key, go)

    def whole(kind, d):
        """geometry given in integers: the same contribution"""
        key = "%s/%d/ints" % (kind, d)
        w = "electrode/electrode.py: %s.potential" % CLS[kind]

        def go():
            I.ov = {}
            iarr = lambda nm, *sh: npm.sym_array(I, nm, tuple(const(q) for q in sh), "i")
            g = dict(pt=iarr("ipt", 2, 2), ar=iarr("iar", 2), mp=iarr("imp", 3, 2), mv=iarr("imv", 2), origin=iarr("ior", 3), spacing=iarr("isp", 3))
            ls = dict(paths=[iarr("ipa", 3, 2), iarr("ipb", 4, 2)], data=[iarr("ig%d" % q, 2, 3, 2, 2*q + 1) for q in range(3)])
            keep = dict(me=K.ints([[2, 0], [0, 1], [1, 2]]), mq=K.ints([0, 0, 1]))
            D = lambda v: npm.snap(I, ck.run(I, F("double"), v).value)
            x = K.x(2)
            got = []
            for conv in (lambda v: v, D):
                a = {k: conv(v) for k, v in g.items()}
                a.update({k: I.new_list([conv(z) for z in v]) for k, v in ls.items()})
                a.update(keep)
                e = K.make(kind, I.call(I.builtins["dict"], [], a), const(0), h)
                I.freeze()
                o = ck.run(I, F("plain"), e.value, x, const(d), s)
                ck.note(I)
                if not ck.noraise(key, w, e) or not ck.noraise(key, w, o):
                    return
                got.append(ck.cap(I, o.value))
                I.ov = {}
            ck.same(key, w, got[0], got[1], labs=labs, rule="geometry in integers means the same as in floating point numbers")
        ck.guarded(key, go)
    for kind in ("point", "poly", "mesh", "grid"):
        for d in range(3):
            whole(kind, d)
    for kind in ("cover", "point", "poly", "mesh"):
        for d in range(6):
            for nmax in ((0,) if kind == "cover" or d in (3, 4, 5) else (0, 1)):
                one(kind, d, nmax)
        one(kind, 1, 0, True)
    for d in range(3):
        one("grid", d, 0)
    one("grid", 1, 0, True)


def snapval(I, c):
    """array value of a captured array"""
    return npm.to_arr(I, c[1]) if hasattr(npm, "to_arr") else c[1]

from ._kinds import *

DESC = ("For point, polygon and mesh electrodes the contribution with expansion order N (0..3) and unknown cover height is compared by "
        "value number, for derivative orders 0..5, with the sum of cover-free contributions at the 2N+1 image heights; N=0 must not "
        "depend on the height, and the class defaults must be cover-free. The cover electrode is compared with scale*z/h, scale/h "
        "along z, and zero, for orders 0..5.")

SRC = '''
import numpy as np
def impl(e, x, d, s): return e.potential(x, d, potential=s)
def images(e, x, d, s, n, h):
    r = np.zeros((len(x), 2*d + 1))
    for k in range(-n, n + 1):
        r = r + e.potential(x + np.array([0., 0., 2.*k*h]), d, potential=s)
    return r
def cover(x, d, s, h):
    r = np.zeros((len(x), 2*d + 1))
    if d == 0:
        r[:, 0] = s*x[:, 2]/h
    if d == 1:
        r[:, 2] = s/h
    return r
def height(P, Y, M, C, a):
    return C().height, [P(points=a["pt"], areas=a["ar"], cover_nmax=1), Y(paths=a["paths"], cover_nmax=1),
                        M(points=a["mp"], edges=a["me"], polygons=a["mq"], potentials=a["mv"], cover_nmax=1)]
def defaults(P, Y, M, a):
    return [P(points=a["pt"], areas=a["ar"]), Y(paths=a["paths"]), M(points=a["mp"], edges=a["me"], polygons=a["mq"], potentials=a["mv"])]
'''


def check(ck):
    K = Kinds(ck)
    I = K.I
    m = ck.spec(I, SRC, "c05spec")
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"]
    s, h, h2 = T.atom("s"), T.atom("h"), T.atom("h2")

    def one(kind, d, n, frac=False):
        key = "%s/%d/N%d" % (kind, d, n)
        w = "electrode/electrode.py: %s.potential" % CLS[kind]

        def go():
            I.ov = {}
            a = K.args(d < 2 and n < 3)
            x = K.x(1)
            e = K.make(kind, a, const(n), h).value
            e0 = K.make(kind, a, const(0), h2).value
            I.freeze()
            ck.vs(key, w, I, F("impl"), CallBound(ck, I, F("images"), e0, const(n), h), [e, x, const(d), s], labs=labs, frame=False,
                  rule="the sum over the images -N..N of the cover-free contribution at z + 2 k h")
        ck.guarded(key, go)
    for kind in ("point", "poly", "mesh"):
        for d in range(6):
            for n in (0, 1, 2, 3):
                if n == 3 and d > 1 or n == 2 and d > 3:
                    continue
                one(kind, d, n)
    w = "electrode/electrode.py: CoverElectrode.potential"
    for d in range(6):
        key = "cover/%d" % d

        def cov():
            I.ov = {}
            e = K.make("cover", None, h=h).value
            x = K.x(2)
            I.freeze()
            ck.vs(key, w, I, F("impl"), CallCover(ck, I, F("cover"), h), [e, x, const(d), s], labs=labs, frame=False,
                  rule="the uniform field of a plane at height h")
        ck.guarded(key, cov)

        def covint():
            I.ov = {}
            e = K.make("cover", None, h=h).value
            x = npm.sym_array(I, "xi", (const(2), const(3)), "i")
            I.freeze()
            ck.vs(key + "/int", w, I, F("impl"), CallCover(ck, I, F("cover"), h), [e, x, const(d), s], labs=labs, frame=False,
                  rule="the uniform field of a plane at height h, at points with integer coordinates")
        ck.guarded(key + "/int", covint)

    def dflt():
        I.ov = {}
        a = K.args(True)
        x = K.x(1)
        es = I.items_of(ck.run(I, F("defaults"), K.cls["point"], K.cls["poly"], K.cls["mesh"], a).value)
        refs = [K.make(k, a, const(0), h2).value for k in ("point", "poly", "mesh")]
        I.freeze()
        for e, r, kind in zip(es, refs, ("point", "poly", "mesh")):
            ck.vs("default/" + kind, "electrode/electrode.py: SurfaceElectrode.__init__", I, F("impl"), Swap(ck, I, F("impl"), r),
                  [e, x, const(1), s], labs=labs, frame=False, rule="no cover contributions by default")
    ck.guarded("default", dflt)

    def hdflt():
        I.ov = {}
        a = K.args(True)
        x = K.x(1)
        r = ck.run(I, F("height"), K.cls["point"], K.cls["poly"], K.cls["mesh"], K.cls["cover"], a).value
        es = I.items_of(r[1])
        refs = [K.make(k, a, const(0), r[0]).value for k in ("point", "poly", "mesh")]
        I.freeze()
        for e, e0, kind in zip(es, refs, ("point", "poly", "mesh")):
            ck.vs("default-height/" + kind, "electrode/electrode.py: SurfaceElectrode.__init__, CoverElectrode.__init__", I, F("impl"),
                  CallBound(ck, I, F("images"), e0, const(1), r[0]), [e, x, const(1), s], labs=labs, frame=False,
                  rule="a cover and electrodes made without a height are at the same height")
    ck.guarded("default-height", hdflt)


def CallBound(ck, I, f, e0, n, h):
    return Builtin("images", lambda I, a, k: I.call(f, [e0, a[1], a[2], a[3], n, h], {}))


def CallCover(ck, I, f, h):
    return Builtin("cover", lambda I, a, k: I.call(f, [a[1], a[2], a[3], h], {}))


def Swap(ck, I, f, e):
    return Builtin("swap", lambda I, a, k: I.call(f, [e] + list(a[1:]), {}))

from ._sys import *

DESC = ("System.pseudo_potential (orders 0..4, every order beyond and below rejected) and System.potential (kinds tot, dc, rf, "
        "others rejected) are abstractly interpreted on assemblies of contract electrodes with unknown voltages, rf coefficient, "
        "points (batch of symbolic length) and contributions; each tensor entry is compared by value numbering with the Leibniz "
        "expansion of the partial derivatives of the squared, scaled rf field.")


def check(ck):
    E = SysEnv(ck)
    I = E.I
    n = T.atom("n", "i", rng=(1, 3))

    def one(key, meth, spec, kw, ne=2, pts=None, labs=None, mk=None):
        def go():
            I.ov = {}
            s = E.make(ne)
            x = pts() if pts else npm.sym_array(I, "x", (n, const(3)))
            I.freeze()
            ck.vs(key, "electrode/system.py: System.%s" % meth, I, E.method(meth), E.fn(spec), [s, x], kw, labs=labs,
                  rule="equals the Leibniz expansion of the squared scaled rf field" if meth == "pseudo_potential" else
                  "equals dc part plus pseudopotential, as selected")
        ck.guarded(key, go)

    few = ck.labs((1, 2))[:3] if ck.tier == "quick" else None
    for d in range(5):
        one("pseudo/%d" % d, "pseudo_potential", "pseudo", {"derivative": const(d)}, ne=2 if d < 3 else 1, labs=few if d >= 3 else None)
        for typ in ("tot", "dc", "rf"):
            if d < 3 or ck.tier != "quick":
                one("potential/%d/%s" % (d, typ), "potential", "combined", {"derivative": const(d), "typ": typ},
                    labs=few if d >= 3 else None)
    one("pseudo/default", "pseudo_potential", "pseudo", {})
    one("potential/default", "potential", "combined", {})
    one("potential/3", "potential", "combined", {"derivative": const(3)}, ne=1, labs=few)
    pt = lambda: (T.atom("x0"), T.atom("x1"), T.atom("x2"))
    one("pseudo/point", "pseudo_potential", "pseudo", {"derivative": const(1)}, pts=pt)
    one("potential/point", "potential", "combined", {"derivative": const(1)}, pts=pt)
    one("potential/empty", "potential", "combined", {"derivative": const(1)}, ne=0)

    def bad(key, meth, kw):
        def go():
            I.ov = {}
            s = E.make(2)
            x = npm.sym_array(I, "x", (n, const(3)))
            I.freeze()
            o = ck.run(I, E.method(meth), s, x, **kw)
            ck.raises(key, "electrode/system.py: System.%s" % meth, o, ("ValueError",))
            ck.note(I)
            I.ov = {}
        ck.guarded(key, go)
    for d in (5, 6, -1):
        bad("pseudo/order%d" % d, "pseudo_potential", {"derivative": const(d)})
        bad("potential/order%d" % d, "potential", {"derivative": const(d)})
    for typ in ("foo", "", "total", None):
        bad("potential/kind-%s" % typ, "potential", {"derivative": const(1), "typ": typ})

    def scale():
        I.ov = {}
        s = E.make(2)
        I.freeze()
        q = [T.mul(T.atom(k), T.atom(k)) for k in ("mass", "charge", "length", "freq")]
        w = "electrode/system.py: System.rf_scale"
        rl = [l for l in ck.labs() if l.mode == "rand"]
        for key, a, k in (("scale", q, {}), ("scale/names", [], dict(zip(("m", "q", "l", "o"), q)))):
            I.ov = {}
            o = ck.run(I, E.method("rf_scale"), s, *a, **k)
            ck.note(I)
            if not ck.noraise(key, w, o):
                continue
            lo = T.mul(const(2), T.mul(q[2], q[3]))
            want = T.div(q[1], T.mul(q[0], T.mul(lo, lo)))
            v, r = (T.to_real(npm.snap(I, x)()) for x in (o.value, I.getattr_(s, "rf_coeff")))
            ck.same(key, w, T.mul(v, v), want, labs=rl, rule="sqrt(q/m)/(2 l o) is returned (its square)")
            ck.same(key + "/set", w, r, v, labs=rl, rule="and is the coefficient of the pseudopotential")
    ck.guarded("scale", scale)

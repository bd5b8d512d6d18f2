from ._lp import *
import itertools

DESC = ("PotentialObjective and MultiPotentialObjective rows are abstractly interpreted on assemblies of contract electrodes at an "
        "unknown point, for every derivative name of order 0..4 that has a value (all letter combinations, ordered) and without and "
        "with a general unknown rotation (parametrized rationally), and compared by value numbering with the named component of the (rotated) full tensor of "
        "each electrode's unit-voltage contribution; combined rows with the weighted sum of their components.")

SRC = '''
import numpy as np
def row(s, x, name, rotation):
    out = []
    ax = ["xyz".index(c) for c in name]
    L = "abcde"[:len(name)]
    for e in s:
        t = expand_tensor(__kernel__(e.tag, np.asarray(x, dtype=float).reshape(1, 3), len(name)))[0]
        if rotation is not None:
            for k in range(len(name)):
                # axis k of the tensor is contracted with the first index of the rotation
                t = np.moveaxis(np.tensordot(t, np.asarray(rotation), axes=([k], [0])), -1, k)
        out.append(t[tuple(ax)] if ax else t)
    return np.array(out)
def impl(PO, s, x, name, rotation, kw):
    return PO(x, name, rotation=rotation, **kw).get(s, None)
def kwrow(PO, s, x, name, rotation, kw):
    return row(s, x, name, rotation)
def both(PO, s, x, name, rotation, kw):
    c = PO(x=x, derivative=name, rotation=rotation, **kw)
    c.get(s, None)
    return [r for r in c.objective(s, None)]
def rboth(PO, s, x, name, rotation, kw):
    return [(row(s, x, name, rotation), float(kw["value"]))] if kw.get("value") is not None else []
def multi(MP, PO, s, x, parts, rot, kw):
    comps = [PO(x=x, derivative=n, rotation=rot, value=v) for n, v in parts]
    return MP(components=comps, **kw).get(s, None), [c.value for c in comps]
def rmulti(MP, PO, s, x, parts, rot, kw):
    t = 0.
    for n, v in parts:
        if v is not None:
            t = t + v*row(s, x, n, rot)
    return t, [v for n, v in parts]
def nested(MP, PO, s, x, parts, rot, kw):
    a = MP(components=[PO(x=x, derivative=n, rotation=rot, value=v) for n, v in parts], value=w0)
    b = PO(x=x, derivative="x", value=w1)
    return MP([a, b], value=1.).get(s, None)
def rnested(MP, PO, s, x, parts, rot, kw):
    return w0*rmulti(MP, PO, s, x, parts, rot, kw)[0] + w1*row(s, x, "x", None)
'''


def check(ck):
    L = LP(ck)
    I = L.I
    mod = ck.mod(I, "pattern_constraints")
    PO, MP = I.getattr_(mod, "PotentialObjective"), I.getattr_(mod, "MultiPotentialObjective")
    m = ck.spec(I, SRC, "rowspec", expand_tensor=ck.attr(I, "utils", "expand_tensor"), w0=T.atom("w0"), w1=T.atom("w1"))
    F = lambda n: I.get(m, n)
    w = "electrode/pattern_constraints.py: PotentialObjective.get"
    labs = ck.labs()
    few = labs[:3]

    rm = ck.spec(I, """
import numpy as np
def rot(a, b, c, d):
    n = a*a + b*b + c*c + d*d
    return np.array([[a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)],
                     [2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)],
                     [2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d]])/n
""", "rotspec")

    def rotation():
        """general rotation matrix (rational in four unknowns)"""
        return ck.run(I, I.get(rm, "rot"), *[T.atom("q%d" % i) for i in range(4)]).value

    def one(key, impl, ref, name, rot, kw=None, xk="array", n=2, ls=None, rule="each entry is the named derivative of the electrode's unit contribution in the rotated frame"):
        def go():
            I.ov = {}
            s = L.E.make(n)
            x = npm.sym_array(I, "x", (const(3),)) if xk == "array" else I.new_list([T.atom("x%d" % i) for i in range(3)])
            R = rotation() if rot else None
            d = I.call(I.builtins["dict"], [], kw or {})
            I.freeze()
            ck.vs(key, w, I, F(impl), F(ref), [PO, s, x, name, R, d], labs=ls, rule=rule)
        ck.guarded(key, go)
    orders = range(5 if ck.tier == "quick" else 6)
    # which names does the table know?
    red = ck.attr(I, "utils", "deriv_to_reduced_idx")
    for o in orders:
        for name in ["".join(p) for p in itertools.combinations_with_replacement("xyz", o)]:
            I.ov = {}
            k = ck.run(I, red, name)
            known = k.live is not FALSE
            I.ov = {}
            if not known:
                # a name that has no table entry has to be rejected
                continue
            one("plain/%s" % (name or "0"), "impl", "kwrow", name, False)
            if o and (o < 4 or ck.tier != "quick"):
                one("rotated/%s" % name, "impl", "kwrow", name, True, ls=few if o > 2 else labs, n=1 if o > 2 else 2)
    for name in ("xxxx", "xyzz", "yyzz", "xxxz")[:2 if ck.tier == "quick" else 4]:
        I.ov = {}
        if ck.run(I, red, name).live is not FALSE:
            one("rotated/%s" % name, "impl", "kwrow", name, True, ls=few[:2], n=1)
    for name in ("zx", "yx", "zzx", "zyx", "xzx", "yxyx"):
        one("plain/%s" % name, "impl", "kwrow", name, False)
        if len(name) < 4:
            one("rotated/%s" % name, "impl", "kwrow", name, True)
    one("list", "impl", "kwrow", "xz", True, xk="list")
    one("n0", "impl", "kwrow", "x", False, n=1)
    one("n3", "impl", "kwrow", "zz", True, n=3)

    for nm, kw in (("value", dict(value=T.atom("v"))), ("zero", dict(value=const(0))), ("none", dict()), ("offset", dict(offset=T.atom("o")))):
        for name in ("z", "xx", "zz"):
            one("objective/%s/%s" % (nm, name), "both", "rboth", name, True, kw, rule="objective row and target")

    def mul(key, impl, ref, parts, rot):
        def go():
            I.ov = {}
            s = L.E.make(2)
            x = npm.sym_array(I, "x", (const(3),))
            R = rotation() if rot else None
            ps = tuple((n, v) for n, v in parts)
            d = I.call(I.builtins['dict'], [], dict(value=const(1.)))
            I.freeze()
            ck.vs(key, "electrode/pattern_constraints.py: MultiPotentialObjective.get", I, F(impl), F(ref), [MP, PO, s, x, ps, R, d],
                  rule="sum of the components' rows weighted by their values, skipping those without")
        ck.guarded(key, go)
    a, b, c = T.atom("va"), T.atom("vb"), T.atom("vc")
    mul("multi/one", "multi", "rmulti", [("x", a)], False)
    mul("multi/two", "multi", "rmulti", [("xx", a), ("yy", b)], True)
    mul("multi/skip", "multi", "rmulti", [("xx", a), ("yy", None), ("z", c)], False)
    mul("multi/zero", "multi", "rmulti", [("xx", const(0)), ("yy", b)], True)
    mul("multi/dup", "multi", "rmulti", [("zz", a), ("zz", b), ("", c)], True)
    mul("multi/nested", "nested", "rnested", [("xx", a), ("y", b)], True)

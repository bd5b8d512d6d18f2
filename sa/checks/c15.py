from ._lp import *
import math

DESC = ("PatternRangeConstraint, SingleValueConstraint (through a subclass with an unknown row) and VoltageDerivativeConstraint are "
        "abstractly interpreted against a recording model of the convex solver for every combination of given/absent/zero/equal "
        "bounds, targets, offsets, indices, difference orders, spacings, norms and smoothing. The relations emitted (equalities "
        "counting as both inequalities) and the objective terms are compared, as sets, by value numbering with those stated.")

SRC = '''
import numpy as np
import cvxopt, cvxopt.modeling
class SV(SingleValueConstraint):
    def get(self, system, variables):
        return __opaque_array__("ROW", (len(system),))
def mksv(**kw): return SV(**kw)
def rel(c, system, variables): return list(c.constraints(system, variables))
def obj(c, system, variables): return list(c.objective(system, variables))
def var(n): return cvxopt.modeling.variable(n)
def vlist(n, m): return [cvxopt.modeling.variable(m) for i in range(n)]
def diffs(vs, order, delta, smooth):
    """order-fold differences over delta neighbours, with mirrored ends before every second one if smooth"""
    obj = [v.val for v in vs]
    for i in range(order):
        if smooth and i % 2 == 0:
            n = len(obj)
            obj = [obj[delta - k] for k in range(delta)] + obj + [obj[n - 2 - k] for k in range(delta)]
        obj = [obj[i + delta] - obj[i] for i in range(len(obj) - delta)]
    return [v*(1./delta**order) for v in obj]
def terms(vs, order, delta, smooth, norm, ab):
    out = []
    for v in diffs(vs, order, delta, smooth):
        if ab: v = abs(v)
        out.append(np.sum(v) if norm == "one" else np.max(v))
    return out
'''


def check(ck):
    L = LP(ck)
    I = L.I
    mod = ck.mod(I, "pattern_constraints")
    g = lambda n: I.getattr_(mod, n)
    m = ck.spec(I, SRC, "svspec", SingleValueConstraint=g("SingleValueConstraint"))
    F = lambda n: I.get(m, n)
    labs = ck.labs()

    def canon(lab, rels):
        """set of scalar inequalities e <= 0"""
        out = set()
        for kind, c in rels:
            for x in flat(conc(lab, c)):
                if isinstance(x, str):
                    raise T.EvalError("infinite bound")
                v = scal(x)
                out.add(v)
                if kind == "=":
                    out.add(-v % P)
        return out

    def emitted(v):
        return [(I.getattr_(c, "kind"), ck.cap(I, I.getattr_(c, "val"))) for c in I.items_of(v)]

    def compare(key, w, o, want):
        """want: list of (kind, node)"""
        ck.ob(key, w, "emits exactly the relations it states")
        if o.live is FALSE:
            ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
            return
        try:
            got = emitted(o.value)
        except AnalysisError:
            # relations emitted under data dependent conditions
            segs = I.segs_of(o.value)
            got = None
            for lab in labs:
                gl = []
                for s in segs:
                    n = int(lab(s.len))
                    for k in range(n):
                        e = s.elem(const(k))
                        while isinstance(e, Choice):
                            e = e.a if lab(e.c) else e.b
                        gl.append((I.getattr_(e, "kind"), ck.cap(I, I.getattr_(e, "val"))))
                if lab_cmp(key, w, o, lab, gl, want) is False:
                    return
            return
        for lab in labs:
            if lab_cmp(key, w, o, lab, got, want) is False:
                return

    def lab_cmp(key, w, o, lab, got, want):
        st = o.state(lab)
        if st:
            ck.fail(key, w, "%s raised at %s" % (st[1], loc_str(st[2])))
            return False
        a = canon(lab, got)
        b = canon(lab, [(k, n) for k, n in want])
        if a != b:
            ck.fail(key, w, "%d stated relations missing, %d relations not stated (labelling %s)" % (len(b - a), len(a - b), lab.seed))
            return False

    # ---- range constraints
    PR = g("PatternRangeConstraint")
    A, Bn = T.atom("lo"), T.atom("hi")
    z, zi = const(0.), const(0)
    bounds = {"none": (None, None), "min": (A, None), "max": (None, Bn), "both": (A, Bn), "equal": (A, A), "zeros": (z, z),
              "izeros": (zi, z), "zeromin": (z, Bn), "zeromax": (A, z), "zeromin-only": (zi, None), "zeromax-only": (None, z)}
    for bn, (lo, hi) in bounds.items():
        for ix in (None, 0, 1, 2, -1):
            key = "range/%s/%s" % (bn, ix)

            def go():
                I.ov = {}
                s = L.E.make(3)
                v = ck.run(I, F("var"), const(3)).value
                kw = {}
                if lo is not None:
                    kw["min"] = lo
                if hi is not None:
                    kw["max"] = hi
                if ix is not None:
                    kw["index"] = const(ix)
                I.freeze()
                c = ck.run(I, PR, **kw).value
                o = ck.run(I, F("rel"), c, s, v)
                ck.note(I)
                val = I.getattr_(v, "val")
                js = range(3) if ix is None else [ix % 3]
                want = []
                for j in js:
                    x = npm.snap(I, val).fn((const(j),))
                    if lo is not None:
                        want.append(("<", T.sub(T.to_real(lo), x)))
                    if hi is not None:
                        want.append(("<", T.sub(x, T.to_real(hi))))
                compare(key, "electrode/pattern_constraints.py: PatternRangeConstraint.constraints", o, want)
                oo = ck.run(I, F("obj"), c, s, v)
                ck.same(key + "/obj", "electrode/pattern_constraints.py: Constraint.objective", ck.cap(I, oo.value),
                        ("list", []), labs=labs[:2], rule="contributes no objective")
                I.ov = {}
            ck.guarded(key, go)

    # ---- single values
    wsv = "electrode/pattern_constraints.py: SingleValueConstraint.%s"
    opts = {"none": None, "sym": "sym", "zero": z, "izero": zi}
    for vn in opts:
        for on in opts:
            for mn in opts:
                for mx in opts:
                    if ck.tier == "quick" and [vn, on, mn, mx].count("none") < 2 and (vn, on, mn, mx) != ("sym",)*4:
                        continue
                    key = "single/%s/%s/%s/%s" % (vn, on, mn, mx)

                    def go():
                        I.ov = {}
                        s = L.E.make(3)
                        v = ck.run(I, F("var"), const(3)).value
                        kw = {}
                        for nm, q in (("value", vn), ("offset", on), ("min", mn), ("max", mx)):
                            x = opts[q]
                            if x is not None:
                                kw[nm] = T.atom("a_" + nm) if q == "sym" else x
                        I.freeze()
                        c = ck.run(I, F("mksv"), **kw).value
                        o = ck.run(I, F("rel"), c, s, v)
                        ck.note(I)
                        val = npm.snap(I, I.getattr_(v, "val"))
                        d = const(0.)
                        for j in range(3):
                            d = T.add(d, T.mul(T.call("ROW", [], (const(j),), "r"), val.fn((const(j),))))
                        want = []
                        if "offset" in kw:
                            want.append(("=", T.sub(d, T.to_real(kw["offset"]))))
                        if "min" in kw:
                            want.append(("<", T.sub(T.to_real(kw["min"]), d)))
                        if "max" in kw:
                            want.append(("<", T.sub(d, T.to_real(kw["max"]))))
                        compare(key, wsv % "constraints", o, want)
                        oo = ck.run(I, F("obj"), c, s, v)
                        ck.note(I)
                        got = ck.cap(I, oo.value)
                        row = npm.result(I, Snap((const(3),), lambda idx: T.call("ROW", [], idx, "r"), "f"))
                        ref = ck.cap(I, I.new_list([(row, T.to_real(kw["value"]))] if "value" in kw else []))
                        ck.same(key + "/obj", wsv % "objective", got, ref, labs=labs, guard=oo.live,
                                rule="contributes an objective row exactly when it has a target")
                        ck.noraise(key + "/objx", wsv % "objective", oo, labs=labs)
                        I.ov = {}
                    ck.guarded(key, go)

    # ---- finite differences
    VD = g("VoltageDerivativeConstraint")
    wvd = "electrode/pattern_constraints.py: VoltageDerivativeConstraint.%s"
    cases = []
    for order in (0, 1, 2, 3):
        for delta in (1, 2):
            for smooth in (False, True):
                for norm in ("one", "inf"):
                    for ab in (True, False):
                        cases.append((order, delta, smooth, norm, ab))
    for order, delta, smooth, norm, ab in cases:
        for which in ("max", "zeromax", "min", "weight", "noweight", "bothbounds"):
            if which in ("min", "bothbounds") and ab:
                continue
            key = "difference/%d/%d/%s/%s/%s/%s" % (order, delta, "smooth" if smooth else "plain", norm, "abs" if ab else "signed", which)

            def go():
                I.ov = {}
                s = L.E.make(2)
                N = 4 if order < 3 else 5
                if delta == 2:
                    N += 1
                vs = ck.run(I, F("vlist"), const(N), const(2)).value
                kw = dict(smooth=lift(smooth), delta=const(delta), norm=norm, abs=lift(ab))
                if (delta, smooth, norm, ab) == (1, False, "one", True):
                    kw = {}       # the defaults
                mxv, mnv, wt = T.atom("mx"), T.atom("mn"), T.atom("wt")
                if which in ("max", "bothbounds"):
                    kw["max"] = mxv
                if which == "zeromax":
                    kw["max"] = zi
                if which in ("min", "bothbounds"):
                    kw["min"] = mnv
                if which == "weight":
                    kw["weight"] = const(2.5)
                I.freeze()
                c = ck.run(I, VD, const(order), **kw).value
                o = ck.run(I, F("rel"), c, s, vs)
                ck.note(I)
                tm = ck.run(I, F("terms"), vs, const(order), const(delta), lift(smooth), norm, lift(ab)).value
                tm = [npm.item(I, x) if isinstance(x, (Arr, Snap)) else x for x in I.items_of(tm)]
                want = []
                for t in tm:
                    if "max" in kw:
                        want.append(("<", T.sub(t, T.to_real(kw["max"]))))
                    if "min" in kw:
                        want.append(("<", T.sub(T.to_real(kw["min"]), t)))
                compare(key, wvd % "constraints", o, want)
                oo = ck.run(I, F("obj"), c, s, vs)
                ck.note(I)
                ws = T.to_real(kw["weight"]) if "weight" in kw else None
                prod = []
                for x in I.items_of(oo.value):
                    p = [I.getattr_(q, "val") if isinstance(q, PObj) else q for q in x]
                    p = [npm.item(I, q) if isinstance(q, (Arr, Snap)) and not q.shape else q for q in p]
                    p = [npm.snap(I, q).fn((const(0),)) if isinstance(q, (Arr, Snap)) else q for q in p]
                    prod.append(T.mul(p[0], p[1]))
                ref = [T.mul(t, ws) for t in tm] if ws is not None else []
                ck.same(key + "/obj", wvd % "objective", ("list", [("items", prod)]), ("list", [("items", ref)]), labs=labs,
                        guard=oo.live, rule="objective terms are the weighted differences")
                I.ov = {}
            ck.guarded(key, go)

    def badnorm():
        I.ov = {}
        s = L.E.make(2)
        vs = ck.run(I, F("vlist"), const(3), const(2)).value
        I.freeze()
        c = ck.run(I, VD, const(1), norm="two", max=const(1.)).value
        o = ck.run(I, F("rel"), c, s, vs)
        ck.raises("difference/badnorm", wvd % "coef", o, ("ValueError",))
        I.ov = {}
    ck.guarded("difference/badnorm", badnorm)

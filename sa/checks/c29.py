from ._sys import *

DESC = ("System.modes is abstractly interpreted on an assembly of contract electrodes at an unknown point; the eigensolver is an "
        "uninterpreted function of the matrix it gets (ascending eigenvalues for hermitian solvers, unordered for general ones). "
        "The (value, vector column) pairs returned are compared by value numbering with those of the second derivative of the "
        "combined potential, as multisets, and for sorted=True the values must be ascending at every labelling.")


def check(ck):
    E = SysEnv(ck)
    I = E.I
    w = "electrode/system.py: System.modes"
    m = ck.spec(I, """
import numpy as np
def eigh(s, x, sorted=True):
    return np.linalg.eigh(combined(s, x, 2)[0])
def eig(s, x, sorted=True):
    return np.linalg.eig(combined(s, x, 2)[0])
""", "modespec", combined=E.fn("combined"))

    def pairs(v):
        (ta, wv, vv) = v
        a, b = wv, vv
        if a[0] != "arr" or b[0] != "arr" or a[1] != (3,) or b[1] != (3, 3):
            return None
        return sorted(((a[2][k],) + tuple(b[2][3*r + k] for r in range(3)) for k in range(3)), key=repr), a[2]

    def one(key, kw, pts):
        def go():
            I.ov = {}
            s = E.make(2)
            x = pts()
            I.freeze()
            before = ck.cap(I, x)
            o = ck.run(I, E.method("modes"), s, x, **kw)
            ck.note(I)
            vals = npm.snap(I, o.value[0]) if isinstance(o.value, tuple) and isinstance(o.value[0], (Arr, Snap)) else None
            ci, after = ck.cap(I, o.value), ck.cap(I, x)
            specs = []
            for nm in ("eigh", "eig"):
                I.ov = {}
                specs.append(ck.cap(I, ck.run(I, I.get(m, nm), s, x).value))
            I.ov = {}
            rule = "eigenpairs of the combined potential's second derivative" + (", ascending" if kw.get("sorted", TRUE) is TRUE else "")
            ck.ob(key, w, rule)
            labs = ck.labs()
            ok = [True] * len(specs)
            for lab in labs:
                st = o.state(lab)
                if st:
                    ck.fail(key, w, "%s raised at %s" % (st[1], loc_str(st[2])))
                    return
                got = conc(lab, ci)
                p = pairs(got) if isinstance(got, tuple) and len(got) == 3 else None
                if p is None:
                    ck.fail(key, w, "the result is not a pair of 3 values and 3x3 vectors: %s" % show_val(got))
                    return
                for q, sp in enumerate(specs):
                    ok[q] = ok[q] and pairs(conc(lab, sp))[0] == p[0]
                if not any(ok):
                    ck.fail(key, w, "%s: the returned (value, vector) pairs are not those of the matrix (labelling %s)" % (rule, lab.seed))
                    return
                if kw.get("sorted", TRUE) is TRUE:
                    asc = [lab.ordkey(lab(vals.fn((const(k),))), "r") for k in range(3)]
                    if asc != sorted(asc):
                        ck.fail(key, w, "%s: the returned values are not in ascending order (labelling %s)" % (rule, lab.seed))
                        return
            ck.same(key + "/frame", w, after, before, rule="the point is unchanged")
        ck.guarded(key, go)
    pt = lambda: npm.sym_array(I, "x", (const(3),))
    lst = lambda: (T.atom("x0"), T.atom("x1"), T.atom("x2"))
    for nm, pts in (("array", pt), ("list", lst)):
        one("modes/%s/default" % nm, {}, pts)
        one("modes/%s/sorted" % nm, {"sorted": TRUE}, pts)
        one("modes/%s/unsorted" % nm, {"sorted": FALSE}, pts)

from ._opt import *
from fractions import Fraction

DESC = ("System.ions is abstractly interpreted with a recording stand-in for the optimizer (which evaluates value, gradient and curvature "
        "at independent unknown positions, interleaved) on assemblies of contract electrodes, for two to four ions with independent "
        "unknown charges and several layouts of the start positions. Every value obtained is compared by value numbering with the sum "
        "of the combined potentials plus the product of charges over the distance of every pair, counted once, and with its first and "
        "second derivatives written out pair by pair; the returned positions, eigenvalues and mode vectors with the optimizer's "
        "result and the eigensystem of the curvature there.")

SRC3 = '''
import numpy as np
def plain(v): return np.ma.getdata(v)

def iref(s, q, kind, xi):
    x = np.array(xi).reshape(-1, 3)
    n = len(x)
    if kind == "f":
        r = 0.
        p = combined(s, x, 0)
        for i in range(n):
            r = r + p[i]
            for j in range(i):
                r = r + q[i]*q[j]/np.sqrt(((x[i] - x[j])**2).sum())
        return np.array(r)
    if kind == "g":
        g = combined(s, x, 1)
        r = []
        for i in range(n):
            for k in range(3):
                t = g[i, k]
                for j in range(n):
                    if j != i:
                        d = x[i] - x[j]
                        t = t - q[i]*q[j]*d[k]/np.sqrt((d**2).sum())**3
                r.append(t)
        return np.array(r)
    h = combined(s, x, 2)
    r = []
    for i in range(n):
        for k in range(3):
            row = []
            for j in range(n):
                for l in range(3):
                    if i == j:
                        t = h[i, k, l]
                        for o in range(n):
                            if o != i:
                                t = t + pair(q[i]*q[o], x[i] - x[o], k, l)
                    else:
                        t = -pair(q[i]*q[j], x[i] - x[j], k, l)
                    row.append(t)
            r.append(row)
    return np.array(r)

def pair(c, d, k, l):
    r2 = (d**2).sum()
    return c*(3*d[k]*d[l] - (r2 if k == l else 0.))/np.sqrt(r2)**5

def final(s, q, xf):
    x = np.array(xf).reshape(-1, 3)
    ew, ev = np.linalg.eigh(iref(s, q, "h", xf))
    return x, ew, ev.reshape(len(x), 3, 3*len(x))
def outs(r): return plain(r[0]), plain(r[1]), plain(r[2])
def flat(x): return np.array(x, dtype=float).ravel()
'''


def check(ck):
    S = Search(ck)
    I = S.I
    w = "electrode/system.py: System.ions"
    m = ck.spec(I, SRC3, "ionspec", combined=S.E.fn("combined"))
    F = lambda n: I.get(m, n)
    arr = lambda nm, *s: npm.sym_array(I, nm, tuple(const(q) for q in s))
    rules = {"f": "the value is every ion's potential plus every pair's repulsion, once",
             "g": "the gradient is the derivative of the value", "h": "the curvature is the second derivative of the value"}

    def one(key, n, ne, strided=False, charges=None):
        def go():
            I.ov = {}
            s = S.E.make(ne)
            if strided:
                x0 = I.resolve(I.getattr_(arr("x0", 3, n), "T"))
            else:
                x0 = arr("x0", n, 3)
            q = arr("q", n) if charges is None else I.call(I.externs["numpy"].table["array"], [I.new_list([const(c) for c in charges])], {})
            I.freeze()
            k0 = len(S.log("minimum"))
            before = [ck.cap(I, v) for v in (x0, q)]
            o = ck.run(I, S.E.method("ions"), s, x0, q)
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            after = [ck.cap(I, v) for v in (x0, q)]
            recs = S.log("minimum")[k0:]
            if len(recs) != 1:
                ck.unknown(key, "%d optimizer calls found" % len(recs))
                return
            labs = [l for l in ck.labs() if l.mode == "rand"][:3]
            ov = I.ov
            r = S.rec(recs[0])
            got, ref = ck.cap(I, r["x0"]), ck.cap(I, ck.run(I, F("flat"), x0).value)
            I.ov = ov
            ck.same(key + "/start", w, got, ref, labs=labs, rule="the search starts at the positions given")
            kinds = set()
            for en, e in enumerate(I.items_of(r["evals"])):
                kind, xi, val = e
                kinds.add(kind)
                got = ck.cap(I, ck.run(I, F("plain"), val).value)
                ref = ck.cap(I, ck.run(I, F("iref"), s, q, kind, xi).value)
                I.ov = ov
                ck.same("%s/%s%d" % (key, kind, en), w, got, ref, labs=labs[:2] if kind == "h" else labs, rule=rules[kind])
            got = ck.cap(I, ck.run(I, F("outs"), o.value).value)
            ref = ck.cap(I, ck.run(I, F("final"), s, q, r["result"]).value)
            I.ov = ov
            ck.same(key + "/result", w, got, ref, labs=labs[:2], rule="positions found, and the eigensystem of the curvature there, mode by mode")
            for nm, a, b in zip(("x0", "q"), before, after):
                ck.same(key + "/frame-" + nm, w, b, a, rule="the argument is unchanged")
        ck.guarded(key, go)
    one("two", 2, 2)
    one("two-strided", 2, 1, strided=True)
    one("three", 3, 1)
    one("equal", 2, 1, charges=(1, 1))
    one("mixed", 3, 2, charges=(Fraction(1, 10), Fraction(3, 20), Fraction(1, 5)))
    if ck.tier != "quick":
        one("four", 4, 1)

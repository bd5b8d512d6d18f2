from ._sys import *

SRC = '''
import numpy as np
from scipy import optimize
rfolog = []
def rfo(fun, grad, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=200, dx_max=1., h=None, cb=None):
    """contract of saddle.rfo: evaluates value and gradient at arbitrary points, last at the position it returns"""
    t = np.array(x0)
    t += np.ones(len(t))*.5         # the real one updates its copy in place: integers fail
    x0 = np.array(x0, dtype=float)
    rec = {"x0": x0, "h0": h, "kw": (xtol, ftol, maxiter, dx_max)}
    optimize._probe(rec, len(x0), fun, grad, None, args)
    xf = __fresh__("optres", len(x0))
    rec["evals"].append(("f", xf.copy(), fun(xf.copy(), *args)))
    rec["evals"].append(("g", xf.copy(), grad(xf.copy(), *args)))
    rec["result"] = xf
    rec["resfun"] = __fresh__("optfun")
    ftol_, xtol_ = __freshb__("conv_f"), __freshb__("conv_x")
    ret = "ftol" if ftol_ else ("xtol" if xtol_ else "iter")
    rec["success"] = ftol_ or xtol_
    rfolog.append(rec)
    return xf.copy(), rec["resfun"], ret

def at(x0, axis, xi):
    p = np.array(x0, dtype=float)
    for k, a in enumerate(axis):
        p[a] = xi[k]
    return p

def ref(s, x0, axis, coord, kind, xi):
    """value, gradient and curvature of the combined potential over the varied coordinates of the basis"""
    c = np.identity(3) if coord is None else np.array(coord)
    y = np.dot(c, at(x0, axis, xi))
    ax = list(axis)
    if kind == "f":
        return combined(s, y, 0)[0]
    if kind == "g":
        return np.dot(c.T, combined(s, y, 1)[0])[ax]
    return np.dot(c.T, np.dot(combined(s, y, 2)[0], c))[ax][:, ax]

def start(x0, axis):
    return np.array([np.array(x0, dtype=float)[a] for a in axis])
'''


class Search(object):
    def __init__(self, ck):
        def prep(I):
            I.stubs["saddle.rfo"] = lambda I, a, k: I.call(I.get(self.m, "rfo"), a, k)
        self.ck = ck
        self.E = E = SysEnv(ck, prep=prep)
        self.I = I = E.I
        self.m = ck.spec(I, SRC, "searchspec", combined=E.fn("combined"))
        self.opt = I.module("scipy_optimize")

    def log(self, which):
        I = self.I
        l = I.get(self.opt, "_log") if which == "minimum" else I.get(self.m, "rfolog")
        return I.items_of(l)

    def rec(self, r):
        d = self.I.get(r, "v")
        return {k: v for k, v in d.values()}

    def setup(self, x0kind, coordkind):
        I = self.I
        s = self.E.make(2)
        if x0kind == "array":
            x0 = npm.sym_array(I, "x0", (const(3),))
        elif x0kind == "list":
            x0 = I.new_list([T.atom("x0%d" % i) for i in range(3)])
        elif x0kind == "ints":
            x0 = I.new_list([const(0), const(2), const(1)])
        else:
            x0 = tuple(T.atom("x0%d" % i) for i in range(3))
        kw = {}
        coord = None
        if coordkind == "general":
            coord = npm.sym_array(I, "c", (const(3), const(3)))
            kw["coord"] = coord
        return s, x0, coord, kw


AXES = [(0, 1, 2), (2,), (0, 2), (1, 0), (2, 0, 1)]

import numpy as np

_log = []


class OptimizeResult(dict):
    def __getattr__(self, name):
        return self[name]


class _Res(object):
    pass


def _probe(rec, n, f, g, h, args=()):
    """evaluate the caller's functions at independent points, interleaved:
    what they return may depend on nothing but the point"""
    ev = []
    pts = [__fresh__("optx", n) for i in range(3)]
    for kind, fun, k in (("f", f, 0), ("g", g, 1), ("h", h, 2), ("f", f, 1), ("g", g, 0), ("h", h, 0)):
        if fun is not None:
            ev.append((kind, pts[k].copy(), fun(pts[k].copy(), *args)))
    rec["evals"] = ev


def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
             tol=None, callback=None, options=None):
    x0 = np.array(x0, dtype=float).ravel()
    rec = {"x0": x0, "method": method, "args": args, "options": options, "constraints": constraints, "bounds": bounds,
           "tol": tol}
    f, g = fun, jac
    if jac is True:
        f = lambda *a: fun(*a)[0]
        g = lambda *a: fun(*a)[1]
    _probe(rec, len(x0), f, g if callable(g) else None, hess if callable(hess) else None, args)
    xf = __fresh__("optres", len(x0))
    res = _Res()
    res.x = xf.copy()
    res.success = __freshb__("opt_success")
    res.message = __opaque__("opt_message")
    res.fun = __fresh__("optfun")
    res.status = __fresh__("optstatus")
    res.nit = 3
    rec["result"] = xf
    rec["success"] = res.success
    rec["resfun"] = res.fun
    _log.append(rec)
    return res


def fmin_ncg(f, x0, fprime, fhess_p=None, fhess=None, args=(), avextol=1e-5, epsilon=1e-8, maxiter=None, full_output=0,
             disp=1, retall=0, callback=None):
    x0 = np.array(x0, dtype=float).ravel()
    rec = {"x0": x0}
    _probe(rec, len(x0), f, fprime, fhess, args)
    xf = __fresh__("optres", len(x0))
    rec["result"] = xf
    _log.append(rec)
    return xf.copy()

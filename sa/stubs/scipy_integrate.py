import numpy as np

_log = []


class _Sol(object):
    pass


def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, **kw):
    y0 = np.array(y0)
    n = len(y0)
    t = __fresh__("ivp_t")
    y = __fresh__("ivp_y", n)
    rhs = fun(t, y)
    s = _Sol()
    m = len(t_eval) if t_eval is not None else 4
    s.t = t_eval if t_eval is not None else __fresh__("ivp_ts", 4)
    s.y = __fresh__("ivp_ys", (n, m))
    _log.append({"t": t, "y": y, "rhs": rhs, "t_span": t_span, "y0": y0, "t_eval": t_eval, "method": method, "ys": s.y})
    s.success = __freshb__("ivp_success")
    return s

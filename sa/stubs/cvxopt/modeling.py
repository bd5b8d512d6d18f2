import numpy as np
from . import solvers

_log = []           # problems given to solvers: dicts
_made = []          # variables made


def _val(o):
    if isinstance(o, _Expr):
        return o.val
    if hasattr(o, "size") and hasattr(o, "trans"):
        return o.a[:, 0]
    return o


class _Expr(object):
    def __init__(self, val):
        self.val = val

    def __len__(self):
        return len(self.val)

    def __add__(self, o):
        return _Expr(self.val + _val(o))

    def __radd__(self, o):
        return _Expr(_val(o) + self.val)

    def __sub__(self, o):
        return _Expr(self.val - _val(o))

    def __rsub__(self, o):
        return _Expr(_val(o) - self.val)

    def __neg__(self):
        return _Expr(-self.val)

    def __pos__(self):
        return self

    def __abs__(self):
        return _Expr(abs(self.val))

    def __mul__(self, o):
        return _Expr(self.val * _val(o))

    def __rmul__(self, o):
        return _Expr(_val(o) * self.val)

    def __div__(self, o):
        return _Expr(self.val / o)

    def __truediv__(self, o):
        return _Expr(self.val / o)

    def __getitem__(self, i):
        v = self.val[i]
        if isinstance(i, slice):
            return _Expr(v)
        return _Expr(np.array([v]))

    def __eq__(self, o):
        return constraint("=", self.val - _val(o))

    def __le__(self, o):
        return constraint("<", self.val - _val(o))

    def __ge__(self, o):
        return constraint("<", _val(o) - self.val)

    def __lt__(self, o):
        raise NotImplementedError

    def __gt__(self, o):
        raise NotImplementedError

    def value(self):
        return self.val


class variable(_Expr):
    def __init__(self, size=1, name=""):
        self._size = size
        self.name = name
        self.val = __fresh__("solvervar", size)
        self.value = None
        _made.append(self)


class constraint(object):
    def __init__(self, kind, val):
        self.kind = kind
        self.val = val
        self.multiplier = variable_like()

    def type(self):
        return self.kind


class variable_like(object):
    _size = 1
    value = None


def sum(e):
    if isinstance(e, list):
        r = 0
        for x in e:
            r = x + r
        return r
    return _Expr(np.array([np.sum(e.val)]))


def max(*e):
    if len(e) == 1:
        e = e[0]
        if isinstance(e, list):
            return _Expr(np.array([np.max(np.array([x.val[0] for x in e]))]))
        return _Expr(np.array([np.max(e.val)]))
    raise NotImplementedError


def min(e):
    return _Expr(np.array([np.min(e.val)]))


def dot(x, y):
    if isinstance(x, _Expr):
        x, y = y, x
    if isinstance(x, _Expr):
        raise TypeError("dot of two functions")
    if 0 in x.a.shape:
        raise TypeError("invalid argument types or incompatible dimensions")
    r = np.dot(x.a.T, y.val)
    return _Expr(r)


class op(object):
    def __init__(self, objective=0.0, constraints=None, name=""):
        if constraints is None:
            constraints = []
        if not isinstance(constraints, list):
            constraints = [constraints]
        self._constraints = list(constraints)
        self.objective = objective if isinstance(objective, _Expr) else _Expr(np.array([objective]))
        self.status = None
        self.name = name

    def variables(self):
        return []

    def inequalities(self):
        return [c for c in self._constraints if c.kind == "<"]

    def equalities(self):
        return [c for c in self._constraints if c.kind == "="]

    def constraints(self):
        return self._constraints

    def addconstraint(self, c):
        self._constraints.append(c)

    def solve(self, format="dense", solver="default", **kwargs):
        made = list(_made)
        for v in made:
            v.value = v.val.reshape(-1, 1)
        k = len(_log)
        self.solved = __freshb__("solved")
        bad = "unknown" if __freshb__("st1") else ("primal infeasible" if __freshb__("st2") else "dual infeasible")
        self.status = "optimal" if self.solved else bad
        _log.append({"objective": self.objective.val, "constraints": list(self._constraints),
                     "options": dict(solvers.options), "kwargs": dict(kwargs), "status": self.status, "solved": self.solved,
                     "variables": made})

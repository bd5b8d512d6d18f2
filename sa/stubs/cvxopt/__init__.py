"""Recording model of cvxopt: expressions denote their values under
arbitrary values of the variables."""
import numpy as np


class matrix(object):
    def __init__(self, a, size=None, tc="d"):
        if isinstance(a, matrix):
            a = a.a
        a = np.asarray(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        if a.ndim == 1:
            a = a.reshape(-1, 1)
        self.a = a
        self.size = a.shape

    def trans(self):
        return matrix(self.a.T)

    @property
    def T(self):
        return matrix(self.a.T)

    def __len__(self):
        return self.a.shape[0] * self.a.shape[1]

    def __neg__(self):
        return matrix(-self.a)

    def __mul__(self, o):
        from .modeling import _Expr
        if isinstance(o, _Expr):
            if self.a.shape == (1, 1):
                return _Expr(self.a[0, 0] * o.val)
            return _Expr(np.dot(self.a, o.val))
        if isinstance(o, matrix):
            return matrix(np.dot(self.a, o.a))
        return matrix(self.a * o)

    def __rmul__(self, o):
        return matrix(self.a * o)

    def __add__(self, o):
        from .modeling import _Expr
        if isinstance(o, _Expr):
            return _Expr(self.a[:, 0] + o.val)
        if isinstance(o, matrix):
            return matrix(self.a + o.a)
        return matrix(self.a + o)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o


spmatrix = matrix


def sparse(a, tc="d"):
    return matrix(a)


from . import modeling, solvers

"""Assemblies of contract electrodes: `potential` adds scale*K(tag, point,
order, component) onto the accumulator (what C02 shows of every real kind)."""
from ..check import *
import itertools

KSRC = '''
import numpy as np
class K(Electrode):
    def __init__(self, tag, name="", dc=0., rf=0.):
        super(K, self).__init__(name=name, dc=dc, rf=rf)
        self.tag = tag
    def potential(self, x, derivative=0, potential=1., out=None):
        # like the compiled kernels, which take nothing else
        if x.dtype != np.double or out is not None and out.dtype != np.double:
            raise ValueError("Buffer dtype mismatch, expected 'double'")
        if out is None:
            out = np.zeros((x.shape[0], 2*derivative + 1), np.double)
        out += potential*__kernel__(self.tag, x, derivative)
        return out

def build(System, names, dcs, rfs, tags):
    return System([K(t, name=n, dc=d, rf=r) for n, d, r, t in zip(names, dcs, rfs, tags)])

def elpot(s, x, derivative=0, typ="dc", expand=False):
    x = np.asanyarray(x, dtype=np.double).reshape(-1, 3)
    pot = np.zeros((x.shape[0], 2*derivative + 1))
    for e in s:
        pot = pot + getattr(e, typ)*__kernel__(e.tag, x, derivative)
    return expand_tensor(pot) if expand else pot

def indiv(s, x, derivative=0):
    x = np.asanyarray(x, dtype=np.double).reshape(-1, 3)
    r = np.zeros((len(s), x.shape[0], 2*derivative + 1))
    for i in range(len(s)):
        r[i] = __kernel__(s[i].tag, x, derivative)
    return r

def timepot(s, x, derivative=0, t=0., expand=False):
    return elpot(s, x, derivative, "dc", expand) + np.cos(t)*elpot(s, x, derivative, "rf", expand)

def pseudo(s, x, derivative=0):
    if not 0 <= derivative <= 4:
        raise ValueError
    F = {}
    for i in range(1, derivative + 2):
        F[i] = s.rf_coeff*elpot(s, x, i, "rf", True)
    L = "klmo"[:derivative]
    tot = 0.
    for bits in range(2**derivative):
        a = "".join(L[i] for i in range(derivative) if bits >> i & 1)
        b = "".join(L[i] for i in range(derivative) if not bits >> i & 1)
        tot = tot + np.einsum("nj%s,nj%s->n%s" % (a, b, L), F[len(a) + 1], F[len(b) + 1])
    return tot

def combined(s, x, derivative=0, typ="tot"):
    if typ not in ("tot", "dc", "rf"):
        raise ValueError
    rf = pseudo(s, x, derivative)
    dc = elpot(s, x, derivative, "dc", True)
    return {"tot": dc + rf, "dc": dc, "rf": rf}[typ]
'''


class SysEnv(object):
    def __init__(self, ck, n=3, zero=False, names=None, prep=None, extra=(), lists=False):
        self.ck = ck
        self.I = I = ck.interp("electrode.system", *extra, prep=prep)
        self.System = ck.attr(I, "system", "System")
        self.m = ck.spec(I, KSRC, "ksys", Electrode=ck.attr(I, "electrode", "Electrode"),
                         expand_tensor=ck.attr(I, "utils", "expand_tensor"))

    def fn(self, name):
        return self.I.get(self.m, name)

    def method(self, name):
        return self.I.getattr_(self.System, name)

    def make(self, n, names=None, tag="", dcs=None, rfs=None, rf_coeff=True):
        I = self.I
        names = names or ["e%d" % i for i in range(n)]
        dcs = dcs or [T.atom("dc%d%s" % (i, tag)) for i in range(n)]
        rfs = rfs or [T.atom("rf%d%s" % (i, tag)) for i in range(n)]
        tags = ["k%d%s" % (i, tag) for i in range(n)]
        o = self.ck.run(I, self.fn("build"), self.System, tuple(names), tuple(dcs), tuple(rfs), tuple(tags))
        s = o.value
        if rf_coeff:
            I.setattr_(s, "rf_coeff", T.atom("rfc"))
        return s

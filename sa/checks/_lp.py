"""Optimization problems given to the recording cvxopt model: affine forms in
the solver variables are recovered from the value graph by labelling it at
zero and at every unit vector."""
from ._opt import *
P = T.P


PINV = []  # cutoffs given


def rational_pinv(I, a, k):
    """Moore-Penrose inverse of a matrix of full row rank: B^T (B B^T)^-1"""
    s = npm.snap(I, a[0])
    PINV.append(npm.arg(a, k, 1, "rcond"))
    m, n = (int(T.cval(x)) for x in s.shape)
    if m > n:
        raise AnalysisError("pinv of a tall matrix")
    B = [[T.to_real(s.fn((const(i), const(j)))) for j in range(n)] for i in range(m)]

    def dot(u, v):
        r = const(0.)
        for x, y in zip(u, v):
            r = T.add(r, T.mul(x, y))
        return r
    G = [[dot(B[i], B[j]) for j in range(m)] for i in range(m)]

    def minor(M, i, j):
        return [r[:j] + r[j+1:] for q, r in enumerate(M) if q != i]

    def det(M):
        if not M:
            return const(1.)
        r = const(0.)
        for j in range(len(M)):
            t = T.mul(M[0][j], det(minor(M, 0, j)))
            r = T.add(r, t) if j % 2 == 0 else T.sub(r, t)
        return r
    d = det(G)
    inv = [[T.div(T.mul(const(float((-1)**(i+j))), det(minor(G, j, i))), d) for j in range(m)] for i in range(m)]
    out = [[dot([B[q][j] for q in range(m)], [inv[q][i] for q in range(m)]) for i in range(m)] for j in range(n)]
    l = I.new_list([I.new_list(r) for r in out])
    return I.call(I.externs["numpy"].table["array"], [l], {})


class LP(Search):
    def __init__(self, ck):
        Search.__init__(self, ck)
        I = self.I
        from ..values import Builtin
        b = Builtin("pinv", rational_pinv)
        for nm in ("numpy", "scipy"):
            I.externs[nm].table["linalg"].table["pinv"] = b
        self.mod = I.module("cvxopt.modeling")

    def problems(self):
        return [self.rec(r) for r in self.I.items_of(self.I.get(self.mod, "_log"))]

    def relations(self, rec):
        """[(kind, captured value)]"""
        I = self.I
        return [(I.getattr_(c, "kind"), self.ck.cap(I, I.getattr_(c, "val"))) for c in I.items_of(rec["constraints"])]


def flat(v):
    if isinstance(v, tuple) and v and v[0] == "arr":
        return list(v[2])
    if isinstance(v, tuple) and v and v[0] in ("list", "tuple"):
        r = []
        for x in v[1:]:
            r += flat(x)
        return r
    return [v]


def scal(v):
    """field value of an evaluated scalar (real)"""
    if isinstance(v, str):
        return v
    a, b = T.parts(v) if not isinstance(v, int) else (v % P, 0)
    if b:
        raise T.EvalError("complex")
    return a % P


def affine(seed, mode, variables, caps, fixed=None, sizes=(1, 3)):
    """variables: list of (atom name, length); caps: captured images; returns
    per cap a list of (coefficients, constant) for every scalar in it"""
    keys = [(nm, i) for nm, n in variables for i in range(n)]

    def lab(vals):
        ov = {}
        for (nm, i), v in zip(keys, vals):
            ov[(nm, T.key(i))] = v % P
        return T.Labelling(seed, mode, sizes, fixed=fixed, overrides=ov)
    zero = [0]*len(keys)
    base = lab(zero)
    c0 = [[scal(x) for x in flat(conc(base, c))] for c in caps]
    cols = []
    for j in range(len(keys)):
        u = list(zero)
        u[j] = 1
        l = lab(u)
        cols.append([[scal(x) for x in flat(conc(l, c))] for c in caps])
    import random
    r = random.Random(seed)
    probe = [r.randrange(P) for _ in keys]
    l = lab(probe)
    cp = [[scal(x) for x in flat(conc(l, c))] for c in caps]
    out = []
    for q in range(len(caps)):
        rows = []
        for e in range(len(c0[q])):
            k = c0[q][e]
            co = [(cols[j][q][e] - k) % P for j in range(len(keys))]
            if (sum(x*y for x, y in zip(co, probe)) + k - cp[q][e]) % P:
                raise T.EvalError("not affine in the solver variables")
            rows.append((co, k))
        out.append(rows)
    return out, base


def rref(M):
    M = [list(r) for r in M]
    piv = []
    r = 0
    n = len(M[0]) if M else 0
    for c in range(n):
        p = next((i for i in range(r, len(M)) if M[i][c] % P), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = pow(M[r][c], P - 2, P)
        M[r] = [x*iv % P for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [(x - f*y) % P for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    return M[:r], piv


def nullspace(M, n):
    R, piv = rref(M) if M else ([], [])
    free = [c for c in range(n) if c not in piv]
    out = []
    for f in free:
        v = [0]*n
        v[f] = 1
        for r, p in zip(R, piv):
            v[p] = -r[f] % P
        out.append(v)
    return out


def dotp(a, b):
    return sum(x*y for x, y in zip(a, b)) % P

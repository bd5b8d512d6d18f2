from ._lp import *

DESC = ("System.optimize and System.solve are abstractly interpreted with a recording model of the convex solver. The affine forms given "
        "to the solver are recovered from the value graph and decided by exact linear algebra over a prime field at random and at "
        "degenerate (orthogonal, zero-target) rows: every relation of every constraint is imposed, the remaining ones hold exactly on "
        "the voltages whose objective values are proportional to the targets, the objective is the strength of that proportionality "
        "(maximized), and the returned strength times the targets equals the achieved values. For solve the objective must be the "
        "sum of all local and global terms with one variable vector per configuration.")

SRC = '''
import numpy as np
import cvxopt, cvxopt.modeling
class Row(object):
    def __init__(self, rows, targets, tag=None):
        self.rows, self.targets, self.tag = rows, targets, tag
    def objective(self, system, variables):
        for r, t in zip(self.rows, self.targets):
            yield r, t
    def constraints(self, system, variables):
        if self.tag:
            w = __opaque_array__("W" + self.tag, (len(system),))
            yield variables <= __opaque_real__("hi" + self.tag)
            yield variables[0] >= __opaque_real__("lo" + self.tag)
            yield cvxopt.modeling.dot(cvxopt.matrix(w), variables) == __opaque_real__("eq" + self.tag)
def mk(rows, targets, tag=None): return Row(rows, targets, tag)
class Term(object):
    """local: one variable vector; global: the list of all of them"""
    def __init__(self, tag, nterms, glob=False):
        self.tag, self.n, self.glob = tag, nterms, glob
    def objective(self, system, variables):
        for k in range(self.n):
            v = variables
            if self.glob:
                v = variables[0]
                for u in variables[1:]:
                    v = v*2. + u
            yield cvxopt.modeling.dot(cvxopt.matrix(__opaque_array__("T%s%d" % (self.tag, k), (len(system),))), v), __opaque_real__("t%s%d" % (self.tag, k))
    def constraints(self, system, variables):
        for v in (variables if self.glob else [variables]):
            yield v <= __opaque_real__("hi" + self.tag)
            yield v[1] == __opaque_real__("eq" + self.tag)
def mkt(tag, n, glob=False): return Term(tag, n, glob)
'''


def check(ck):
    L = LP(ck)
    I = L.I
    m = ck.spec(I, SRC, "ctrspec")
    w = "electrode/system.py: System.optimize"
    seeds = range(2 if ck.tier == "quick" else 8)

    def names(vs):
        out = []
        for v in vs:
            a = I.getattr_(v, "val")
            out.append((a.buf.name, int(T.cval(a.shape[0]))))
        return out

    def opt(key, rows, targets, n, tags=(), kw=None):
        """rows: list of lists (numbers or None=atom)"""
        def go():
            I.ov = {}
            s = L.E.make(n)
            R = []
            for q, r in enumerate(rows):
                R.append(npm.sym_array(I, "B%d" % q, (const(n),)) if r is None else
                         I.call(I.externs["numpy"].table["array"], [I.new_list([const(float(x)) for x in r])], {}))
            tv = [T.atom("b%d" % q) if t is None else const(float(t)) for q, t in enumerate(targets)]
            # the first constraint carries the first row, the second all others
            cons = [ck.run(I, I.get(m, "mk"), (R[0],), (tv[0],), tags[0] if tags else None).value]
            if len(R) > 1:
                cons.append(ck.run(I, I.get(m, "mk"), tuple(R[1:]), tuple(tv[1:]), tags[1] if len(tags) > 1 else None).value)
            cl = I.new_list(cons)
            I.freeze()
            n0 = len(L.problems())
            del PINV[:]
            o = ck.run(I, L.E.method("optimize"), s, cl, verbose=FALSE, **(kw or {}))
            ck.note(I)
            if kw and "rcond" in kw:
                ck.ob(key + "/cutoff", w, "the pseudoinverse is taken with the cutoff given")
                if any(c is None or I.resolve(c) is not kw["rcond"] for c in PINV):
                    ck.fail(key + "/cutoff", w, "the pseudoinverse is not taken with the cutoff given (%s)" % (PINV,))
            ck.ob(key, w, "objective and relations given to the solver, and the returned strength, are those specified")
            if o.live is FALSE:
                ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                return
            recs = L.problems()[n0:]
            if len(recs) != 1:
                ck.unknown(key, "%d solver calls" % len(recs))
                return
            rec = recs[0]
            rel = L.relations(rec)
            obj = ck.cap(I, rec["objective"])
            vs = names(I.items_of(rec["variables"]))[-1:]
            if vs[0][1] != n:
                ck.fail(key, w, "%d solver variables for %d electrodes" % (vs[0][1], n))
                return
            cvals = ck.cap(I, o.value[1])
            Rc = [ck.cap(I, r) for r in R]
            tc = [ck.cap(I, t) for t in tv]
            I.ov = {}
            vatoms = None
            for sd in seeds:
                seed = "C16/%s/%s/%d" % (key, ck.seed, sd)
                (res, base) = affine(seed, "rand", vs, [obj, cvals] + [v for _, v in rel])
                B = [[scal(x) for x in flat(conc(base, r))] for r in Rc]
                b = [scal(flat(conc(base, t))[0]) for t in tc]
                oc = [sum(x) % P for x in zip(*[c + [k] for c, k in res[0]])]
                oc, ok_ = oc[:n], oc[n]
                cform = res[1][0]
                rels = []
                for (kind, _), rws in zip(rel, res[2:]):
                    for c, k in rws:
                        rels.append((kind, tuple(c), k))
                # (A) the user's relations
                want = []
                for t in tags:
                    if t is None:
                        continue
                    import re
                    hi, lo, eq = [scal(base(T.call(q + t, [], (), "r"))) for q in ("hi", "lo", "eq")]
                    W = [scal(base(T.call("W" + t, [], (const(j),), "r"))) for j in range(n)]
                    for j in range(n):
                        e = [0]*n
                        e[j] = 1
                        want.append(("<", tuple(e), -hi % P))
                    e = [0]*n
                    e[0] = P - 1
                    want.append(("<", tuple(e), lo))
                    want.append(("=", tuple(W), -eq % P))
                rest = list(rels)
                for x in want:
                    alt = (x[0], tuple(-q % P for q in x[1]), -x[2] % P)
                    if x in rest:
                        rest.remove(x)
                    elif x[0] == "=" and alt in rest:
                        rest.remove(alt)
                    else:
                        ck.fail(key, w, "a relation of a constraint is not imposed (%s, coefficients %s)" % (x[0], show_val([T.cent(q) for q in x[1]])))
                        return
                # (B) the remaining relations: exactly proportionality
                if any(k != "=" for k, _, _ in rest):
                    ck.fail(key, w, "an inequality is imposed that no constraint has")
                    return
                M = [list(c) for _, c, k in rest]
                if any(k for _, _, k in rest):
                    ck.fail(key, w, "the proportionality conditions have a constant part")
                    return
                ns = nullspace(M, n)
                # directions along which B p is proportional to b
                prop = []
                i0 = next((i for i in range(len(b)) if b[i]), None)
                for i in range(len(b)):
                    if i != i0:
                        prop.append([(B[i][j]*b[i0] - B[i0][j]*b[i]) % P for j in range(n)])
                pns = nullspace(prop, n)
                for v in ns:
                    if any(dotp(r, v) for r in prop):
                        ck.fail(key, w, "the imposed conditions admit voltages whose objective values are not proportional to the targets")
                        return
                for v in pns:
                    if any(dotp(r, v) for r in M):
                        ck.fail(key, w, "the imposed conditions exclude voltages whose objective values are proportional to the targets")
                        return
                # (C) the objective is the strength; (D) so is the returned value
                tt = lambda v: dotp(B[i0], v)*pow(b[i0], P - 2, P) % P
                ks = set()
                for v in pns:
                    t = tt(v)
                    cv = dotp(oc, v)
                    if t == 0:
                        if cv:
                            ck.fail(key, w, "the objective depends on voltages that do not change the objective rows")
                            return
                    else:
                        ks.add(cv*pow(t, P - 2, P) % P)
                    if (dotp(cform[0], v) + cform[1] - t) % P:
                        ck.fail(key, w, "returned strength times the targets is not the achieved value")
                        return
                if len(ks) > 1 or 0 in ks:
                    ck.fail(key, w, "the objective is not a multiple of the common strength")
                    return
                if ks:
                    k = -ks.pop() % P
                    # g = minimum norm voltages of unit strength
                    G = [[dotp(x, y) for y in B] for x in B]
                    sol, piv = rref([r + [t] for r, t in zip(G, b)])
                    g2 = sum(r[-1]*b[i] for i, r in enumerate(sol)) % P
                    pos = {1, g2}
                    if (-k) % P in pos:
                        ck.fail(key, w, "the strength is minimized instead of maximized")
                        return
                    if k not in pos:
                        ck.unknown(key, "scale of the objective not recognized")
                        return
        ck.guarded(key, go)

    e = lambda n, i: [1. if j == i else 0. for j in range(n)]
    opt("generic/1x2", [None], [None], 2)
    opt("generic/2x2", [None]*2, [None]*2, 2, ("a", None))
    opt("generic/2x3", [None]*2, [None]*2, 3, (None, "c"))
    opt("generic/3x4", [None]*3, [None]*3, 4, ("a", "c"))
    opt("zero-last", [None]*3, [1., 2., 0.], 4, ("a",))
    opt("zero-first", [None]*3, [0., 0., 1.], 4)
    opt("negative", [None]*2, [-1., 2.], 3)
    opt("orthogonal/first", [e(3, 0), e(3, 1)], [1., 0.], 3)
    opt("orthogonal/last", [e(3, 0), e(3, 1)], [0., 1.], 3, ("a", "c"))
    opt("orthogonal/3", [e(4, 2), e(4, 0), e(4, 3)], [0., 1., 0.], 4)
    opt("orthogonal/neg", [e(3, 0), e(3, 1)], [0., -1.], 3)
    def given(fn):
        """solver options given with the call are in effect while the solver runs"""
        w = "electrode/system.py: System." + fn
        key = "options/" + fn

        def go():
            I.ov = {}
            s = L.E.make(3)
            if fn == "optimize":
                r = npm.sym_array(I, "B0", (const(3),))
                a = [I.new_list([ck.run(I, I.get(m, "mk"), (r,), (T.atom("b0"),), None).value])]
            else:
                mk = ck.run(I, I.get(m, "mkt"), "L00", const(1), lift(False)).value
                a = [I.new_list([I.new_list([mk])]), I.new_list([])]
            n0 = len(L.problems())
            o = ck.run(I, L.E.method(fn), s, *a, verbose=FALSE, feastol=T.atom("ft"), maxiters=const(7))
            recs = L.problems()[n0:]
            ck.ob(key, w, "options given with the call are in effect for its solver")
            if len(recs) != 1:
                ck.unknown(key, "%d solver calls" % len(recs))
                return
            d = [recs[0]["options"], recs[0].get("kwargs")]
            for n, v in (("feastol", T.atom("ft")), ("maxiters", const(7))):
                for q in d:
                    if q is not None and I.contains(q, n) is TRUE and I.getitem(q, n) is v:
                        break
                else:
                    ck.fail(key, w, "%s does not reach the solver" % n)
                    return
        ck.guarded(key, go)
    given("optimize")
    given("solve")
    opt("rcond", [None]*2, [None]*2, 3, ("a",), {"rcond": T.atom("rc")})

    def slv(key, nloc, locs, globs):
        w = "electrode/system.py: System.solve"

        def go():
            I.ov = {}
            s = L.E.make(3)
            mk = lambda t, q, g: ck.run(I, I.get(m, "mkt"), t, const(q), lift(g)).value
            ll = I.new_list([I.new_list([mk("L%d%d" % (i, j), q, False) for j, q in enumerate(lo)]) for i, lo in enumerate(locs)])
            gl = I.new_list([mk("G%d" % j, q, True) for j, q in enumerate(globs)])
            I.freeze()
            n0 = len(L.problems())
            o = ck.run(I, L.E.method("solve"), s, ll, gl, verbose=FALSE)
            ck.note(I)
            ck.ob(key, w, "the solver minimizes the sum of all terms subject to all relations, one voltage vector per configuration")
            if o.live is FALSE:
                ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                return
            recs = L.problems()[n0:]
            if len(recs) != 1:
                ck.unknown(key, "%d solver calls" % len(recs))
                return
            rec = recs[0]
            rel = L.relations(rec)
            obj = ck.cap(I, rec["objective"])
            allv = I.items_of(rec["variables"])
            vs = names(allv)[-len(locs):]
            if any(n != 3 for _, n in vs) or len(vs) != len(locs):
                ck.fail(key, w, "solver variables %s for %d configurations of 3 electrodes" % ([n for _, n in vs], len(locs)))
                return
            c = ck.cap(I, o.value[1])
            I.ov = {}
            for sd in seeds:
                seed = "C16/%s/%s/%d" % (key, ck.seed, sd)
                res, base = affine(seed, "rand", vs, [obj, c] + [v for _, v in rel])
                N = len(locs)
                want = [0]*(3*N)
                wrel = []
                cc = lambda q: scal(base(T.call(q, [], (), "r")))
                for i, lo in enumerate(locs):
                    for j, q in enumerate(lo):
                        t = "L%d%d" % (i, j)
                        for k in range(q):
                            for x in range(3):
                                want[3*i + x] += cc("t%s%d" % (t, k))*scal(base(T.call("T%s%d" % (t, k), [], (const(x),), "r")))
                        for x in range(3):
                            e_ = [0]*(3*N)
                            e_[3*i + x] = 1
                            wrel.append(("<", tuple(e_), -cc("hi" + t) % P))
                        e_ = [0]*(3*N)
                        e_[3*i + 1] = 1
                        wrel.append(("=", tuple(e_), -cc("eq" + t) % P))
                for j, q in enumerate(globs):
                    t = "G%d" % j
                    for k in range(q):
                        for i in range(N):
                            for x in range(3):
                                want[3*i + x] += 2**(N - 1 - i)*cc("t%s%d" % (t, k))*scal(base(T.call("T%s%d" % (t, k), [], (const(x),), "r")))
                    for i in range(N):
                        for x in range(3):
                            e_ = [0]*(3*N)
                            e_[3*i + x] = 1
                            wrel.append(("<", tuple(e_), -cc("hi" + t) % P))
                        e_ = [0]*(3*N)
                        e_[3*i + 1] = 1
                        wrel.append(("=", tuple(e_), -cc("eq" + t) % P))
                want = [x % P for x in want]
                got = [sum(x) % P for x in zip(*[cf + [k] for cf, k in res[0]])]
                if got != want + [0]:
                    ck.fail(key, w, "the objective given to the solver is not the sum of all local and global terms")
                    return
                if [sum(x) % P for x in zip(*[cf + [k] for cf, k in res[1]])] != want + [0]:
                    ck.fail(key, w, "the returned objective value is not that of the solution")
                    return
                rels = []
                for (kind, _), rws in zip(rel, res[2:]):
                    for cf, k in rws:
                        if kind == "=" and (tuple(-q % P for q in cf), -k % P) in [(a_, b_) for _, a_, b_ in wrel]:
                            cf, k = [-q % P for q in cf], -k % P
                        rels.append((kind, tuple(cf), k))
                if sorted(set(rels)) != sorted(set(wrel)):
                    miss = [x for x in wrel if x not in rels]
                    ck.fail(key, w, "%d relations missing, %d not asked for" % (len(miss), len([x for x in rels if x not in wrel])))
                    return
        ck.guarded(key, go)
    slv("solve/1", 1, [[1]], [])
    slv("solve/2", 2, [[1, 2], [1, 1]], [1])
    slv("solve/3", 3, [[1], [], [2]], [1, 2])
    slv("solve/noobj", 2, [[0, 1], [1, 0]], [0])
    slv("solve/globalonly", 2, [[], []], [1])

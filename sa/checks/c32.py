from ._lp import *

DESC = ("System.shims is abstractly interpreted with System.optimize replaced by a recorder that evaluates the rows, targets and relations "
        "of the constraints it gets and returns an unknown solution, for 1..3 requested derivatives (with and without rotation), "
        "additional potential and combined objectives whose targets are absent, zero or unknown beforehand, default and given "
        "constraints. Each call must have target one for exactly one objective and zero for all others, the same relations, and row "
        "i must be the solution of call i divided by its strength; targets of the given objectives are as before afterwards.")

SRC = '''
import numpy as np
import cvxopt.modeling
log = []
fault = [None]
def interrupted(s, req, objs, n):
    """the solver fails in the nth call"""
    fault[0] = n
    try:
        s.shims(req, objs, [])
    except ArithmeticError:
        return True
    finally:
        fault[0] = None
    return False
def optimize(self, constraints, rcond=1e-9, verbose=True, **kwargs):
    if fault[0] is not None:
        fault[0] -= 1
        if fault[0] < 0:
            raise ArithmeticError("Rank(A) < p or Rank([G; A]) < n")
    v = cvxopt.modeling.variable(len(self))
    rows, rels = [], []
    for c in constraints:
        rows += list(c.objective(self, v))
        rels += [(r.kind, r.val - 0, v.val) for r in c.constraints(self, v)]
    p, s = __fresh__("shim_p", len(self)), __fresh__("shim_c")
    log.append((rows, rels, p, s, rcond, kwargs, v.val))
    return p, s
def mk(PO, MP, RC, x, R):
    """the requests and additional objectives"""
    return dict(
        a=(x, None, "x"), b=(x, R, "zz"), c=([x[2], x[0], x[1]], R, "xy"),
        po=PO(x=x, derivative="y"), pov=PO(x=x, derivative="z", value=v0, rotation=R), po0=PO(x=x, derivative="yy", value=0),
        mp=MP([PO(x=x, derivative="xx", value=v1), PO(x=x, derivative="yy", value=1)]),
        mpv=MP([PO(x=x, derivative="xz", value=v1)], value=v0),
        rc=RC(min=-2., max=3.), rc1=RC(max=5., index=1))
def rowof(PO, s, o):
    if isinstance(o, tuple):
        x, R, d = o
        return PO(x=x, derivative=d, rotation=R, value=1).get(s, None)
    return o.get(s, None)
def pick(d, names): return [d[n] for n in names]
def values(l): return [o.value for o in l]
def shims(s, req, objs, cons, kw):
    if objs is None and cons is None: return s.shims(req, **kw)
    if cons is None: return s.shims(req, objs, **kw)
    if objs is None: return s.shims(req, constraints=cons, **kw)
    return s.shims(req, objs, cons, **kw)
'''


def check(ck):
    L = LP(ck)
    I = L.I
    mod = ck.mod(I, "pattern_constraints")
    PO, MP, RC = [I.getattr_(mod, n) for n in ("PotentialObjective", "MultiPotentialObjective", "PatternRangeConstraint")]
    m = ck.spec(I, SRC, "shimspec", v0=T.atom("v0"), v1=T.atom("v1"))
    F = lambda n: I.get(m, n)
    I.stubs["system.System.optimize"] = lambda I, a, k: I.call(F("optimize"), a, k)
    w = "electrode/system.py: System.shims"
    labs = ck.labs()

    def one(key, req, objs, cons, kw=None):
        def go():
            I.ov = {}
            s = L.E.make(3)
            x = npm.sym_array(I, "x", (const(3),))
            R = npm.sym_array(I, "R", (const(3), const(3)))
            d = ck.run(I, F("mk"), PO, MP, RC, x, R).value
            I.freeze()
            pick = lambda names: None if names is None else ck.run(I, F("pick"), d, tuple(names)).value
            rq, ob, cn = pick(req), pick(objs), pick(cons)
            k = I.call(I.builtins["dict"], [], kw or {})
            I.freeze()
            vals = lambda: ck.cap(I, ck.run(I, F("values"), ob).value) if ob is not None else None
            v_before = vals()
            lens = [len(I.items_of(q)) if q is not None else 0 for q in (rq, ob, cn)]
            o = ck.run(I, F("shims"), s, rq, ob, cn, k)
            ck.note(I)
            ck.ob(key, w, "each row is the unit-strength solution with exactly its own objective at target one")
            if o.live is FALSE:
                ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                return
            v_after = vals()
            lens2 = [len(I.items_of(q)) if q is not None else 0 for q in (rq, ob, cn)]
            if lens != lens2:
                ck.fail(key, w, "a list of the caller was extended or cut: lengths %s -> %s" % (lens, lens2))
                return
            recs = [tuple(I.resolve(y) for y in r) for r in I.items_of(I.get(m, "log"))]
            n = lens[0] + lens[1]
            if len(recs) != n:
                if n and not recs:
                    ck.unknown(key, "no optimization recorded")
                else:
                    ck.fail(key, w, "%d optimizations for %d objectives" % (len(recs), n))
                return
            V = npm.snap(I, o.value)
            if tuple(int(T.cval(q)) for q in V.shape) != (n, 3):
                ck.fail(key, w, "the result has shape %s" % (V.shape,))
                return
            ov = I.ov
            objs_ = (I.items_of(rq) if rq is not None else []) + (I.items_of(ob) if ob is not None else [])
            ref_rows = []
            for q in objs_:
                ref_rows.append(ck.cap(I, ck.run(I, F("rowof"), PO, s, q).value))
                I.ov = ov
            caps = []
            for rows, rels, p, st, rcond, kws, vv in recs:
                rr = [(ck.cap(I, r[0]), ck.cap(I, r[1])) for r in I.items_of(rows)]
                rl = [(r[0], ck.cap(I, r[1]), ck.cap(I, r[2])) for r in I.items_of(rels)]
                caps.append((rr, rl, ck.cap(I, p), ck.cap(I, st), ck.cap(I, kws), ck.cap(I, rcond)))
            shp = [[V.fn((const(i), const(j))) for j in range(3)] for i in range(n)]
            quo, zero = [], []
            for rows, rels, p, sc, rcond, kws, vv in recs:
                ps, cs = npm.snap(I, p), npm.snap(I, sc).fn(()) if not isinstance(sc, Node) else sc
                quo.append([T.div(T.to_real(ps.fn((const(j),))), T.to_real(cs)) for j in range(3)])
                zero.append(T.eq(cs, const(0.)))
            k_ref = ck.cap(I, k)
            I.ov = {}
            for lab in labs:
                st = o.state(lab)
                if st:
                    ck.fail(key, w, "%s raised at %s" % (st[1], loc_str(st[2])))
                    return
                refs = [tuple(flat(conc(lab, r))) for r in ref_rows]
                relsets = []
                for i, (rr, rl, p, sc, kws, rcond) in enumerate(caps):
                    got = sorted(((tuple(flat(conc(lab, a))), conc(lab, b)) for a, b in rr), key=repr)
                    want = sorted(((r, 1 if q == i else 0) for q, r in enumerate(refs)), key=repr)
                    if got != want:
                        tg = [conc(lab, b) for _, b in rr]
                        ck.fail(key, w, "call %d does not have exactly objective %d at one and all others at zero (targets %s for %d objectives, labelling %s)"
                                % (i, i, tg, n, lab.seed))
                        return
                    # relations, shifted to the values of that call's variable
                    if cons is None:
                        bnd = []
                        for kind, v, x_ in rl:
                            bnd.append((kind, tuple(flat(conc(lab, v))), tuple(flat(conc(lab, x_)))))
                        want = set()
                        for kind, v, x_ in bnd:
                            a = tuple((q - y) % P for q, y in zip(v, x_))
                            b = tuple((q + y) % P for q, y in zip(v, x_))
                            want.add("up" if a == (P - 1,)*3 else "lo" if b == (P - 1,)*3 else "?")
                        if want != {"up", "lo"} or len(bnd) != 2:
                            ck.fail(key, w, "without constraints the voltages are not bounded to [-1, 1]")
                            return
                    else:
                        relsets.append(len(rl))
                    if lab(zero[i]):
                        continue
                    for j in range(3):
                        if conc(lab, shp[i][j]) != conc(lab, quo[i][j]):
                            ck.fail(key, w, "row %d is not the solution of call %d divided by its strength" % (i, i))
                            return
                    kd = conc(lab, kws)
                    kd = tuple(q for q in kd if not (isinstance(q, tuple) and q[0] == conc(lab, "verbose")))
                    kr = conc(lab, k_ref)
                    if rcond is not None and any(q[0] == conc(lab, "rcond") for q in kr[1:]):
                        kd = kd + ((conc(lab, "rcond"), conc(lab, rcond)),)
                    if sorted(kd[1:], key=repr) != sorted(kr[1:], key=repr):
                        ck.fail(key, w, "options are not passed on to the optimization")
                        return
                if relsets and cons is not None:
                    nrel = sum({"rc": 2, "rc1": 1}[c] for c in cons)
                    if any(r != nrel for r in relsets):
                        ck.fail(key, w, "the given constraints are not imposed in every call (%s relations, %d given)" % (relsets, nrel))
                        return
            if v_before is not None:
                ck.same(key + "/targets", w, v_after, v_before, labs=labs, rule="targets of the given objectives are as before")
        ck.guarded(key, go)
    def failing(key, req, objs, n):
        def go():
            I.ov = {}
            s = L.E.make(3)
            x = npm.sym_array(I, "x", (const(3),))
            R = npm.sym_array(I, "R", (const(3), const(3)))
            d = ck.run(I, F("mk"), PO, MP, RC, x, R).value
            I.freeze()
            rq, ob = [ck.run(I, F("pick"), d, tuple(q)).value for q in (req, objs)]
            I.freeze()
            before = ck.cap(I, ck.run(I, F("values"), ob).value)
            o = ck.run(I, F("interrupted"), s, rq, ob, const(n))
            ck.note(I)
            if not ck.noraise(key, w, o):
                return
            after = ck.cap(I, ck.run(I, F("values"), ob).value)
            I.ov = {}
            ck.same(key, w, after, before, labs=labs, rule="targets of the given objectives are as before when the solver fails")
        ck.guarded(key, go)
    for n in range(4):
        failing("fails/%d" % n, "a", ["po", "pov", "mpv"], n)
    one("one", "a", None, None)
    one("three", "abc", None, None)
    one("dup", "aab", None, None)
    one("cons", "ab", None, ["rc", "rc1"])
    one("nocons", "ab", None, [])
    one("obj", "ab", ["po"], None)
    one("objval", "ab", ["pov"], ["rc"])
    one("obj0", "b", ["po0", "mp"], None)
    one("multi", "ab", ["mp", "mpv"], ["rc"])
    one("onlyobj", "", ["mpv", "po"], ["rc1"])
    one("kw", "ab", ["mpv"], ["rc"], {"rcond": const(.25), "feastol": const(.5)})
    one("none", "", None, None)

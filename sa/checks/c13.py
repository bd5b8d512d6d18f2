from ._opt import *

DESC = ("System.minimum, saddle, optimize and solve are abstractly interpreted with stand-ins for the numerical solvers whose outcome "
        "(converged or not, status, solution) is unknown: at every labelling the method must raise exactly when the solver did not "
        "report success and otherwise return that solver's solution. saddle.rfo is interpreted for one, two and three iterations "
        "with unknown functions: the value it returns and the last gradient evaluation belong to the position it returns.")

VSRC = '''
import numpy as np
class Row(object):
    """a constraint with one objective row and one relation"""
    def __init__(self, k, n, value):
        self.k, self.n, self.value = k, n, value
    def objective(self, system, variables):
        yield __opaque_array__("row%d" % self.k, (len(system),)), self.value
    def constraints(self, system, variables):
        return []
class Obj(object):
    def __init__(self, k): self.k = k
    def objective(self, system, variables):
        from cvxopt import modeling
        yield 1., modeling.sum(variables)*2.
    def constraints(self, system, variables):
        return []
def rows(n): return [Row(0, n, 1.), Row(1, n, 0.)]
def objs(): return [[Obj(0)], [Obj(1)]]
'''


def check(ck):
    S = Search(ck)
    I = S.I
    F = lambda n: I.get(S.m, n)
    labs = ck.labs()

    def gate(key, w, o, succ, rule="raises unless the solver reported success"):
        ck.ob(key, w, rule)
        seen = set()
        for lab in labs:
            st = o.state(lab)
            ok = bool(lab(succ))
            seen.add(ok)
            if ok and st:
                ck.fail(key, w, "the solver succeeded but %s is raised at %s (labelling %s)" % (st[1], loc_str(st[2]), lab.seed))
                return False
            if not ok and not st:
                ck.fail(key, w, "a result is returned although the solver did not report success (labelling %s)" % lab.seed)
                return False
        return True

    def search(meth, axis, kw2):
        key = "%s/%s%s" % (meth, "".join(map(str, axis)), "/opts" if kw2 else "")
        w = "electrode/system.py: System.%s" % meth

        def go():
            I.ov = {}
            s, x0, coord, kw = S.setup("array", "general")
            kw["axis"] = tuple(const(a) for a in axis)
            kw.update(kw2)
            I.freeze()
            n0 = len(S.log(meth))
            o = ck.run(I, S.E.method(meth), s, x0, **kw)
            ck.note(I)
            if o.live is FALSE:
                ck.ob(key, w, "the search is analysable")
                ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                return
            recs = [S.rec(r) for r in S.log(meth)[n0:]]
            if len(recs) != 1:
                ck.unknown(key, "%d optimizer calls" % len(recs))
                return
            r = recs[0]
            gate(key + "/gate", w, o, r["success"])
            x = o.value[0] if meth == "saddle" else o.value
            got = ck.cap(I, x)
            ref = ck.cap(I, ck.run(I, F("at"), x0, kw["axis"], r["result"]).value)
            ck.same(key + "/x", w, got, ref, labs=labs, guard=r["success"], rule="returns the solver's own solution")
            if meth == "saddle":
                ck.same(key + "/p", w, ck.cap(I, o.value[1]), ck.cap(I, r["resfun"]), labs=labs, guard=r["success"],
                        rule="returns the solver's own value")
            I.ov = {}
        ck.guarded(key, go)
    for meth in ("minimum", "saddle"):
        for axis in AXES:
            search(meth, axis, {})
        search(meth, (0, 1, 2), {"xtol": T.atom("xt"), "maxiter": const(50)} if meth == "saddle" else {"method": "Nelder-Mead"})

    vm = ck.spec(I, VSRC, "rowspec")
    mod = I.module("cvxopt.modeling")

    def volt(meth, verbose):
        key = meth + "/%s" % verbose
        w = "electrode/system.py: System.%s" % meth

        def go():
            I.ov = {}
            s = S.E.make(2)
            cons = ck.run(I, I.get(vm, "rows"), const(2)).value if meth == "optimize" else ck.run(I, I.get(vm, "objs")).value
            I.freeze()
            n0 = len(I.items_of(I.get(mod, "_log")))
            args = [cons] if meth == "optimize" else [cons, I.new_list([])]
            o = ck.run(I, S.E.method(meth), s, *args, verbose=verbose)
            ck.note(I)
            if o.live is FALSE:
                ck.ob(key, w, "the solve is analysable")
                ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                return
            recs = [S.rec(r) for r in I.items_of(I.get(mod, "_log"))[n0:]]
            if len(recs) != 1:
                ck.unknown(key, "%d solver calls" % len(recs))
                return
            r = recs[0]
            gate(key + "/gate", w, o, r["solved"])
            vs = I.items_of(r["variables"])
            nv = 1 if meth == "optimize" else 2
            vals = [I.getattr_(v, "val") for v in vs][-nv:]
            u = o.value[0]
            if meth == "optimize":
                ck.same(key + "/u", w, ck.cap(I, u), ck.cap(I, vals[0]), labs=labs, guard=r["solved"],
                        rule="returns the solver's own solution")
            else:
                for k in range(2):
                    ck.same(key + "/u%d" % k, w, ck.cap(I, npm.index(I, u, const(k)) if hasattr(npm, "index") else I.getitem(u, const(k))),
                            ck.cap(I, vals[k]), labs=labs, guard=r["solved"], rule="returns the solver's own solution")
            I.ov = {}
        ck.guarded(key, go)
    for v in (FALSE, TRUE):
        volt("optimize", v)
        volt("solve", v)

    # rfo: value, gradient and position belong together
    rs = ck.spec(I, '''
import numpy as np
def fun(x): return __opaque_real__("FUN", x[0], x[1])
def grad(x):
    last[1] = last[0]
    last[0] = x[0], x[1]
    return [__opaque_real__("GR0", x[0], x[1]), __opaque_real__("GR1", x[0], x[1])]
last = [None, None]
def go(rfo, x0, n, h):
    x, f, ret = rfo(fun, grad, x0, xtol=xt, ftol=ft, maxiter=n, h=h)
    return x, f, last[0], honest(ret, last[1], last[0])
def honest(ret, a, b):
    fa, fb = fun(a), fun(b)
    na, nb, nd = (a[0]**2 + a[1]**2)**.5, (b[0]**2 + b[1]**2)**.5, ((b[0] - a[0])**2 + (b[1] - a[1])**2)**.5
    if ret == "xtol":
        return 2.*nd <= xt*(nb + na + 1e-20)
    if ret == "ftol":
        return 2.*abs(fb - fa) <= ft*(abs(fb) + abs(fa) + 1e-20)
    return True
def ref(x): return fun(x), (x[0], x[1]), True
''', "rfospec", xt=T.atom("xt"), ft=T.atom("ft"))
    rfo = ck.attr(I, "saddle", "rfo")

    def run_rfo(n, h):
        key = "rfo/%d/%s" % (n, "h" if h else "noh")
        w = "electrode/saddle.py: rfo"

        def go():
            I.ov = {}
            x0 = npm.sym_array(I, "p", (const(2),))
            hh = npm.sym_array(I, "h", (const(2), const(2))) if h else None
            I.freeze()
            st = I.stubs.pop("saddle.rfo")
            try:
                o = ck.run(I, I.get(rs, "go"), rfo, x0, const(n), hh)
                ck.note(I)
            finally:
                I.stubs["saddle.rfo"] = st
            if o.live is FALSE:
                ck.noraise(key, w, o)
                return
            x, f, last, honest = o.value
            got = ("tuple", ck.cap(I, f), ck.cap(I, last), ck.cap(I, honest))
            ref = ck.cap(I, ck.run(I, I.get(rs, "ref"), x).value)
            ck.same(key, w, got, ref, labs=labs, guard=o.live,
                    rule="the returned value and last gradient evaluation belong to the returned position, and convergence "
                    "is reported only if its criterion holds for the last step")
            I.ov = {}
        ck.guarded(key, go)
    for n in (1, 2, 3) if ck.tier != "quick" else (1, 2):
        for h in (True, False):
            run_rfo(n, h)

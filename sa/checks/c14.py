from ._opt import *

DESC = ("System.minimum and System.saddle are abstractly interpreted with recording stand-ins for the optimizers (which evaluate the "
        "functions they are given at independent unknown points, interleaved), on assemblies of contract electrodes, for general "
        "unknown and default bases, axis selections of length 1..3 in any order, start points as arrays, tuples, lists and integers. "
        "Every value, gradient and curvature obtained is compared by value numbering with the value, basis-transformed gradient and "
        "curvature of the combined potential at the basis-transformed position; the returned position is compared too.")


def check(ck):
    S = Search(ck)
    I = S.I
    F = lambda n: I.get(S.m, n)

    def one(meth, axis, x0k, ck_, dflt=False, prior=False):
        key = "%s/%s%s/%s/%s" % (meth, "after-other/" if prior else "", "default" if dflt else "".join(map(str, axis)), x0k, ck_)
        w = "electrode/system.py: System.%s" % meth

        def go():
            I.ov = {}
            s, x0, coord, kw = S.setup(x0k, ck_)
            if not dflt:
                kw["axis"] = tuple(const(a) for a in axis)
            I.freeze()
            n0 = len(S.log(meth))
            before = [ck.cap(I, v) for v in (x0, coord)]
            if prior:           # another search on the same assembly, from elsewhere
                ck.run(I, S.E.method(meth), s, I.new_list([T.atom("e%d" % i) for i in range(3)]), **kw)
                n0 = len(S.log(meth))
            o = ck.run(I, S.E.method(meth), s, x0, **kw)
            ck.note(I)
            if o.live is FALSE:
                ck.noraise(key, w, o)
                return
            recs = S.log(meth)[n0:]
            if not recs:
                ck.unknown(key, "no optimizer call found")
                return
            ax = tuple(const(a) for a in axis)
            labs = ck.labs()
            few = labs[:4]
            ov = I.ov
            succ = FALSE
            for rn, r in enumerate(recs):
                r = S.rec(r)
                succ = T.or_(succ, r["success"])
                k = "%s/call%d" % (key, rn)
                got = ck.cap(I, r["x0"])
                ref = ck.cap(I, ck.run(I, F("start"), x0, ax).value)
                I.ov = ov
                ck.same(k + "/start", w, got, ref, labs=labs,
                        rule="the search starts at the start values of the varied coordinates")
                for en, e in enumerate(I.items_of(r["evals"])):
                    kind, xi, val = e
                    got = ck.cap(I, val)
                    sp = ck.run(I, F("ref"), s, x0, ax, coord, kind, xi)
                    ref = ck.cap(I, sp.value)
                    I.ov = ov
                    ck.same("%s/%s%d" % (k, kind, en), w, got, ref, labs=few if kind == "h" else labs,
                            rule={"f": "value is the combined potential at the basis-transformed position",
                                  "g": "gradient is the derivative of the value along the varied coordinates",
                                  "h": "curvature is the second derivative of the value along the varied coordinates"}[kind])
                if "h0" in r and r["h0"] is not None:
                    got = ck.cap(I, r["h0"])
                    sp = ck.run(I, F("start"), x0, ax).value
                    ref = ck.cap(I, ck.run(I, F("ref"), s, x0, ax, coord, "h", sp).value)
                    I.ov = ov
                    ck.same(k + "/h0", w, got, ref, labs=few, rule="initial curvature is the second derivative of the value")
                got = ck.cap(I, o.value[0] if meth == "saddle" and isinstance(o.value, tuple) else o.value)
                ref = ck.cap(I, ck.run(I, F("at"), x0, ax, r["result"]).value)
                I.ov = ov
                ck.same(k + "/result", w, got, ref, labs=labs, guard=T.and_(o.live, succ) if len(recs) == 1 else None,
                        rule="found values at the varied coordinates, start values elsewhere")
            for q, v in enumerate((x0, coord)):
                if v is not None:
                    ck.same(key + "/frame%d" % q, w, ck.cap(I, v), before[q], labs=labs, rule="start point and basis are unchanged")
            I.ov = {}
        ck.guarded(key, go)

    for meth in ("minimum", "saddle"):
        one(meth, (0, 1, 2), "array", "identity", True)
        one(meth, (0, 1, 2), "list", "general", True)
        for axis in AXES:
            one(meth, axis, "array", "general")
        one(meth, (0, 2), "tuple", "identity")
        one(meth, (1,), "ints", "general")
        one(meth, (0, 1, 2), "array", "general", prior=True)
        one(meth, (2, 0), "list", "identity", prior=True)
        one(meth, (0, 1, 2), "ints", "identity", True)

    def opts(meth, key, given, seen):
        """the caller's own search options reach the search"""
        w = "electrode/system.py: System.%s" % meth

        def go():
            I.ov = {}
            s, x0, coord, kw = S.setup("array", "identity")
            d = {n: (I.new_dict({("s", q): (q, z) for q, z in v.items()}) if isinstance(v, dict) else v) for n, v in given.items()}
            I.freeze()
            n0 = len(S.log(meth))
            o = ck.run(I, S.E.method(meth), s, x0, **d)
            recs = S.log(meth)[n0:]
            if not recs:
                if ck.noraise("%s/options/%s" % (meth, key), w, o):
                    ck.unknown("%s/options/%s" % (meth, key), "no optimizer call found")
                return
            for r in recs:
                r = S.rec(r)
                for n in d:
                    v = seen(r, n)
                    v = I.resolve(v)
                    k = "%s/options/%s/%s" % (meth, key, n)
                    if isinstance(given[n], dict):
                        got = {q: z for q, z in I.get(v, "v").values()} if v is not None else {}
                        for q, z in given[n].items():
                            ck.same(k + "." + q, w, ck.cap(I, got.get(q)), ck.cap(I, z), rule="the caller's search options reach the search")
                    else:
                        ck.same(k, w, ck.cap(I, v), ck.cap(I, given[n]), rule="the caller's search options reach the search")
        ck.guarded("%s/options/%s" % (meth, key), go)
    opts("minimum", "method", {"method": "Powell"}, lambda r, n: r[n])
    opts("minimum", "all", {"method": "trust-ncg", "tol": T.atom("tol"), "options": {"maxiter": const(7), "gtol": T.atom("gtol")}}, lambda r, n: r[n])
    order = ["xtol", "ftol", "maxiter", "dx_max"]
    val = lambda r, n: r["kw"][order.index(n)]
    for n in order:
        opts("saddle", n, {n: T.atom(n)}, val)
    opts("saddle", "all", {n: T.atom(n) for n in order}, val)

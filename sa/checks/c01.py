from ._sys import *

DESC = ("System.electrical_potential, individual_potential and time_potential are abstractly interpreted on assemblies of 0 to 4 "
        "electrodes that satisfy the contribution contract (C02), with unknown voltages, points (batch of symbolic length, nested "
        "list, single point; real and integer coordinates) and contributions; the resulting value graphs are compared with the voltage weighted sum of unit "
        "contributions by global value numbering, for orders 0..5 (expanded) and 0..6, including assemblies in which one "
        "electrode occurs twice and permuted ones.")


def check(ck):
    E = SysEnv(ck)
    I = E.I
    n = T.atom("n", "i", rng=(1, 3))

    def pts(kind):
        if kind == "array":
            return npm.sym_array(I, "x", (n, const(3)))
        if kind == "list":
            return I.new_list([I.new_list([T.atom("x%d%d" % (i, j)) for j in range(3)]) for i in range(2)])
        if kind == "ints":
            return I.new_list([I.new_list([const(i - 2*j) for j in range(3)]) for i in range(2)])
        if kind == "intarray":
            return npm.sym_array(I, "k", (n, const(3)), "i")
        return (T.atom("x0"), T.atom("x1"), T.atom("x2"))

    def one(key, meth, spec, ne, kind, kw, perm=None):
        def go():
            I.ov = {}
            s = E.make(ne)
            if perm:
                els = I.items_of(s)
                s = ck.run(I, E.System, I.new_list([els[p] for p in perm])).value
            x = pts(kind)
            I.freeze()
            ck.vs(key, "electrode/system.py: System.%s" % meth, I, E.method(meth), E.fn(spec), [s, x], kw,
                  rule="equals the voltage weighted sum of the unit contributions")
        ck.guarded(key, go)

    for d in range(7):
        for typ in ("dc", "rf"):
            one("electrical/%d/%s" % (d, typ), "electrical_potential", "elpot", 3, "array", {"derivative": const(d), "typ": typ})
            if d < 6:
                one("electrical/%d/%s/expand" % (d, typ), "electrical_potential", "elpot", 2, "array",
                    {"derivative": const(d), "typ": typ, "expand": TRUE})
        one("individual/%d" % d, "individual_potential", "indiv", 3, "array", {"derivative": const(d)})
        one("time/%d" % d, "time_potential", "timepot", 2, "array", {"derivative": const(d), "t": T.atom("t")})
        if d < 6:
            one("time/%d/expand" % d, "time_potential", "timepot", 2, "array",
                {"derivative": const(d), "t": T.atom("t"), "expand": TRUE})
    for ne in (0, 1, 4):
        one("electrical/n%d" % ne, "electrical_potential", "elpot", ne, "array", {"derivative": const(1)})
        one("individual/n%d" % ne, "individual_potential", "indiv", ne, "array", {"derivative": const(1)})
    one("electrical/default", "electrical_potential", "elpot", 2, "array", {})
    one("individual/default", "individual_potential", "indiv", 2, "array", {})
    one("time/default", "time_potential", "timepot", 2, "array", {})
    for kind in ("list", "single", "ints", "intarray"):
        for d in (0, 1, 2):
            one("electrical/%s/%d" % (kind, d), "electrical_potential", "elpot", 2, kind, {"derivative": const(d)})
            one("individual/%s/%d" % (kind, d), "individual_potential", "indiv", 2, kind, {"derivative": const(d)})
            one("time/%s/%d" % (kind, d), "time_potential", "timepot", 2, kind, {"derivative": const(d), "t": T.atom("t")})
    for perm in ((2, 0, 1), (1, 1, 0), (0, 0)):
        t = "".join(map(str, perm))
        one("electrical/perm" + t, "electrical_potential", "elpot", 3, "array", {"derivative": const(1)}, perm)
        one("individual/perm" + t, "individual_potential", "indiv", 3, "array", {"derivative": const(1)}, perm)

from ..check import *
import itertools

DESC = ("The conversion tables of utils.py are evaluated by abstract interpretation of the module body; expand_tensor, "
        "select_tensor and the name functions are analysed for orders 0..5 with unknown component values and a batch of "
        "unknown length (and two batch axes); symmetry, tracelessness, named entries and round trip are decided by value numbering.")

W = "electrode/utils.py: "


def check(ck):
    I = ck.interp("electrode.utils")
    g = lambda n: ck.attr(I, "utils", n)
    names = {}

    def tables():
        for l in range(6):
            names[l] = []
            for i in range(2 * l + 1):
                I.ov = {}
                o = ck.run(I, g("deriv_to_name"), const(l), const(i))
                ck.noraise("name-%d-%d" % (l, i), W + "deriv_to_name", o)
                nm = pv(I, o.value)
                names[l].append(nm)
                ck.ob("names", W + "deriv_to_name", "component names are strings of l letters x, y, z")
                if len(nm) != l or set(nm) - set("xyz"):
                    ck.fail("names-%d-%d" % (l, i), W + "deriv_to_name", "name %r of component (%d, %d)" % (nm, l, i))
                o = ck.run(I, g("name_to_deriv"), nm)
                ck.noraise("inv-%s" % nm, W + "name_to_deriv", o)
                r = pv(I, o.value)
                ck.ob("inverse", W + "name_to_deriv", "name and position are inverse")
                if tuple(r) != (l, i):
                    ck.fail("inverse-%s" % nm, W + "name_to_deriv", "%r maps to %r, not (%d, %d)" % (nm, r, l, i))
            ck.ob("distinct", W + "deriv_to_name", "component names are distinct derivatives")
            if len(set("".join(sorted(n)) for n in names[l])) != 2 * l + 1:
                ck.fail("distinct-%d" % l, W + "_derivative_names", "names of order %d are not distinct: %r" % (l, names[l]))
    ck.guarded("tables", tables)
    if not all(len(names.get(l, ())) == 2 * l + 1 for l in range(6)):
        return

    def derive():
        for l in range(1, 6):
            for i in range(2 * l + 1):
                o = ck.run(I, g("construct_derivative"), const(l), const(i))
                if not ck.noraise("derive-%d-%d" % (l, i), W + "construct_derivative", o):
                    continue
                (ll, li), ax = pv(I, o.value)
                ck.ob("derive", W + "construct_derivative", "lower component plus one letter gives the component's name")
                ok = ll == l - 1 and 0 <= li < 2 * ll + 1 and ax in (0, 1, 2) and sorted(names[ll][li] + "xyz"[ax]) == sorted(names[l][i])
                if not ok:
                    ck.fail("derive-%s" % names[l][i], W + "construct_derivative", "%s is derived from %r along axis %r" % (names[l][i], (ll, li), ax))
    ck.guarded("derive", derive)
    n, m = T.atom("n", "i", rng=(1, 3)), T.atom("m", "i", rng=(1, 2))
    labs = ck.labs()
    for l in range(6):
        for tag, batch, po in (("batch", (n,), False), ("order", (n,), True), ("batch2", (n, m), True), ("single", (), True)):
            def go():
                key = "expand%d-%s" % (l, tag)
                I.ov = {}
                c = npm.sym_array(I, "c", batch + (const(2 * l + 1),))
                I.freeze()
                c0 = cap(I, c)
                kw = {"order": const(l)} if po else {}
                o = ck.run(I, g("expand_tensor"), c, **kw)
                if not ck.noraise(key, W + "expand_tensor", o):
                    return
                s = npm.snap(I, o.value)
                ck.same(key + "/frame", W + "expand_tensor", cap(I, c), c0, labs=labs, rule="argument unchanged")
                ck.ob(key + "/shape", W + "expand_tensor", "result shape is batch + (3,)*order")
                if len(s.shape) != len(batch) + l or not all(T.same_dim(a, b) for a, b in zip(s.shape, batch + (const(3),) * l)):
                    ck.fail(key + "/shape", W + "expand_tensor", "shape %s" % (s.shape,))
                    return
                bidx = tuple(T.atom("bi%d" % k, "i", rng=(0, 0)) for k in range(len(batch)))
                cs = npm.snap(I, c)
                for idx in itertools.product(range(3), repeat=l):
                    a = s.fn(bidx + tuple(const(k) for k in idx))
                    nm = "".join("xyz"[k] for k in sorted(idx))
                    srt = tuple(sorted(idx))
                    if idx != srt:
                        ck.same(key + "/sym%s" % (idx,), W + "expand_tensor", a, s.fn(bidx + tuple(const(k) for k in srt)), labs=labs,
                                rule="expanded tensor is symmetric")
                    for q, nn in enumerate(names[l]):
                        if "".join(sorted(nn)) == nm:
                            ck.same(key + "/named%s" % (idx,), W + "expand_tensor", a, cs.fn(bidx + (const(q),)), labs=labs,
                                    rule="entry carries the stored component of its name")
                for rest in itertools.product(range(3), repeat=max(l - 2, 0)):
                    if l >= 2:
                        t = const(0.0)
                        for k in range(3):
                            t = T.add(t, s.fn(bidx + (const(k), const(k)) + tuple(const(x) for x in rest)))
                        ck.same(key + "/trace%s" % (rest,), W + "expand_tensor", t, const(0.0), labs=labs, rule="expanded tensor is traceless")
                # select(expand(c)) == c
                e = o.value
                kw2 = {"order": const(l)} if po else {}
                if l == 0 and not batch:
                    return
                e0 = cap(I, e)
                o2 = ck.run(I, g("select_tensor"), e, **kw2)
                if not ck.noraise(key + "/select", W + "select_tensor", o2):
                    return
                ck.same(key + "/roundtrip", W + "select_tensor", cap(I, o2.value), cap(I, c), labs=labs, rule="select(expand(c)) is c")
                ck.same(key + "/frame2", W + "select_tensor", cap(I, e), e0, labs=labs, rule="argument unchanged")
            ck.guarded("expand%d-%s" % (l, tag), go)

        def reduced():
            I.ov = {}
            c = npm.sym_array(I, "c", (const(2 * l + 1),))
            I.freeze()
            o = ck.run(I, g("expand_tensor"), c, const(l))
            s = npm.snap(I, o.value)
            cs = npm.snap(I, c)
            for idx in itertools.product(range(3), repeat=l):
                nm = "".join("xyz"[k] for k in idx)
                o2 = ck.run(I, g("deriv_to_reduced_idx"), nm)
                if not ck.noraise("reduced-%s" % nm, W + "deriv_to_reduced_idx", o2):
                    continue
                r = pv(I, o2.value)
                if isinstance(r, int):
                    v = cs.fn((const(r),))
                else:
                    v = T.neg(T.add(cs.fn((const(r[0]),)), cs.fn((const(r[1]),))))
                ck.same("reduced-%s" % nm, W + "deriv_to_reduced_idx", v, s.fn(tuple(const(k) for k in idx)), labs=labs,
                        rule="reduced index (or laplace pair) reproduces the expanded entry")
        if l >= 1:
            ck.guarded("reduced%d" % l, reduced)

        def sel():
            # select of an arbitrary full tensor picks the named entries
            I.ov = {}
            c = npm.sym_array(I, "f", (n,) + (const(3),) * l)
            I.freeze()
            o = ck.run(I, g("select_tensor"), c)
            if not ck.noraise("select%d" % l, W + "select_tensor", o):
                return
            s, cs = npm.snap(I, o.value), npm.snap(I, c)
            ck.ob("select%d/shape" % l, W + "select_tensor", "result has 2*order+1 columns")
            if len(s.shape) != 2 or not T.same_dim(s.shape[1], const(2 * l + 1)):
                ck.fail("select%d/shape" % l, W + "select_tensor", "shape %s" % (s.shape,))
                return
            b = T.atom("bi", "i", rng=(0, 0))
            for q, nm in enumerate(names[l]):
                # value on symmetric tensors: any index order of the name
                v = s.fn((b, const(q)))
                opts = [cs.fn((b,) + tuple(const("xyz".index(ch)) for ch in p)) for p in set(itertools.permutations(nm))]
                ok = any(T.vn(v) == T.vn(x) for x in opts)
                ck.ob("select%d-%s" % (l, nm), W + "select_tensor", "selected component is the named entry")
                if not ok:
                    ck.fail("select%d-%s" % (l, nm), W + "select_tensor", "component %d is not the entry %s" % (q, nm))
        ck.guarded("select%d" % l, sel)
    ck.note(I)

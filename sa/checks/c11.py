from ._drive import *

DESC = ("Every evaluating entry point (potentials, searches, modes, trajectories, designs, grouping, tensor conversions, grids, electrode kinds, "
        "transformations) is abstractly interpreted once per argument form with unknown arrays, lists and assemblies; the captured state of every "
        "argument, with all attributes reachable from it, after the call is compared with the one before.")


def fields(a, b):
    """drop attributes that did not exist before"""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "obj":
        fs = {k: fields(v, b[2][k]) if k in b[2] else b[2].get(k) for k, v in a[2].items()}
        return ("obj", b[1], {k: (fields2(a[2][k], v)) for k, v in b[2].items() if k in a[2]}, b[3])
    return b


def fields2(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == "obj":
            return ("obj", b[1], {k: fields2(a[2][k], v) for k, v in b[2].items() if k in a[2]}, b[3])
        if a[0] in ("tuple",) and len(a) == len(b):
            return (b[0],) + tuple(fields2(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == "list" and len(a[1]) == len(b[1]):
            l = []
            for x, y in zip(a[1], b[1]):
                if x[0] == y[0] == "items" and len(x[1]) == len(y[1]):
                    l.append(("items", [fields2(p, q) for p, q in zip(x[1], y[1])]))
                else:
                    l.append(y)
            return ("list", l)
    return b


def check(ck):
    labs = [l for l in ck.labs() if l.mode == "rand"][:2]
    for l in labs:
        l.eps = True
    for env in (system_drivers, kind_drivers, util_drivers):
        def group():
            I, F, ds = env(ck)
            for d in ds:
                ck.guarded(d.key, lambda: one(ck, I, d, labs))
        ck.guarded(env.__name__, group)


def one(ck, I, d, labs):
    I.ov = {}
    args = d.mk("")
    I.freeze()
    before = [ck.cap(I, a) for a in args]
    o = ck.run(I, d.f, *args)
    ck.note(I)
    if o.live is FALSE:
        ck.ob(d.key, d.where, "arguments unchanged")
        ck.unknown(d.key, "raises in every case: %s %s" % (o.excs[-1][1], o.excs[-1][3]))
        return
    after = [ck.cap(I, a) for a in args]
    I.ov = {}
    for i, (a, b, x) in enumerate(zip(before, after, args)):
        if i in d.may or not isinstance(x, (Arr, PList, PDict, PObj)):
            continue
        ck.same("%s/arg%d" % (d.key, i), d.where, fields2(a, b), a, labs=labs, guard=o.live, rule="argument %d is as before the call" % i)

from ._sys import *

DESC = ("System.__getitem__/electrode, names, dcs, rfs and their setters, the constructor and list behaviour are abstractly "
        "interpreted on assemblies of 0..3 electrodes with unknown voltages and concrete (repeated, absent, empty) names, by "
        "positions in and out of range, slices and names, and compared with list semantics and assembly order; after a setter "
        "every attribute of every electrode is compared.")

SRC = '''
import numpy as np
def get(s, k):
    els = list(s)
    if isinstance(k, str):
        for e in els:
            if e.name == k:
                return e
        return None
    return els[k]
def names(s): return [e.name for e in s]
def dcs(s): return np.array([e.dc for e in s])
def rfs(s): return np.array([e.rf for e in s])
def set_names(s, v):
    for i in range(min(len(s), len(v))): list(s)[i].name = v[i]
def set_dcs(s, v):
    for i in range(min(len(s), len(v))): list(s)[i].dc = v[i]
def set_rfs(s, v):
    for i in range(min(len(s), len(v))): list(s)[i].rf = v[i]
def iset_names(s, v): s.names = v
def iset_dcs(s, v): s.dcs = v
def iset_rfs(s, v): s.rfs = v
def iget(s, k): return s[k]
def ielectrode(s, k): return s.electrode(k)
def inames(s): return s.names
def idcs(s): return s.dcs
def irfs(s): return s.rfs
def islice(s, a, b): return list(s[a:b])
def sslice(s, a, b): return list(s)[a:b]
def ilen(s): return len(s), [e for e in s]
def build(System, els): return [e for e in System(els)]
def sbuild(System, els): return [e for e in els]
def change(s, op, x):
    els = list(s)
    if op == 0:
        els[0].name = "zz"
    elif op == 1:
        s.names = ["zz", "b2", "a"][:len(els)]
    elif op == 2:
        s.append(x)
    elif op == 3:
        del s[0]
    elif op == 4:
        s[0] = x
    elif op == 5:
        s.insert(0, x)
    elif op == 6:
        s.reverse()
    elif op == 7:
        s.extend([x])
    elif op == 8:
        s.pop()
    elif op == 9:
        els[0].dc = x.dc
        els[0].rf = x.rf
    elif op == 10:
        s.dcs = [x.dc, x.rf, x.dc][:len(els)]
    elif op == 11:
        s.rfs = [x.dc, x.rf, x.dc][:len(els)]
    elif op == 12:
        els[0].name, els[-1].name = els[-1].name, els[0].name
    elif op == 13:
        s.remove(els[0])
    elif op == 14:
        s[0:1] = [x, els[-1]]
def chist(s, op, x, ks):
    a = [s[k] for k in ks], [s.electrode(k) for k in ks], s.names, s.dcs, s.rfs
    change(s, op, x)
    return a, ([s[k] for k in ks], [s.electrode(k) for k in ks], s.names, s.dcs, s.rfs, len(s))
def schist(s, op, x, ks):
    a = [get(s, k) for k in ks], [get(s, k) for k in ks], names(s), dcs(s), rfs(s)
    change(s, op, x)
    return a, ([get(s, k) for k in ks], [get(s, k) for k in ks], names(s), dcs(s), rfs(s), len(list(s)))
def state(s): return [(e.name, e.dc, e.rf, e.tag) for e in s]
'''


def check(ck):
    E = SysEnv(ck)
    I = E.I
    m = ck.spec(I, SRC, "getspec")
    F = lambda n: I.get(m, n)
    w = "electrode/system.py: System.%s"

    def one(key, where, impl, spec, names, args, identity=False, state=False, rule="behaves as specified"):
        def go():
            I.ov = {}
            s = E.make(len(names), names=names)
            a = [x() if callable(x) else x for x in args]
            I.freeze()
            outs = []
            for f in (F(impl), F(spec)):
                I.ov = {}
                o = ck.run(I, f, s, *a)
                v = ck.cap(I, o.value)
                st = ck.cap(I, ck.run(I, F("state"), s).value) if state else None
                arg = [ck.cap(I, x) for x in a if isinstance(x, (Arr, PList))]
                outs.append((o, ("tuple", v, st, ("tuple",) + tuple(arg))))
                if f is F(impl):
                    ck.note(I)
            I.ov = {}
            ck.agree(key, w % where, outs[0][0], outs[1][0], outs[0][1], outs[1][1], identity=identity, rule=rule)
        ck.guarded(key, go)
    sets = (["a", "b", "c"], ["a", "a", "b"], ["", "b", ""], [], ["x"])
    for q, names in enumerate(sets):
        for k in (0, 1, 2, -1, -2, -3, 3, -4, 7):
            one("getitem/%d/%d" % (q, k), "__getitem__", "iget", "get", names, [const(k)], True)
        for k in ("a", "b", "c", "", "zz"):
            one("getitem/%d/%s" % (q, k or "empty"), "__getitem__", "iget", "get", names, [k], True)
            one("electrode/%d/%s" % (q, k or "empty"), "electrode", "ielectrode", "get", names, [k], True)
        one("electrode/%d" % q, "electrode", "ielectrode", "get", names, [const(0)], True)
        for a, b in ((0, 2), (1, 3), (-2, 9)):
            one("slice/%d/%d-%d" % (q, a, b), "__getitem__", "islice", "sslice", names, [const(a), const(b)], True)
        for p in ("names", "dcs", "rfs"):
            one("%s/%d" % (p, q), p, "i" + p, p, names, [])
        n = len(names)
        for k in sorted({n, max(n - 1, 0), n + 1}):
            for p, mk in (("names", lambda k=k: I.new_list(["n%d" % i for i in range(k)])),
                          ("dcs", lambda k=k: I.new_list([T.atom("v%d" % i) for i in range(k)])),
                          ("rfs", lambda k=k: I.new_list([T.atom("v%d" % i) for i in range(k)])),
                          ("dcs-array", lambda k=k: npm.sym_array(I, "v", (const(k),))),
                          ("rfs-array", lambda k=k: npm.sym_array(I, "v", (const(k),))),
                          ("dcs-tuple", lambda k=k: tuple(T.atom("v%d" % i) for i in range(k)))):
                b = p.split("-")[0]
                one("set-%s/%d/%d" % (p, q, k), b, "iset_" + b, "set_" + b, names, [mk], state=True,
                    rule="assigns position by position and changes nothing else")

    def later(q, op, names):
        key = "later/%d/%d" % (q, op)

        def go():
            I.ov = {}
            s = E.make(len(names), names=names)
            x = I.items_of(E.make(1, names=["zz"], tag="later"))[0]
            ks = I.new_list(["a", "b", "c", "zz", "b2"] + ([const(0), const(-1)] if names else []))
            I.freeze()
            outs = []
            for f in (F("chist"), F("schist")):
                I.ov = {}
                o = ck.run(I, f, s, const(op), x, ks)
                outs.append((o, ck.cap(I, o.value)))
                if f is F("chist"):
                    ck.note(I)
            I.ov = {}
            ck.agree(key, w % "__getitem__", outs[0][0], outs[1][0], outs[0][1], outs[1][1], identity=True,
                     rule="lookups and vectors follow names, voltages and order as they are now, also after earlier lookups")
        ck.guarded(key, go)
    for q, names in enumerate((["a", "b", "c"], ["a", "a", "b"], ["x"])):
        for op in range(15):
            later(q, op, names)

    def ctor(n):
        def go():
            I.ov = {}
            els = I.new_list(I.items_of(E.make(n)))
            I.freeze()
            o1 = ck.run(I, F("build"), E.System, els)
            c1 = ck.cap(I, o1.value)
            ck.note(I)
            o2 = ck.run(I, F("sbuild"), E.System, els)
            ck.agree("ctor/%d" % n, w % "__init__", o1, o2, ("tuple", c1), ("tuple", ck.cap(I, o2.value)), identity=True,
                     rule="the assembly lists the given electrodes in order")
            I.ov = {}
        ck.guarded("ctor/%d" % n, go)
    for n in (0, 1, 3):
        ctor(n)

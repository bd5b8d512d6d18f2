from ._kinds import *

DESC = ("System.group is abstractly interpreted on assemblies of 0..4 polygon electrodes with unknown outlines, voltages and cover "
        "parameters, for 0..3 ascending thresholds and one representative of every order "
        "type of the binning voltages (equality with a threshold included) given as array, list or by default, and thresholds left out or None. Every group's outlines (identity and order), mean voltages and cover "
        "parameters are compared with the half-open bin definition; the assembly must be unchanged.")

SRC = '''
import numpy as np
def build(C, S, paths, dcs, rfs, n, h):
    l = []
    for i in range(len(dcs)):
        l.append(C(paths=paths[2*i:2*i + 1 + i % 2], dc=dcs[i], rf=rfs[i], cover_nmax=n, cover_height=h))
    return S(l)
def impl(s, t, v): return s.group(t, v)
def impl_t(s, t): return s.group(t)
def impl_v(s, v): return s.group(voltages=v)
def impl_0(s): return s.group()
def impl_none(s, v): return s.group(None, v)
def impl_nn(s): return s.group(None)
def count(g): return len(g)
def members(g):
    return [(type(e).__name__, len(e.paths)) for e in g]
def outline(e, k): return e.paths[k]
def volt(e): return e.dc, e.rf
def cover(e): return e.cover_nmax, e.cover_height
'''


def check(ck):
    K = Kinds(ck)
    I = K.I
    I.module("electrode.system")
    S = ck.attr(I, "system", "System")
    m = ck.spec(I, SRC, "c18spec")
    F = lambda n: I.get(m, n)
    w = "electrode/system.py: System.group"
    labs = [l for l in ck.labs() if l.mode == "rand"][:2]
    n, h = const(2), T.atom("h")

    def one(key, ne, how, ts, v, own=None):
        """ts: list of threshold nodes (or None); v: list of voltage nodes (or None)"""
        def go():
            I.ov = {}
            paths = I.new_list([K.arr("p%d" % i, 3, 2) for i in range(2*ne)])
            dcs = own or [T.atom("dc%d" % i) for i in range(ne)]
            rfs = [const(7. - 3*i + .125*i*i) for i in range(ne)] if own else [T.atom("rf%d" % i) for i in range(ne)]
            s = ck.run(I, F("build"), K.cls["poly"], S, paths, I.new_list(dcs), I.new_list(rfs), n, h).value
            np_ = I.externs["numpy"].table
            tl = None if ts is None else I.new_list(ts)
            vl = None if v is None else I.new_list(v)
            if how == "array":
                tl, vl = [I.call(np_["array"], [q, np_["double"]], {}) if q is not None else None for q in (tl, vl)]
            I.freeze()
            before = ck.cap(I, s)
            vb = ck.cap(I, vl) if vl is not None else None
            if how in ("array", "list"):
                o = ck.run(I, F("impl"), s, tl, vl)
            else:
                o = ck.run(I, F(how), *([s] + [q for q in (tl, vl) if q is not None]))
            ck.note(I)
            ck.ob(key, w, "each electrode is in exactly the bin its voltage falls into")
            if o.live is FALSE:
                ck.fail(key, w, "raises in every case: %s at %s" % (o.excs[-1][1], loc_str(o.excs[-1][2])))
                return
            g = I.resolve(o.value)
            cap_ = ck.cap(I, g)
            after = ck.cap(I, s)
            va = ck.cap(I, vl) if vl is not None else None
            pc = [npm.snap(I, q) for q in I.items_of(paths)]
            pc = [[q.fn((const(a), const(b))) for a in range(3) for b in range(2)] for q in pc]
            I.ov = {}
            if ts is None and how in ("impl_none", "impl_nn"):
                tt = None
            else:
                tt = ts if ts is not None else [const(0.)]
            vv = v if v is not None else dcs
            for lab in labs:
                try:
                    vals = [T.cval(q) for q in vv]
                    edges = sorted(set(vals)) if tt is None else [T.cval(q) for q in tt]
                    st = o.state(lab)
                    if st:
                        ck.fail(key, w, "raises %s at %s" % (st[1], loc_str(st[2])))
                        return
                    got = conc(lab, cap_)
                    els = groups(got)
                    pv = [tuple(conc(lab, q) for q in r) for r in pc]
                    dv, rv = [conc(lab, q) for q in dcs], [conc(lab, q) for q in rfs]
                    hv = conc(lab, h)
                except (T.Unbound, T.EvalError) as e:
                    ck.unknown(key, e)
                    return
                ck.n_lab += 1
                if els is None or len(els) != len(edges) + 1:
                    ck.fail(key, w, "%s groups for %d thresholds" % (None if els is None else len(els), len(edges)))
                    return
                lo = [None] + edges
                hi = edges + [None]
                for b, e in enumerate(els):
                    mem = [j for j in range(ne) if (lo[b] is None or lo[b] <= vals[j]) and (hi[b] is None or vals[j] < hi[b])]
                    want = [pv[2*j + q] for j in mem for q in range(1 + j % 2)]
                    have = [tuple(p[2]) for p in e["paths"][1:]]
                    if e["_cls"] != "PolygonPixelElectrode" or have != want:
                        ck.fail(key, w, "group %d of voltages %s and thresholds %s does not consist of the outlines of electrodes %s in order (labelling %s)"
                                % (b, [float(q) for q in vals], [float(q) for q in edges], mem, lab.seed))
                        return
                    if mem:
                        k = pow(len(mem), P_ - 2, P_)
                        if e["dc"] != sum(dv[j] for j in mem) * k % P_ or e["rf"] != sum(rv[j] for j in mem) * k % P_:
                            ck.fail(key, w, "voltages of group %d are not the means over its members %s" % (b, mem))
                            return
                        if e["cover_height"] != hv or e["cover_nmax"] != 2:
                            ck.fail(key + "/cover", w, "group %d does not keep the cover parameters its members share" % b)
                            return
            ck.same(key + "/frame", w, after, before, labs=labs[:4], rule="the assembly is unchanged")
            if vb is not None:
                ck.same(key + "/frame-v", w, va, vb, labs=labs[:4], rule="the given voltages are unchanged")
        ck.guarded(key, go)
    import itertools
    import random
    r = random.Random("C18/%s" % ck.seed)
    scales = [(1., 0.), (1e-7, .5), (1e5, -3e5), (1e12, 0.)]
    jobs = 0
    for ne in (0, 1, 2, 3):
        for nt in (0, 1, 2):
            # every order type of ne voltages relative to nt distinct thresholds
            pos = [-1.] + [q for t in range(nt) for q in (2.*t, 2.*t + 1)]
            combos = list(itertools.product(pos, repeat=ne))
            if len(combos) > 40 and ck.tier == "quick":
                combos = r.sample(combos, 40)
            for i, c in enumerate(combos):
                sc, of = scales[(i + ne) % 4]
                v = [const(q*sc + of) for q in c]
                t = [const(2.*q*sc + of) for q in range(nt)]
                one("given/%d/%d/%d" % (ne, nt, i), ne, ("array", "list")[i % 2], t, v)
    for nm, v in (("tie", (0., 1., -1., 0.)), ("neg", (-2., -1e-9)), ("mixed", (3., -2., 0.)), ("none", ()), ("huge", (-1e300, 1e300))):
        v = [const(q) for q in v]
        one("t/" + nm, len(v), "impl_t", [const(-2.), const(0.), const(1.)], None, v)
        one("v/" + nm, len(v), "impl_v", None, v)
        one("default/" + nm, len(v), "impl_0", None, None, v)
        one("dup/" + nm, len(v), "array", [const(0.), const(0.)], v)
        one("nn/" + nm, len(v), "impl_nn", None, None, v)
    for nm, v in (("asc", (-1., .5, 2.)), ("tie", (1., -1., 1., 0.)), ("one", (0.,)), ("neg", (3., -2.)), ("huge", (-1e300, 1e300))):
        one("none/" + nm, len(v), "impl_none", None, [const(q) for q in v])


P_ = T.P


def groups(c):
    """captured value of the resulting assembly -> list of attribute dicts"""
    if not (isinstance(c, tuple) and c[0] in ("obj", "list")):
        return None
    if c[0] == "obj":
        l = [v for k, v in c[2:] if k == "[]"]
        if not l:
            return None
        c = l[0]
    out = []
    for e in c[1:]:
        if e[0] != "obj":
            return None
        d = dict(e[2:])
        d["_cls"] = e[1]
        out.append(d)
    return out

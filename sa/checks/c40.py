"""Cutting a field into electrodes."""
from ..check import *
from ..values import Builtin
import os, itertools

DESC = ("Polygons.from_data is abstractly interpreted with shapely replaced by a set algebra: every overlay, buffer and polygonization is recorded "
        "as an expression over the square, the given outlines, gap and route neighbourhoods and the cells of the route network; what the parts of a result "
        "look like is unknown. The fragments' expressions are compared with the stated decomposition over all truth assignments of these sets, for "
        "every combination of gaps, routes, bridges, outlines and names, one or several parts being left. That shapely's overlay itself is exact is assumed.")

SRC = '''
import numpy as np
from shapely import geometry
def start(multi):
    geometry._multi[0] = multi
def data(kw): return Polygons.from_data(**kw)
def dflt(kw): return Polygons.from_data(**kw)
def tuples(f): return [(n, p.tree) for n, p in f]
def given(): return list(geometry._given)
def rounded(c, b): return np.around(c, int(-np.log10(b) - 1))
def square(e): return [[e/2, e/2], [-e/2, e/2], [-e/2, -e/2], [e/2, -e/2]]
'''
W = "electrode/polygons.py: Polygons.from_data"


def prep(I):
    I.stubdirs = list(I.stubdirs) + [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs_alg")]
    I.builtins["__ring__"] = Builtin("ring", lambda I, a, k: ring(I, a[0], a[1]))


def tree(I, v):
    v = I.resolve(v)
    if isinstance(v, tuple):
        return tuple(tree(I, q) for q in v)
    if isinstance(v, Node) and T.isconst(v):
        q = T.cval(v)
        return int(q) if q == int(q) else q
    return v


def ring(I, t, j):
    h = T._h("ring", repr(tree(I, t)), int(T.cval(I.resolve(j))))
    return npm.sym_array(I, "ring%d" % h, (const(4), const(2)))


class Mismatch(Exception):
    pass


def check(ck):
    I = ck.interp("electrode.polygons", prep=prep)
    m = ck.spec(I, SRC, "c40spec", Polygons=ck.attr(I, "polygons", "Polygons"))
    F = lambda n: I.get(m, n)
    np_ = I.externs["numpy"].table
    labs = [l for l in ck.labs() if l.mode == "rand"][:2]
    arr = lambda n, *s: npm.sym_array(I, n, tuple(const(q) for q in s))

    def around(I, a, k):
        x = npm.snap(I, I.call(np_["array"], [a[0]], {}))
        d = a[1] if len(a) > 1 else k.get("decimals", const(0))
        d = npm.item(I, d) if isinstance(d, (Arr, Snap)) else I.resolve(d)
        l = [I.new_list([T.call("around", [T.to_real(x.fn((const(i), const(j)))), T.to_real(d)], sort="r") for j in range(2)])
             for i in range(int(T.cval(x.shape[0])))]
        return I.call(np_["array"], [I.new_list(l)], {})
    for n in ("around", "round", "round_"):
        np_[n] = Builtin("np." + n, around)

    def same(lab, x, y):
        """do two captured sequences of points hold the same numbers"""
        try:
            return conc(lab, x) == conc(lab, y)
        except (T.Unbound, T.EvalError):
            raise AnalysisError("coordinates of a shape")

    def points(v):
        v = I.resolve(v)
        if isinstance(v, PObj):
            v = I.resolve(I.getattr_(v, "coords"))
        return ck.cap(I, I.call(np_["array"], [v], {}))

    def cyc(lab, c):
        """corners as a cycle that may start anywhere and go either way round"""
        x = conc(lab, c)
        x = [x[-1][i:i + 2] for i in range(0, len(x[-1]), 2)] if isinstance(x[-1], tuple) and x[0] == "arr" else None
        if x is None:
            raise AnalysisError("coordinates of a shape")
        if len(x) > 1 and x[0] == x[-1]:
            x = x[:-1]
        return min(tuple(s[i:] + s[:i]) for s in (x, x[::-1]) for i in range(len(s)))

    def one(gaps, routes, bridges, npoly, pads, multi, dflt=False):
        key = "gaps%d-routes%d-bridges%d-polys%d-%s-%s%s" % (gaps, routes, bridges, npoly, "named" if pads else "unnamed", "parts" if multi else "whole",
                                                             "-defaults" if dflt else "")

        def go():
            I.ov = {}
            I.stubs.pop("polygons.Polygons.assign_to_pad", None)
            ck.run(I, F("start"), T.TRUE if multi else FALSE)
            ed, bu = (const(40.), const(1e-10)) if dflt else (T.atom("edge"), T.atom("buffer"))
            path = lambda n, k: I.new_list([arr("%s%d" % (n, i), 3, 2) for i in range(k)])
            G, R, B = path("gap", gaps), path("route", routes), path("bridge", bridges)
            outl = [arr("poly%d" % i, 4, 2) for i in range(npoly)]
            PL = I.new_list([("P%d" % i, o) for i, o in enumerate(outl)])
            NM = I.new_list([("N%d" % i, (T.atom("nx%d" % i), T.atom("ny%d" % i))) for i in range(pads)])
            kw = dict(polys=PL, gaps=G, routes=R, bridges=B, names=NM)
            if not dflt:
                kw.update(edge=ed, buffer=bu)
            seen = {}
            nfrag = npoly + ((2 if multi else 1) if gaps or routes else 0)
            perm = list(range(nfrag))[::-1]
            assigned = [((pads - 1 - i) if i < pads else None, j) for i, j in enumerate(perm)]

            def assign(I, a, k):
                seen["self"] = I.items_of(a[0])
                seen["pads"] = I.items_of(a[1] if len(a) > 1 else k["pads"])
                return I.new_list([(None if p is None else const(p), const(j)) for p, j in assigned])
            if pads:
                I.stubs["polygons.Polygons.assign_to_pad"] = assign
            I.freeze()
            ins = [PL, G, R, B, NM]
            before = [ck.cap(I, z) for z in ins]
            o = ck.run(I, F("dflt" if dflt else "data"), I.new_dict(dict((("s", n), (n, v)) for n, v in kw.items())))
            ck.note(I)
            ck.ob(key, W, "the fragments are the stated sets")
            if not ck.noraise(key + "/raise", W, o, labs=labs):
                return
            for nm, z, b in zip(("polys", "gaps", "routes", "bridges", "names"), ins, before):
                ck.same(key + "/frame-" + nm, W, ck.cap(I, z), b, labs=labs, rule="%s unchanged" % nm)
            lab = labs[0]
            got = [(n, tree(I, t)) for n, t in (I.resolve(q) for q in I.items_of(ck.run(I, F("tuples"), o.value).value))]
            given = [I.resolve(q) for q in I.items_of(ck.run(I, F("given")).value)]
            sq = cyc(lab, points(ck.run(I, F("square"), ed).value))

            def lines(k):
                """which of the given path lists a collection of lines is"""
                v = I.resolve(given[k])
                parts = [conc(lab, points(q)) for q in I.items_of(v)]
                for nm, L in (("gaps", G), ("routes", R), ("bridges", B)):
                    ref = [conc(lab, points(q)) for q in I.items_of(L)]
                    if sorted(map(repr, parts)) == sorted(map(repr, ref)):
                        return nm
                raise Mismatch("lines that are none of those given")

            def lset(t):
                if t[0] == "U":
                    return lset(t[1]) | lset(t[2])
                if t[0] == "L":
                    return frozenset([lines(t[1])])
                raise Mismatch("lines of %s" % (t[0],))

            def num(v, w):
                return conc(lab, ck.cap(I, T.to_real(v))) == conc(lab, ck.cap(I, T.to_real(w)))

            atoms = {}

            def norm(t):
                """expression over the named sets"""
                if t[0] in ("-", "|", "&", "^"):
                    return (t[0], norm(t[1]), norm(t[2]))
                if t[0] == "O":
                    return norm(t[1])
                if t[0] == "P":
                    s, h = I.resolve(given[t[1]])
                    if not I.items_of(h) and s is not None and cyc(lab, points(s)) == sq:
                        return ("square",)
                    raise Mismatch("a shape that is not the square of the given edge")
                if t[0] == "given":
                    c = conc(lab, points(given[t[1]]))
                    for i, q in enumerate(outl):
                        if conc(lab, points(q)) == c:
                            return ("poly", i)
                    raise Mismatch("an outline that was not given")
                if t[0] == "B":
                    d = t[2] if isinstance(t[2], Node) else const(float(t[2]))
                    if not num(d, bu):
                        raise Mismatch("a neighbourhood of another width")
                    return ("near", tuple(sorted(lset(t[1]))))
                if t[0] == "cell":
                    return ("cell", tuple(sorted(lset(t[1]))), t[2])
                if t[0] == "none":
                    return ("never",)
                raise Mismatch("%s of a result" % t[0])

            def sets(e, acc):
                if e[0] in ("-", "|", "&", "^"):
                    sets(e[1], acc)
                    sets(e[2], acc)
                else:
                    acc.add(e)
                return acc

            def member(e, w):
                if e[0] in ("-", "|", "&", "^"):
                    a, b = member(e[1], w), member(e[2], w)
                    return {"-": a and not b, "|": a or b, "&": a and b, "^": a != b}[e[0]]
                return False if e[0] == "never" else w[e]

            def equal(e, f):
                s = sorted(sets(e, set()) | sets(f, set()), key=repr)
                s = [q for q in s if q[0] != "never"]
                for bits in itertools.product((False, True), repeat=len(s)):
                    w = dict(zip(s, bits))
                    if bool(member(e, w)) != bool(member(f, w)):
                        return "%s, stated %s, at a point in %s" % (member(e, w) and "inside" or "outside", member(f, w) and "inside" or "outside",
                                                                    [q for q in s if w[q]] or "none of the sets")
                return None
            rest = ("square",)
            if gaps:
                rest = ("-", rest, ("near", ("gaps",)))
            if routes and bridges:
                for k in (0, 1):
                    rest = ("|", rest, ("&", ("cell", ("bridges", "routes"), k), ("square",)))
            for i in range(npoly):
                rest = ("-", rest, ("poly", i))
            if routes:
                rest = ("-", rest, ("near", ("routes",)))
            want = [("P%d" % i, ("&", ("poly", i), ("square",))) for i in range(npoly)]
            idx = list(range(nfrag))
            if pads:
                ck.ob(key + "/pads", W, "the names' positions select the fragments")
                if "pads" not in seen or len(seen["pads"]) != pads or any(
                        conc(lab, points(p)) != conc(lab, points((T.atom("nx%d" % i), T.atom("ny%d" % i)))) for i, p in enumerate(seen["pads"])):
                    ck.fail(key + "/pads", W, "fragments are not assigned by the given positions in order")
                    return
                idx = perm
            if len(got) != len(idx):
                ck.fail(key, W, "%d fragments, stated %d" % (len(got), len(idx)))
                return
            try:
                rests = []
                for pos, j in enumerate(idx):
                    nm, t = got[pos]
                    wn = "P%d" % j if j < npoly else ""
                    if pads and assigned[pos][0] is not None:
                        wn = "N%d" % assigned[pos][0]
                    if I.pyval(nm) != wn:
                        ck.fail(key + "/name%d" % j, W, "fragment %d is named %r, stated %r" % (pos, I.pyval(nm), wn))
                    if j < npoly:
                        d = equal(norm(t), want[j][1])
                        if d:
                            ck.fail(key + "/poly%d" % j, W, "the fragment of outline %d is %s" % (j, d))
                        continue
                    if t[0] != "P":
                        raise AnalysisError("a part of the rest that is not rebuilt from rounded coordinates")
                    rests.append((j - npoly, given[t[1]]))
                pieces = set()
                for k, (s, h) in rests:
                    hit = None
                    for src in candidates(rest_trees(multi)):
                        outs = [ck.run(I, F("rounded"), ring(I, src, const(w)), bu).value for w in range(3)]
                        if conc(lab, points(s)) == conc(lab, points(outs[0])):
                            hs = [conc(lab, points(q)) for q in I.items_of(h)]
                            if sorted(map(repr, hs)) != sorted(repr(conc(lab, points(q))) for q in outs[1:]):
                                ck.fail(key + "/holes", W, "a remaining fragment does not keep the holes of its part")
                            hit = src
                    if hit is None:
                        raise Mismatch("a remaining fragment that is no part of the rest rounded to ten buffers")
                    pieces.add(hit)
                if rests:
                    base = {t[1] if multi else t for t in pieces}
                    if len(pieces) != len(rests) or len(base) != 1:
                        raise Mismatch("remaining fragments that are not the parts of one rest, each once")
                    d = equal(norm(base.pop()), rest)
                    if d:
                        ck.fail(key + "/rest", W, "what remains is %s" % d)
            except Mismatch as e:
                ck.fail(key, W, "fragments contain %s" % e)
        rec = []

        def rest_trees(multi):
            return [t for t in rec]

        def candidates(ts):
            return ts
        old = I.builtins["__ring__"]

        def ringrec(I, a, k):
            t = tree(I, a[0])
            if t not in rec:
                rec.append(t)
            return ring(I, a[0], a[1])
        I.builtins["__ring__"] = Builtin("ring", ringrec)
        try:
            ck.guarded(key, go)
        finally:
            I.builtins["__ring__"] = old
    for multi in (True, False):
        for gaps, routes, bridges in itertools.product((0, 2), (0, 1), (0, 2)):
            for npoly in (0, 1, 2) if ck.tier == "quick" else (0, 1, 2, 3):
                one(gaps, routes, bridges, npoly, 0, multi)
    one(1, 1, 1, 2, 2, True)
    one(1, 0, 0, 1, 1, True)
    one(0, 0, 0, 2, 1, True)
    one(1, 1, 1, 1, 1, False)
    one(1, 1, 1, 1, 0, True, True)

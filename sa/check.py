"""Obligations: run repository entry points and reference snippets in the
abstract interpreter and compare outcomes value number by value number."""
from __future__ import annotations
import os
import sys
import json
import time
import traceback
from . import terms as T
from .terms import Node, const, lift, TRUE, FALSE
from .values import *
from .values import UNBOUND, POISON, NOTIMPL
from . import npm
from .interp import Interp, MISS, parse
import ast

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Out(object):
    """outcome of one analysed call: guarded exceptions, value, store"""

    def __init__(self, I, value, live, excs, ov):
        self.I, self.value, self.live, self.excs, self.ov = I, value, live, excs, ov

    def state(self, lab):
        for g, name, loc, msg in self.excs:
            if lab(g):
                return ("raise", name, loc, msg)
        return None


def cap(I, v, depth=12, seen=None):
    """immutable image of a value in the current store"""
    if depth < 0:
        return ("deep",)
    v = I.resolve(v) if isinstance(v, Choice) else v
    if isinstance(v, Choice):
        return ("?", v.c, cap(I, v.a, depth, seen), cap(I, v.b, depth, seen))
    if isinstance(v, Node) or v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (Arr, Snap)):
        s = npm.snap(I, v)
        return ("arr", s)
    if isinstance(v, Slice):
        return ("tuple", "slice") + tuple(cap(I, x, depth - 1, seen) for x in (v.lo, v.hi, v.step))
    if isinstance(v, tuple):
        return ("tuple",) + tuple(cap(I, x, depth - 1, seen) for x in v)
    if isinstance(v, PIter):
        return ("list", [cap_seg(I, s, depth, seen) for s in I.segs_of(v)])
    if isinstance(v, PSet):
        return ("set", [cap_seg(I, s, depth, seen) for s in I.segs_of(v)])
    if isinstance(v, (PList, Range)):
        segs = I.segs_of(v)
        return ("list", [cap_seg(I, s, depth, seen) for s in segs])
    if isinstance(v, PDict):
        d = I.get(v, "v")
        return ("dict", [(cap(I, k, depth - 1, seen), cap(I, x, depth - 1, seen)) for k, x in d.values()])
    if isinstance(v, PObj):
        seen = seen or ()
        if v in seen:
            return ("cycle", seen.index(v))
        seen = seen + (v,)
        fs = {}
        for (o, f) in list(I.base) + list(I.ov):
            if o is v and f not in fs:
                x = I.get(v, f)
                if x is MISS:
                    continue
                if f == "v" and I.is_list(v):
                    fs["[]"] = ("list", [cap_seg(I, s, depth, seen) for s in I.get(v, "v")])
                else:
                    fs[f] = cap(I, x, depth - 1, seen)
        return ("obj", v.cls.name, fs, v)
    if hasattr(v, "as_o"):
        return v.as_o(I)
    return ("ref", v)


class PIterT(object):
    pass


from .interp import PIter  # noqa


def cap_seg(I, s, depth, seen):
    if T.isconst(s.len):
        return ("items", [cap(I, s.elem(const(k)), depth - 1, seen) for k in range(int(T.cval(s.len)))])
    return ("seg", s.len, lambda k: cap(I, s.elem(k), depth - 1, seen))


def num(v):
    if isinstance(v, T.Special):
        return v.name
    if isinstance(v, bool):
        return int(v)
    return v


def conc(lab, c, identity=False):
    """python value of a captured image under one labelling"""
    if isinstance(c, Node):
        v = lab(c)
        if c.sort == "o":
            return v
        if c.sort == "b":
            return bool(v)
        if isinstance(v, T.Special):
            return v.name
        return T.fnum(v)
    if c is None or isinstance(c, (str, bytes)):
        return ("lit", c) if not isinstance(c, str) else ("o", T._h("const", repr(c)))
    if isinstance(c, list):
        return [conc(lab, x, identity) for x in c]
    t = c[0]
    if t == "?":
        return conc(lab, c[2] if lab(c[1]) else c[3], identity)
    if t == "arr":
        s = c[1]
        sh = tuple(int(lab(lift(d))) for d in s.shape)
        vals = []
        import itertools
        n = 1
        for d in sh:
            n *= max(d, 0)
        if n > 4000:
            raise T.EvalError("array too large")
        for idx in itertools.product(*[range(d) for d in sh]):
            vals.append(conc(lab, s.fn(tuple(const(i) for i in idx))))
        if not sh:
            return vals[0]
        return ("arr", sh, tuple(vals))
    if t == "tuple":
        return ("tuple",) + tuple(conc(lab, x, identity) for x in c[1:])
    if t in ("list", "set"):
        out = []
        for s in c[1]:
            if s[0] == "items":
                out += [conc(lab, x, identity) for x in s[1]]
            else:
                out += [conc(lab, s[2](const(k)), identity) for k in range(int(lab(s[1])))]
        if t == "set":
            out = sorted(out, key=repr)
        return (t,) + tuple(out)
    if t == "dict":
        return ("dict",) + tuple(sorted(((conc(lab, k), conc(lab, v, identity)) for k, v in c[1]), key=repr))
    if t == "obj":
        if identity:
            return ("ref", id(c[3]))
        return ("obj", c[1]) + tuple(sorted((k, conc(lab, v)) for k, v in c[2].items() if not k.startswith("_sa_")))
    if t == "ref":
        return ("ref", id(c[1]))
    return c


def first_diff(x, y, path=""):
    """(path, x part, y part) of the first difference"""
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        if x and y and x[0] == "arr" and y[0] == "arr":
            if x[1] != y[1]:
                return path + ".shape", x[1], y[1]
            for n, (a, b) in enumerate(zip(x[2], y[2])):
                if a != b:
                    idx = []
                    for d in reversed(x[1]):
                        idx.append(n % d)
                        n //= d
                    return path + str(list(reversed(idx))), a, b
        if len(x) == len(y):
            for n, (a, b) in enumerate(zip(x, y)):
                if a != b:
                    return first_diff(a, b, path + "/%d" % n)
    return path, x, y


def differ(x, y):
    p, a, b = first_diff(x, y)
    return "at %s: implementation %s, specified %s" % (p, show_val(a), show_val(b))


def show_val(v, n=90):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


class Ck(object):
    def __init__(self, pid, tier="quick", seed=1, repo=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = repo or REPO
        self.violations = []
        self.undecided = []
        self.obligations = []
        self.visited = set()
        self.callsites = set()
        self.stats = {}
        self.rules = []
        self.t0 = time.time()
        self.n_lab = 0
        self.notes = []
        from .history import History
        self.hist = History(self)

    # ---- engine set-up

    def interp(self, *mods, noimport=(), prep=None):
        I = Interp(self.repo)
        I.noimport |= set(noimport)
        I.stubs["transformations._import_module"] = lambda I, a, k: None
        if prep:
            prep(I)
        for m in mods:
            I.module(m)
        I.freeze()
        self.cur = I
        self.hist.start(I)
        return I

    def mod(self, I, name):
        return I.module("electrode." + name)

    def attr(self, I, mod, name):
        v = I.getattr_(self.mod(I, mod), name)
        return v

    def spec(self, I, src, name="spec", **inject):
        m = Module(name, "<spec>")
        m.loaded = True
        from .values import Frame
        m.frame = Frame(None, m)
        I.set(m, "__name__", name)
        for k, v in inject.items():
            I.set(m, k, v)
        from .interp import Act
        I.acts.append(Act(m.frame))
        loc = I.loc
        try:
            import textwrap
            I.exec_block(parse(textwrap.dedent(src), "<spec>").body)
        finally:
            I.acts.pop()
            I.loc = loc
        I.freeze()
        I.modules[name] = m
        return m

    def run(self, I, f, *args, **kwargs):
        """analyse a call from the current store"""
        ov0 = I.ov
        I.ov = dict(I.ov)
        I.raises.append([])
        I.live, I.facts = TRUE, frozenset()
        acts = I.acts
        dead = False
        v = None
        try:
            v = I.call(f, list(args), kwargs) if not callable(f) or hasattr(f, "call") else f()
        except Dead:
            dead = True
        finally:
            ex = I.raises.pop()
            live = FALSE if dead else I.live
            I.live, I.facts = TRUE, frozenset()
        excs = []
        for e in ex:
            nm = e.exc.cls.name if isinstance(e.exc, PObj) else str(e.exc)
            msg = None
            if isinstance(e.exc, PObj):
                a = I.get(e.exc, "args")
                msg = a[0] if isinstance(a, tuple) and a and isinstance(a[0], str) else None
            excs.append((e.guard, nm, e.loc, msg))
        if dead:
            I.ov = ov0
        o = Out(I, v, live, excs, I.ov)
        if not callable(f) or hasattr(f, "call"):
            self.hist.record(I, f, args, kwargs, ov0, o)
        return o

    def labs(self, sizes=(1, 3), **kw):
        k = 3 if self.tier == "quick" else 10
        ls = []
        for i in range(k):
            ls.append(T.Labelling("%s/%s/r%d" % (self.pid, self.seed, i), "rand", sizes, **kw))
        for i in range(2 * k):
            ls.append(T.Labelling("%s/%s/s%d" % (self.pid, self.seed, i), "small", sizes, **kw))
        return ls

    def under(self, cond, labs):
        """the labellings at which the condition holds; more are drawn when
        it holds at none of the given ones"""
        if cond is None or cond is TRUE:
            return list(labs)
        out, seed0 = [], (labs[0].seed if labs else self.pid)
        for l in labs:
            if l(cond):
                out.append(l)
        fixed = labs[0].fixed if labs else {}
        over = labs[0].overrides if labs else {}
        sizes = labs[0].sizes if labs else (1, 3)
        for i in range(400):
            if out:
                break
            l = T.Labelling("%s/x%d" % (seed0, i), "small" if i % 4 == 3 else "rand", sizes, fixed=fixed, overrides=over)
            l.pins = list(labs[0].pins) if labs else []
            l.eps = bool(labs) and labs[0].eps
            if l(cond):
                out.append(l)
        return out

    # ---- obligations

    def ob(self, key, where, rule):
        self.obligations.append({"key": key, "where": where, "rule": rule})

    def fail(self, key, where, text):
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "where": where, "what": text})

    def unknown(self, key, why):
        self.undecided.append({"key": key, "why": str(why)[:300]})

    def same(self, key, where, a, b, labs=None, guard=None, I=None, identity=False, rule="value numbers agree"):
        """captured images a (implementation) and b (reference) agree at
        every labelling at which guard holds"""
        self.ob(key, where, rule)
        try:
            labs = self.under(guard, labs or self.labs())
        except (T.Unbound, T.EvalError) as e:
            self.unknown(key, e)
            return None
        if not labs:
            self.unknown(key, "the condition of the comparison held at no labelling tried")
            return None
        for lab in labs:
            try:
                self.n_lab += 1
                x, y = conc(lab, a, identity), conc(lab, b, identity)
            except (T.Unbound, T.EvalError) as e:
                self.unknown(key, e)
                return None
            if x != y:
                self.fail(key, where, "%s: %s (labelling %s)" % (
                    rule, differ(x, y), lab.seed))
                return False
        return True

    def agree(self, key, where, oi, os_, vi, vs, labs=None, pre=None, rule="outcome equals specification", exc_types=True,
              identity=False, any_exc=False):
        """outcomes agree: same exception type or same captured values"""
        self.ob(key, where, rule)
        try:
            labs = self.under(pre, labs or self.labs())
        except (T.Unbound, T.EvalError) as e:
            self.unknown(key, e)
            return None
        if not labs:
            self.unknown(key, "the condition of the comparison held at no labelling tried")
            return None
        for lab in labs:
            try:
                self.n_lab += 1
                si, ss = oi.state(lab), os_.state(lab)
                if si or ss:
                    if not (si and ss) or (exc_types and not any_exc and si[1] != ss[1]):
                        self.fail(key, where, "%s: implementation %s, specified %s (labelling %s)" % (
                            rule, "raises %s at %s" % (si[1], loc_str(si[2])) if si else "returns", "raises " + ss[1] if ss else "returns a value", lab.seed))
                        return False
                    continue
                x, y = conc(lab, vi, identity), conc(lab, vs, identity)
            except (T.Unbound, T.EvalError) as e:
                self.unknown(key, e)
                return None
            if x != y:
                self.fail(key, where, "%s: %s (labelling %s)" % (
                    rule, differ(x, y), lab.seed))
                return False
        return True

    def noraise(self, key, where, o, pre=None, labs=None, allow=()):
        self.ob(key, where, "no exception is reachable")
        try:
            labs = self.under(pre, labs or self.labs())
        except (T.Unbound, T.EvalError) as e:
            self.unknown(key, e)
            return None
        if not labs:
            self.unknown(key, "the condition held at no labelling tried")
        for lab in labs:
            try:
                self.n_lab += 1
                s = o.state(lab)
            except (T.Unbound, T.EvalError) as e:
                self.unknown(key, e)
                return None
            if s and s[1] not in allow:
                self.fail(key, where, "%s (%s) reachable at %s" % (s[1], s[3], loc_str(s[2])))
                return False
        return True

    def raises(self, key, where, o, types, pre=None, labs=None):
        self.ob(key, where, "raises %s" % "/".join(types))
        try:
            labs = self.under(pre, labs or self.labs())
        except (T.Unbound, T.EvalError) as e:
            self.unknown(key, e)
            return None
        if not labs:
            self.unknown(key, "the condition held at no labelling tried")
        for lab in labs:
            try:
                self.n_lab += 1
                s = o.state(lab)
            except (T.Unbound, T.EvalError) as e:
                self.unknown(key, e)
                return None
            if not s or s[1] not in types:
                self.fail(key, where, "expected %s, got %s" % ("/".join(types), s[1] + " at " + loc_str(s[2]) if s else "a result"))
                return False
        return True

    def cap(self, I, v):
        return cap(I, v)

    def vs(self, key, where, I, impl, spec, args=(), kwargs=None, watch=(), pre=None, labs=None, mk=None, rule=None, any_exc=False,
           post=None, spost=None, frame=True):
        """run implementation and reference from the same store; compare
        result, exceptions and the watched objects; other argument arrays
        must be unchanged unless watched.  post(I, value) -> value to compare"""
        kwargs = kwargs or {}
        try:
            I.ov = {}
            before = [cap(I, x) for x in list(args) + [kwargs[k] for k in sorted(kwargs)]]
            oi = self.run(I, impl, *args, **kwargs)
            if post is not None and oi.live is not FALSE:
                vv = post(I, oi.value)
            else:
                vv = oi.value
            ci = ("tuple", cap(I, vv)) + tuple(cap(I, w) for w in watch)
            after = [cap(I, x) for x in list(args) + [kwargs[k] for k in sorted(kwargs)]]
            self.note(I)
            I.ov = {}
            vis, cs = set(I.visited), set(I.callsites)
            os_ = self.run(I, spec, *args, **kwargs)
            I.visited, I.callsites = vis, cs
            sv = os_.value
            if spost is not None and os_.live is not FALSE:
                sv = spost(I, sv)
            cs_ = ("tuple", cap(I, sv)) + tuple(cap(I, w) for w in watch)
            I.ov = {}
        except AnalysisError as e:
            I.ov = {}
            I.acts[:] = []
            self.ob(key, where, rule or "equals reference")
            self.unknown(key, e)
            return None
        r = self.agree(key, where, oi, os_, ci, cs_, labs=labs, pre=pre, rule=rule or "result equals the reference", any_exc=any_exc)
        if frame and r:
            wset = [id(w) for w in watch]
            for n, (x, b, a) in enumerate(zip(list(args) + [kwargs[k] for k in sorted(kwargs)], before, after)):
                if id(x) in wset or not isinstance(x, (Arr, PList, PDict)):
                    continue
                g = oi.live if pre is None else T.and_(oi.live, pre)
                self.same(key + "/frame%d" % n, where, a, b, labs=labs, guard=g, rule="argument %d unchanged" % n)
        return r

    def note(self, I):
        self.visited |= I.visited
        self.callsites |= I.callsites
        for k, v in I.stats.items():
            self.stats[k] = max(self.stats.get(k, 0), v)

    def guarded(self, key, f):
        """run a check step; analysis failures leave the obligation open"""
        try:
            return f()
        except AnalysisError as e:
            self.ob(key, "", "analysable")
            self.unknown(key, "%s" % e)
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
        except (T.Unbound, T.EvalError) as e:
            self.unknown(key, "%s: %s" % (type(e).__name__, e))
        except RecursionError as e:
            self.unknown(key, "recursion")
        except Exception as e:
            if os.environ.get("SA_TRACE"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unknown(key, "internal %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None


def loc_str(loc):
    if not loc:
        return "?"
    f, l, fn = loc
    if f.startswith(REPO + "/"):
        f = f[len(REPO) + 1:]
    return "%s:%s in %s" % (f, l, fn)


def pv(I, v):
    """fully concrete python value"""
    v = I.resolve(v)
    if isinstance(v, tuple):
        return tuple(pv(I, x) for x in v)
    if isinstance(v, (PList,)) or I.is_list(v):
        return [pv(I, x) for x in I.items_of(v)]
    if isinstance(v, (Arr, Snap)):
        if not v.shape:
            return pv(I, npm.item(I, v))
        return [pv(I, x) for x in I.items_of(v)]
    r = I.pyval(v)
    if r is MISS:
        raise AnalysisError("not concrete: %r" % (v,))
    return r

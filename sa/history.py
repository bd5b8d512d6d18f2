"""What one analysed call leaves behind for the next.

Every call a check analyses is remembered.  When one of them writes to an
object that outlives it - reachable from the modules of the library: a module
variable, a default argument, a class, a closure - the remembered calls of the
same function are analysed once more, after it and from a fresh store.  A result
that depends on the earlier call, or an earlier result that a later call changes,
violates the property the check decides."""
import time

from . import npm
from . import terms as T
from .values import *


def index(I, ov=()):
    ix = {}
    for (o, k), v in I.base.items():
        ix.setdefault(id(o), []).append((k, v))
    for (o, k) in ov:
        ix.setdefault(id(o), []).append((k, ov[(o, k)]))
    return ix


def reach(I, ov=(), roots=None):
    """ids of the objects reachable from the library's modules"""
    ix = index(I, ov)
    seen, keep = set(), []
    todo = list(roots) if roots is not None else [m for n, m in I.modules.items() if isinstance(m, Module) and m.name.startswith("electrode")]
    todo += [m.frame for m in todo if isinstance(m, Module) and getattr(m, "frame", None) is not None]
    while todo:
        v = todo.pop()
        if isinstance(v, Choice):
            todo += [v.a, v.b]
            continue
        if isinstance(v, (tuple, list)):
            todo.extend(v)
            continue
        if isinstance(v, dict):
            todo.extend(v.values())
            continue
        if v is None or isinstance(v, (Node, str, bytes, bool, int, float)) or id(v) in seen:
            continue
        if isinstance(v, Module) and not v.name.startswith("electrode"):
            continue
        seen.add(id(v))
        keep.append(v)
        if isinstance(v, Arr):
            todo.append(v.buf)
        elif isinstance(v, Func):
            todo += list(v.defaults) + list(v.kwdefaults) + list(v.attrs.values()) + [v.frame]
        elif isinstance(v, Frame):
            todo.append(v.parent)
            if v.module is not None and v.module.name.startswith("electrode"):
                todo.append(v.module)
        elif isinstance(v, Cls):
            todo += list(v.ns.values())
        elif isinstance(v, PObj):
            todo.append(v.cls)
        elif isinstance(v, Bound):
            todo += [v.func, v.self]
        elif isinstance(v, Prop):
            todo += [v.get, v.set]
        elif isinstance(v, (ClassMethod, StaticMethod)):
            todo.append(v.func)
        elif isinstance(v, Seg):
            if T.isconst(v.len) and T.cval(v.len) < 1000:
                for k in range(int(T.cval(v.len))):
                    try:
                        todo.append(v.elem(const(k)))
                    except Exception:
                        pass
        for k, x in ix.get(id(v), ()):
            todo.append(x)
    return seen, keep


class History(object):
    def __init__(self, ck):
        self.ck, self.envs = ck, {}

    def start(self, I):
        ids, keep = reach(I)
        I.hist = {"ids": ids, "keep": keep, "g0": {k: v for k, v in I.base.items() if id(k[0]) in ids}, "runs": [], "hot": []}
        self.envs[id(I)] = I

    def record(self, I, f, args, kwargs, ov0, o):
        h = getattr(I, "hist", None)
        if h is None or len(h["runs"]) > 4000:
            return
        n = len(h["runs"])
        h["runs"].append((f, args, kwargs, ov0))
        ids = h["ids"]
        for k, v in o.ov.items():
            if id(k[0]) in ids and ov0.get(k) is not v and not isinstance(v, Module):
                if same(v, ov0.get(k, I.base.get(k))):
                    continue
                h["hot"].append(n)
                break

    def finish(self):
        for I in self.envs.values():
            h = I.hist
            if not h["hot"]:
                continue
            I.hist = None
            self.ck.guarded("history", lambda: self.replay(I, h))

    def replay(self, I, h):
        ck = self.ck
        t0 = time.time()
        for k in [k for k in I.base if id(k[0]) in h["ids"]]:
            if k not in h["g0"]:
                del I.base[k]
        I.base.update(h["g0"])
        runs = h["runs"]
        groups = {}
        for n in h["hot"]:
            groups.setdefault(id(fkey(runs[n][0])), []).append(n)
        labs = [l for l in ck.labs() if l.mode == "rand"][:2]
        ck.notes.append("calls that leave something behind: %d" % len(h["hot"]))
        done = 0
        for g, hot in groups.items():
            mine = [n for n in range(len(runs)) if id(fkey(runs[n][0])) == g]
            step = max(1, len(hot)//8)
            for p in hot[::step][:10]:
                i = mine.index(p)
                cand = []
                for d in (1, -1, 2, -2, 3, -3, 0, 5, -5, 8, -8, 13, -13, 21, -21):
                    if 0 <= i + d < len(mine) and mine[i + d] not in cand:
                        cand.append(mine[i + d])
                for b in cand[:10]:
                    if time.time() - t0 > 120:
                        return
                    done += 1
                    if not self.pair(I, h, p, b, labs, "history/%d-%d" % (p, b)):
                        return

    def once(self, I, run, ov):
        f, args, kwargs, _ = run
        I.ov = dict(ov)
        return self.ck.run(I, f, *args, **kwargs)

    def pair(self, I, h, p, b, labs, key):
        ck = self.ck
        rp, rb = h["runs"][p], h["runs"][b]
        rule = "a call's outcome does not depend on the calls before it"
        try:
            o1 = self.once(I, rb, rb[3])
            c1 = ck.cap(I, o1.value)
            o2 = self.once(I, rb, rb[3])
            c2 = ck.cap(I, o2.value)
            op = self.once(I, rp, rp[3])
            cp = ck.cap(I, op.value)
            ids, _ = reach(I, op.ov)
            held = [v for v in arrays(I, op.value) if id(v) in ids or id(v.buf) in ids]
            held0 = [ck.cap(I, v) for v in held]
            known = set(id(k[0]) for k in I.base)
            ov = dict(rb[3])
            for k, v in op.ov.items():
                if id(k[0]) in h["ids"] or (id(k[0]) not in known and k not in rp[3]):
                    ov[k] = v
            idents = I.__dict__.setdefault("idents", {})
            kept = dict(idents)
            for x, y in zip(rp[1], rb[1]):       # an object that is gone may leave its id to the next
                if x is not y and id(x) in idents and id(x) not in ids and isinstance(y, type(x)):
                    idents[id(y)] = (idents[id(x)][0], y)
            try:
                o3 = self.once(I, rb, ov)
            finally:
                idents.clear()
                idents.update(kept)
            c3 = ck.cap(I, o3.value)
            held1 = [ck.cap(I, v) for v in held]
        finally:
            I.ov = {}
        for lab in labs:
            try:
                s1, s2, s3 = o1.state(lab), o2.state(lab), o3.state(lab)
                if (s1 or (None,) * 2)[:2] != (s2 or (None,) * 2)[:2]:
                    return True
                if not s1 and ck_conc(lab, c1) != ck_conc(lab, c2):
                    return True         # answers of opaque solvers differ from call to call
                if s1 and not s3 or s3 and not s1 or (s1 and s1[1] != s3[1]):
                    ck.ob(key, where(rb[0]), rule)
                    ck.fail(key, where(rb[0]), "%s: after another call it %s, from a fresh state it %s" % (
                        rule, "raises " + s3[1] if s3 else "returns", "raises " + s1[1] if s1 else "returns"))
                    return False
                if not s1 and ck_conc(lab, c1) != ck_conc(lab, c3):
                    ck.ob(key, where(rb[0]), rule)
                    from .check import differ
                    ck.fail(key, where(rb[0]), "%s: %s" % (rule, differ(ck_conc(lab, c3), ck_conc(lab, c1))))
                    return False
                if not s1 and not op.state(lab):
                    for x, y in zip(held0, held1):
                        if ck_conc(lab, x) != ck_conc(lab, y):
                            ck.ob(key, where(rb[0]), rule)
                            ck.fail(key, where(rb[0]), "an array returned by an earlier call is changed by a later one")
                            return False
            except (T.Unbound, T.EvalError):
                return True
        ck.ob(key, where(rb[0]), rule)
        return True


def ck_conc(lab, c):
    from .check import conc
    return conc(lab, c)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (str, bytes)) or isinstance(a, tuple) and not a:
        return a == b
    return False


def fkey(f):
    return f.func if isinstance(f, Bound) else f


def where(f):
    f = fkey(f)
    m = getattr(f, "module", None)
    return "%s: %s" % (getattr(m, "path", None) or getattr(m, "name", "?"), getattr(f, "name", "?"))


def arrays(I, v, d=4):
    v = I.resolve(v)
    if d < 0 or v is None:
        return []
    if isinstance(v, Choice):
        return arrays(I, v.a, d) + arrays(I, v.b, d)
    if isinstance(v, Arr):
        return [v]
    if isinstance(v, tuple):
        return [z for x in v for z in arrays(I, x, d - 1)]
    if isinstance(v, PList):
        r = []
        try:
            for x in I.items_of(v)[:50]:
                r += arrays(I, x, d - 1)
        except Exception:
            pass
        return r
    return []

"""Abstract interpreter: turns Python source into a gated value graph.

Statements are interpreted once per joined path: both arms of a branch are
analysed and their stores joined with gamma nodes, early exits are kept as
guarded stores and joined at the function's end, loops over symbolic sequences
are summarised by their one-iteration transfer function (fixpoint over the set
of modified cells).  Nothing of the repository is executed.
"""
from __future__ import annotations
import ast
import builtins
import collections
import functools
import os
import sys
import re
import operator
from . import terms as T
from .terms import Node, const, lift, TRUE, FALSE
from .values import *
from .values import UNBOUND, POISON, NOTIMPL, nonneg

MISS = object()
MAXDEPTH = 90


PCT = re.compile(r"%(\([^)]*\))?([-#0 +]*)(\*|\d+)?(\.(?:\*|\d*))?([hlL]?)([diouxXeEfFgGcrsa%])")
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


def parse(src, path):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ast.parse(src, path)


class Act(object):
    """activation of a function"""

    def __init__(self, frame):
        self.frame = frame
        self.rets = []
        self.loops = []
        self.yield_cb = None
        self.exc = []


class Cycle(object):
    def __init__(self, segs):
        self.segs = segs


class Count(object):
    def __init__(self, lo, step):
        self.lo, self.step = lo, step


class PDefault(PDict):
    """collections.defaultdict"""


class PIter(PList):
    kind = "iterator"


class ExcInfo(object):
    __slots__ = ("guard", "exc", "ov", "loc")

    def __init__(self, guard, exc, ov, loc):
        self.guard, self.exc, self.ov, self.loc = guard, exc, ov, loc


HARMLESS = dict(pinv=("rcond",), lstsq=("rcond",), sort=("kind",), argsort=("kind",), array=("copy", "subok"), asarray=("copy",))


class Args(list):
    """positional arguments of a native call, with the number of those looked at"""
    seen = 0

    def __getitem__(self, i):
        n = len(self)
        if isinstance(i, slice):
            self.seen = max(self.seen, max(list(range(*i.indices(n))), default=-1) + 1)
        else:
            self.seen = max(self.seen, (i + n if i < 0 else i) + 1)
        return list.__getitem__(self, i)

    def _all(self):
        self.seen = max(self.seen, len(self))
        return self

    def __iter__(self):
        return list.__iter__(self._all())

    def __add__(self, o):
        return list(self._all()) + list(o)

    def __radd__(self, o):
        return list(o) + list(self._all())


class Kwargs(dict):
    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def _all(self):
        self.seen.update(dict.keys(self))
        return self

    def __contains__(self, x):
        if dict.__contains__(self, x):
            self.seen.add(x)
            return True
        return False

    def get(self, x, d=None):
        return dict.get(self, x, d) if x in self else d

    def __getitem__(self, x):
        self.seen.add(x)
        return dict.__getitem__(self, x)

    def pop(self, x, *d):
        self.seen.discard(x)
        return dict.pop(self, x, *d)

    def __iter__(self):
        return dict.__iter__(self._all())

    def keys(self):
        return dict.keys(self._all())

    def values(self):
        return dict.values(self._all())

    def items(self):
        return dict.items(self._all())


class Everything(object):
    def __contains__(self, name):
        return True


def real_names(o):
    """names that the object this value stands for has in reality (a superset)"""
    T_ = lambda *a: set().union(*(dir(x) for x in a))
    out = T_(object)
    if isinstance(o, (PObj, Cls)):
        c = o.cls if isinstance(o, PObj) else o
        if isinstance(o, Cls):
            out |= T_(type)
        for x in c.mro:
            r = getattr(builtins, x.name, None)
            if isinstance(r, type) and x.module is None:
                out |= T_(r)
        if isinstance(o, PObj) and not isinstance(o, PList) or isinstance(o, Cls):
            return out
    if isinstance(o, PList):
        return out | T_(list, set, frozenset, iter([]), map, (x for x in ()), collections.deque, type({}.items()), memoryview)
    if isinstance(o, (PDict, Vars)):
        return out | T_(dict, collections.OrderedDict, collections.defaultdict, collections.Counter)
    if isinstance(o, NS):
        if o.name in sys.stdlib_module_names:
            try:
                return set(dir(__import__(o.name)))
            except ImportError:
                pass
        return Everything()
    if isinstance(o, str):
        return out | T_(str)
    if isinstance(o, bytes):
        return out | T_(bytes)
    if isinstance(o, tuple):
        return out | T_(tuple) | {"_fields", "_asdict", "_replace", "count", "index"}
    if isinstance(o, (Arr, Snap)):
        return out | ARRAY_NAMES
    if isinstance(o, Node):
        if o.sort == "o":
            return Everything()
        return out | T_(float, int, complex, bool) | (ARRAY_NAMES - {"__len__", "__iter__", "__getitem__", "__setitem__", "__contains__"})
    if isinstance(o, Func):
        return out | T_(lambda: 0)
    if isinstance(o, Bound):
        return out | T_(lambda: 0, "".join, Everything.__contains__, Everything().__contains__)
    if isinstance(o, Builtin):
        return out | T_(len, str.join, property)
    if isinstance(o, Prop):
        return out | T_(property)
    if isinstance(o, Slice):
        return out | T_(slice)
    if isinstance(o, Range):
        return out | T_(range)
    if isinstance(o, Module):
        return set()
    if o is None:
        return out
    return Everything()


ARRAY_NAMES = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod
cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
swapaxes take tobytes tofile tolist tostring trace transpose var view __array__ __array_finalize__ __array_function__ __array_interface__
__array_prepare__ __array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __dlpack__ __dlpack_device__ __copy__ __deepcopy__
__matmul__ __rmatmul__ __imatmul__ __len__ __iter__ __getitem__ __setitem__ __contains__ __complex__ __index__ __iadd__ __isub__ __imul__
__itruediv__ __ifloordiv__ __imod__ __ipow__ __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __pow__ __rpow__
__neg__ __pos__ __abs__ __lt__ __le__ __gt__ __ge__ __and__ __or__ __xor__ __invert__ __mod__ __divmod__ __floordiv__""".split())


class Interp(object):
    def __init__(self, repo="/repo", package="electrode"):
        self.repo, self.package = repo, package
        self.base = {}
        self.ov = {}
        self.oob, self.oob_unknown = [], []     # unchecked accesses of compiled code
        self.live = TRUE
        self.facts = frozenset()
        self.raises = [[]]
        self.acts = []
        self.modules = {}
        self.builtins = {}
        self.stubs = {}          # qualified function name -> Builtin
        self.externs = {}        # module name -> value
        self.loc = None
        self.visited = set()     # functions analysed (for the evidence)
        self.callsites = set()
        self.stats = {"branches": 0, "loops": 0, "calls": 0, "stmts": 0}
        self.depth = 0
        self.noimport = set()
        self.stubdirs = [STUBS]
        self.raise_log = []
        from . import npm, builtin, ext
        self.npm = npm
        builtin.install(self)
        npm.install(self)
        ext.install(self)

    # ------------------------------------------------------------ store

    def get(self, obj, f, default=MISS):
        k = (obj, f)
        v = self.ov.get(k, MISS)
        if v is MISS:
            v = self.base.get(k, MISS)
            if v is MISS or v is UNBOUND:
                return default
        elif v is UNBOUND:
            return default
        return v

    def set(self, obj, f, v):
        self.ov[(obj, f)] = v

    def freeze(self):
        self.base.update(self.ov)
        self.ov = {}

    def simplify(self, c):
        f = self.facts
        if c in f:
            return TRUE
        if c.op == "const":
            return c
        n = T.not_(c)
        if n in f:
            return FALSE
        if c.op == "and":
            return T.and_(self.simplify(c.args[0]), self.simplify(c.args[1]))
        if n.op == "and":
            return T.not_(T.and_(self.simplify(n.args[0]), self.simplify(n.args[1])))
        return c

    def withfact(self, facts, c):
        if c.op == "and":
            return self.withfact(self.withfact(facts, c.args[0]), c.args[1])
        return facts | {c}

    # ---- joins

    def jv(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Node) and isinstance(b, Node):
            if (a.sort == "o") == (b.sort == "o"):
                return T.ite(c, a, b)
            return Choice(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
                and not (a and isinstance(a[0], Seg)):
            return tuple(self.jv(c, x, y) for x, y in zip(a, b))
        if isinstance(a, El) and isinstance(b, El):
            return El(lambda idx: T.ite(c, a(idx), b(idx)))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf and \
                a.maps == b.maps and a.shape == b.shape:
            return a
        if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
            return a.fam.at(*[T.ite(c, i, j) for i, j in zip(a.idx, b.idx)])
        if isinstance(a, Snap) and isinstance(b, Snap) and a.ndim == b.ndim:
            return Snap([T.ite(c, i, j) for i, j in zip(a.shape, b.shape)],
                        lambda idx: T.ite(c, a.fn(idx), b.fn(idx)), a.dt)
        return Choice(c, a, b)

    def jsegs(self, c, sa, sb):
        if sa is sb:
            return sa
        n = 0
        while n < len(sa) and n < len(sb) and sa[n] is sb[n]:
            n += 1
        ra, rb = sa[n:], sb[n:]
        if len(ra) == len(rb) and all(x.len is y.len for x, y in zip(ra, rb)):
            r = tuple(Seg(x.len, self._jelem(c, x.elem, y.elem)) for x, y in zip(ra, rb))
        else:
            nc = T.not_(c)
            r = tuple(Seg(T.ite(c, x.len, const(0)), x.elem) for x in ra) + \
                tuple(Seg(T.ite(nc, y.len, const(0)), y.elem) for y in rb)
        return sa[:n] + r

    def _jelem(self, c, f, g):
        if f is g:
            return f
        return lambda k: self.jv(c, f(k), g(k))

    def jcell(self, k, c, a, b):
        if a is b:
            return a
        o = k[0]
        if a is MISS or b is MISS or a is UNBOUND or b is UNBOUND:
            if isinstance(o, Frame):
                return self.jv(c, UNBOUND if a is MISS else a, UNBOUND if b is MISS else b)
            return b if a is MISS or a is UNBOUND else a
        if a is POISON or b is POISON:
            return POISON
        if k[1] == "v" and isinstance(a, tuple) and isinstance(b, tuple) and \
                (isinstance(o, (PList, PObj))):
            return self.jsegs(c, a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for kk in list(a) + [x for x in b if x not in a]:
                va, vb = a.get(kk, UNBOUND), b.get(kk, UNBOUND)
                out[kk] = self.jv(c, va, vb)
            return out
        return self.jv(c, a, b)

    def jheap(self, c, ha, hb):
        if ha is hb:
            return ha
        out = dict(hb)
        base = self.base
        for k, va in ha.items():
            vb = hb.get(k, MISS)
            if vb is MISS:
                vb = base.get(k, MISS)
            if va is not vb:
                out[k] = self.jcell(k, c, va, vb)
        for k, vb in hb.items():
            if k not in ha:
                va = base.get(k, MISS)
                if va is not vb:
                    out[k] = self.jcell(k, c, va, vb)
        return out

    def branch(self, c, fa, fb):
        """analyse both arms; gamma-join values and stores"""
        c = self.simplify(lift(c))
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        self.stats["branches"] += 1
        h0, l0, f0 = self.ov, self.live, self.facts
        nc = T.not_(c)
        la, lb = T.and_(l0, c), T.and_(l0, nc)
        self.ov, self.live, self.facts = dict(h0), la, self.withfact(f0, c)
        try:
            va, deada = fa(), False
        except Dead:
            va, deada = None, True
        ha, la2, fa2 = self.ov, self.live, self.facts
        self.ov, self.live, self.facts = dict(h0), lb, self.withfact(f0, nc)
        try:
            vb, deadb = fb(), False
        except Dead:
            vb, deadb = None, True
        if deada and deadb:
            raise Dead()
        if deada:
            return vb
        hb, lb2, fb2 = self.ov, self.live, self.facts
        if deadb:
            self.ov, self.live, self.facts = ha, la2, fa2
            return va
        self.ov = self.jheap(c, ha, hb)
        self.live = l0 if (la2 is la and lb2 is lb) else T.or_(la2, lb2)
        self.facts = fa2 & fb2
        return self.jv(c, va, vb)

    def merge(self, outs):
        """outs: list of (guard, value, store); sets store and liveness to
        the join and returns the joined value"""
        if not outs:
            raise Dead()
        g, v, h = outs[-1]
        live = g
        for (gi, vi, hi) in reversed(outs[:-1]):
            c = self.simplify(gi)
            h = self.jheap(c, hi, h)
            v = self.jv(c, vi, v)
            live = T.or_(live, gi)
        self.ov = h
        self.live = live
        return v

    # ---- exceptions

    def make_exc(self, name, *args):
        cls = self.builtins.get(name)
        if cls is None and name == "LinAlgError":
            cls = self.externs["numpy"].table["linalg"].table[name]
        o = PObj(cls)
        self.set(o, "args", tuple(args))
        return o

    def throw(self, name, msg=""):
        self.raise_exc(self.make_exc(name, msg))

    def raise_exc(self, exc):
        e = ExcInfo(self.live, exc, self.ov, self.loc)
        self.raises[-1].append(e)
        raise Dead()

    def require(self, c, name, msg=""):
        """raise exception name unless c"""
        c = self.simplify(lift(c))
        if c is TRUE:
            return
        self.branch(c, lambda: None, lambda: self.throw(name, msg))

    # ---- choices

    def resolve(self, v):
        """drop alternatives that the path facts exclude"""
        while isinstance(v, Choice):
            c = self.simplify(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                break
        return v

    def fork(self, v, f):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.branch(v.c, lambda: self.fork(v.a, f), lambda: self.fork(v.b, f))
        return f(v)

    # ------------------------------------------------------------ modules

    def module(self, name):
        if "." in name and name.rpartition(".")[0] not in self.modules:
            self.module(name.rpartition(".")[0])
        m = self.modules.get(name)
        if m is None:
            rel = name.split(".")
            roots = [self.repo] if rel[0] == self.package else self.stubdirs
            root = next((r for r in roots if os.path.exists(os.path.join(r, *rel)) or
                         os.path.exists(os.path.join(r, *rel) + ".py")), roots[0])
            p = os.path.join(root, *rel)
            if os.path.isdir(p):
                path = os.path.join(p, "__init__.py")
            elif os.path.exists(p + ".py"):
                path = p + ".py"
            elif os.path.exists(p + ".pyx"):
                path = p + ".pyx"
            else:
                return None
            m = Module(name, path)
            self.modules[name] = m
        if not m.loaded:
            m.loaded = True
            saved = self.ov, self.live, self.facts, self.raises, self.acts, self.loc
            self.ov, self.live, self.facts = {}, TRUE, frozenset()
            self.raises, self.acts = [[]], []
            try:
                if m.path.endswith(".pyx"):
                    from . import cyload
                    tree = cyload.load(m.path)
                else:
                    with open(m.path, encoding="utf8") as f:
                        tree = parse(f.read(), m.path)
                m.tree = tree
                self.set(m, "__name__", name)
                self.set(m, "__file__", m.path)
                fr = Frame(None, m)
                m.frame = fr
                act = Act(fr)
                self.acts.append(act)
                failed = None
                try:
                    self.exec_block(tree.body)
                except Dead:
                    failed = self.raises[-1]
                self.base.update(self.ov)
            finally:
                self.ov, self.live, self.facts, self.raises, self.acts, self.loc = saved
            if failed:
                del self.modules[name]
                e = failed[0]
                m.failed = e
                raise AnalysisError("module %s does not load: %s at %s" % (
                    name, e.exc, e.loc))
        return m

    def import_module(self, name):
        """value for an absolute module name, or None"""
        if name in self.noimport:
            return None
        if name == self.package or name.startswith(self.package + "."):
            return self.module(name)
        if name in self.externs:
            return self.externs[name]
        if name.startswith("scipy."):
            return self.module("scipy_" + name[6:])
        for r in self.stubdirs:
            if os.path.exists(os.path.join(r, *name.split("."))) or \
                    os.path.exists(os.path.join(r, *name.split(".")) + ".py"):
                return self.module(name)
        return None

    def mod_attr(self, m, name):
        v = self.get(m, name)
        if v is not MISS:
            return v
        sub = self.module(m.name + "." + name) if m.path.endswith("__init__.py") else None
        return sub

    # ------------------------------------------------------------ names

    @property
    def act(self):
        return self.acts[-1]

    @property
    def frame(self):
        return self.acts[-1].frame

    def func_locals(self, node):
        loc = getattr(node, "_locals", None)
        if loc is None:
            loc, gl, nl = scope_names(node)
            node._locals, node._globals, node._nonlocals = loc, gl, nl
        return loc

    def load_name(self, name):
        fr = self.frame
        while fr is not None:
            if fr.func is None and fr.parent is None:
                break
            if name in fr.globals:
                break
            v = self.get(fr, name)
            if v is not MISS:
                if isinstance(v, Choice):
                    v = self.resolve(v)
                    if isinstance(v, Choice):
                        v = self.fork(v, lambda x: self.throw("UnboundLocalError", name) if x is UNBOUND else x)
                    if v is UNBOUND:
                        self.throw("UnboundLocalError", name)
                if v is POISON:
                    raise NeedConcrete("value of %s after a loop" % name)
                return v
            if name in (getattr(fr, "locals", None) or ()):
                if getattr(fr, "isclass", False):
                    pass
                else:
                    self.throw("UnboundLocalError", name)
            fr = fr.parent
        m = self.frame.module
        v = self.get(m, name)
        if v is not MISS:
            return self.resolve(v)
        if name in self.builtins:
            return self.builtins[name]
        self.throw("NameError", name)

    def store_name(self, name, v):
        fr = self.frame
        if fr.func is None and fr.parent is None and not getattr(fr, "isclass", False):
            self.set(fr.module, name, v)
            return
        if name in fr.globals:
            self.set(fr.module, name, v)
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None and name not in (getattr(p, "locals", None) or ()):
                p = p.parent
            self.set(p, name, v)
            return
        self.set(fr, name, v)

    # ------------------------------------------------------------ blocks

    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.stats["stmts"] += 1
        if hasattr(s, "lineno"):
            self.loc = (self.frame.module.path, s.lineno,
                        self.frame.func.name if self.frame.func else "<module>")
            Node.curloc = self.loc
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("statement %s at %s" % (type(s).__name__, self.loc))
        return m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Global(self, s):
        self.frame.globals |= set(s.names)

    def x_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id)
            v = self.eval(s.value)
            self.store_name(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr_(o, t.attr)
            v = self.eval(s.value)
            self.setattr_(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)

            def go(o):
                cur = self.getitem(o, k)
                v = self.eval(s.value)
                self.setitem(o, k, self.inplace(op, cur, v))
            self.fork(o, go)
        else:
            raise AnalysisError("augmented target")

    def inplace(self, op, cur, v):
        def go(cur):
            if isinstance(cur, Arr):
                r = self.npm.inplace(self, op, cur, v)
                if r is not None:
                    return r
            if isinstance(cur, PList) and op == "Add" and cur.kind == "list":
                self.list_extend(cur, v)
                return cur
            if isinstance(cur, PList) and (op == "Mult" and cur.kind == "list" or isinstance(cur, PSet)) or \
                    isinstance(cur, PDict) and op == "BitOr":
                r = self.resolve(self.binop(op, cur, v))
                if type(r) is type(cur):
                    self.set(cur, "v", self.get(r, "v"))
                    return cur
                return r
            if isinstance(cur, PObj):
                m = self.cls_lookup(cur.cls, {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(op, "?"))
                if m is not None and self.is_list(cur) and isinstance(m, Builtin):
                    self.list_extend(cur, v)
                    return cur
                if m is not None:
                    return self.call(self.bind(m, cur, cur.cls), [v], {})
            return self.binop(op, cur, v)
        return self.fork(cur, go)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load_name(t.id)
                fr = self.frame
                self.set(fr if fr.func or fr.parent else fr.module, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval_index(t.slice))
            elif isinstance(t, ast.Attribute):
                self.set(self.eval(t.value), t.attr, UNBOUND)
            else:
                raise AnalysisError("del")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError("assignment target %s" % type(t).__name__)

    def unpack(self, t, v):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        v = self.resolve(v)
        if isinstance(v, Choice):
            # unpack each alternative into a tuple, then join
            v = self.fork(v, lambda x: self.unpacked(x, n, bool(star)))
        if star:
            items = self.items_of(v)
            k = star[0]
            after = n - k - 1
            if len(items) < n - 1:
                self.throw("ValueError", "unpack")
            for e, x in zip(t.elts[:k], items[:k]):
                self.assign(e, x)
            self.assign(t.elts[k], self.new_list(items[k:len(items) - after]))
            for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x)
            return
        items = self.unpacked(v, n, False)
        for e, x in zip(t.elts, items):
            self.assign(e, x)

    def unpacked(self, v, n, star):
        if isinstance(v, (Arr, Snap)):
            if not v.shape:
                self.throw("TypeError", "iteration over 0-d array")
            if not T.isconst(v.shape[0]):
                self.require(T.eq(v.shape[0], const(n)), "ValueError", "unpack")
                return tuple(self.getitem(v, const(i)) for i in range(n))
        items = self.items_of(v)
        if not star and len(items) != n:
            self.throw("ValueError", "unpack %d into %d" % (len(items), n))
        return tuple(items)

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: None, lambda: self.throw("AssertionError", ""))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.act.rets.append((self.live, v, self.ov))
        raise Dead()

    def x_Break(self, s):
        self.act.loops[-1][0].append((self.live, None, self.ov))
        raise Dead()

    def x_Continue(self, s):
        self.act.loops[-1][1].append((self.live, None, self.ov))
        raise Dead()

    def x_Raise(self, s):
        if s.exc is None:
            if not self.act.exc and not any(a.exc for a in self.acts):
                self.throw("RuntimeError", "no active exception")
            for a in reversed(self.acts):
                if a.exc:
                    self.raise_exc(a.exc[-1])
        e = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)

        def go(e):
            if isinstance(e, Cls):
                e = self.call(e, [], {})
            if not isinstance(e, PObj) or not self.is_subclass(e.cls, self.builtins["BaseException"]):
                self.throw("TypeError", "exceptions must derive from BaseException")
            self.raise_exc(e)
        self.fork(e, go)

    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if m is None:
                self.throw("ImportError", a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split(".")[0]
                m = self.import_module(top)
                if m is None:
                    self.throw("ImportError", a.name)
                self.store_name(top, m)

    def x_ImportFrom(self, s):
        if s.module == "__future__":
            return
        if s.level:
            parts = self.frame.module.name.split(".")
            if not self.frame.module.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts)
            name = base + ("." + s.module if s.module else "")
        else:
            name = s.module
        m = self.import_module(name)
        if m is None:
            self.throw("ImportError", name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Module):
                    for (o, k), v in list(self.base.items()):
                        if o is m and not k.startswith("_"):
                            self.store_name(k, v)
                continue
            if isinstance(m, Module):
                v = self.mod_attr(m, a.name)
            else:
                v = self.import_module(name + "." + a.name)
                if v is None:
                    v = m.get(a.name)
            if v is None or v is MISS:
                self.modelled(m, a.name)
                self.throw("ImportError", a.name)
            self.store_name(a.asname or a.name, v)

    # ---- try / with

    def x_Try(self, s):
        act = self.act
        if s.finalbody:
            return self.do_finally(lambda: self.try_except(s), s.finalbody)
        self.try_except(s)

    def try_except(self, s):
        if not s.handlers:
            self.exec_block(s.body)
            self.exec_block(s.orelse)
            return
        f0 = self.facts
        self.raises.append([])
        outs = []
        h0 = self.ov
        self.ov = dict(h0)
        try:
            self.exec_block(s.body)
            alive = True
        except Dead:
            alive = False
        except AnalysisError:
            self.raises.pop()
            raise
        rs = self.raises.pop()
        if alive:
            try:
                self.exec_block(s.orelse)
                outs.append((self.live, None, self.ov))
            except Dead:
                pass
        f1 = self.facts
        for r in rs:
            self.facts = f0
            self.ov, self.live = dict(r.ov), r.guard
            try:
                self.handle(s.handlers, r)
                outs.append((self.live, None, self.ov))
            except Dead:
                pass
        self.facts = f0
        if len(outs) == 1 and alive and not rs:
            self.facts = f1
        self.merge(outs)

    def handle(self, handlers, r):
        if not handlers:
            self.raises[-1].append(ExcInfo(self.live, r.exc, self.ov, r.loc))
            raise Dead()
        h = handlers[0]
        if h.type is None:
            m = TRUE
        else:
            m = self.exc_match(r.exc, self.eval(h.type))

        def yes():
            if h.name:
                self.store_name(h.name, r.exc)
            act = self.act
            act.exc.append(r.exc)
            try:
                self.exec_block(h.body)
            finally:
                act.exc.pop()
        self.branch(m, yes, lambda: self.handle(handlers[1:], r))

    def exc_match(self, exc, typ):
        typ = self.resolve(typ)
        if isinstance(typ, tuple):
            c = FALSE
            for t in typ:
                c = T.or_(c, self.exc_match(exc, t))
            return c
        if isinstance(exc, Choice):
            return T.ite(exc.c, self.exc_match(exc.a, typ), self.exc_match(exc.b, typ))
        if not isinstance(typ, Cls):
            return FALSE
        if getattr(exc.cls, "anyexc", False):
            # an exception of unknown type: it may match
            if typ is self.builtins["BaseException"]:
                return TRUE
            return T.atom("exc<:%s" % typ.name, "b", (const(id(exc) % 9973),))
        return const(self.is_subclass(exc.cls, typ))

    def do_finally(self, body, final):
        """run body, then final on every way out"""
        act = self.act
        f0 = self.facts
        nret = len(act.rets)
        loops = act.loops[-1] if act.loops else ([], [])
        nb, nc = len(loops[0]), len(loops[1])
        self.raises.append([])
        self.ov = dict(self.ov)
        try:
            body()
            alive = True
        except Dead:
            alive = False
        f1 = self.facts
        rs = self.raises.pop()
        rets = act.rets[nret:]
        del act.rets[nret:]
        brk, cont = loops[0][nb:], loops[1][nc:]
        del loops[0][nb:]
        del loops[1][nc:]
        normal = (self.live, self.ov)
        self.facts = f0
        fin = final if callable(final) else (lambda: self.exec_block(final))

        def run(g, h):
            self.live, self.ov = g, dict(h)
            self.facts = f0
            fin()
        for r in rs:
            try:
                act.exc.append(r.exc)
                run(r.guard, r.ov)
                self.raises[-1].append(ExcInfo(self.live, r.exc, self.ov, r.loc))
            except Dead:
                pass
            finally:
                act.exc.pop()
        for lst, dest in ((rets, act.rets), (brk, loops[0]), (cont, loops[1])):
            for (g, v, h) in lst:
                try:
                    run(g, h)
                    dest.append((self.live, v, self.ov))
                except Dead:
                    pass
        if not alive:
            raise Dead()
        run(*normal)
        if not rs:
            self.facts = f1

    def x_With(self, s, k=0):
        if k == len(s.items):
            return self.exec_block(s.body)
        it = s.items[k]
        cm = self.resolve(self.eval(it.context_expr))

        def bind(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        if isinstance(cm, CM):
            return self.with_gen(cm, bind, lambda: self.x_With(s, k + 1))
        if isinstance(cm, PObj) and self.cls_lookup(cm.cls, "__enter__") is not None:
            v = self.call(self.getattr_(cm, "__enter__"), [], {})
            bind(v)

            def fin():
                self.call(self.getattr_(cm, "__exit__"), [None, None, None], {})
            return self.do_finally(lambda: self.x_With(s, k + 1), fin)
        bind(cm)
        self.x_With(s, k + 1)

    def with_gen(self, cm, bind, body):
        act = self.act
        saved = []
        count = [0]

        def cb(v):
            # the block runs at the yield point
            count[0] += 1
            if count[0] > 1:
                raise AnalysisError("context manager yields twice")
            gen_act = self.acts[-1]
            hidden = self.acts[self.acts.index(act) + 1:]
            del self.acts[self.acts.index(act) + 1:]
            nret = len(act.rets)
            loops = act.loops[-1] if act.loops else ([], [])
            nb, nc = len(loops[0]), len(loops[1])
            fb = self.facts
            outs = []
            try:
                try:
                    bind(v)
                    body()
                    outs.append(("normal", self.live, None, self.ov))
                except Dead:
                    pass
            finally:
                self.acts.extend(hidden)
            for name, lst, n in (("ret", act.rets, nret), ("brk", loops[0], nb), ("cont", loops[1], nc)):
                for (g, rv, h) in lst[n:]:
                    outs.append((name, g, rv, h))
                del lst[n:]
            saved.extend((o[0], o[1], o[2]) for o in outs)
            if len(outs) != 1 or outs[0][0] != "normal":
                self.facts = fb
            self.merge([(g, None, h) for (_, g, _, h) in outs])
            return None
        self.call_func(cm.func, cm.args, cm.kwargs, yield_cb=cb)
        # after the generator has finished
        live, ov = self.live, self.ov
        normal = FALSE
        loops = act.loops[-1] if act.loops else ([], [])
        if count[0] == 0:
            self.throw("RuntimeError", "generator didn't yield")
        only = len(saved) == 1
        for kind, g, v in saved:
            if kind == "normal":
                normal = T.or_(normal, g)
                continue
            dest = {"ret": act.rets, "brk": loops[0], "cont": loops[1]}[kind]
            dest.append((g, v, dict(ov)))
        if normal is FALSE:
            raise Dead()
        if not only:
            self.live = normal

    # ---- loops

    def x_For(self, s):
        segs = self.segs_of(self.eval(s.iter))
        self.loop_segs(segs, lambda v: self.assign(s.target, v),
                       lambda: self.exec_block(s.body),
                       (lambda: self.exec_block(s.orelse)) if s.orelse else None)

    def loop_segs(self, segs, bind, body, orelse=None):
        act = self.act
        brk, cont = [], []
        f0 = self.facts
        act.loops.append((brk, cont))
        try:
            dead = False
            try:
                for seg in segs:
                    if T.isconst(seg.len):
                        for k in range(int(T.cval(seg.len))):
                            self.iteration(seg.elem(const(k)), bind, body, cont)
                    elif is01(seg.len):
                        self.branch(T.eq(seg.len, const(1)),
                                    lambda: self.iteration(seg.elem(const(0)), bind, body, cont),
                                    lambda: None)
                    else:
                        self.symloop(seg, bind, body)
            except Dead:
                dead = True
        finally:
            act.loops.pop()
        if not dead and orelse is not None:
            try:
                orelse()
            except Dead:
                dead = True
        outs = list(brk)
        if not dead:
            outs.append((self.live, None, self.ov))
        if len(outs) == 1 and not dead:
            return
        self.facts = f0
        self.merge(outs)

    def iteration(self, v, bind, body, cont):
        del cont[:]
        f0 = self.facts
        dead = False
        try:
            bind(v)
            body()
        except Dead:
            dead = True
        if cont:
            outs = list(cont)
            del cont[:]
            if not dead:
                outs.append((self.live, None, self.ov))
            self.facts = f0
            self.merge(outs)
        elif dead:
            raise Dead()

    def x_While(self, s):
        act = self.act
        brk, cont = [], []
        f0 = self.facts
        act.loops.append((brk, cont))
        n = 0
        dead = False
        try:
            try:
                while True:
                    c = self.simplify(self.truth(self.eval(s.test)))
                    if c is FALSE:
                        break
                    if c is not TRUE:
                        act.loops.pop()
                        try:
                            self.symwhile(s)
                        finally:
                            act.loops.append((brk, cont))
                        break
                    n += 1
                    if n > 2000:
                        raise NeedConcrete("while loop")
                    self.iteration(None, lambda v: None, lambda: self.exec_block(s.body), cont)
            except Dead:
                dead = True
        finally:
            act.loops.pop()
        if not dead and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                dead = True
        outs = list(brk)
        if not dead:
            outs.append((self.live, None, self.ov))
        if len(outs) == 1 and not dead:
            return
        self.facts = f0
        self.merge(outs)

    def symwhile(self, s):
        from . import loops
        loops.symwhile(self, s)

    def symloop(self, seg, bind, body):
        from . import loops
        loops.symloop(self, seg, bind, body)

    # ---- definitions

    def x_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.call(dv, [v], {})
        self.store_name(s.name, v)

    def make_func(self, s, name):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [self.eval(d) if d is not None else MISS for d in a.kw_defaults]
        fr = self.frame
        p = fr
        while p is not None:
            p.captured = True
            p = p.parent
        if fr.func is None and fr.parent is None:
            parent = None
        else:
            parent = fr
        f = Func(name, s, parent, self.frame.module, defaults, kwd)
        f.isgen = not isinstance(s, ast.Lambda) and has_yield(s)
        f.locals = self.func_locals(s)
        return f

    def x_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        bases = [b for b in bases if isinstance(b, Cls)]
        if not bases:
            bases = [self.builtins["object"]]
        fr = Frame(self.frame if (self.frame.func or self.frame.parent) else None, self.frame.module)
        fr.isclass = True
        fr.locals = ()
        fr.captured = True
        # a class frame is its own store; free names fall to the module
        if fr.parent is None:
            fr.parent = ClassParent(self.frame.module)
        act = Act(fr)
        self.acts.append(act)
        try:
            self.exec_block(s.body)
        finally:
            self.acts.pop()
        ns = {}
        for (o, k), v in list(self.ov.items()):
            if o is fr:
                ns[k] = v
                del self.ov[(o, k)]
        c = Cls(s.name, bases, ns, self.frame.module)
        c.node = s
        for v in ns.values():
            for f in underlying(v):
                if f.cls is None:
                    f.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d), [v], {})
        self.store_name(s.name, v)

    # ------------------------------------------------------------ expressions

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("expression %s at %s" % (type(e).__name__, self.loc))
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, (bool, int, float, complex)):
            return const(v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items_of(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return tuple(out)

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.segs_of(self.eval(x.value)))
            else:
                segs.append(item(self.eval(x)))
        return self.list_from(segs)

    def e_Set(self, e):
        return self.set_from([self.eval(x) for x in e.elts])

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.get(self.resolve(self.eval(v)), "v"))
            else:
                kk = self.eval(k)
                d[self.hkey(kk)] = (kk, self.eval(v))
        return self.new_dict(d)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                spec = self.eval(v.format_spec) if v.format_spec is not None else ""
                if v.conversion != -1 and isinstance(spec, str):
                    spec = "!" + chr(v.conversion) + spec
                parts.append(self.format_(x, spec))
        return self.strcat(parts)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return T.not_(self.truth(v))
        return self.fork(v, lambda v: self.unop(op, v))

    def unop(self, op, v):
        if isinstance(v, Node):
            if v.sort == "o" and v.op != "const":
                return T.call("un" + op, [v])
            if op == "USub":
                return T.neg(v)
            if op == "UAdd":
                return T.add(v, const(0)) if v.sort == "b" else v
            if op == "Invert":
                return T.not_(v) if v.sort == "b" and False else T.sub(T.neg(v), const(1))
        if isinstance(v, (Arr, Snap)):
            return self.npm.unop(self, op, v)
        if isinstance(v, PObj):
            m = self.cls_lookup(v.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
        if hasattr(v, "unop"):
            return v.unop(self, op)
        self.throw("TypeError", "bad operand for %s: %r" % (op, v))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Node) and isinstance(b, Node):
            return self.scalar(op, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            if self.npm.arrayish(a) and self.npm.arrayish(b) and (
                    isinstance(a, (Arr, Snap)) or isinstance(b, (Arr, Snap)) or True):
                try:
                    if self.npm.has_array(a) or self.npm.has_array(b):
                        return self.npm.binop(self, op, a, b)
                except NeedConcrete:
                    pass
            return self.fork(a, lambda x: self.fork(b, lambda y: self.binop(op, x, y)))
        for x, rev in ((a, False), (b, True)):
            if hasattr(x, "binop"):
                r = x.binop(self, op, b if not rev else a, rev)
                if r is not NOTIMPL:
                    return r
        if isinstance(a, PObj) or isinstance(b, PObj):
            names = OPNAMES[op]
            if isinstance(a, PObj):
                m = self.cls_lookup(a.cls, "__%s__" % names)
                if m is not None and not (isinstance(m, Builtin)):
                    r = self.call(self.bind(m, a, a.cls), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, PObj):
                m = self.cls_lookup(b.cls, "__r%s__" % names)
                if m is not None and not isinstance(m, Builtin):
                    return self.call(self.bind(m, b, b.cls), [a], {})
        if isinstance(a, (Arr, Snap)) or isinstance(b, (Arr, Snap)):
            return self.npm.binop(self, op, a, b)
        if isinstance(a, str) or (isinstance(a, Node) and a.sort == "o"):
            if op == "Mod":
                return self.fmt_mod(a, b)
            if op == "Add":
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                if isinstance(b, (str, Node)) and not (isinstance(a, str) and isinstance(b, Node) and b.sort != "o"):
                    return self.strcat([a, b])
            if op == "Mult" and isinstance(a, str) and isinstance(b, Node) and T.isconst(b):
                return a * T.cval(b)
            if op == "Add" and isinstance(a, str):
                self.throw("TypeError", "can only concatenate str (not %r) to str" % (b,))
        if isinstance(b, Node) and b.sort == "o" and isinstance(a, str) and op == "Add":
            return self.strcat([a, b])
        la, lb = self.is_list(a), self.is_list(b)
        if isinstance(a, PDict) and isinstance(b, PDict) and op == "BitOr":
            return self.new_dict(dict(self.get(a, "v"), **self.get(b, "v")) if False else {**self.get(a, "v"), **self.get(b, "v")})
        if la and lb and op == "Add":
            return self.list_from(self.get(a, "v") + self.get(b, "v"))
        if la and lb and isinstance(a, PSet):
            return self.set_op(op, a, b)
        if op == "Mult" and (la or lb or isinstance(a, tuple) or isinstance(b, tuple)):
            s, n = (a, b) if (la or isinstance(a, tuple)) else (b, a)
            if isinstance(n, Node):
                if isinstance(s, tuple) and T.isconst(n):
                    return s * T.cval(n)
                segs = self.segs_of(s)
                if T.isconst(n):
                    return self.list_from(tuple(segs) * max(0, T.cval(n)))
                if len(segs) == 1 and segs[0].len is const(1):
                    v = segs[0].elem(const(0))
                    return self.list_from((Seg(n, lambda k: v),))
                if all(T.isconst(x.len) for x in segs):
                    items = self.items_of(s)
                    L = len(items)
                    return self.list_from((Seg(T.mul(n, const(L)),
                                               lambda k: self.seq_at(tuple(item(i) for i in items), T.mod(k, const(L)))),))
                raise NeedConcrete("list repetition")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, (bytes,)) and isinstance(b, bytes) and op == "Add":
            return a + b
        for x, y in ((a, b), (b, a)):
            # a numpy scalar turns the sequence into an array; scalars read
            # from arrays are not told apart from python floats here
            if isinstance(x, Node) and not T.isconst(x) and x.sort != "o" and (self.is_list(y) or isinstance(y, tuple)):
                return self.npm.binop(self, op, a, b)
        self.throw("TypeError", "%s of %r and %r" % (op, a, b))

    def scalar(self, op, a, b):
        if a.sort == "o" or b.sort == "o":
            if op == "Mod" and a.sort == "o":
                return self.fmt_mod(a, b)
            return T.call("op" + op, [a, b])
        if op == "Add":
            return T.add(a, b)
        if op == "Sub":
            return T.sub(a, b)
        if op == "Mult":
            return T.mul(a, b)
        if op == "Div":
            if T.isconst(b) and T.cval(b) == 0:
                self.throw("ZeroDivisionError")
            return T.div(a, b)
        if op == "FloorDiv":
            if T.isconst(b) and T.cval(b) == 0:
                self.throw("ZeroDivisionError")
            return T.floordiv(a, b)
        if op == "Mod":
            return T.mod(a, b)
        if op == "Pow":
            return T.power(a, b)
        if a.sort == "b" and b.sort == "b":
            if op == "BitAnd":
                return T.and_(a, b)
            if op == "BitOr":
                return T.or_(a, b)
            if op == "BitXor":
                return T.not_(T.eq(a, b))
        if T.isconst(a) and T.isconst(b) and a.sort in "ib" and b.sort in "ib":
            f = {"BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
                 "LShift": operator.lshift, "RShift": operator.rshift}.get(op)
            if f:
                return const(f(T.cval(a), T.cval(b)))
        if op == "BitAnd" and b is const(1) and a.sort == "i":
            return T.mod(a, const(2))
        if op == "RShift" and T.isconst(b):
            return T.floordiv(a, const(1 << T.cval(b)))
        if op == "LShift" and T.isconst(b):
            return T.mul(a, const(1 << T.cval(b)))
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            return T.fn("bit" + op, a, b, sort="i")
        if op == "MatMult":
            self.throw("TypeError", "matmul of scalars")
        raise AnalysisError("operator %s" % op)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.eval(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(k + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: go(k + 1))
        return go(0)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Compare(self, e):
        left = self.eval(e.left)

        def go(k, left):
            right = self.eval(e.comparators[k])
            r = self.compare(type(e.ops[k]).__name__, left, right)
            if k == len(e.ops) - 1:
                return r
            return self.branch(self.truth(r), lambda: go(k + 1, right), lambda: r)
        return go(0, left)

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op in ("Is", "IsNot"):
            r = self.fork(a, lambda x: self.fork(b, lambda y: self.is_(x, y)))
            return r if op == "Is" else T.not_(r)
        if op in ("In", "NotIn"):
            r = self.fork(b, lambda y: self.contains(y, a))
            return r if op == "In" else T.not_(r)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.fork(a, lambda x: self.fork(b, lambda y: self.compare(op, x, y)))
        if isinstance(a, Node) and isinstance(b, Node):
            if (a.sort == "o") != (b.sort == "o") and op in ("Eq", "NotEq"):
                pass
            if op == "Eq":
                return T.eq(a, b)
            if op == "NotEq":
                return T.not_(T.eq(a, b))
            if op == "Lt":
                return T.lt(a, b)
            if op == "LtE":
                return T.le(a, b)
            if op == "Gt":
                return T.lt(b, a)
            if op == "GtE":
                return T.le(b, a)
        for x, rev in ((a, False), (b, True)):
            if hasattr(x, "compare"):
                r = x.compare(self, op, b if not rev else a, rev)
                if r is not NOTIMPL:
                    return r
        if isinstance(a, (Arr, Snap)) or isinstance(b, (Arr, Snap)):
            return self.npm.compare(self, op, a, b)
        sw = {"Eq": "Eq", "NotEq": "NotEq", "Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
        for x, y, o in ((a, b, op), (b, a, sw[op])):
            if isinstance(x, PObj):
                m = self.cls_lookup(x.cls, {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__",
                                            "Gt": "__gt__", "GtE": "__ge__"}[o])
                if m is not None and not isinstance(m, Builtin):
                    r = self.call(self.bind(m, x, x.cls), [y], {})
                    if r is not NOTIMPL:
                        return r
        if op == "Eq":
            return self.eqv(a, b)
        if op == "NotEq":
            return T.not_(self.eqv(a, b))
        if isinstance(a, (str, bytes)) and type(a) is type(b):
            return const({"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            ia, ib = self.items_of(a), self.items_of(b)
            return self.seq_less(op, ia, ib)
        if isinstance(a, PSet) and isinstance(b, PSet):
            x, y = (a, b) if op in ("Lt", "LtE") else (b, a)
            allin = lambda p, q: functools.reduce(T.and_, [self.contains(q, e) for e in self.items_of(p)], TRUE)
            r = allin(x, y)
            if op in ("Lt", "Gt"):
                r = T.and_(r, T.not_(allin(y, x)))
            return r
        if isinstance(a, (str, Node)) and isinstance(b, (str, Node)) and not any(isinstance(q, Node) and q.sort != "o" for q in (a, b)):
            return T.lt(self.as_o(a), self.as_o(b)) if op == "Lt" else T.call(op, [self.as_o(a), self.as_o(b)], sort="b")
        self.throw("TypeError", "compare %s %r %r" % (op, a, b))

    def seq_less(self, op, ia, ib):
        if op in ("Gt", "GtE"):
            return self.seq_less({"Gt": "Lt", "GtE": "LtE"}[op], ib, ia)
        r = const(len(ia) < len(ib) or (op == "LtE" and len(ia) == len(ib)))
        for x, y in reversed(list(zip(ia, ib))):
            e = self.eqv(x, y)
            l = self.compare("Lt", x, y)
            r = T.ite(e, r, self.truth(l))
        return r

    def is_(self, a, b):
        if a is b:
            return TRUE
        if isinstance(a, Node) and isinstance(b, Node):
            if a.op == "const" and b.op == "const":
                return const(a.sort == b.sort and a.x == b.x)
            if a.sort == b.sort == "b":
                return T.eq(a, b)
            if a.sort == "o" and b.sort == "o":
                return T.eq(a, b)
            return FALSE
        if isinstance(a, str) and isinstance(b, str):
            return const(a == b)
        if isinstance(a, FamObj) and isinstance(b, FamObj) and a.fam is b.fam:
            c = TRUE
            for i, j in zip(a.idx, b.idx):
                c = T.and_(c, T.eq(i, j))
            return c
        return FALSE

    def eqv(self, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.fork(a, lambda x: self.fork(b, lambda y: self.eqv(x, y)))
        if a is b and not isinstance(a, (Arr, Snap)):
            return TRUE
        if isinstance(a, bytes) and isinstance(b, bytes):
            return const(a == b)
        if isinstance(a, Node) and isinstance(b, Node):
            return T.eq(a, b)
        if isinstance(a, (str, Node)) and isinstance(b, (str, Node)):
            if isinstance(a, str) and isinstance(b, str):
                return const(a == b)
            n = a if isinstance(a, Node) else b
            if n.sort != "o":
                return FALSE
            return T.eq(self.as_o(a), self.as_o(b))
        if isinstance(a, tuple) and isinstance(b, tuple) or \
                (isinstance(a, PList) and isinstance(b, PList)):
            ia, ib = self.items_of(a), self.items_of(b)
            if len(ia) != len(ib):
                return FALSE
            c = TRUE
            for x, y in zip(ia, ib):
                c = T.and_(c, self.truth(self.compare("Eq", x, y)))
            return c
        if isinstance(a, FamObj) and isinstance(b, FamObj):
            return self.is_(a, b)
        if isinstance(a, Dtype) and isinstance(b, Dtype):
            return const(a.kind == b.kind)
        if isinstance(a, PDict) and isinstance(b, PDict):
            da, db = self.get(a, "v"), self.get(b, "v")
            if set(da) != set(db):
                return FALSE
            c = TRUE
            for k in da:
                c = T.and_(c, self.eqv(da[k][1], db[k][1]))
            return c
        return FALSE

    def contains(self, cont, x):
        if isinstance(cont, str):
            if isinstance(x, str):
                return const(x in cont)
            return T.call("in", [self.as_o(x), self.as_o(cont)], sort="b")
        if isinstance(cont, Vars):
            v = self.get(cont.obj, self.resolve(x))
            if isinstance(v, Choice):
                return self.fork(v, lambda z: const(z is not UNBOUND))
            return const(v is not MISS)
        if isinstance(cont, PDict):
            k = self.hkey(self.resolve(x))
            d = self.get(cont, "v")
            if k not in d:
                return FALSE
            v = d[k]
            if isinstance(v, Choice):
                return self.fork(v, lambda z: const(z is not UNBOUND))
            return TRUE
        if isinstance(cont, (tuple, PList, Range)) or self.is_list(cont):
            if isinstance(cont, Range):
                k = T.sub(x, cont.lo)
                return T.and_(T.le(const(0), k), T.lt(x, cont.hi)) if cont.step is const(1) else \
                    self.contains(self.list_from(self.segs_of(cont)), x)
            segs = self.segs_of(cont)
            c = FALSE
            for s in segs:
                if T.isconst(s.len):
                    for k in range(T.cval(s.len)):
                        c = T.or_(c, self.truth(self.compare("Eq", s.elem(const(k)), x)))
                else:
                    v = T.var()
                    c = T.or_(c, T.quant("any", v, s.len, self.truth(self.compare("Eq", s.elem(v), x))))
            return c
        if isinstance(cont, (Arr, Snap)):
            s = self.npm.snap(self, cont)
            return self.npm.reduce_any(self, self.npm.compare(self, "Eq", s, x))
        if isinstance(cont, PObj):
            m = self.cls_lookup(cont.cls, "__contains__")
            if m is not None:
                return self.truth(self.call(self.bind(m, cont, cont.cls), [x], {}))
        if isinstance(cont, Node) and cont.sort == "o":
            return T.call("in", [self.as_o(x), cont], sort="b")
        raise AnalysisError("in %r" % (cont,))

    def truth(self, v):
        v = self.resolve(v)
        if isinstance(v, Node):
            return T.truth(v)
        if isinstance(v, Choice):
            return self.fork(v, self.truth)
        if v is None or v is False:
            return FALSE
        if v is True:
            return TRUE
        if isinstance(v, (str, bytes)):
            return const(len(v) > 0)
        if isinstance(v, tuple):
            return const(len(v) > 0)
        if isinstance(v, PDict):
            return const(len(self.get(v, "v")) > 0)
        if isinstance(v, PList) or self.is_list(v):
            return T.not_(T.eq(self.length(v), const(0)))
        if isinstance(v, Range):
            return T.not_(T.eq(v.length(), const(0)))
        if isinstance(v, (Arr, Snap)):
            return self.npm.truth(self, v)
        if isinstance(v, PObj):
            m = self.cls_lookup(v.cls, "__bool__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            m = self.cls_lookup(v.cls, "__len__")
            if m is not None:
                return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            return TRUE
        if hasattr(v, "truth"):
            return v.truth(self)
        if v is UNBOUND or v is POISON:
            raise NeedConcrete("truth of %r" % v)
        return TRUE

    def e_Attribute(self, e):
        return self.getattr_(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.getitem(o, k)

    def eval_index(self, s):
        return self.eval(s)

    def e_Slice(self, e):
        ev = lambda x: self.eval(x) if x is not None else None
        return Slice(ev(e.lower), ev(e.upper), ev(e.step))

    def e_Lambda(self, e):
        return self.make_func(e, "<lambda>")

    def e_Starred(self, e):
        raise AnalysisError("starred")

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        if self.act.yield_cb is None:
            raise AnalysisError("yield outside a generator call")
        return self.act.yield_cb(v)

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        self.loop_segs(self.segs_of(v), lambda x: self.act.yield_cb(x), lambda: None)
        return None

    # comprehensions

    def e_ListComp(self, e):
        return self.comp(e, lambda: self.eval(e.elt), PList)

    def e_GeneratorExp(self, e):
        return self.comp(e, lambda: self.eval(e.elt), PIter)

    def e_SetComp(self, e):
        r = self.comp(e, lambda: self.eval(e.elt), PList)
        return self.set_from(self.items_of(r))

    def e_DictComp(self, e):
        d = self.new_dict({})

        def put():
            k = self.eval(e.key)
            self.setitem(d, k, self.eval(e.value))
            return None
        self.comp(e, put, PList)
        return d

    def comp(self, e, leaf, kind):
        out = kind()
        fr = Frame(self.frame, self.frame.module, self.frame.func)
        fr.func = self.frame.func or CompFunc
        fr.locals = set()
        for g in e.generators:
            fr.locals |= target_names(g.target)
        fr.isclass = False
        act = Act(fr)
        act.yield_cb = self.act.yield_cb
        first = self.segs_of(self.eval(e.generators[0].iter))
        self.acts.append(act)
        self.set(out, "v", ())
        try:
            def rec(k):
                g = e.generators[k]
                segs = first if k == 0 else self.segs_of(self.eval(g.iter))

                def body():
                    c = TRUE
                    for t in g.ifs:
                        c = T.and_(c, self.truth(self.eval(t)))

                    def inner():
                        if k + 1 == len(e.generators):
                            self.list_append(out, leaf())
                        else:
                            rec(k + 1)
                    self.branch(c, inner, lambda: None)
                self.loop_segs(segs, lambda v: self.assign(g.target, v), body)
            rec(0)
        finally:
            self.acts.pop()
        if not fr.captured:
            for n in fr.locals:
                self.ov.pop((fr, n), None)
        return out

    # ------------------------------------------------------------ calls

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.super0()
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            raise AnalysisError("locals()")
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.items_of(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kwargs, stars = {}, []
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value))
                if isinstance(d, Choice):
                    stars.append(d)
                    continue
                for kk, (kv, v) in self.get(d, "v").items():
                    kwargs[kv] = v
            else:
                kwargs[k.arg] = self.eval(k.value)
        loc = self.loc
        self.stats["calls"] += 1

        def go(rest, kw):
            if not rest:
                return self.call(f, args, kw)

            def one(d):
                k2 = dict(kw)
                for kk, (kv, v) in self.get(d, "v").items():
                    k2[kv] = v
                return go(rest[1:], k2)
            return self.fork(rest[0], one)
        r = go(stars, kwargs)
        self.loc = loc
        Node.curloc = loc
        return r

    def super0(self):
        f = self.frame.func
        cls = f.cls
        names = [a.arg for a in f.node.args.args]
        return Super(cls, self.get(self.frame, names[0]))

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, Builtin):
            return self.native_call(f, f.fn, args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Choice):
            return self.fork(f, lambda g: self.call(g, args, kwargs))
        if isinstance(f, PObj):
            m = self.cls_lookup(f.cls, "__call__")
            if m is not None:
                return self.call(self.bind(m, f, f.cls), args, kwargs)
        if isinstance(f, (ClassMethod, StaticMethod)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, NS) and f.call is not None:
            return self.native_call(f, f.call, args, kwargs)
        if isinstance(f, Dtype):
            return self.npm.cast(self, args[0], f)
        if hasattr(f, "call"):
            return self.native_call(f, f.call, args, kwargs)
        if isinstance(f, Node) and f.sort == "o":
            return self.opaque_call(f, args, kwargs)
        if f is None or isinstance(f, (str, tuple, PList, PDict, Arr, Node)):
            self.throw("TypeError", "not callable: %r" % (f,))
        raise AnalysisError("call of %r" % (f,))

    def native_call(self, f, fn, args, kwargs):
        """a modelled external function: an argument its model never looks at is one the model does not know"""
        a, k = Args(args), Kwargs(kwargs)
        r = fn(self, a, k)
        if len(k) > len(k.seen) or len(a) > a.seen:
            name = getattr(f, "name", "") or ""
            if name.split(".")[0] in ("warnings", "log", "print", "object", "errstate", "finfo", "iinfo", "getLogger", "basicConfig", "set_printoptions"):
                return r
            left = [x for x in dict.keys(k) if x not in k.seen and x not in HARMLESS.get(name.split(".")[-1], ()) and
                    not (x == "order" and k[x] in ("C", "K", "A")) and not (k[x] is None) and
                    not (x == "dtype" and isinstance(k[x], Dtype) and k[x].kind == "f")]
            if left:
                raise AnalysisError("argument %s of %r is not modelled" % (", ".join(map(str, left)), f))
            if len(a) > a.seen and name.split(".")[0] in ("np", "ndarray", "pow") and name != "ndarray.copy":
                raise AnalysisError("argument %d of %r is not modelled" % (a.seen, f))
        return r

    def opaque_call(self, f, args, kwargs):
        name = "call"
        a = [f] + [self.as_o(x) for x in args]
        for k in sorted(kwargs):
            a.append(const(k))
            a.append(self.as_o(kwargs[k]))
        return T.call(name, a)

    def instantiate(self, cls, args, kwargs):
        if cls.native is not None:
            return cls.native(self, cls, args, kwargs)
        nat = None
        for c in cls.mro:
            if c.native is not None and c is not self.builtins["object"]:
                nat = c
                break
        if nat is not None and not getattr(nat, "objlike", False):
            raise AnalysisError("subclass of %s" % nat.name)
        o = PObj(cls)
        if nat is not None and nat.name == "list":
            self.set(o, "v", ())
        if nat is not None and nat.name == "dict":
            self.set(o, "v", {})
        if self.is_subclass(cls, self.builtins["BaseException"]):
            self.set(o, "args", tuple(args))
        new = self.cls_lookup(cls, "__new__")
        if isinstance(new, (Func, StaticMethod)):
            raise AnalysisError("__new__")
        init = self.cls_lookup(cls, "__init__")
        if init is not None:
            self.call(self.bind(init, o, cls), args, kwargs)
        elif args or kwargs:
            if not self.is_subclass(cls, self.builtins["BaseException"]):
                self.throw("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def qualname(self, f):
        m = f.module.name
        if m.startswith(self.package + "."):
            m = m[len(self.package) + 1:]
        return "%s.%s%s" % (m, f.cls.name + "." if f.cls else "", f.name)

    def call_func(self, f, args, kwargs, yield_cb=None):
        if f.cm and yield_cb is None:
            return CM(f, args, kwargs)
        q = self.qualname(f)
        if self.loc is not None:
            self.callsites.add((self.loc, q))
        st = self.stubs.get(q)
        if st is not None:
            return st(self, args, kwargs)
        self.visited.add(q)
        self.depth += 1
        if self.depth > MAXDEPTH:
            self.depth = 0
            raise AnalysisError("call depth at %s" % q)
        fr = Frame(f.frame, f.module, f)
        fr.locals = f.locals
        gl = getattr(f.node, "_globals", ())
        fr.globals = set(gl)
        fr.nonlocals = set(getattr(f.node, "_nonlocals", ()))
        act = Act(fr)
        self.bind_args(f, fr, args, kwargs)
        gen = None
        if f.isgen and yield_cb is None:
            gen = PIter()
            self.set(gen, "v", ())
            act.yield_cb = lambda v: self.list_append(gen, v)
        elif yield_cb is not None:
            act.yield_cb = yield_cb
        l0, f0 = self.live, self.facts
        nr = len(self.raises[-1])
        rlist = self.raises[-1]
        loc = self.loc
        self.acts.append(act)
        alive = True
        v = None
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    v = self.eval(f.node.body)
                else:
                    self.exec_block(f.node.body)
            except Dead:
                alive = False
        finally:
            assert self.acts.pop() is act
            self.depth -= 1
            self.loc = loc
        outs = list(act.rets)
        if alive:
            outs.append((self.live, v, self.ov))
        facts = self.facts
        self.facts = f0
        if not outs:
            raise Dead()
        if len(outs) == 1:
            self.live, v, self.ov = outs[0]
            if alive:
                self.facts = facts
        else:
            v = self.merge(outs)
        new = rlist[nr:] if self.raises[-1] is rlist else []
        if not new:
            self.live = l0
        else:
            g = FALSE
            for e in new:
                g = T.or_(g, self.simplify(e.guard))
            # the result is only reached where nothing was raised
            lv = T.and_(l0, T.not_(g))
            self.live = lv
            self.facts = self.withfact(self.facts, T.not_(g)) if g is not FALSE else self.facts
        if not fr.captured:
            for n in list(fr.locals):
                self.ov.pop((fr, n), None)
        if gen is not None:
            return gen
        return v

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        vals = {}
        kwargs = dict(kwargs)
        if len(args) > len(pos) and a.vararg is None:
            self.throw("TypeError", "%s() takes %d arguments" % (f.name, len(pos)))
        for n, v in zip(pos, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        for k, v in kwargs.items():
            if k in vals and k in pos:
                self.throw("TypeError", "%s() got multiple values for %s" % (f.name, k))
            if k in pos or k in kwonly:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, k))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.throw("TypeError", "%s() missing argument %s" % (f.name, n))
                vals[n] = f.defaults[j]
        for n, d in zip(kwonly, f.kwdefaults):
            if n not in vals:
                if d is MISS:
                    self.throw("TypeError", "%s() missing argument %s" % (f.name, n))
                vals[n] = d
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict(dict((("s", k), (k, v)) for k, v in extra.items()))
        for n, v in vals.items():
            self.ov[(fr, n)] = v

    # ------------------------------------------------------------ attributes

    def is_subclass(self, c, d):
        return isinstance(c, Cls) and d in c.mro

    def cls_lookup(self, cls, name):
        for c in cls.mro:
            v = self.get(c, name)
            if v is not MISS:
                return v
            if name in c.ns:
                return c.ns[name]
        return None

    def cls_none(self, cls, name):
        """the class defines the attribute, as None"""
        for c in cls.mro:
            v = self.get(c, name)
            if v is not MISS or name in c.ns:
                return v is None or (v is MISS and c.ns[name] is None)
        return False

    def bind(self, v, obj, cls):
        if isinstance(v, (Func, Builtin)):
            return Bound(v, obj)
        if isinstance(v, ClassMethod):
            return Bound(v.func, cls)
        if isinstance(v, StaticMethod):
            return v.func
        if isinstance(v, Prop):
            return self.call(v.get, [obj], {})
        return v

    def getattr_(self, o, name, default=MISS):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork(o, lambda x: self.getattr_(x, name, default))
        v = self.getattr_raw(o, name)
        if v is MISS:
            self.modelled(o, name)
            if default is not MISS:
                return default
            self.throw("AttributeError", "%r has no attribute %s" % (o, name))
        if isinstance(v, Choice):
            v = self.resolve(v)
        if isinstance(v, Choice) and unbound_in(v):
            cls = self.cls_lookup(o.cls, name) if isinstance(o, PObj) else None

            def there(x):
                if x is not UNBOUND:
                    return x
                if cls is not None:
                    return self.bind(cls, o, o.cls)
                if default is not MISS:
                    return default
                self.throw("AttributeError", "%r has no attribute %s" % (o, name))
            v = self.fork(v, there)
        return v

    def vars_attr(self, o, name):
        """methods of the dictionary of an object's attributes"""
        obj = o.obj

        def field(n, *d):
            if not isinstance(n, str):
                raise NeedConcrete("attribute with a symbolic name")
            v = self.get(obj, n)
            if v is MISS:
                if not d:
                    self.throw("KeyError", n)
                return d[0]
            if isinstance(v, Choice) and unbound_in(v):
                return self.fork(v, lambda x: x if x is not UNBOUND else d[0] if d else self.throw("KeyError", n))
            return v

        def pop(I, a, k):
            v = field(*a)
            if self.get(obj, a[0]) is not MISS:
                self.set(obj, a[0], UNBOUND)
            return v

        def get(I, a, k):
            return field(a[0], a[1] if len(a) > 1 else None)

        def update(I, a, k):
            for d in a:
                if isinstance(d, (tuple, PList)):
                    raise AnalysisError("__dict__.update")
                for n in self.items_of(self.call(self.getattr_(d, "items"), [], {})):
                    self.set(obj, n[0], n[1])
            for n in k:
                self.set(obj, n, k[n])

        def setdefault(I, a, k):
            v = field(a[0], POISON)
            if v is POISON:
                self.set(obj, a[0], a[1] if len(a) > 1 else None)
                return self.get(obj, a[0])
            if isinstance(v, Choice):
                raise AnalysisError("__dict__.setdefault")
            return v
        f = {"pop": pop, "get": get, "update": update, "setdefault": setdefault}.get(name)
        if f is None:
            return self.getattr_raw(self.vars_dict(o), name)
        return Builtin("__dict__." + name, f)

    def vars_dict(self, o):
        d = {}
        for (b, n), v in list(self.base.items()) + list(self.ov.items()):
            if b is o.obj and isinstance(n, str):
                d[n] = v
        d = {n: v for n, v in d.items() if v is not UNBOUND}
        if any(isinstance(v, Choice) and unbound_in(v) for v in d.values()) or self.is_list(o.obj):
            raise AnalysisError("__dict__")
        return self.new_dict({("s", n): (n, v) for n, v in d.items()})

    def modelled(self, o, name):
        """an attribute the model of an external class neither has nor knows to be absent"""
        c = o.cls if isinstance(o, PObj) else o
        if name in real_names(o):
            raise AnalysisError("attribute %s of %r is not modelled" % (name, o))
        if isinstance(c, Cls):
            ab = self.cls_lookup(c, "_absent")
            if ab is not None and name not in self.items_of(ab):
                raise AnalysisError("%s.%s is not modelled" % (c.name, name))
        elif isinstance(o, Module) and o.path and len(self.stubdirs) > 1 and o.path.startswith(self.stubdirs[-1]):
            raise AnalysisError("%s.%s is not modelled" % (o.name, name))

    def getattr_raw(self, o, name):
        if isinstance(o, PObj):
            cv = self.cls_lookup(o.cls, name)
            if isinstance(cv, Prop):
                return self.bind(cv, o, o.cls)
            v = self.get(o, name) if name != "v" or not self.is_list(o) else MISS
            if v is not MISS:
                return v
            if cv is not None:
                return self.bind(cv, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return Vars(o)
            ga = self.cls_lookup(o.cls, "__getattr__")
            if ga is not None:
                return self.call(self.bind(ga, o, o.cls), [name], {})
            if self.is_list(o):
                return self.list_attr(o, name)
            return None if self.cls_none(o.cls, name) else MISS
        if isinstance(o, FamObj):
            cv = self.cls_lookup(o.cls, name)
            if isinstance(cv, Prop):
                return self.bind(cv, o, o.cls)
            fv = self.fam_get(o, name)
            if fv is not MISS:
                return fv
            if cv is not None:
                return self.bind(cv, o, o.cls)
            return MISS
        if isinstance(o, Module):
            v = self.mod_attr(o, name)
            return MISS if v is None else v
        if isinstance(o, NS):
            if name in o.table:
                return o.table[name]
            v = o.get(name)
            return MISS if v is None else v
        if isinstance(o, Cls):
            v = self.cls_lookup(o, name)
            if v is not None:
                if isinstance(v, ClassMethod):
                    return Bound(v.func, o)
                if isinstance(v, StaticMethod):
                    return v.func
                return v
            if name == "__name__":
                return o.name
            return None if self.cls_none(o, name) else MISS
        if isinstance(o, Super):
            obj = o.obj
            cls = obj if isinstance(obj, Cls) else obj.cls
            mro = cls.mro
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, ClassMethod):
                        return Bound(v.func, cls)
                    return self.bind(v, obj, cls)
            return MISS
        if isinstance(o, Vars):
            return self.vars_attr(o, name)
        if isinstance(o, (Arr, Snap)):
            return self.npm.arr_attr(self, o, name)
        if isinstance(o, PList):
            return self.list_attr(o, name)
        if isinstance(o, PDict):
            return self.dict_attr(o, name)
        if isinstance(o, str):
            from . import builtin
            return builtin.str_attr(self, o, name)
        if isinstance(o, tuple):
            from . import builtin
            return builtin.tuple_attr(self, o, name)
        if isinstance(o, Node):
            return self.npm.scalar_attr(self, o, name)
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            return MISS
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self
            return MISS
        if isinstance(o, Prop):
            if name == "setter":
                return Builtin("setter", lambda I, a, k: Prop(o.get, a[0]))
            if name == "getter":
                return Builtin("getter", lambda I, a, k: Prop(a[0], o.set))
            return MISS
        if isinstance(o, Slice):
            return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name, MISS)
        if isinstance(o, Dtype):
            if name == "kind":
                return o.kind
            if name == "itemsize":
                return const(8)
            if name == "type":
                return o
            return MISS
        if isinstance(o, Builtin) and name == "__name__":
            return o.name
        if isinstance(o, Range):
            return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name, MISS)
        if hasattr(o, "attr"):
            return o.attr(self, name)
        if o is None or isinstance(o, (bytes,)):
            if isinstance(o, bytes) and name == "decode":
                return Builtin("decode", lambda I, a, k: o.decode())
            return MISS
        raise AnalysisError("attribute %s of %r" % (name, o))

    def setattr_(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork(o, lambda x: self.setattr_(x, name, v))
        if isinstance(o, PObj):
            cv = self.cls_lookup(o.cls, name)
            if isinstance(cv, Prop):
                if cv.set is None:
                    self.throw("AttributeError", "can't set %s" % name)
                self.call(cv.set, [o, v], {})
                return
            self.set(o, name, v)
            return
        if isinstance(o, FamObj):
            cv = self.cls_lookup(o.cls, name)
            if isinstance(cv, Prop):
                if cv.set is None:
                    self.throw("AttributeError", "can't set %s" % name)
                self.call(cv.set, [o, v], {})
                return
            self.fam_set(o, name, v)
            return
        if isinstance(o, Cls):
            self.set(o, name, v)
            return
        if isinstance(o, Module):
            self.set(o, name, v)
            return
        if isinstance(o, (Arr,)):
            return self.npm.arr_setattr(self, o, name, v)
        if isinstance(o, NS):
            self.set(o, name, v)
            o.table = dict(o.table)
            o.table[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if hasattr(o, "setattr"):
            return o.setattr(self, name, v)
        if o is None or isinstance(o, (str, tuple, Node)):
            self.throw("AttributeError", "can't set %s" % name)
        raise AnalysisError("set attribute of %r" % (o,))

    # families

    def fam_cell(self, fam, name):
        c = self.get(fam, name)
        if c is MISS:
            c = self.base.get((fam, name), MISS)
        if c is MISS:
            f = fam.init(name)
            if f is None:
                return MISS
            c = f
            self.base[(fam, name)] = c
        return c

    def fam_get(self, o, name):
        c = self.fam_cell(o.fam, name)
        if c is MISS:
            return MISS
        return c(o.idx)

    def fam_set(self, o, name, v):
        c = self.fam_cell(o.fam, name)
        if isinstance(v, Node) and v.sort != "o" and (c is MISS or isinstance(c, El)):
            if c is MISS:
                c = El(lambda idx: const(0))

            def new(idx, c=c):
                g = TRUE
                for i, j in zip(idx, o.idx):
                    g = T.and_(g, T.eq(i, j))
                return T.ite(g, v, c(idx))
            self.set(o.fam, name, El(new))
            return

        def newv(idx, c=c):
            g = TRUE
            for i, j in zip(idx, o.idx):
                g = T.and_(g, T.eq(i, j))
            return self.jv(g, v, c(idx) if c is not MISS else UNBOUND)
        self.set(o.fam, name, newv)

    # ------------------------------------------------------------ sequences

    def is_list(self, v):
        if isinstance(v, PList):
            return True
        return isinstance(v, PObj) and self.builtins["list"] in v.cls.mro

    def new_list(self, values):
        l = PList()
        self.set(l, "v", tuple(item(v) for v in values))
        return l

    def list_from(self, segs, kind=PList):
        l = kind()
        self.set(l, "v", tuple(segs))
        return l

    def new_dict(self, d):
        p = PDict()
        self.set(p, "v", dict(d))
        return p

    def dict_from(self, pairs):
        return self.new_dict(dict((self.hkey(k), (k, v)) for k, v in pairs))

    def set_from(self, values):
        s = PSet()
        seen, out = {}, []
        for v in values:
            k = self.hkey(v)
            if k not in seen:
                seen[k] = 1
                out.append(v)
        self.set(s, "v", tuple(item(v) for v in out))
        return s

    def set_op(self, op, a, b):
        ka = [(self.hkey(v), v) for v in self.items_of(a)]
        kb = [(self.hkey(v), v) for v in self.items_of(b)]
        da, db = dict(ka), dict(kb)
        if op == "BitOr":
            r = [v for k, v in ka] + [v for k, v in kb if k not in da]
        elif op == "BitAnd":
            r = [v for k, v in ka if k in db]
        elif op == "Sub":
            r = [v for k, v in ka if k not in db]
        elif op == "BitXor":
            r = [v for k, v in ka if k not in db] + [v for k, v in kb if k not in da]
        else:
            raise AnalysisError("set operator")
        return self.set_from(r)

    def hkey(self, v):
        if isinstance(v, Node):
            if v.op == "const":
                if v.x[0] in "irb":
                    x = v.x[1]
                    return ("n", int(x) if x == int(x) else x)
                return ("c",) + tuple(v.x)
            return ("sym", v)
        if isinstance(v, str):
            return ("s", v)
        if isinstance(v, tuple):
            return ("t",) + tuple(self.hkey(x) for x in v)
        if isinstance(v, (PList, PDict, Arr)):
            self.throw("TypeError", "unhashable")
        if isinstance(v, Choice):
            raise NeedConcrete("key")
        return ("id", v)

    def segs_of(self, v):
        """sequence of segments of an iterable"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            a, b = v.a, v.b
            va = self.with_arm(v.c, lambda: self.segs_of(a))
            vb = self.with_arm(T.not_(v.c), lambda: self.segs_of(b))
            return self.jsegs(v.c, tuple(va), tuple(vb))
        if isinstance(v, PIter):
            s = self.get(v, "v")
            self.set(v, "v", ())
            return s
        if isinstance(v, PObj):
            m = self.cls_lookup(v.cls, "__iter__")
            if isinstance(m, Func):
                return self.segs_of(self.call(self.bind(m, v, v.cls), [], {}))
            if self.is_list(v):
                return self.get(v, "v")
            if m is None:
                ln, gi = self.cls_lookup(v.cls, "__len__"), self.cls_lookup(v.cls, "__getitem__")
                if gi is not None and ln is not None:
                    n = self.call(self.bind(ln, v, v.cls), [], {})
                    return (Seg(n, lambda k: self.getitem(v, k)),)
            if m is not None:
                return self.segs_of(self.call(self.bind(m, v, v.cls), [], {}))
            self.throw("TypeError", "not iterable")
        if isinstance(v, PList):
            return self.get(v, "v")
        if isinstance(v, tuple):
            return tuple(item(x) for x in v)
        if isinstance(v, Range):
            n = v.length()
            if T.isconst(n):
                return tuple(item(v.at(const(k))) for k in range(T.cval(n)))
            return (Seg(n, v.at),)
        if isinstance(v, (Arr, Snap)):
            if not v.shape:
                self.throw("TypeError", "iteration over a 0-d array")
            n = v.shape[0]
            if T.isconst(n):
                return tuple(item(self.getitem(v, const(k))) for k in range(T.cval(n)))
            return (Seg(n, lambda k: self.getitem(v, k)),)
        if isinstance(v, str):
            return tuple(item(ch) for ch in v)
        if isinstance(v, PDict):
            return tuple(item(k) for k, _ in self.get(v, "v").values())
        if hasattr(v, "segs"):
            return v.segs(self) if callable(v.segs) else v.segs
        if isinstance(v, Node) and v.sort == "o":
            n = T.call("len", [v], sort="i")
            return (Seg(n, lambda k: T.call("item", [v, k])),)
        if v is None or isinstance(v, (Node, Func, Cls)):
            self.throw("TypeError", "%r is not iterable" % (v,))
        raise AnalysisError("iteration over %r" % (v,))

    def with_arm(self, c, f):
        f0 = self.facts
        self.facts = self.withfact(f0, c)
        try:
            return f()
        finally:
            self.facts = f0

    def items_of(self, v):
        """concrete python list of values"""
        if isinstance(v, tuple):
            return list(v)
        out = []
        for s in self.segs_of(v):
            n = self.conc(s.len)
            if n is None:
                raise NeedConcrete("sequence length %s" % T.show(s.len))
            for k in range(n):
                out.append(s.elem(const(k)))
        return out

    def conc(self, n):
        """concrete value of an integer node under the path facts"""
        if T.isconst(n):
            return int(T.cval(n))
        if n.op == "ite":
            c = self.simplify(n.args[0])
            if c is TRUE:
                return self.conc(n.args[1])
            if c is FALSE:
                return self.conc(n.args[2])
        return None

    def seglen(self, segs):
        n = const(0)
        for s in segs:
            n = T.add(n, s.len)
        return n

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.fork(v, self.length)
        if isinstance(v, (str, bytes, tuple)):
            return const(len(v))
        if isinstance(v, PDict):
            d = self.get(v, "v")
            if any(isinstance(x, Choice) for x in d.values()):
                raise NeedConcrete("dict size")
            return const(len(d))
        if isinstance(v, PObj):
            m = self.cls_lookup(v.cls, "__len__")
            if m is not None and not isinstance(m, Builtin):
                return self.call(self.bind(m, v, v.cls), [], {})
            if self.is_list(v):
                return self.seglen(self.get(v, "v"))
            self.throw("TypeError", "no len()")
        if isinstance(v, PIter):
            self.throw("TypeError", "iterator has no len()")
        if isinstance(v, PList):
            return self.seglen(self.get(v, "v"))
        if isinstance(v, Range):
            return v.length()
        if isinstance(v, (Arr, Snap)):
            if not v.shape:
                self.throw("TypeError", "len() of unsized object")
            return v.shape[0]
        if hasattr(v, "length"):
            return v.length(self)
        if isinstance(v, Node) and v.sort == "o":
            return T.call("len", [v], sort="i")
        self.throw("TypeError", "no len() of %r" % (v,))

    def seq_at(self, segs, k):
        """value at position k (node, non-negative)"""
        k = lift(k)
        if T.isconst(k):
            j = T.cval(k)
            for n, s in enumerate(segs):
                if T.isconst(s.len):
                    if j < T.cval(s.len):
                        return s.elem(const(j))
                    j -= T.cval(s.len)
                else:
                    return self.seq_sym(segs[n:], const(j))
            self.throw("IndexError", "list index out of range")
        return self.seq_sym(segs, k)

    def seq_sym(self, segs, k):
        segs = [s for s in segs if s.len is not const(0)]
        if not segs:
            self.throw("IndexError", "list index out of range")
        out = None
        alts = []
        j = k
        for n, s in enumerate(segs):
            c = T.lt(j, s.len)
            if s.len is const(1):
                c = T.eq(j, const(0))
                alts.append((c, s.elem(const(0))))
            else:
                alts.append((c, s.elem(j)))
            j = T.sub(j, s.len)
        out = alts[-1][1]
        for c, v in reversed(alts[:-1]):
            out = self.jv(self.simplify(c), v, out)
        return out

    def norm_index(self, k, n):
        """python index -> position; node"""
        if not isinstance(k, Node) or k.sort not in "ib":
            if isinstance(k, (Arr, Snap)) and not k.shape:
                k = self.npm.item(self, k)
            if not isinstance(k, Node) or k.sort not in "ib":
                self.throw("TypeError", "list indices must be integers, not %r" % (k,))
        if T.isconst(k):
            j = int(T.cval(k))
            if j < 0:
                if T.isconst(n):
                    if j + T.cval(n) < 0:
                        self.throw("IndexError", "index out of range")
                return T.add(n, const(j))
            if T.isconst(n) and j >= T.cval(n):
                self.throw("IndexError", "index out of range")
            return const(j)
        if nonneg(k):
            return k
        if nonneg(T.neg(k)) or (k.op == "add" and T.isconst(k.args[1]) and T.cval(k.args[1]) < 0 and
                                k.args[0].op == "mul" and nonneg(T.neg(k.args[0]))):
            return T.add(n, k)
        return T.ite(T.lt(k, const(0)), T.add(k, n), k)

    def getitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork(o, lambda x: self.getitem(x, k))
        k = self.resolve(k)
        if isinstance(o, Vars):
            v = self.get(o.obj, k)
            if isinstance(v, Choice) and unbound_in(v):
                return self.fork(v, lambda x: self.throw("KeyError", k) if x is UNBOUND else x)
            return self.throw("KeyError", k) if v is MISS else v
        if isinstance(o, (Arr, Snap)):
            return self.npm.getitem(self, o, k)
        if isinstance(k, Choice):
            return self.fork(k, lambda x: self.getitem(o, x))
        if isinstance(o, PDict):
            d = self.get(o, "v")
            kk = self.hkey(k)
            if kk not in d:
                if kk[0] == "sym" and d:
                    return self.dict_sym(d, k)
                fac = self.get(o, "factory", None) if isinstance(o, PDefault) else None
                if fac is not None:
                    v = self.call(fac, [], {})
                    self.setitem(o, k, v)
                    return v
                self.throw("KeyError", k)
            v = d[kk]
            if isinstance(v, Choice):
                v = self.fork(v, lambda x: self.throw("KeyError", k) if x is UNBOUND else x[1])
                return v
            return v[1]
        if isinstance(o, tuple):
            if isinstance(k, Slice):
                return self.slice_seq(o, k)
            n = const(len(o))
            p = self.norm_index(k, n)
            return self.seq_at(tuple(item(x) for x in o), p)
        if isinstance(o, str):
            if isinstance(k, Slice):
                return o[self.pyslice(k)]
            p = self.norm_index(k, const(len(o)))
            if T.isconst(p):
                return o[T.cval(p)]
            return self.seq_at(tuple(item(c) for c in o), p)
        if isinstance(o, PObj):
            m = self.cls_lookup(o.cls, "__getitem__")
            if isinstance(m, (Func, Builtin)):
                return self.call(self.bind(m, o, o.cls), [k], {})
            if self.is_list(o):
                return self.list_getitem(o, k)
            self.throw("TypeError", "not subscriptable")
        if isinstance(o, PList):
            return self.list_getitem(o, k)
        if isinstance(o, Range):
            if isinstance(k, Slice):
                return self.getitem(self.list_from(self.segs_of(o)), k)
            return o.at(self.norm_index(k, o.length()))
        if hasattr(o, "getitem"):
            return o.getitem(self, k)
        if isinstance(o, Node) and o.sort == "o":
            return T.call("item", [o, self.as_o(k)])
        if isinstance(o, Node):
            return self.npm.getitem(self, self.npm.snap(self, o), k)
        if isinstance(o, Cls):
            return o
        self.throw("TypeError", "%r is not subscriptable" % (o,))

    def dict_sym(self, d, k):
        out = None
        for kk, (kv, v) in d.items():
            c = self.truth(self.compare("Eq", kv, k))
            out = v if out is None else self.jv(c, v, out)
        return out

    def list_getitem(self, o, k):
        segs = self.get(o, "v")
        if isinstance(k, Slice):
            return self.list_from(self.slice_segs(segs, k))
        n = self.seglen(segs)
        p = self.norm_index(k, n)
        return self.seq_at(segs, p)

    def pyslice(self, k):
        f = lambda v: None if v is None else (T.cval(v) if T.isconst(v) else self._nc("slice bound"))
        r = slice(f(k.lo), f(k.hi), f(k.step))
        if r.step == 0:
            self.throw("ValueError", "slice step cannot be zero")
        return r

    def _nc(self, why):
        raise NeedConcrete(why)

    def slice_seq(self, o, k):
        return o[self.pyslice(k)]

    def slice_segs(self, segs, k):
        isc = lambda v: v is None or T.isconst(v)
        if all(T.isconst(s.len) for s in segs) and isc(k.lo) and isc(k.hi) and isc(k.step):
            items = []
            for s in segs:
                for j in range(T.cval(s.len)):
                    items.append(s.elem(const(j)))
            return tuple(item(v) for v in items[self.pyslice(k)])
        n = self.seglen(segs)
        lo, ln, step = self.npm.slice_bounds(self, k, n)
        if len(segs) == 1:
            s = segs[0]
            return (Seg(ln, lambda j: s.elem(T.add(lo, T.mul(const(step), j)))),)
        # whole concrete prefix dropped
        if step == 1 and T.isconst(lo) and k.hi is None:
            j = T.cval(lo)
            segs = list(segs)
            while j and segs and T.isconst(segs[0].len) and T.cval(segs[0].len) <= j:
                j -= T.cval(segs[0].len)
                segs.pop(0)
            if j == 0:
                return tuple(segs)
        if step == 1 and (k.lo is None or (T.isconst(k.lo) and T.cval(k.lo) == 0)) and k.hi is not None:
            out = []
            rem = T.cval(k.hi) if T.isconst(k.hi) else None
            if rem is not None and rem >= 0:
                for s in segs:
                    if rem == 0:
                        return tuple(out)
                    if not T.isconst(s.len) or T.cval(s.len) > rem:
                        break
                    out.append(s)
                    rem -= T.cval(s.len)
                if rem == 0:
                    return tuple(out)
            if rem is not None and rem < 0:
                segs2 = list(segs)
                while rem and segs2 and T.isconst(segs2[-1].len) and T.cval(segs2[-1].len) <= -rem:
                    rem += T.cval(segs2[-1].len)
                    segs2.pop()
                if rem == 0:
                    return tuple(segs2)
        return (Seg(ln, lambda j: self.seq_at(segs, T.add(lo, T.mul(const(step), j)))),)

    def setitem(self, o, k, v):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.fork(o, lambda x: self.setitem(x, k, v))
        if isinstance(o, Vars):
            return self.set(o.obj, self.resolve(k), v)
        if isinstance(o, Arr):
            return self.npm.setitem(self, o, k, v)
        k = self.resolve(k)
        if isinstance(k, Choice):
            return self.fork(k, lambda x: self.setitem(o, x, v))
        if isinstance(o, PDict) or (isinstance(o, PObj) and isinstance(self.get(o, "v", None), dict)):
            d = dict(self.get(o, "v"))
            d[self.hkey(k)] = (k, v)
            self.set(o, "v", d)
            return
        if isinstance(o, PObj):
            m = self.cls_lookup(o.cls, "__setitem__")
            if m is not None and not isinstance(m, Builtin):
                self.call(self.bind(m, o, o.cls), [k, v], {})
                return
        if self.is_list(o):
            segs = self.get(o, "v")
            if isinstance(k, Slice):
                if all(T.isconst(s.len) for s in segs):
                    items = self.items_of(self.list_from(segs))
                    items[self.pyslice(k)] = self.items_of(v)
                    self.set(o, "v", tuple(item(x) for x in items))
                    return
                if k.lo is None and k.hi is None and k.step is None:
                    self.set(o, "v", tuple(self.segs_of(v)))
                    return
                raise NeedConcrete("slice assignment")
            n = self.seglen(segs)
            p = self.norm_index(k, n)
            out = []
            off = const(0)
            for s in segs:
                j = T.sub(p, off)
                if T.isconst(s.len) and T.isconst(j):
                    L, jj = T.cval(s.len), T.cval(j)
                    if 0 <= jj < L:
                        if L == 1:
                            out.append(item(v))
                        else:
                            out.append(Seg(s.len, self._upd(s.elem, j, v)))
                    else:
                        out.append(s)
                elif s.len is const(1):
                    out.append(item(self.jv(self.simplify(T.eq(j, const(0))), v, s.elem(const(0)))))
                else:
                    out.append(Seg(s.len, self._upd(s.elem, j, v)))
                off = T.add(off, s.len)
            self.set(o, "v", tuple(out))
            return
        if hasattr(o, "setitem"):
            return o.setitem(self, k, v)
        self.throw("TypeError", "%r does not support item assignment" % (o,))

    def _upd(self, elem, j, v):
        return lambda k: self.jv(T.eq(k, j), v, elem(k))

    def delitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, Vars):
            self.getitem(o, k)
            return self.set(o.obj, self.resolve(k), UNBOUND)
        if isinstance(o, PDict):
            d = dict(self.get(o, "v"))
            kk = self.hkey(k)
            if kk not in d:
                self.throw("KeyError", k)
            del d[kk]
            self.set(o, "v", d)
            return
        if self.is_list(o):
            items = self.items_of(self.list_from(self.get(o, "v")))
            if isinstance(k, Slice):
                del items[self.pyslice(k)]
            else:
                p = self.norm_index(k, const(len(items)))
                if not T.isconst(p):
                    raise NeedConcrete("del index")
                del items[T.cval(p)]
            self.set(o, "v", tuple(item(x) for x in items))
            return
        raise AnalysisError("del item of %r" % (o,))

    def list_append(self, l, v):
        self.set(l, "v", self.get(l, "v") + (item(v),))

    def list_extend(self, l, v):
        segs = tuple(self.segs_of(v))
        self.set(l, "v", self.get(l, "v") + segs)

    def list_attr(self, o, name):
        from . import builtin
        return builtin.list_attr(self, o, name)

    def dict_attr(self, o, name):
        from . import builtin
        return builtin.dict_attr(self, o, name)

    # ------------------------------------------------------------ misc

    def as_o(self, v):
        """a node that identifies the (immutable view of the) value"""
        v = self.resolve(v)
        if isinstance(v, Node):
            return v
        if v is None or isinstance(v, (str, bytes)):
            return const(v)
        if isinstance(v, tuple):
            return T.call("tuple", [self.as_o(x) for x in v])
        if isinstance(v, Choice):
            return T.ite(v.c, self.as_o(v.a), self.as_o(v.b))
        if isinstance(v, (Arr, Snap)):
            return self.npm.pack(self, v)
        if isinstance(v, PDict):
            out = []
            for k, x in self.get(v, "v").values():
                out += [self.as_o(k), self.as_o(x)]
            return T.call("dict", out)
        if isinstance(v, (PList, Range)) or self.is_list(v):
            segs = self.get(v, "v") if not isinstance(v, Range) else self.segs_of(v)
            if all(T.isconst(s.len) for s in segs):
                out = []
                for s in segs:
                    for k in range(T.cval(s.len)):
                        out.append(self.as_o(s.elem(const(k))))
                return T.call("list", out)
            var = T.var()
            body = self.as_o(self.seq_at(segs, var))
            return T.packnode(T.Packed((self.seglen(segs),), (var,), body))
        if isinstance(v, FamObj):
            return T.call("fam:" + v.fam.name, list(v.idx))
        if isinstance(v, Slice):
            return T.call("slice", [self.as_o(v.lo), self.as_o(v.hi), self.as_o(v.step)])
        if isinstance(v, Dtype):
            return const("dtype:" + v.kind)
        if hasattr(v, "as_o"):
            return v.as_o(self)
        return const("id:%s" % ident(v))

    def fmt_mod(self, a, b):
        a = self.resolve(a)
        b = self.resolve(b)
        if isinstance(a, Node) and a.op == "const" and isinstance(a.x[1], str):
            a = a.x[1]
        args = b if isinstance(b, tuple) else (b,)
        args = [self.resolve(x) for x in args]
        if isinstance(a, str) and all(self.pyval(x) is not MISS for x in args):
            try:
                return a % tuple(self.pyval(x) for x in args)
            except TypeError as e:
                self.throw("TypeError", str(e))
        if not isinstance(a, str) or isinstance(b, PDict):
            return T.call("fmt", [self.as_o(a)] + [self.as_o(x) for x in args])
        parts, k, pos = [], 0, 0
        for m in PCT.finditer(a):
            parts.append(a[pos:m.start()])
            pos = m.end()
            flags, width, prec, conv = m.group(2), m.group(3), m.group(4), m.group(6)
            if m.group(1) is not None or "*" in (width or "") + (prec or ""):
                return T.call("fmt", [self.as_o(a)] + [self.as_o(x) for x in args])
            if conv == "%":
                parts.append("%")
                continue
            if k >= len(args):
                self.throw("TypeError", "not enough arguments for format string")
            spec = (width or "") + (prec or "")
            if conv in "sra":
                spec = ("!" + conv if conv != "s" else "") + (("<" if "-" in flags else ">") + width if width else "") + (prec or "")
            else:
                spec = ("<" if "-" in flags else "") + flags.replace("-", "") + spec + ("d" if conv in "iu" else conv)
            parts.append(self.piece(spec, args[k]))
            k += 1
        parts.append(a[pos:])
        if k < len(args):
            self.throw("TypeError", "not all arguments converted during string formatting")
        return self.strcat(parts)

    def piece(self, spec, v):
        """the text of a value: a string or a node"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.as_o(v) if not spec else T.call("fmt1", [const(spec), self.as_o(v)])
        p = self.pyval(v)
        if p is not MISS:
            conv, sp = (spec[1], spec[2:]) if spec[:1] == "!" else ("", spec)
            try:
                return format(repr(p) if conv == "r" else ascii(p) if conv == "a" else str(p) if conv == "s" else p, sp)
            except (TypeError, ValueError) as e:
                self.throw(type(e).__name__, str(e))
        if spec in ("", "!s") and isinstance(v, Node) and v.sort == "o" and v.op == "call" and v.x[0] in ("cat", "fmt1"):
            return v
        return T.call("fmt1", [const("" if spec == "!s" else spec), self.as_o(v)])

    def strcat(self, parts):
        out = []
        for p in parts:
            q = list(p.args) if isinstance(p, Node) and p.op == "call" and p.x[0] == "cat" else [p]
            for x in q:
                if isinstance(x, Node) and x.op == "const" and x.sort == "o" and isinstance(x.x[1], str):
                    x = x.x[1]
                if isinstance(x, str):
                    if not x:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += x
                        continue
                out.append(x)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return T.call("cat", [const(x) if isinstance(x, str) else x for x in out])

    def format_(self, v, spec=""):
        if isinstance(spec, Node) and spec.op == "const" and isinstance(spec.x[1], str):
            spec = spec.x[1]
        if not isinstance(spec, str):
            return T.call("format", [self.as_o(v), self.as_o(spec)])
        return self.piece(spec, v)

    def pyval(self, v):
        """python value of a fully concrete value, or MISS"""
        if isinstance(v, str) or v is None:
            return v
        if isinstance(v, Node):
            if T.isconst(v):
                x = T.cval(v)
                return float(x) if v.sort == "r" else x
            if v.op == "const" and v.x[0] == "o":
                return v.x[1]
            return MISS
        if isinstance(v, tuple):
            t = tuple(self.pyval(x) for x in v)
            return MISS if MISS in t else t
        return MISS


class _CompFunc(object):
    name = "<comprehension>"
    cls = None
    locals = ()


CompFunc = _CompFunc()


class ClassParent(object):
    """parent of a module level class body frame: falls to the module"""

    def __init__(self, module):
        self.module = module
        self.func = None
        self.parent = None
        self.captured = True
        self.locals = ()
        self.globals = set()
        self.isclass = False

    def __bool__(self):
        return True


_ids = {}


def ident(v):
    if isinstance(v, Func):
        return "func:%s.%s" % (v.module.name, v.name)
    if isinstance(v, Cls):
        return "cls:%s" % v.name
    if isinstance(v, Module):
        return "mod:%s" % v.name
    if isinstance(v, Builtin):
        return "builtin:%s" % v.name
    if isinstance(v, Bound):
        return "bound:%s:%s" % (ident(v.func), ident(v.self))
    return _ids.setdefault(id(v), (len(_ids), v))[0]


OPNAMES = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv",
           "Mod": "mod", "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or",
           "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}


def is01(n):
    if n.op == "ite":
        return all(T.isconst(a) and T.cval(a) in (0, 1) for a in n.args[1:]) or \
            all((T.isconst(a) and T.cval(a) in (0, 1)) or is01(a) for a in n.args[1:])
    return False


def underlying(v):
    if isinstance(v, Func):
        return [v]
    if isinstance(v, (ClassMethod, StaticMethod)):
        return underlying(v.func)
    if isinstance(v, Prop):
        return underlying(v.get) + (underlying(v.set) if v.set else [])
    return []


def target_names(t):
    return set(n.id for n in ast.walk(t) if isinstance(n, ast.Name))


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                          ast.ListComp, ast.SetComp, ast.DictComp)):
            if isinstance(n, (ast.FunctionDef,)):
                continue
            if isinstance(n, (ast.Lambda, ast.ClassDef)):
                continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def scope_names(node):
    loc, gl, nl = set(), set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x is not None:
            loc.add(x.arg)
    body = node.body if isinstance(node.body, list) else [node.body]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    loc.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, ast.Global):
            gl.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                loc.add((x.asname or x.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    loc -= gl
    loc -= nl
    return loc, gl, nl

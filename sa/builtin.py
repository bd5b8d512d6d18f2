"""Transfer functions of the Python builtins and small stdlib modules."""
from __future__ import annotations
import string
from fractions import Fraction
from . import terms as T
from .terms import Node, const, lift, TRUE, FALSE
from .values import *
from .values import UNBOUND, POISON, NOTIMPL, nonneg

MISS = None


def install(I):
    global MISS
    from . import interp
    MISS = interp.MISS
    B = I.builtins

    def reg(name):
        def d(f):
            B[name] = Builtin(name, f)
            return f
        return d

    obj = Cls("object", (), {})
    obj.ns = {"__init__": Builtin("object.__init__", lambda I, a, k: None),
              "__setattr__": Builtin("object.__setattr__", lambda I, a, k: I.setattr_(a[0], a[1], a[2]))}
    obj.native = lambda I, cls, a, k: PObj(cls)
    obj.objlike = True
    B["object"] = obj

    # ---- exceptions
    def exc(name, base):
        c = Cls(name, (base,), {})
        c.native = None
        B[name] = c
        return c
    be = Cls("BaseException", (obj,), {"__init__": Builtin("exc.__init__", exc_init)})
    B["BaseException"] = be
    e = exc("Exception", be)
    exc("KeyboardInterrupt", be)
    exc("SystemExit", be)
    exc("GeneratorExit", be)
    for n in ("ArithmeticError", "AssertionError", "AttributeError", "EOFError", "ImportError",
              "LookupError", "NameError", "OSError", "RuntimeError", "StopIteration", "TypeError",
              "ValueError", "Warning", "MemoryError", "BufferError"):
        exc(n, e)
    exc("ZeroDivisionError", B["ArithmeticError"])
    exc("OverflowError", B["ArithmeticError"])
    exc("FloatingPointError", B["ArithmeticError"])
    exc("IndexError", B["LookupError"])
    exc("KeyError", B["LookupError"])
    exc("UnboundLocalError", B["NameError"])
    exc("NotImplementedError", B["RuntimeError"])
    exc("RecursionError", B["RuntimeError"])
    exc("UnicodeDecodeError", B["ValueError"])
    exc("UnicodeEncodeError", B["ValueError"])
    exc("ModuleNotFoundError", B["ImportError"])
    B["IOError"] = B["OSError"]
    for n in ("DeprecationWarning", "UserWarning", "RuntimeWarning", "ImportWarning", "FutureWarning"):
        exc(n, B["Warning"])

    # ---- types
    def typ(name, ctor, bases=(obj,), ns=None, objlike=False):
        c = Cls(name, bases, ns or {})
        c.native = lambda I, cls, a, k: ctor(I, a, k)
        c.objlike = objlike
        B[name] = c
        return c
    typ("int", int_)
    typ("float", float_)
    typ("complex", complex_)
    typ("bool", lambda I, a, k: I.truth(a[0]) if a else FALSE, (B["int"],))
    typ("str", str_)
    typ("bytes", lambda I, a, k: a[0] if a else b"")
    typ("tuple", lambda I, a, k: tuple(I.items_of(a[0])) if a else ())
    typ("list", lambda I, a, k: I.list_from(I.segs_of(a[0]) if a else ()), ns=list_ns(), objlike=True)
    typ("dict", dict_, ns={"__init__": Builtin("dict.__init__", dict_init)}, objlike=True)
    typ("set", lambda I, a, k: I.set_from(I.items_of(a[0]) if a else []))
    typ("frozenset", lambda I, a, k: I.set_from(I.items_of(a[0]) if a else []))
    typ("slice", lambda I, a, k: Slice(*((None, a[0], None) if len(a) == 1 else (tuple(a) + (None,))[:3])))
    typ("range", range_)
    typ("type", type_)
    B["property"] = Builtin("property", lambda I, a, k: Prop(a[0] if a else None, a[1] if len(a) > 1 else None))
    B["staticmethod"] = Builtin("staticmethod", lambda I, a, k: StaticMethod(a[0]))
    B["classmethod"] = Builtin("classmethod", lambda I, a, k: ClassMethod(a[0]))
    B["NotImplemented"] = NOTIMPL
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "__analysed__"
    B["__debug__"] = TRUE

    @reg("len")
    def _(I, a, k):
        return I.length(a[0])

    @reg("enumerate")
    def _(I, a, k):
        start = lift(a[1] if len(a) > 1 else k.get("start", const(0)))
        out, off = [], start
        for s in I.segs_of(a[0]):
            out.append(Seg(s.len, (lambda s, off: lambda j: (T.add(off, j), s.elem(j)))(s, off)))
            off = T.add(off, s.len)
        return I.list_from(out, interp.PIter)

    @reg("zip")
    def _(I, a, k):
        return I.list_from(zip_segs(I, a), interp.PIter)

    @reg("map")
    def _(I, a, k):
        f = a[0]
        segs = zip_segs(I, a[1:])
        out = interp.PIter()
        I.set(out, "v", ())
        I.loop_segs(segs, lambda v: setattr(I, "_map", v) or I.list_append(out, I.call(f, list(v), {})), lambda: None)
        return out

    @reg("filter")
    def _(I, a, k):
        f = a[0]
        out = interp.PIter()
        I.set(out, "v", ())

        def body(v):
            c = I.truth(v if f is None else I.call(f, [v], {}))
            I.branch(c, lambda: I.list_append(out, v), lambda: None)
        I.loop_segs(I.segs_of(a[0 + 1]), body, lambda: None)
        return out

    @reg("sum")
    def _(I, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", const(0))
        segs = I.segs_of(a[0])
        fr = Frame(None, I.frame.module)
        cell = interp.PIter()
        I.set(cell, "acc", acc)
        I.loop_segs(segs, lambda v: I.set(cell, "acc", I.binop("Add", I.get(cell, "acc"), v)), lambda: None)
        return I.get(cell, "acc")

    def minmax(name):
        def f(I, a, k):
            key = k.get("key")
            segs = I.segs_of(a[0]) if len(a) == 1 else tuple(item(x) for x in a)
            if len(segs) == 0:
                if "default" in k:
                    return k["default"]
                I.throw("ValueError", "empty sequence")
            if key is None and all(T.isconst(s.len) for s in segs):
                items = []
                for s in segs:
                    for j in range(T.cval(s.len)):
                        items.append(I.resolve(s.elem(const(j))))
                items = [I.npm.item(I, x) if isinstance(x, (Arr, Snap)) and not x.shape else x for x in items]
                if items and all(isinstance(x, Node) and x.sort in "irb" for x in items):
                    r = items[0]
                    for x in items[1:]:
                        r = T.fn(name, r, x)
                    return r
                if items and all(isinstance(x, str) for x in items):
                    return (min if name == "min" else max)(items)
                if not items:
                    I.throw("ValueError", "empty sequence")
                best = items[0]
                for x in items[1:]:
                    c = I.truth(I.compare("Lt" if name == "min" else "Gt", x, best))
                    best = I.jv(c, x, best)
                return best
            if key is None and len(segs) == 1:
                v = T.var()
                e = segs[0].elem(v)
                if isinstance(e, Node):
                    return I.npm.reduce_node(I, name, Snap((segs[0].len,), lambda idx: T.let(v, idx[0], e), "f"))
            if key is not None and all(T.isconst(s.len) for s in segs):
                items = I.items_of(I.list_from(segs))
                best, bk = items[0], I.call(key, [items[0]], {})
                for x in items[1:]:
                    xk = I.call(key, [x], {})
                    c = I.simplify(I.truth(I.compare("Lt" if name == "min" else "Gt", xk, bk)))
                    best, bk = I.jv(c, x, best), I.jv(c, xk, bk)
                return best
            raise NeedConcrete(name)
        return f
    B["min"] = Builtin("min", minmax("min"))
    B["max"] = Builtin("max", minmax("max"))

    @reg("abs")
    def _(I, a, k):
        return I.fork(a[0], lambda v: abs_(I, v))

    @reg("sorted")
    def _(I, a, k):
        return sort_values(I, I.segs_of(a[0]), k)

    @reg("reversed")
    def _(I, a, k):
        segs = I.segs_of(a[0])
        out = []
        for s in reversed(segs):
            out.append(Seg(s.len, (lambda s: lambda j: s.elem(T.sub(T.sub(s.len, const(1)), j)))(s)))
        return I.list_from(out, interp.PIter)

    @reg("isinstance")
    def _(I, a, k):
        return I.fork(a[0], lambda v: isinstance_(I, v, a[1]))

    @reg("issubclass")
    def _(I, a, k):
        t = a[1] if isinstance(a[1], tuple) else (a[1],)
        return const(any(I.is_subclass(a[0], x) for x in t))

    @reg("callable")
    def _(I, a, k):
        v = I.resolve(a[0])
        return const(isinstance(v, (Func, Builtin, Bound, Cls)) or
                     (isinstance(v, PObj) and I.cls_lookup(v.cls, "__call__") is not None) or hasattr(v, "call"))

    @reg("__unsupported__")
    def _(I, a, k):
        raise AnalysisError("%s is not modelled" % (a[0],))

    @reg("hasattr")
    def _(I, a, k):
        def go(o):
            I.raises.append([])
            try:
                v = I.getattr_raw(o, a[1])
                if v is MISS:
                    I.modelled(o, a[1])
            except interp.Dead:
                v = MISS
            finally:
                I.raises.pop()
            if isinstance(v, Choice):
                return I.fork(v, lambda x: const(x is not UNBOUND))
            return const(v is not MISS)
        return I.fork(a[0], go)

    @reg("getattr")
    def _(I, a, k):
        name = I.resolve(a[1])
        if isinstance(name, Choice):
            return I.fork(name, lambda n: I.getattr_(a[0], n, *a[2:3]))
        if not isinstance(name, str):
            raise NeedConcrete("getattr with a symbolic name")
        return I.getattr_(a[0], name, *a[2:3])

    @reg("setattr")
    def _(I, a, k):
        if not isinstance(a[1], str):
            raise NeedConcrete("setattr with a symbolic name")
        I.setattr_(a[0], a[1], a[2])

    @reg("delattr")
    def _(I, a, k):
        I.set(a[0], a[1], UNBOUND)

    @reg("print")
    def _(I, a, k):
        h = getattr(I, "on_print", None)
        if h is not None:
            h(a, k)

    @reg("iter")
    def _(I, a, k):
        if isinstance(a[0], interp.PIter):
            return a[0]
        return I.list_from(I.segs_of(a[0]), interp.PIter)

    @reg("next")
    def _(I, a, k):
        it = I.resolve(a[0])
        if isinstance(it, (interp.Count, interp.Cycle)):
            p = I.get(it, "pos", const(0))
            I.set(it, "pos", T.add(p, const(1)))
            if isinstance(it, interp.Count):
                return T.add(it.lo, T.mul(p, it.step))
            vs = I.items_of(I.list_from(it.segs))
            if not vs:
                I.throw("StopIteration")
            return I.getitem(tuple(vs), T.mod(p, const(len(vs))))
        segs = I.get(it, "v")
        segs = tuple(s for s in segs if s.len is not const(0))
        if not segs:
            if len(a) > 1:
                return a[1]
            I.throw("StopIteration")
        s = segs[0]
        if s.len is const(1):
            I.set(it, "v", segs[1:])
            return s.elem(const(0))
        if T.isconst(s.len):
            I.set(it, "v", (Seg(T.sub(s.len, const(1)), lambda j: s.elem(T.add(j, const(1)))),) + segs[1:])
            return s.elem(const(0))
        raise NeedConcrete("next")

    @reg("any")
    def _(I, a, k):
        return anyall(I, a[0], "any")

    @reg("all")
    def _(I, a, k):
        return anyall(I, a[0], "all")

    @reg("round")
    def _(I, a, k):
        v = a[0]
        if isinstance(v, Node) and T.isconst(v) and len(a) == 1:
            return const(round(T.cval(v)))
        if isinstance(v, Node) and T.isconst(v):
            return const(Fraction(round(T.cval(v), T.cval(a[1]))))
        if isinstance(v, (Arr, Snap)):
            return I.npm.call_np(I, "round", a, k)
        return T.fn("round", v, *a[1:], sort="i" if len(a) == 1 else "r")

    @reg("repr")
    def _(I, a, k):
        return I.format_(a[0])

    @reg("format")
    def _(I, a, k):
        return I.format_(a[0], a[1] if len(a) > 1 else "")

    @reg("divmod")
    def _(I, a, k):
        return (I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1]))

    @reg("pow")
    def _(I, a, k):
        return I.binop("Pow", a[0], a[1])

    @reg("id")
    def _(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, (Arr, PList, PDict, PObj, Func, Cls, Module)):
            d = I.__dict__.setdefault("idents", {})
            if id(v) not in d:
                d[id(v)] = (const(140000000000000 + 64*len(d)), v)
            return d[id(v)][0]
        return I.as_o(v)

    @reg("hash")
    def _(I, a, k):
        return T.call("hash", [I.as_o(a[0])], sort="i")

    @reg("ord")
    def _(I, a, k):
        return const(ord(a[0]))

    @reg("chr")
    def _(I, a, k):
        return chr(T.cval(a[0]))

    @reg("vars")
    def _(I, a, k):
        if len(a) == 1 and isinstance(I.resolve(a[0]), PObj):
            return Vars(I.resolve(a[0]))
        raise AnalysisError("vars")

    @reg("open")
    def _(I, a, k):
        return T.call("open", [I.as_o(x) for x in a])

    @reg("eval")
    def _(I, a, k):
        import ast
        src = I.resolve(a[0])
        if isinstance(src, Choice):
            return I.fork(src, lambda s: I.eval(ast.parse(s, mode="eval").body))
        if isinstance(src, str):
            return I.eval(ast.parse(src, mode="eval").body)
        raise NeedConcrete("eval of a symbolic string")

    @reg("super")
    def _(I, a, k):
        if not a:
            return I.super0()
        return Super(a[0], a[1])

    I.externs.update(stdlib(I))


def exc_init(I, a, k):
    I.set(a[0], "args", tuple(a[1:]))


def abs_(I, v):
    if isinstance(v, Node):
        return T.fn("abs", v)
    if isinstance(v, (Arr, Snap)):
        return I.npm.call_np(I, "absolute", [v], {})
    if isinstance(v, PObj):
        m = I.cls_lookup(v.cls, "__abs__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [], {})
    if hasattr(v, "abs"):
        return v.abs(I)
    I.throw("TypeError", "abs")


def anyall(I, v, kind):
    r = FALSE if kind == "any" else TRUE
    for s in I.segs_of(v):
        if T.isconst(s.len):
            for j in range(T.cval(s.len)):
                c = I.truth(s.elem(const(j)))
                r = T.or_(r, c) if kind == "any" else T.and_(r, c)
        else:
            x = T.var()
            q = T.quant(kind, x, s.len, I.truth(s.elem(x)))
            r = T.or_(r, q) if kind == "any" else T.and_(r, q)
    return r


def zip_segs(I, seqs):
    from . import interp
    ss = []
    for a in seqs:
        a = I.resolve(a)
        if isinstance(a, (interp.Cycle, interp.Count)):
            ss.append(a)
        else:
            ss.append(tuple(I.segs_of(a)))
    if not ss:
        return ()
    fin = [s for s in ss if isinstance(s, tuple)]
    if not fin:
        raise AnalysisError("zip of infinite sequences")

    def at(s, j):
        if isinstance(s, interp.Cycle):
            n = I.seglen(s.segs)
            return I.seq_at(s.segs, T.mod(j, n))
        if isinstance(s, interp.Count):
            return T.add(s.lo, T.mul(s.step, j))
        return I.seq_at(s, j)
    if all(all(T.isconst(x.len) for x in s) for s in fin):
        n = min(sum(T.cval(x.len) for x in s) for s in fin)
        return tuple(item(tuple(at(s, const(j)) for s in ss)) for j in range(n))
    # one common segmentation?
    m = len(fin[0])
    if all(len(s) == m for s in fin) and all(
            all(T.same_dim(s[i].len, fin[0][i].len) for s in fin) for i in range(m)) and len(fin) == len(ss):
        return tuple(Seg(fin[0][i].len, (lambda i: lambda j: tuple(s[i].elem(j) for s in ss))(i)) for i in range(m))
    n = I.seglen(fin[0])
    for s in fin[1:]:
        k = I.seglen(s)
        if not T.same_dim(n, k):
            n = T.fn("min", n, k)
    return (Seg(n, lambda j: tuple(at(s, j) for s in ss)),)


def sort_values(I, segs, k):
    key = k.get("key")
    rev = "reverse" in k and I.simplify(I.truth(k["reverse"])) is TRUE
    if all(T.isconst(s.len) for s in segs):
        items = [I.resolve(v) for v in I.items_of(I.list_from(segs))]
        keys = [I.call(key, [v], {}) for v in items] if key is not None else items
        pv = [I.pyval(x) for x in keys]
        if all(p is not MISS for p in pv):
            try:
                order = sorted(range(len(items)), key=lambda i: pv[i], reverse=rev)
            except TypeError:
                I.throw("TypeError", "unorderable")
            return I.new_list([items[i] for i in order])
        # sorting network (insertion), stable
        pairs = list(zip(keys, items))
        for i in range(1, len(pairs)):
            for j in range(i, 0, -1):
                (ka, va), (kb, vb) = pairs[j - 1], pairs[j]
                c = I.simplify(I.truth(I.compare("Gt" if rev else "Lt", kb, ka)))
                pairs[j - 1] = (I.jv(c, kb, ka), I.jv(c, vb, va))
                pairs[j] = (I.jv(c, ka, kb), I.jv(c, va, vb))
        return I.new_list([v for _, v in pairs])
    if key is None and len(segs) == 1:
        x = T.var()
        e = segs[0].elem(x)
        if isinstance(e, Node) and e.sort in "ir":
            s = I.npm.sort_snap(I, Snap((segs[0].len,), lambda idx: T.let(x, idx[0], e), "f"))
            if rev:
                n = segs[0].len
                return I.list_from((Seg(n, lambda j: s(T.sub(T.sub(n, const(1)), j))),))
            return I.list_from((Seg(segs[0].len, lambda j: s(j)),))
    raise NeedConcrete("sorted")


def isinstance_(I, v, t):
    t = I.resolve(t)
    if isinstance(t, tuple):
        r = FALSE
        for x in t:
            r = T.or_(r, isinstance_(I, v, x))
        return r
    B = I.builtins
    if isinstance(t, Cls):
        c = class_of(I, v)
        if c is None:
            return FALSE
        if isinstance(v, Node) and v.sort == "o" and v.op != "const":
            return T.call("isinstance", [v, const(t.name)], sort="b")
        return const(t in c.mro)
    if isinstance(t, NS) and t.name == "ndarray":
        return const(isinstance(v, (Arr, Snap)) and True)
    if isinstance(t, Dtype):
        return const(isinstance(v, Node) and v.sort == {"f": "r", "i": "i", "b": "b"}.get(t.kind))
    if hasattr(t, "isinstance"):
        return const(bool(t.isinstance(v)))
    if hasattr(v, "isa"):
        return const(bool(v.isa(t)))
    return FALSE


def class_of(I, v):
    B = I.builtins
    if isinstance(v, Node):
        if v.sort == "o":
            if v.op == "const" and isinstance(v.x[1], str):
                return B["str"]
            return B["object"]
        return {"i": B["int"], "r": B["float"], "b": B["bool"]}[v.sort]
    if isinstance(v, str):
        return B["str"]
    if isinstance(v, bytes):
        return B["bytes"]
    if isinstance(v, tuple):
        return B["tuple"]
    if isinstance(v, PSet):
        return B["set"]
    if type(v) is PList:
        return B["list"]
    if isinstance(v, PList):
        return B["object"]
    if isinstance(v, PDict):
        return B["dict"]
    if isinstance(v, (PObj, FamObj)):
        return v.cls
    if isinstance(v, Range):
        return B["range"]
    if isinstance(v, Slice):
        return B["slice"]
    if isinstance(v, Cls):
        return B["type"]
    if isinstance(v, (Arr, Snap)):
        return I.npm.NP["ndarray"]
    return None


def type_(I, a, k):
    if len(a) == 3:
        return Cls(a[0], a[1] or (I.builtins["object"],), dict((kv, v) for kv, v in I.get(a[2], "v").values()))
    v = I.resolve(a[0])
    if isinstance(v, Choice):
        return I.fork(v, lambda x: type_(I, [x], k))
    c = class_of(I, v)
    if c is None:
        if isinstance(v, (Arr, Snap)):
            return I.npm.NP["ndarray"]
        if v is None:
            return const("NoneType")
        return T.call("type", [I.as_o(v)])
    return c


def int_(I, a, k):
    if not a:
        return const(0)
    v = I.resolve(a[0])
    if isinstance(v, Choice):
        return I.fork(v, lambda x: int_(I, [x] + list(a[1:]), k))
    if isinstance(v, (Arr, Snap)):
        v = I.npm.item(I, v)
    if isinstance(v, str):
        try:
            return const(int(v))
        except ValueError:
            I.throw("ValueError", "int")
    if isinstance(v, Node):
        if T.isconst(v):
            return const(int(T.cval(v)))
        if v.op == "const":
            I.throw("OverflowError", "int of infinity")
        if v.sort == "i":
            return v
        if v.sort == "b":
            return T.ite(v, const(1), const(0))
        if v.sort == "o":
            return T.call("int", [v], sort="i")
        if v.op == "toreal":
            return v.args[0]
        return T.fn("int", v, sort="i")
    if isinstance(v, PObj):
        m = I.cls_lookup(v.cls, "__int__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [], {})
    I.throw("TypeError", "int() of %r" % (v,))


def float_(I, a, k):
    if not a:
        return const(Fraction(0))
    v = I.resolve(a[0])
    if isinstance(v, Choice):
        return I.fork(v, lambda x: float_(I, [x], k))
    if isinstance(v, (Arr, Snap)):
        v = I.npm.item(I, v)
    if isinstance(v, str):
        try:
            return const(float(v))
        except ValueError:
            I.throw("ValueError", "float")
    if isinstance(v, Node):
        if v.sort == "o":
            return T.call("float", [v], sort="r")
        return T.to_real(v)
    if isinstance(v, PObj):
        m = I.cls_lookup(v.cls, "__float__")
        if m is not None:
            return I.call(I.bind(m, v, v.cls), [], {})
    I.throw("TypeError", "float() of %r" % (v,))


def complex_(I, a, k):
    if not a:
        return const(Fraction(0))
    v = I.resolve(a[0])
    if isinstance(v, (Arr, Snap)):
        v = I.npm.item(I, v)
    r = T.to_real(v)
    if len(a) > 1:
        r = T.add(r, T.mul(T.I, T.to_real(a[1])))
    return r


def str_(I, a, k):
    if not a:
        return ""
    v = I.resolve(a[0])
    if isinstance(v, str):
        return v
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, PObj):
        m = I.cls_lookup(v.cls, "__str__") or I.cls_lookup(v.cls, "__repr__")
        if m is not None and not isinstance(m, Builtin):
            return I.call(I.bind(m, v, v.cls), [], {})
    if isinstance(v, Node) and v.sort == "o":
        return v
    p = I.pyval(v)
    if p is not MISS:
        return str(p)
    return I.piece("", v)


def range_(I, a, k):
    a = [I.npm.item(I, x) if isinstance(x, (Arr, Snap)) else I.resolve(x) for x in a]
    for x in a:
        if not isinstance(x, Node) or x.sort == "r":
            I.throw("TypeError", "range() of %r" % (x,))
    if len(a) == 1:
        return Range(const(0), a[0], const(1))
    return Range(a[0], a[1], a[2] if len(a) > 2 else const(1))


def dict_(I, a, k):
    d = {}
    if a:
        v = I.resolve(a[0])
        if isinstance(v, PDict):
            d.update(I.get(v, "v"))
        else:
            for x in I.items_of(v):
                kv, vv = I.unpacked(x, 2, False)
                d[I.hkey(kv)] = (kv, vv)
    for kk, v in k.items():
        d[("s", kk)] = (kk, v)
    return I.new_dict(d)


def dict_init(I, a, k):
    I.set(a[0], "v", I.get(dict_(I, a[1:], k), "v"))


def list_ns():
    def m(name):
        def f(I, a, k):
            return list_method(I, a[0], name, a[1:], k)
        return Builtin("list." + name, f)
    ns = dict((n, m(n)) for n in LIST_METHODS)

    def init(I, a, k):
        if k:
            I.throw("TypeError", "list() takes no keyword arguments")
        I.set(a[0], "v", tuple(I.segs_of(a[1])) if len(a) > 1 else ())
    ns["__init__"] = Builtin("list.__init__", init)
    ns["__getitem__"] = Builtin("list.__getitem__", list_getitem)
    ns["__setitem__"] = Builtin("list.__setitem__", lambda I, a, k: raw_setitem(I, *a))
    ns["__len__"] = Builtin("list.__len__", lambda I, a, k: I.seglen(I.get(a[0], "v")))
    ns["__iter__"] = Builtin("list.__iter__", lambda I, a, k: I.list_from(I.get(a[0], "v"), __import__("sa.interp", fromlist=["x"]).PIter))
    ns["__iadd__"] = Builtin("list.__iadd__", lambda I, a, k: (I.list_extend(a[0], a[1]), a[0])[1])
    return ns


def raw_setitem(I, o, k, v):
    tmp = PList()
    I.set(tmp, "v", I.get(o, "v"))
    I.setitem(tmp, k, v)
    I.set(o, "v", I.get(tmp, "v"))


def list_getitem(I, a, k):
    o, key = a
    key = I.resolve(key)
    if isinstance(key, Choice):
        return I.fork(key, lambda x: list_getitem(I, [o, x], k))
    if isinstance(key, Slice) or (isinstance(key, Node) and key.sort in "ib"):
        return I.list_getitem(o, key)
    I.throw("TypeError", "list indices must be integers or slices")


LIST_METHODS = ("append", "extend", "insert", "pop", "remove", "index", "count", "reverse", "sort",
                "copy", "clear")


def list_method(I, o, name, a, k):
    if name == "append":
        return I.list_append(o, a[0])
    if name == "extend":
        return I.list_extend(o, a[0])
    segs = I.get(o, "v")
    if name == "copy":
        return I.list_from(segs)
    if name == "clear":
        return I.set(o, "v", ())
    if name == "insert":
        p = a[0]
        if T.isconst(p):
            j = T.cval(p)
            if j == 0:
                return I.set(o, "v", (item(a[1]),) + segs)
            items = I.items_of(I.list_from(segs))
            items.insert(j, a[1])
            return I.set(o, "v", tuple(item(x) for x in items))
        raise NeedConcrete("insert")
    if name == "pop":
        p = a[0] if a else const(-1)
        if not segs:
            I.throw("IndexError", "pop from empty list")
        if T.isconst(p) and T.cval(p) == -1 and segs[-1].len is const(1):
            I.set(o, "v", segs[:-1])
            return segs[-1].elem(const(0))
        if T.isconst(p) and T.cval(p) == 0 and segs[0].len is const(1):
            I.set(o, "v", segs[1:])
            return segs[0].elem(const(0))
        items = I.items_of(I.list_from(segs))
        if not T.isconst(p):
            raise NeedConcrete("pop")
        j = T.cval(p)
        if not -len(items) <= j < len(items):
            I.throw("IndexError", "pop index out of range")
        v = items.pop(j)
        I.set(o, "v", tuple(item(x) for x in items))
        return v
    if name == "reverse":
        return I.set(o, "v", tuple(Seg(s.len, (lambda s: lambda j: s.elem(T.sub(T.sub(s.len, const(1)), j)))(s))
                                   for s in reversed(segs)))
    if name == "sort":
        return I.set(o, "v", I.get(sort_values(I, segs, k), "v"))
    if name == "index":
        items = I.items_of(I.list_from(segs))

        def go(i):
            if i == len(items):
                I.throw("ValueError", "not in list")
            c = I.truth(I.compare("Eq", items[i], a[0]))
            return I.branch(c, lambda: const(i), lambda: go(i + 1))
        return go(0)
    if name == "remove":
        items = I.items_of(I.list_from(segs))

        def go(i):
            if i == len(items):
                I.throw("ValueError", "not in list")
            c = I.truth(I.compare("Eq", items[i], a[0]))

            def rm():
                I.set(o, "v", tuple(item(x) for x in items[:i] + items[i + 1:]))
            return I.branch(c, rm, lambda: go(i + 1))
        return go(0)
    if name == "count":
        n = const(0)
        for s in segs:
            if T.isconst(s.len):
                for j in range(T.cval(s.len)):
                    c = I.truth(I.compare("Eq", s.elem(const(j)), a[0]))
                    n = T.add(n, T.ite(c, const(1), const(0)))
            else:
                x = T.var()
                n = T.add(n, T.sum_(x, s.len, T.ite(I.truth(I.compare("Eq", s.elem(x), a[0])), const(1), const(0))))
        return n
    raise AnalysisError("list.%s" % name)


def list_attr(I, o, name):
    if isinstance(o, PSet):
        if name == "add":
            def add(I, a, k):
                v = I.set_op("BitOr", o, I.set_from([a[0]]))
                I.set(o, "v", I.get(v, "v"))
            return Builtin("set.add", add)
        if name == "update":
            def upd(I, a, k):
                v = I.set_op("BitOr", o, I.set_from(I.items_of(a[0])))
                I.set(o, "v", I.get(v, "v"))
            return Builtin("set.update", upd)
        if name in ("union", "intersection", "difference"):
            op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name]
            return Builtin(name, lambda I, a, k: I.set_op(op, o, I.set_from(I.items_of(a[0]))))
        if name in ("discard", "remove"):
            def rm(I, a, k):
                v = I.set_op("Sub", o, I.set_from([a[0]]))
                I.set(o, "v", I.get(v, "v"))
            return Builtin(name, rm)
        return MISS
    if o.__class__.__name__ == "PIter":
        if name == "__next__" or name == "next":
            return Builtin("next", lambda I, a, k: I.builtins["next"].fn(I, [o], {}))
        return MISS
    if name in LIST_METHODS:
        return Builtin("list." + name, lambda I, a, k: list_method(I, o, name, a, k))
    if name == "__getitem__":
        return Builtin("list.__getitem__", lambda I, a, k: I.list_getitem(o, a[0]))
    if name == "__len__":
        return Builtin("list.__len__", lambda I, a, k: I.length(o))
    if name == "__setitem__":
        return Builtin("list.__setitem__", lambda I, a, k: I.setitem(o, a[0], a[1]))
    return MISS


def dict_attr(I, o, name):
    d = I.get(o, "v")

    def need():
        for v in I.get(o, "v").values():
            if isinstance(v, Choice):
                raise NeedConcrete("conditional dict entries")
        return I.get(o, "v")
    if name == "items":
        return Builtin(name, lambda I, a, k: I.new_list([(kk, v) for kk, v in need().values()]))
    if name == "keys":
        return Builtin(name, lambda I, a, k: I.new_list([kk for kk, v in need().values()]))
    if name == "values":
        return Builtin(name, lambda I, a, k: I.new_list([v for kk, v in need().values()]))
    if name == "get":
        def get(I, a, k):
            kk = I.hkey(a[0])
            dd = I.get(o, "v")
            dflt = a[1] if len(a) > 1 else None
            if kk in dd:
                v = dd[kk]
                if isinstance(v, Choice):
                    return I.fork(v, lambda x: dflt if x is UNBOUND else x[1])
                return v[1]
            if kk[0] == "sym" and dd:
                raise NeedConcrete("symbolic key")
            return dflt
        return Builtin(name, get)
    if name == "setdefault":
        def sd(I, a, k):
            kk = I.hkey(a[0])
            dd = I.get(o, "v")
            if kk in dd:
                v = dd[kk]
                if isinstance(v, Choice):
                    raise NeedConcrete("conditional dict entry")
                return v[1]
            v = a[1] if len(a) > 1 else None
            I.setitem(o, a[0], v)
            return v
        return Builtin(name, sd)
    if name == "update":
        def upd(I, a, k):
            dd = dict(I.get(o, "v"))
            if a:
                dd.update(I.get(dict_(I, a, {}), "v"))
            for kk, v in k.items():
                dd[("s", kk)] = (kk, v)
            I.set(o, "v", dd)
        return Builtin(name, upd)
    if name == "pop":
        def pop(I, a, k):
            kk = I.hkey(a[0])
            dd = dict(I.get(o, "v"))
            if kk not in dd:
                if len(a) > 1:
                    return a[1]
                I.throw("KeyError", a[0])
            v = dd.pop(kk)
            if isinstance(v, Choice):
                raise NeedConcrete("conditional dict entry")
            I.set(o, "v", dd)
            return v[1]
        return Builtin(name, pop)
    if name == "copy":
        return Builtin(name, lambda I, a, k: I.new_dict(I.get(o, "v")))
    if name == "clear":
        return Builtin(name, lambda I, a, k: I.set(o, "v", {}))
    if name == "__getitem__":
        return Builtin(name, lambda I, a, k: I.getitem(o, a[0]))
    return MISS


def tuple_attr(I, o, name):
    if name == "index":
        return Builtin(name, lambda I, a, k: list_method(I, I.new_list(o), "index", a, k))
    if name == "count":
        return Builtin(name, lambda I, a, k: list_method(I, I.new_list(o), "count", a, k))
    return MISS


def str_attr(I, o, name):
    if name == "join":
        def join(I, a, k):
            items = I.items_of(a[0])
            if all(isinstance(x, str) for x in items):
                return o.join(items)
            parts = []
            for n, x in enumerate(items):
                x = I.resolve(x)
                parts += ([o] if n else []) + [x if isinstance(x, (str, Node)) else I.as_o(x)]
            return I.strcat(parts)
        return Builtin(name, join)
    if name == "format":
        def fmt(I, a, k):
            pv = [I.pyval(x) for x in a]
            pk = dict((kk, I.pyval(v)) for kk, v in k.items())
            if all(p is not MISS for p in pv) and all(p is not MISS for p in pk.values()):
                return o.format(*pv, **pk)
            parts, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(o):
                parts.append(lit)
                if field is None:
                    continue
                if field == "":
                    field, auto = str(auto), auto + 1
                if field.isdigit() and int(field) < len(a):
                    v = a[int(field)]
                elif field in k:
                    v = k[field]
                else:
                    raise AnalysisError("format field %r" % field)
                if "{" in (spec or ""):
                    raise AnalysisError("nested format")
                parts.append(I.piece(("!" + conv if conv else "") + (spec or ""), v))
            return I.strcat(parts)
        return Builtin(name, fmt)
    if name in ("index", "find", "count", "rfind", "startswith", "endswith", "split", "strip", "lstrip",
                "rstrip", "lower", "upper", "replace", "isdigit", "isalpha", "rsplit", "splitlines", "title",
                "zfill", "encode", "partition"):
        def f(I, a, k):
            av = [I.pyval(x) for x in a]
            if any(p is MISS for p in av):
                if name in ("index", "find"):
                    return T.call("str." + name, [const(o)] + [I.as_o(x) for x in a], sort="i")
                return T.call("str." + name, [const(o)] + [I.as_o(x) for x in a])
            try:
                r = getattr(o, name)(*av)
            except ValueError as e:
                I.throw("ValueError", str(e))
            if isinstance(r, bool) or isinstance(r, int):
                return const(r)
            if isinstance(r, list):
                return I.new_list(r)
            return r
        return Builtin("str." + name, f)
    return MISS


def stdlib(I):
    from . import interp
    import math
    N = I.npm

    def mfn(name, npname=None):
        def f(I, a, k):
            v = [I.npm.item(I, x) if isinstance(x, (Arr, Snap)) else x for x in map(I.resolve, a)]
            for x in v:
                if not isinstance(x, Node):
                    I.throw("TypeError", "math." + name)
            return N.scalar_fn(npname or name, *v)
        return Builtin("math." + name, f)
    m = {"pi": T.PI, "inf": T.INF, "nan": const(float("nan")), "e": T.fn("exp", const(Fraction(1)))}
    for n in ("sqrt", "sin", "cos", "tan", "exp", "log", "floor", "ceil", "cosh", "sinh", "tanh", "log10", "log2"):
        m[n] = mfn(n)
    for n, p in (("atan", "arctan"), ("atan2", "arctan2"), ("asin", "arcsin"), ("acos", "arccos"),
                 ("fabs", "fabs"), ("hypot", "hypot"), ("pow", "power"), ("acosh", "arccosh"), ("asinh", "arcsinh")):
        m[n] = mfn(n, p)
    m["fmod"] = mfn("fmod", "fmod")

    def factorial(I, a, k):
        v = a[0]
        if T.isconst(v):
            return const(math.factorial(int(T.cval(v))))
        return T.fn("factorial", v, sort="i")
    m["factorial"] = Builtin("factorial", factorial)
    m["isnan"] = Builtin("isnan", lambda I, a, k: T.fn("isnan", a[0], sort="b"))
    m["radians"] = Builtin("radians", lambda I, a, k: T.mul(T.to_real(a[0]), T.div(T.PI, const(180))))
    m["degrees"] = Builtin("degrees", lambda I, a, k: T.mul(T.to_real(a[0]), T.div(const(180), T.PI)))
    mathns = NS("math", m)

    log = []

    def noop(I, a, k):
        return None
    warnings = NS("warnings", {n: Builtin("warnings." + n, noop) for n in
                               ("warn", "simplefilter", "filterwarnings", "catch_warnings", "resetwarnings")})
    logger = NS("logger", {n: Builtin("log." + n, noop) for n in
                           ("log", "info", "debug", "warning", "error", "exception", "setLevel", "critical")})
    logging = NS("logging", {"getLogger": Builtin("getLogger", lambda I, a, k: logger),
                             "DEBUG": const(10), "INFO": const(20), "WARNING": const(30), "ERROR": const(40),
                             "basicConfig": Builtin("basicConfig", noop),
                             "info": Builtin("info", noop), "debug": Builtin("debug", noop),
                             "warning": Builtin("warning", noop)})

    def product(I, a, k):
        rep = T.cval(k["repeat"]) if "repeat" in k else 1
        seqs = [I.items_of(x) for x in a] * rep
        import itertools
        return I.list_from([item(tuple(t)) for t in itertools.product(*seqs)], interp.PIter)

    def simple(f):
        def g(I, a, k):
            return I.list_from([item(v) for v in f(I, a, k)], interp.PIter)
        return g

    def chain(I, a, k):
        segs = []
        for x in a:
            segs.extend(I.segs_of(x))
        return I.list_from(segs, interp.PIter)

    def chain_from(I, a, k):
        return chain(I, I.items_of(a[0]), k)

    import itertools as it

    def islice(I, a, k):
        lst = I.list_from(I.segs_of(a[0]))
        if len(a) == 2:
            sl = Slice(None, a[1], None)
        else:
            sl = Slice(a[1], a[2], a[3] if len(a) > 3 else None)
        return I.list_from(I.get(I.list_getitem(lst, sl), "v"), interp.PIter)

    def accumulate(I, a, k):
        f = a[1] if len(a) > 1 else None
        acc, out = None, []
        for v in I.items_of(a[0]):
            acc = v if acc is None else (I.binop("Add", acc, v) if f is None else I.call(f, [acc, v], {}))
            out.append(item(acc))
        return I.list_from(out, interp.PIter)

    def zip_longest(I, a, k):
        seqs = [I.items_of(x) for x in a]
        fill = k.get("fillvalue")
        return I.list_from([item(tuple(t)) for t in it.zip_longest(*seqs, fillvalue=fill)], interp.PIter)

    itertools = NS("itertools", {
        "product": Builtin("product", product),
        "cycle": Builtin("cycle", lambda I, a, k: interp.Cycle(tuple(I.segs_of(a[0])))),
        "count": Builtin("count", lambda I, a, k: interp.Count(lift(a[0]) if a else const(0), lift(a[1]) if len(a) > 1 else const(1))),
        "chain": NS("chain", {"from_iterable": Builtin("from_iterable", chain_from)}, call=chain),
        "islice": Builtin("islice", islice),
        "accumulate": Builtin("accumulate", accumulate),
        "zip_longest": Builtin("zip_longest", zip_longest),
        "starmap": Builtin("starmap", lambda I, a, k: I.builtins["map"].fn(
            I, [Builtin("star", lambda I, b, kk: I.call(a[0], I.items_of(b[0]), {})), a[1]], {})),
        "combinations": Builtin("combinations", simple(lambda I, a, k: [tuple(t) for t in it.combinations(I.items_of(a[0]), T.cval(a[1]))])),
        "permutations": Builtin("permutations", simple(lambda I, a, k: [tuple(t) for t in it.permutations(I.items_of(a[0]), *(T.cval(x) for x in a[1:]))])),
        "repeat": Builtin("repeat", lambda I, a, k: interp.Cycle((item(a[0]),)) if len(a) < 2 else I.list_from((Seg(a[1], lambda j: a[0]),), interp.PIter)),
        "combinations_with_replacement": Builtin("cwr", simple(lambda I, a, k: [tuple(t) for t in it.combinations_with_replacement(I.items_of(a[0]), T.cval(a[1]))])),
    })

    def contextmanager(I, a, k):
        f = a[0]
        f.cm = True
        return f
    contextlib = NS("contextlib", {"contextmanager": Builtin("contextmanager", contextmanager)})

    def partial(I, a, k):
        f, pre, kw = a[0], list(a[1:]), dict(k)
        return Builtin("partial", lambda I, b, kk: I.call(f, pre + list(b), dict(kw, **kk)))

    def wraps(I, a, k):
        return Builtin("wraps", lambda I, b, kk: b[0])

    def reduce_(I, a, k):
        items = I.items_of(a[1])
        acc = a[2] if len(a) > 2 else items.pop(0)
        for v in items:
            acc = I.call(a[0], [acc, v], {})
        return acc

    def lru(I, a, k):
        raise AnalysisError("lru_cache")
    functools = NS("functools", {"partial": Builtin("partial", partial), "wraps": Builtin("wraps", wraps),
                                 "reduce": Builtin("reduce", reduce_)})
    ops = {}
    for nm, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("mod", "Mod"), ("floordiv", "FloorDiv")):
        ops[nm] = Builtin(nm, (lambda op: lambda I, a, k: I.binop(op, a[0], a[1]))(op))
    for nm, op in (("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("eq", "Eq"), ("ne", "NotEq"), ("is_", "Is")):
        ops[nm] = Builtin(nm, (lambda op: lambda I, a, k: I.compare(op, a[0], a[1]))(op))
    ops["neg"] = Builtin("neg", lambda I, a, k: I.unop("USub", a[0]))

    def itemgetter(I, a, k):
        ks = list(a)
        def f(I, b, kk):
            if len(ks) == 1:
                return I.getitem(b[0], ks[0])
            return tuple(I.getitem(b[0], x) for x in ks)
        return Builtin("itemgetter", f)

    def attrgetter(I, a, k):
        ks = list(a)
        def f(I, b, kk):
            r = [I.getattr_(b[0], x) for x in ks]
            return r[0] if len(r) == 1 else tuple(r)
        return Builtin("attrgetter", f)
    ops["itemgetter"] = Builtin("itemgetter", itemgetter)
    ops["attrgetter"] = Builtin("attrgetter", attrgetter)
    operator = NS("operator", ops)

    def copy_(I, a, k):
        return shallow(I, a[0])

    def deepseg(I, s, memo):
        if T.isconst(s.len):
            return [item(deep(I, s.elem(const(j)), memo)) for j in range(int(T.cval(s.len)))]
        return [Seg(s.len, lambda j: deep(I, s.elem(j), memo))]

    def deep(I, v, memo=None):
        memo = {} if memo is None else memo
        v = I.resolve(v)
        if isinstance(v, Choice):
            return I.fork(v, lambda x: deep(I, x, memo))
        if isinstance(v, (Arr, PList, PDict, PObj)) and id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, Arr):
            c = N.fresh(I, N.snap(I, v))
            memo[id(v)] = (v, c)
            return c
        if isinstance(v, (PList, PDict)) or isinstance(v, PObj):
            if isinstance(v, PObj) and I.cls_lookup(v.cls, "__deepcopy__") is not None:
                return I.call(I.bind(I.cls_lookup(v.cls, "__deepcopy__"), v, v.cls), [I.new_dict({})], {})
            c = shallow(I, v)
            memo[id(v)] = (v, c)
            if isinstance(c, PList):
                I.set(c, "v", tuple(x for s in I.get(c, "v") for x in deepseg(I, s, memo)))
            elif isinstance(c, PDict):
                I.set(c, "v", dict((kk, (kv, deep(I, x, memo))) for kk, (kv, x) in I.get(c, "v").items()))
            else:
                for (o, f), x in list(I.ov.items()):
                    if o is c and f != "v":
                        I.set(c, f, deep(I, x, memo))
                    elif o is c:
                        I.set(c, "v", tuple(item(deep(I, y, memo)) for y in I.items_of(I.list_from(x))))
            return c
        if isinstance(v, tuple):
            return tuple(deep(I, x, memo) for x in v)
        return v

    def shallow(I, v):
        v = I.resolve(v)
        if isinstance(v, Arr):
            return N.fresh(I, N.snap(I, v))
        if isinstance(v, PDict):
            return I.new_dict(I.get(v, "v"))
        if isinstance(v, PList):
            return I.list_from(I.get(v, "v"), type(v))
        if isinstance(v, PObj):
            c = PObj(v.cls)
            for src in (I.base, I.ov):
                for (o, f), x in list(src.items()):
                    if o is v:
                        I.set(c, f, x)
            return c
        return v
    copy = NS("copy", {"copy": Builtin("copy", copy_), "deepcopy": Builtin("deepcopy", lambda I, a, k: deep(I, a[0]))})

    def odict(I, a, k):
        return dict_(I, a, k)

    def std(name):
        return Builtin(name, lambda I, a, k: I.call(I.get(I.module("sa_std"), name), list(a), dict(k)))

    def defaultdict(I, a, k):
        d = interp.PDefault()
        I.set(d, "v", {})
        I.set(d, "factory", a[0] if a else None)
        if len(a) > 1 or k:
            I.set(d, "v", dict(I.get(dict_(I, list(a[1:]), k), "v")))
        return d
    collections = NS("collections", {"OrderedDict": Builtin("OrderedDict", odict), "defaultdict": Builtin("defaultdict", defaultdict),
                                     "namedtuple": std("namedtuple"), "deque": std("deque")})
    for n in ("prod", "fsum", "dist", "comb", "perm", "gcd", "copysign", "trunc", "isclose"):
        mathns.table[n] = std("m_" + n)
    for n in ("lru_cache", "cached_property"):
        functools.table[n] = std(n)
    functools.table["cache"] = Builtin("cache", lambda I, a, k: I.call(I.get(I.module("sa_std"), "cached"), list(a), {}))
    for n in ("suppress", "nullcontext", "closing", "ExitStack"):
        contextlib.table[n] = std(n)
    for n in ("tee", "pairwise", "filterfalse", "takewhile", "dropwhile", "compress", "groupby"):
        if n not in itertools.table:
            itertools.table[n] = std(n)
    operator.table.setdefault("methodcaller", std("methodcaller"))
    for n, f in (("xor", lambda I, a, k: I.binop("BitXor", a[0], a[1])), ("and_", lambda I, a, k: I.binop("BitAnd", a[0], a[1])),
                 ("or_", lambda I, a, k: I.binop("BitOr", a[0], a[1])), ("matmul", lambda I, a, k: I.binop("MatMult", a[0], a[1])),
                 ("mod", lambda I, a, k: I.binop("Mod", a[0], a[1])), ("floordiv", lambda I, a, k: I.binop("FloorDiv", a[0], a[1])),
                 ("concat", lambda I, a, k: I.binop("Add", a[0], a[1])), ("pos", lambda I, a, k: I.unop("UAdd", a[0])),
                 ("invert", lambda I, a, k: I.unop("Invert", a[0])), ("abs", lambda I, a, k: I.call(I.builtins["abs"], [a[0]], {})),
                 ("not_", lambda I, a, k: T.not_(I.truth(a[0]))), ("truth", lambda I, a, k: I.truth(a[0])),
                 ("contains", lambda I, a, k: I.compare("In", a[1], a[0])), ("getitem", lambda I, a, k: I.getitem(a[0], a[1])),
                 ("setitem", lambda I, a, k: I.setitem(a[0], a[1], a[2])), ("index", lambda I, a, k: a[0]),
                 ("is_", lambda I, a, k: I.compare("Is", a[0], a[1])), ("is_not", lambda I, a, k: I.compare("IsNot", a[0], a[1]))):
        operator.table.setdefault(n, Builtin(n, f))
    for n, op in (("iadd", "Add"), ("isub", "Sub"), ("imul", "Mult"), ("itruediv", "Div")):
        operator.table.setdefault(n, Builtin(n, (lambda op: lambda I, a, k: I.inplace(op, a[0], a[1]))(op)))
    collections.table["abc"] = NS("collections.abc", {})
    import os as _os

    def pathfn(name, f):
        def g(I, a, k):
            vs = [I.resolve(x) for x in a]
            if not all(isinstance(x, str) for x in vs):
                raise AnalysisError("os.path.%s" % name)
            return f(*vs)
        return Builtin(name, g)
    # files exist iff an analysis declared them (I.files)
    there = lambda I, a, k: lift(I.resolve(a[0]) in getattr(I, "files", ()))
    OSP = NS("os.path", {n: pathfn(n, getattr(_os.path, n)) for n in ("join", "splitext", "basename", "dirname", "normpath")})
    OSP.table.update({n: Builtin(n, there) for n in ("isfile", "exists")})
    OS = NS("os", {"path": OSP})
    typing = NS("typing", fallback=lambda n: NS("typing." + n))
    return {"math": mathns, "warnings": warnings, "logging": logging, "itertools": itertools,
            "contextlib": contextlib, "functools": functools, "operator": operator, "copy": copy,
            "collections": collections, "collections.abc": collections.table["abc"], "typing": typing,
            "sys": NS("sys", {"version_info": tuple(const(x) for x in (3, 12, 0)), "maxsize": const(2**63 - 1)}),
            "os": OS, "os.path": OS.table["path"], "time": NS("time", {"time": Builtin("time", lambda I, a, k: T.atom("time"))})}

from ._sys import *

DESC = ("System.with_voltages is abstractly interpreted around blocks that end normally, by return, break, continue, by several "
        "exceptions (caught outside), with nested contexts and with blocks that overwrite voltages, given dc and/or rf voltages as "
        "lists, tuples and arrays with unknown values, and with arguments that make entering fail; the voltages inside, after, the "
        "block's outcome and the arguments are compared with the specification by value numbering on every joined path.")

# each block is (body statements, expected outcome); the context is written CTX
BLOCKS = {
    "normal": ("with CTX:\n    inside = st(s)\nres = 1", 1),
    "overwrite": ("with CTX:\n    inside = st(s)\n    for e in s:\n        e.dc = e.dc*2 + 1\n        e.rf = 5.\nres = 1", 1),
    "overwrite_vec": ("with CTX:\n    inside = st(s)\n    s.dcs = [7.]*len(s)\n    s.rfs = [8.]*len(s)\nres = 1", 1),
    "value_error": ("try:\n    with CTX:\n        inside = st(s)\n        raise ValueError('x')\nexcept ValueError:\n    res = 2", 2),
    "key_error": ("try:\n    with CTX:\n        inside = st(s)\n        s.dcs = [3.]*len(s)\n        {}['k']\nexcept KeyError:\n    res = 3", 3),
    "keyboard": ("try:\n    with CTX:\n        inside = st(s)\n        raise KeyboardInterrupt\nexcept BaseException:\n    res = 4", 4),
    "generator_exit": ("try:\n    with CTX:\n        inside = st(s)\n        raise GeneratorExit\nexcept BaseException:\n    res = 4", 4),
    "attribute_error": ("try:\n    with CTX:\n        inside = st(s)\n        raise AttributeError\nexcept AttributeError:\n    res = 5", 5),
    "break": ("for i in range(3):\n    res = i\n    with CTX:\n        inside = st(s)\n        break", 0),
    "continue": ("for i in range(2):\n    with CTX:\n        inside = st(s)\n        continue\n    res = 9\nres = 6", 6),
    "cond": ("res = 0\ntry:\n    with CTX:\n        inside = st(s)\n        if flag > 0:\n            s.dcs = [flag]*len(s)\n            raise ValueError\n        res = 1\nexcept ValueError:\n    res = 2", "2 if flag > 0 else 1"),
    "nested": ("with CTX:\n    inside = st(s)\n    with s.with_voltages([10.]*len(s), [11.]*len(s)):\n        s.dcs = [0.]*len(s)\n    again = st(s)\n    if not same(inside, again):\n        inside = None\nres = 1", 1),
    "twice": ("with CTX:\n    pass\nwith CTX:\n    inside = st(s)\nres = 1", 1),
}

HEAD = '''
import numpy as np
def st(s): return [(e.dc, e.rf, e.name, e.tag) for e in s]
def same(a, b): return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a, b))
from contextlib import contextmanager
@contextmanager
def ref(s, dcs=None, rfs=None):
    old = [(e.dc, e.rf) for e in s]
    if dcs is not None:
        for i in range(len(s)): s[i].dc = dcs[i]
    if rfs is not None:
        for i in range(len(s)): s[i].rf = rfs[i]
    try:
        yield
    finally:
        for i in range(len(s)):
            if dcs is not None: s[i].dc = old[i][0]
            if rfs is not None: s[i].rf = old[i][1]
'''


def check(ck):
    E = SysEnv(ck)
    I = E.I
    w = "electrode/system.py: System.with_voltages"
    CTX = {"both": "dcs=d, rfs=r", "dc": "dcs=d", "rf": "rfs=r", "none": "", "positional": "d, r", "explicit": "dcs=None, rfs=r"}
    KINDS = {
        "list": lambda t, n: I.new_list([T.atom("%s%d" % (t, i)) for i in range(n)]),
        "array": lambda t, n: npm.sym_array(I, t, (const(n),)),
        "tuple": lambda t, n: tuple(T.atom("%s%d" % (t, i)) for i in range(n)),
    }

    def spec_inside(cx):
        return ("[(%s, %s, e.name, e.tag) for i, e in enumerate(s)]" % (
            "d[i]" if cx in ("both", "dc", "positional") else "e.dc", "r[i]" if cx in ("both", "rf", "positional", "explicit") else "e.rf"))

    def run_one(key, impl_src, spec_src, kind, n):
        def go():
            I.ov = {}
            s = E.make(n)
            d, r = KINDS[kind]("d", n), KINDS[kind]("r", n)
            flag = T.atom("flag")
            I.freeze()
            mi = ck.spec(I, HEAD + impl_src, "blk")
            o = ck.run(I, I.get(mi, "f"), s, d, r, flag)
            c = ("tuple", ck.cap(I, o.value), ck.cap(I, d), ck.cap(I, r))
            ck.note(I)
            I.ov = {}
            ms = ck.spec(I, HEAD + spec_src, "blks")
            os_ = ck.run(I, I.get(ms, "f"), s, d, r, flag)
            cs = ("tuple", ck.cap(I, os_.value), ck.cap(I, d), ck.cap(I, r))
            I.ov = {}
            ck.agree(key, w, o, os_, c, cs, rule="asked voltages inside, previous voltages afterwards, outcome unchanged")
        ck.guarded(key, go)

    for cx, args in CTX.items():
        for b, (body, exp) in BLOCKS.items():
            for kind in (("list", "array", "tuple") if b in ("normal", "overwrite", "value_error") else ("list",)):
                src = body.replace("CTX", "s.with_voltages(%s)" % args)
                impl = "def f(s, d, r, flag):\n    before = st(s)\n    inside = None\n" + "\n".join(
                    "    " + l for l in src.split("\n")) + "\n    return inside, st(s), res\n"
                sp = impl.replace("s.with_voltages(%s)" % args, "ref(s, %s)" % args)
                run_one("%s/%s/%s" % (cx, b, kind), impl, sp, kind, 2)
        run_one("%s/return" % cx, "def g(s, d, r):\n    with s.with_voltages(%s):\n        return st(s)\ndef f(s, d, r, flag):\n"
                "    x = g(s, d, r)\n    return x, st(s)\n" % args,
                "def f(s, d, r, flag):\n    return %s, st(s)\n" % spec_inside(cx), "list", 3)
        for n in (0, 1):
            run_one("%s/n%d" % (cx, n), "def f(s, d, r, flag):\n    with s.with_voltages(%s):\n        x = st(s)\n    return x, st(s)\n" % args,
                    "def f(s, d, r, flag):\n    return %s, st(s)\n" % spec_inside(cx), "list", n)
        run_one("%s/propagates" % cx, "def f(s, d, r, flag):\n    with s.with_voltages(%s):\n        raise RuntimeError('q')\n" % args,
                "def f(s, d, r, flag):\n    raise RuntimeError('q')\n", "list", 2)
    # arguments that make entering the block fail half way
    for nm, args in (("rf-bad", "d, 5"), ("dc-bad", "5, r"), ("rf-only-bad", "None, 5")):
        run_one("enter/" + nm, "def f(s, d, r, flag):\n    try:\n        with s.with_voltages(%s):\n            x = 1\n    except TypeError:\n"
                "        pass\n    return st(s)\n" % args, "def f(s, d, r, flag):\n    return st(s)\n", "list", 2)

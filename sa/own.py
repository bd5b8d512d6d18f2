"""Ownership typestate for C extension code: a path-sensitive exploration of
every function over the states of the objects it holds (references owned,
released), raw buffers, NULL-ness of pointers, the exception indicator and the
interpreter lock. Numbers are abstracted away except literals; loops run to a
fixpoint of the (finite) state set; functions of the file are inlined."""
from . import cc

NULL, U, UNINIT = ("null",), ("u",), ("uninit",)
PTR = ("ptr",)

NEW = set("""PyArray_SimpleNew PyArray_ZEROS PyArray_EMPTY PyArray_SimpleNewFromData PyArray_NewLikeArray PyArray_FROM_OTF PyArray_FROM_OF
PyArray_FROM_OT PyArray_ContiguousFromAny PyArray_Copy PyArray_NewCopy PyFloat_FromDouble PyLong_FromLong PyLong_FromSsize_t
PyLong_FromUnsignedLong PyTuple_New PyList_New PyDict_New PyBytes_FromString PyUnicode_FromString PyUnicode_FromFormat PyUnicode_AsASCIIString
PyUnicode_AsUTF8String PyUnicode_AsEncodedString PyUnicode_AsLatin1String PyUnicode_InternFromString PySequence_GetItem PySequence_ITEM
PySequence_Fast PySequence_Tuple PySequence_List PyObject_GetAttrString PyObject_Call PyObject_CallObject PyObject_CallFunction
PyObject_CallMethod PyObject_Str PyObject_Repr PyObject_GetItem PyNumber_Float PyNumber_Long PyNumber_Index PyModule_Create PyImport_ImportModule
PyTuple_Pack PyBool_FromLong""".split())
HOLD = {"PyArray_IterNew", "PyArray_IterAllButAxis"}
NEWSURE = {"PyArray_DescrFromType"}
STEAL = {"PyArray_Zeros": 2, "PyArray_Empty": 2, "PyArray_FromAny": 1}
SETITEM = {"PyTuple_SetItem", "PyList_SetItem", "PyTuple_SET_ITEM", "PyList_SET_ITEM"}
BORROW = {"PyTuple_GetItem": "exc", "PyList_GetItem": "exc", "PyTuple_GET_ITEM": "", "PyList_GET_ITEM": "", "PyDict_GetItemString": "null", "PyDict_GetItem": "null",
          "PyModule_GetDict": "", "PySequence_Fast_GET_ITEM": "", "PyArray_DESCR": ""}
PURE = set("""PyArray_NDIM PyArray_DIM PyArray_STRIDE PyArray_SIZE PyArray_TYPE PyArray_ISCOMPLEX PyArray_SAMESHAPE PyArray_Check PyArray_CheckExact
PyArray_FLAGS PyArray_CHKFLAGS PyArray_IS_C_CONTIGUOUS PyArray_ISCONTIGUOUS PyArray_ISWRITEABLE PyArray_ISBEHAVED PyArray_ISALIGNED PyArray_NBYTES
PyArray_ITEMSIZE""".split())
INTS = set("""PySequence_Check PyLong_Check PyBool_Check PyNumber_Check PyIndex_Check PyFloat_Check PyUnicode_Check PyUnicode_GetSize PyUnicode_GetLength
PyUnicode_GET_LENGTH PyUnicode_ReadChar PyUnicode_READ_CHAR PyBytes_Check PyBytes_GET_SIZE PyBytes_Size PyTuple_Check PyTuple_Size PyTuple_GET_SIZE
PyList_Check PyList_Size PyList_GET_SIZE PyDict_Check PyCallable_Check PySequence_Fast_GET_SIZE PyFloat_AS_DOUBLE PyUnicode_CompareWithASCIIString
PyArray_ITER_NOTDONE""".split())
FALLIBLE = set("""PySequence_Size PySequence_Length PyObject_Length PyObject_Size PyFloat_AsDouble PyLong_AsLong PyLong_AsSsize_t PyLong_AsLongLong PyNumber_AsSsize_t""".split())
STATUS = set("""PyDict_SetItemString PyDict_SetItem PyObject_SetAttrString PyList_Append PyErr_WarnEx _import_array PyModule_AddObjectRef
PyModule_AddStringConstant PyModule_AddIntConstant PyArray_CopyInto""".split())
RAW = {"PyArray_DATA", "PyArray_BYTES", "PyArray_DIMS", "PyArray_SHAPE", "PyArray_STRIDES", "PyArray_GETPTR1", "PyArray_GETPTR2", "PyBytes_AsString", "PyBytes_AS_STRING", "PyArray_ITER_DATA"}
RAWERR = {"PyUnicode_AsUTF8", "PyUnicode_AsUTF8AndSize"}
ALLOC = {"PyMem_Malloc": ("PyMem_Free", "PyMem_Realloc"), "PyMem_Calloc": ("PyMem_Free",), "PyMem_RawMalloc": ("PyMem_RawFree",), "PyObject_Malloc": ("PyObject_Free",), "malloc": ("free",),
         "calloc": ("free",), "fopen": ("fclose",)}
FREES = {"PyMem_Free", "PyMem_RawFree", "PyObject_Free", "free", "fclose"}
SETEXC = {"PyErr_Format", "PyErr_SetString", "PyErr_SetNone", "PyErr_SetObject", "PyErr_NoMemory", "PyErr_BadArgument", "PyErr_SetFromErrno"}
NOGIL = PURE | {"PyArray_DATA", "PyArray_DIMS", "PyArray_BYTES", "PyEval_RestoreThread", "PyArray_GETPTR1", "PyArray_GETPTR2", "PyArray_ITER_NEXT", "PyMem_RawMalloc", "PyMem_RawFree", "PyArray_ITER_NOTDONE", "PyArray_ITER_DATA"}
LIBC = set("""sqrt sin cos tan atan atan2 acos asin fabs pow exp log floor ceil fmod hypot copysign isnan isinf isfinite memset memcpy memmove strlen strcmp
strncmp abs labs fread fwrite snprintf PyOS_snprintf rand srand time strchr toupper tolower fmin fmax round cbrt""".split())
ENUM = {"NPY_DOUBLE": 12, "NPY_FLOAT": 11}
FMT = {"d": "double", "f": "float", "i": "int", "l": "long", "n": "Py_ssize_t", "p": "int", "L": "long long", "I": "unsigned int", "k": "unsigned long", "h": "short", "b": "unsigned char"}


RUNS = ("PySequence_GetItem", "PySequence_Size", "PySequence_Fast", "PySequence_Tuple", "PySequence_List", "PyObject_", "PyNumber_", "PyIter_", "PyMapping_", "PyFloat_AsDouble", "PyLong_As", "PyArray_FROM", "PyArray_FromAny", "PyArg_Parse")


class Stop(Exception):
    """the path ends here: a violation was recorded"""


class Giveup(Exception):
    pass


class State(object):
    __slots__ = ("env", "heap", "exc", "gil", "memo", "_k")

    def __init__(self, env=None, heap=None, exc=False, gil=True, memo=None):
        self.env, self.heap, self.exc, self.gil, self.memo = env or {}, heap or {}, exc, gil, memo or {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.exc, self.gil, dict(self.memo))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), self.exc, self.gil, frozenset(self.memo.items()))


# heap entry: (kind, owned, alive, holds) kind: 'own' 'arg' 'imm' (borrowed / immortal) 'mem'
class Analysis(object):
    LIMIT = 1000000

    def __init__(self, unit):
        self.u = unit
        self.bad, self.unknown, self.stats = [], [], {"calls": set(), "states": 0, "paths": 0}
        self.fn = None
        self.depth = 0
        self.line = 0
        self.ctx = []
        self.repeats = {}

    # --------------------------------------------------------------- reports
    def fail(self, rule, text):
        self.bad.append((self.fn, rule, self.where(), text))
        raise Stop()

    def where(self):
        return self.line

    def unk(self, text):
        self.unknown.append((self.fn, self.line, text))

    # ------------------------------------------------------------- functions
    def run(self, f, params, st):
        """outcomes of a body: list of (value or None, state)"""
        self.depth += 1
        if self.depth > 6:
            self.depth -= 1
            raise Giveup("recursion")
        pre = "%d:" % self.depth
        self.ctx.append((pre, self.conds(f), f))
        try:
            s = st.copy()
            for (n, t), v in zip(f.params, params):
                s.env[pre + n] = v
            res = self.stmt(f.body, [s])
            out = []
            for o, states in res.items():
                if o == "n":
                    out += [(None, x) for x in states]
                elif o[0] == "r":
                    out += [(o[1], x) for x in states]
                else:
                    raise Giveup("jump %r leaves the function" % (o,))
            fin, seen = [], set()
            for v, x in out:
                x = x.copy()
                for k in [k for k in x.env if k.startswith(pre)]:
                    del x.env[k]
                x.memo = {k: v2 for k, v2 in x.memo.items() if k[0] != pre}
                kk = (v, x.key())
                if kk not in seen:
                    seen.add(kk)
                    fin.append((v, x))
            return fin
        finally:
            self.ctx.pop()
            self.depth -= 1

    def conds(self, f):
        if f.name not in self.repeats:
            n = {}
            for s in cc.walk(f.body):
                if s.kind in ("if", "while", "do", "for", "expr", "return", "decl", "switch"):
                    for e in cc.exprs(s):
                        for x in cc.sub(e):
                            if x[0] in ("bin", "var", "call", "un"):
                                n[x] = n.get(x, 0) + 1
            self.repeats[f.name] = {x for x, c in n.items() if c > 1}
        return self.repeats[f.name]

    @property
    def pre(self):
        return self.ctx[-1][0]

    # ------------------------------------------------------------ statements
    def dedupe(self, states):
        out, seen = [], set()
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        self.stats["states"] += len(out)
        if self.stats["states"] > self.LIMIT:
            raise Giveup("too many states")
        return out

    def merge(self, d, o, states):
        if states:
            d.setdefault(o, []).extend(states)

    def stmt(self, s, states):
        """{outcome: states}; outcomes 'n', 'b', 'c', ('g', label), ('r', value)"""
        out = {}
        if not states:
            return out
        k = s.kind
        if s.line:
            self.line = s.line
        if k == "block":
            return self.block(s.a, states)
        if k == "null":
            return {"n": states}
        if k == "expr":
            for st in states:
                self.line = s.line or self.line
                for v, x in self.ev(s.a, st):
                    self.merge(out, "n", [x])
        elif k == "decl":
            for st in states:
                self.line = s.line or self.line
                n = self.pre + s.a
                if s.d == "static":
                    x = st.copy()
                    x.env[n] = ("static", s.a)
                    self.merge(out, "n", [x])
                elif s.c is None:
                    x = st.copy()
                    self.clear(x, s.a)
                    x.env[n] = UNINIT if s.b.rstrip().endswith("*") else (PTR if "[" in s.b else U)
                    self.merge(out, "n", [x])
                else:
                    for v, x in ([(PTR, st)] if s.c[0] == "init" else self.ev(s.c, st)):
                        x = x.copy()
                        self.clear(x, s.a)
                        x.env[n] = PTR if "[" in s.b else v
                        self.merge(out, "n", [x])
        elif k == "if":
            t, f = self.split(s.a, states)
            for o, v in self.stmt(s.b, t).items():
                self.merge(out, o, v)
            if s.c is not None:
                for o, v in self.stmt(s.c, f).items():
                    self.merge(out, o, v)
            else:
                self.merge(out, "n", f)
        elif k in ("while", "for", "do"):
            if k == "for":
                cond, inc, body = s.b, s.c, s.d
                if s.a is not None:
                    r = self.stmt(s.a, states)
                    states = r.pop("n", [])
            else:
                cond, inc, body = (s.a, None, s.b) if k == "while" else (s.b, None, s.a)
            seen, todo = set(), list(states)
            first = k == "do"
            while todo:
                nxt = []
                for st in todo:
                    kk = st.key()
                    if kk not in seen:
                        seen.add(kk)
                        nxt.append(st)
                if not nxt:
                    break
                self.line = s.line or self.line
                if first:
                    t, f = nxt, []
                    first = False
                    seen.clear()
                elif cond is None:
                    t, f = nxt, []
                else:
                    t, f = self.split(cond, nxt)
                self.merge(out, "n", f)
                r = self.stmt(body, t)
                todo = r.pop("n", []) + r.pop("c", [])
                self.merge(out, "n", r.pop("b", []))
                for o, v in r.items():
                    self.merge(out, o, v)
                if inc is not None:
                    todo = [x for st in todo for _, x in self.ev(inc, st)]
                todo = self.dedupe(todo)
        elif k == "switch":
            body = s.b.a if s.b.kind == "block" else [s.b]
            flat = self.flatten(body)
            many = sum(1 for x in flat if x.kind == "case") > 8
            entry = {}
            for st in states:
                for v, x in self.ev(s.a, st):
                    hit = None
                    for i, q in enumerate(flat):
                        if q.kind == "case":
                            cv = self.const(q.a)
                            if v[0] == "int" and cv is not None:
                                if cv == v[1]:
                                    hit = i
                                    entry.setdefault(i, []).append(x)
                            else:
                                entry.setdefault(i, []).append(x)
                    d = [i for i, q in enumerate(flat) if q.kind == "default"]
                    if hit is None:
                        if d:
                            entry.setdefault(d[0], []).append(x)
                        else:
                            self.merge(out, "n", [x])
            for i, sts in sorted(entry.items()):
                r = self.block(flat[i:], self.dedupe(sts))
                self.merge(out, "n", r.pop("n", []) + r.pop("b", []))
                for o, v in r.items():
                    self.merge(out, o, v)
            if many and "n" in out:
                w = self.written(body)
                for x in out["n"]:
                    for n in list(x.env):
                        if x.env[n][0] == "int" and (n.split(":", 1)[1] in w or w is None or "*" in w):
                            x.env[n] = U
        elif k in ("case", "default", "label"):
            return self.stmt(s.a if k == "default" else s.b, states)
        elif k == "return":
            for st in states:
                self.line = s.line or self.line
                if s.a is None:
                    self.merge(out, ("r", None), [st])
                else:
                    for v, x in self.ev(s.a, st):
                        self.merge(out, ("r", v), [x])
        elif k == "goto":
            out[("g", s.a)] = list(states)
        elif k == "break":
            out["b"] = list(states)
        elif k == "continue":
            out["c"] = list(states)
        else:
            raise Giveup("statement %s" % s.a)
        return {o: self.dedupe(v) for o, v in out.items()}

    def flatten(self, body):
        out = []
        for q in body:
            while q.kind in ("case", "default"):
                out.append(cc.Stmt(q.kind, q.line, q.a if q.kind == "case" else cc.Stmt("null", q.line), cc.Stmt("null", q.line)))
                q = q.b if q.kind == "case" else q.a
            out.append(q)
        return out

    def written(self, body):
        w = set()
        for q in body:
            for y in cc.walk(q):
                for e in cc.exprs(y):
                    for x in cc.sub(e):
                        if x[0] == "assign":
                            w.add(x[2][1] if x[2][0] == "var" else "*")
        return w

    def block(self, body, states):
        out = {}
        labels = {}
        for i, q in enumerate(body):
            z = q
            while z.kind == "label":
                labels[z.a] = i
                z = z.b
        seen = {}

        def go(i, sts):
            for q in body[i:]:
                if not sts:
                    return
                r = self.stmt(q, sts)
                sts = r.pop("n", [])
                for o, v in r.items():
                    self.merge(out, o, v)
            self.merge(out, "n", sts)
        go(0, states)
        while True:
            pend = [o for o in out if isinstance(o, tuple) and o[0] == "g" and o[1] in labels]
            todo = []
            for o in pend:
                for st in out.pop(o):
                    kk = (o[1], st.key())
                    if kk not in seen:
                        seen[kk] = 1
                        todo.append((o[1], st))
            if not todo:
                break
            by = {}
            for l, st in todo:
                by.setdefault(l, []).append(st)
            for l, sts in by.items():
                go(labels[l], self.dedupe(sts))
        return {o: self.dedupe(v) for o, v in out.items() if v}

    # ----------------------------------------------------------- expressions
    def const(self, e):
        if e[0] == "num":
            return e[1]
        if e[0] in ("conv", "cast"):
            return self.const(e[2])
        if e[0] == "un" and e[1] == "-":
            c = self.const(e[2])
            return None if c is None else -c
        return None

    def split(self, e, states):
        t, f = [], []
        for st in states:
            try:
                for b, x in self.cond(e, st):
                    (t if b else f).append(x)
            except Stop:
                pass
        return self.dedupe(t), self.dedupe(f)

    def truth(self, v):
        if v[0] == "null":
            return False
        if v[0] == "int":
            return v[1] != 0
        if v[0] in ("obj", "raw", "mem", "addr", "ptr", "str", "static", "fun", "gil"):
            return True
        if v[0] == "uninit":
            self.fail("uninitialised", "a pointer is tested before it is set")
        return None

    def cond(self, e, st):
        if e[0] == "bin" and e[1] in ("&&", "||"):
            out = []
            for a, x in self.cond(e[2], st):
                if a == (e[1] == "||"):
                    out.append((a, x))
                else:
                    out += self.cond(e[3], x)
            return out
        if e[0] == "un" and e[1] == "!":
            return [(not b, x) for b, x in self.cond(e[2], st)]
        if e[0] in ("cast", "conv"):
            return self.cond(e[2], st)
        if e[0] == "bin" and e[1] in ("==", "!=", "<", ">", "<=", ">="):
            key = self.memokey(e, st)
            if key is not None and key in st.memo:
                return [(st.memo[key], st)]
            out = []
            for a, x in self.ev(e[2], st):
                for b, y in self.ev(e[3], x):
                    r = self.compare(e[1], a, b)
                    if r is None:
                        for q in (True, False):
                            z = y
                            if key is not None:
                                z = y.copy()
                                z.memo[key] = q
                            # an equality with a literal fixes the variable
                            if q == (e[1] == "==") and e[1] in ("==", "!=") and e[2][0] == "var" and b[0] == "int" and self.pre + e[2][1] in z.env:
                                z = z.copy()
                                z.env[self.pre + e[2][1]] = b
                            out.append((q, z))
                    else:
                        out.append((r, y))
            return out
        key = self.memokey(e, st)
        if key is not None and key in st.memo:
            return [(st.memo[key], st)]
        out = []
        for v, x in self.ev(e, st):
            b = self.truth(v)
            if b is None:
                for q in (True, False):
                    z = x
                    if key is not None:
                        z = x.copy()
                        z.memo[key] = q
                    out.append((q, z))
            else:
                out.append((b, x))
        return out

    def memokey(self, e, st):
        if e not in self.ctx[-1][1]:
            return None
        names = set()
        for x in cc.sub(e):
            if x[0] == "call":
                if x[1][0] != "var" or x[1][1] not in PURE:
                    return None
            if x[0] in ("assign", "unknown", "member") or x[0] == "un" and x[1] in ("pre++", "pre--", "post++", "post--", "*") or x[0] == "idx":
                return None
            if x[0] == "var":
                names.add(x[1])
        return (self.pre, e, frozenset(names))

    def clear(self, st, name):
        for k in [k for k in st.memo if k[0] == self.pre and name in k[2]]:
            del st.memo[k]

    def compare(self, op, a, b):
        def isn(v):
            return v[0] == "null" or v == ("int", 0)
        if a[0] == "uninit" or b[0] == "uninit":
            self.fail("uninitialised", "a pointer is compared before it is set")
        P = ("obj", "raw", "mem", "addr", "ptr", "str", "static", "fun", "gil", "null")
        if op in ("==", "!=") and (a[0] in P and a[0] != "null" or b[0] in P and b[0] != "null" or a[0] == b[0] == "null"):
            if isn(a) and isn(b):
                r = True
            elif (isn(a) and b[0] in P) or (isn(b) and a[0] in P):
                r = False
            elif a[0] == "obj" and b[0] == "obj":
                if a == b:
                    r = True
                elif a[1][0] == "imm" and b[1][0] == "imm":
                    r = False
                else:
                    return None
            else:
                return None
            return r if op == "==" else not r
        if a[0] == "int" and b[0] == "int":
            return {"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]
        return None

    def ev(self, e, st):
        """list of (value, state)"""
        try:
            return self.ev_(e, st)
        except Stop:
            return []

    def lookup(self, n, st):
        v = st.env.get(self.pre + n)
        if v is not None:
            return v
        if n in self.u.funcs:
            return ("fun", n)
        if n.startswith("PyExc_"):
            return ("obj", ("imm", n))
        if n.startswith("_Py_") and n.endswith("Struct"):
            return ("obj", ("imm", n))
        if n in self.u.decls:
            return ("fun", n)
        return ("static", n)

    def ev_(self, e, st):
        k = e[0]
        if k == "num":
            return [(("int", e[1]), st)]
        if k == "null":
            return [(NULL, st)]
        if k == "str":
            return [(("str", e[1]), st)]
        if k == "enum":
            return [(("int", ENUM[e[1]]) if e[1] in ENUM else U, st)]
        if k == "sizeof":
            return [(U, st)]
        if k == "var":
            return [(self.lookup(e[1], st), st)]
        if k == "cast":
            r = self.ev(e[2], st)
            if not e[1].rstrip().endswith("*") and "PyCFunction" not in e[1]:
                r = [(v if v[0] == "int" else U, x) for v, x in r]
            return r
        if k == "conv":
            return [(v if v[0] == "int" else U, x) for v, x in self.ev(e[2], st)]
        if k == "cond":
            out = []
            for b, x in self.cond(e[1], st):
                out += self.ev(e[2] if b else e[3], x)
            return out
        if k == "bin":
            if e[1] in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
                return [(("int", int(b)), x) for b, x in self.cond(e, st)]
            out = []
            for a, x in self.ev(e[2], st):
                for b, y in self.ev(e[3], x):
                    if e[1] == ",":
                        out.append((b, y))
                    elif a[0] in ("raw", "mem", "ptr", "addr") and e[1] in ("+", "-"):
                        out.append((a if b[0] not in ("raw", "mem", "ptr") else U, y))
                    elif b[0] in ("raw", "mem", "ptr") and e[1] == "+":
                        out.append((b, y))
                    elif e[1] in ("|", "&", "<<") and a[0] == b[0] == "int" and isinstance(a[1], int) and isinstance(b[1], int):
                        out.append((("int", {"|": a[1] | b[1], "&": a[1] & b[1]}.get(e[1], a[1] << min(b[1], 63) if b[1] >= 0 else 0)), y))
                    else:
                        out.append((U, y))
            return out
        if k == "un":
            op = e[1]
            if op == "&":
                t = e[2]
                while t[0] in ("cast",):
                    t = t[2]
                if t[0] == "var":
                    v = self.lookup(t[1], st)
                    if v[0] in ("static", "fun"):
                        return [(("obj", ("imm", t[1])) if t[1].startswith("_Py_") else PTR, st)]
                    if t[1].startswith("_Py_"):
                        return [(("obj", ("imm", t[1])), st)]
                    return [(("addr", self.pre + t[1]), st)]
                if t[0] == "idx":
                    return [(v if v[0] in ("raw", "mem") else PTR, x) for v, x in self.ev(t[1], st)]
                if t[0] == "un" and t[1] == "*":
                    return self.ev(t[2], st)
                return [(PTR, x) for _, x in self.ev(t, st)]
            if op == "*":
                out = []
                for v, x in self.ev(e[2], st):
                    out += self.load(v, x)
                return out
            if op in ("pre++", "pre--", "post++", "post--"):
                out = []
                for v, x in self.ev(e[2], st):
                    nv = v if v[0] in ("raw", "mem", "ptr") else U
                    out += [(v if op.startswith("post") and v[0] != "int" else nv, y) for y in self.store(e[2], nv, x)]
                return out
            if op == "!":
                return [(("int", int(not b)), x) for b, x in self.cond(e[2], st)]
            if op == "-":
                return [(("int", -v[1]) if v[0] == "int" else U, x) for v, x in self.ev(e[2], st)]
            return [(U if v[0] != "int" else (v if op == "+" else U), x) for v, x in self.ev(e[2], st)]
        if k == "assign":
            out = []
            for v, x in self.ev(e[3], st):
                if e[1] != "=":
                    for o, y in self.ev(e[2], x):
                        nv = o if o[0] in ("raw", "mem", "ptr") else U
                        out += [(nv, z) for z in self.store(e[2], nv, y)]
                else:
                    out += [(v, z) for z in self.store(e[2], v, x)]
            return out
        if k == "idx":
            out = []
            for v, x in self.ev(e[1], st):
                for _, y in self.ev(e[2], x):
                    out += self.load(v, y, item=True)
            return out
        if k == "member":
            if not e[3]:
                if e[1][0] == "var":
                    return [(U, st)]
                return [(U, x) for _, x in self.ev(e[1], st)]
            out = []
            for v, x in self.ev(e[1], st):
                try:
                    self.use(v, x, "->" + e[2])
                except Stop:
                    continue
                out.append((("raw", v[1]) if v[0] == "obj" and e[2] in ("dataptr", "data", "ao") else U, x))
            return out
        if k == "call":
            return self.call(e, st)
        if k == "init":
            return [(PTR, st)]
        raise Giveup("expression %s" % (e[1] if k == "unknown" else k))

    def load(self, v, st, item=False):
        if v[0] == "addr":
            if item:
                return [(U, st)]
            return [(st.env.get(v[1], U), st)]
        self.use(v, st, "dereference")
        return [(U, st)]

    def store(self, lhs, v, st):
        """states after storing"""
        while lhs[0] in ("cast", "conv"):
            lhs = lhs[2]
        if lhs[0] == "var":
            n = self.pre + lhs[1]
            if n in st.env and st.env[n][0] != "static":
                x = st.copy()
                self.clear(x, lhs[1])
                x.env[n] = v
                return [x]
            if v[0] == "obj" and st.heap.get(v[1], ("imm",))[0] == "own":
                raise Giveup("reference stored in a global")
            return [st]
        if lhs[0] == "un" and lhs[1] == "*":
            out = []
            for p, x in self.ev(lhs[2], st):
                if p[0] == "addr":
                    y = x.copy()
                    y.env[p[1]] = v
                    nm = p[1].split(":", 1)
                    for k in [k for k in y.memo if k[0] == nm[0] + ":" and nm[1] in k[2]]:
                        del y.memo[k]
                    out.append(y)
                else:
                    try:
                        self.use(p, x, "store through")
                    except Stop:
                        continue
                    if v[0] == "obj" and x.heap.get(v[1], ("imm",))[0] == "own":
                        raise Giveup("reference stored in memory")
                    out.append(x)
            return out
        if lhs[0] in ("idx", "member"):
            out = []
            if lhs[0] == "member" and not lhs[3]:
                if v[0] == "obj" and st.heap.get(v[1], ("imm",))[0] == "own":
                    raise Giveup("reference stored in a structure")
                return [st]
            for p, x in self.ev(lhs[1], st):
                try:
                    if p[0] != "addr":
                        self.use(p, x, "store into")
                except Stop:
                    continue
                for _, y in (self.ev(lhs[2], x) if lhs[0] == "idx" else [(None, x)]):
                    if v[0] == "obj" and y.heap.get(v[1], ("imm",))[0] == "own":
                        raise Giveup("reference stored in memory")
                    out.append(y)
            return out
        raise Giveup("assignment to %s" % lhs[0])

    # ------------------------------------------------------------------ heap
    def use(self, v, st, what):
        if v[0] == "null" or v == ("int", 0):
            self.fail("null", "%s of a NULL pointer" % what)
        if v[0] == "uninit":
            self.fail("uninitialised", "%s of an unset pointer" % what)
        if v[0] in ("obj", "raw"):
            o = st.heap.get(v[1])
            if o is not None and not o[2]:
                self.fail("released", "%s of an object already released (created at %s)" % (what, self.site(v[1])))
        if v[0] == "mem":
            o = st.heap.get(v[1])
            if o is not None and not o[2]:
                self.fail("released", "%s of memory already freed" % what)

    def site(self, oid):
        return "line %s, %s" % (oid[1], oid[2]) if oid[0] == "site" else oid[1]

    def alloc(self, st, name, kind="own", holds=()):
        x = st.copy()
        n = 0
        while ("site", self.line, name, n) in x.heap:
            o = x.heap[("site", self.line, name, n)]
            if not o[2]:
                break
            n += 1
            if n > 3:
                self.fail("leak", "%s acquired again and again without release" % name)
        oid = ("site", self.line, name, n)
        # stale pointers to a dead object of the same site keep denoting it
        if oid in x.heap and any(v[0] in ("obj", "raw", "mem") and v[1] == oid for v in x.env.values()):
            n += 1
            while ("site", self.line, name, n) in x.heap and x.heap[("site", self.line, name, n)][2]:
                n += 1
                if n > 5:
                    raise Giveup("allocation")
            oid = ("site", self.line, name, n)
        x.heap[oid] = (kind, 1, True, tuple(holds))
        for h in holds:
            o = x.heap.get(h)
            if o is not None:
                x.heap[h] = (o[0], o[1], o[2], o[3] + (("held", oid),))
        return ("mem" if kind == "mem" else "obj", oid), x

    def held(self, st, oid):
        o = st.heap.get(oid)
        return any(isinstance(h, tuple) and h[0] == "held" and st.heap.get(h[1], (0, 0, False))[2] for h in o[3])

    def decref(self, v, st, what):
        self.use(v, st, what)
        if v[0] != "obj":
            if v[0] in ("u", "ptr", "static"):
                return st
            self.fail("release", "%s of something that is no object" % what)
        oid = v[1]
        x = st.copy()
        o = x.heap.get(oid, ("imm", 0, True, ()))
        if o[1] <= 0:
            self.fail("release", "%s of a reference the function does not own (%s)" % (what, self.site(oid)))
        n = o[1] - 1
        alive = o[2]
        if n == 0 and o[0] == "own" and not self.held(x, oid):
            alive = False
        x.heap[oid] = (o[0], n, alive, o[3])
        if not alive:
            for h in o[3]:
                if not (isinstance(h, tuple) and h[0] == "held"):
                    q = x.heap.get(h)
                    if q is not None and q[1] == 0 and q[0] == "own" and not self.held(x, h):
                        x.heap[h] = (q[0], 0, False, q[3])
        return x

    def incref(self, v, st, what):
        self.use(v, st, what)
        if v[0] != "obj":
            return st
        x = st.copy()
        o = x.heap.get(v[1], ("imm", 0, True, ()))
        if o[1] > 4:
            self.fail("leak", "unbounded reference count")
        x.heap[v[1]] = (o[0], o[1] + 1, o[2], o[3])
        return x

    # ----------------------------------------------------------------- calls
    def args(self, es, st):
        out = [((), st)]
        for e in es:
            nxt = []
            for vs, x in out:
                for v, y in self.ev(e, x):
                    nxt.append((vs + (v,), y))
            out = nxt
        return out

    def call(self, e, st):
        f = e[1]
        while f[0] == "cast":
            f = f[2]
        if f[0] != "var":
            raise Giveup("call through a pointer")
        name = f[1]
        out = []
        line = self.line
        for vs, x in self.args(e[2], st):
            self.line = line
            try:
                out += self.apply(name, vs, x, e[2])
            except Stop:
                pass
            self.line = line
        return out

    def exc(self, st):
        x = st.copy()
        x.exc = True
        return x

    def needobj(self, name, v, st):
        self.use(v, st, name)

    def apply(self, name, vs, st, es):
        self.stats["calls"].add((self.fn, self.line, name))
        if name in self.u.funcs:
            f = self.u.funcs[name]
            line = self.line
            plain = not any(v[0] in ("obj", "raw", "mem", "addr") and (v[0] != "raw") and (v[0] != "mem") for v in vs) and not any("PyObject" in t for _, t in f.params)
            if plain and not self.calls_api(f):
                for v in vs:
                    if v[0] in ("raw", "mem", "null", "uninit"):
                        self.use(v, st, "argument of " + name)
                return [(U, st)]
            r = self.run(f, vs, st)
            self.line = line
            return [(U if v is None else v, x) for v, x in r]
        if not st.gil and name.startswith("Py") and name not in NOGIL:
            self.fail("lock", "%s is called without the interpreter lock" % name)
        if name in ("Py_DECREF", "Py_XDECREF"):
            if name == "Py_XDECREF" and vs[0][0] == "null":
                return [(U, st)]
            return [(U, self.decref(vs[0], st, name))]
        if name in ("Py_INCREF", "Py_XINCREF"):
            if name == "Py_XINCREF" and vs[0][0] == "null":
                return [(U, st)]
            return [(U, self.incref(vs[0], st, name))]
        if name in ("Py_NewRef", "Py_XNewRef"):
            if vs[0][0] == "null" and name == "Py_XNewRef":
                return [(NULL, st)]
            return [(vs[0], self.incref(vs[0], st, name))]
        if name == "Py_CLEAR_":
            if vs[0][0] != "addr":
                return [(U, st)]
            v = st.env.get(vs[0][1], U)
            x = st if v[0] == "null" else self.decref(v, st, "Py_CLEAR")
            x = x.copy()
            x.env[vs[0][1]] = NULL
            return [(U, x)]
        if name in SETEXC:
            return [(NULL, self.exc(st))]
        if name in ("PyErr_Clear", "PyErr_Print"):
            x = st.copy()
            x.exc = False
            return [(U, x)]
        if name == "PyErr_Occurred":
            return [(("obj", ("imm", "exception")) if st.exc else NULL, st)]
        if name == "PyErr_ExceptionMatches":
            return [(U, st)]
        if st.exc and name.startswith(RUNS):
            self.fail("pending", "%s is called with an exception pending" % name)
        if name in HOLD:
            self.use(vs[0], st, name)
            v, x = self.alloc(st, name, "own", (vs[0][1],) if vs[0][0] == "obj" else ())
            return [(v, x), (NULL, self.exc(st))]
        if name in NEWSURE:
            v, x = self.alloc(st, name)
            return [(v, x)]
        if name in NEW:
            for v, e in zip(vs, es):
                if v[0] in ("obj", "raw", "null", "uninit") and name not in ("PyObject_Call", "PyObject_CallObject"):
                    if v[0] in ("null", "uninit") and name not in ("PyArray_FROM_OTF", "PySequence_GetItem", "PyArray_Copy", "PyArray_NewCopy", "PyUnicode_AsASCIIString", "PyNumber_Float", "PyNumber_Long"):
                        continue
                    self.use(v, st, name)
            v, x = self.alloc(st, name)
            return [(v, x), (NULL, self.exc(st))]
        if name in STEAL:
            i = STEAL[name]
            if i < len(vs) and vs[i][0] == "obj":
                st = self.decref(vs[i], st, name)
            elif i < len(vs) and vs[i][0] == "null":
                pass
            v, x = self.alloc(st, name)
            return [(v, x), (NULL, self.exc(st))]
        if name in SETITEM:
            self.use(vs[0], st, name)
            x = st
            if vs[2][0] == "obj":
                x = self.give(vs[2], vs[0], st, name)
            if name.endswith("Item"):
                return [(("int", 0), x)]
            return [(U, x)]
        if name == "PyModule_AddObject":
            self.use(vs[0], st, name)
            r = [(("int", -1), self.exc(st))]
            if vs[2][0] == "obj":
                r.append((("int", 0), self.give(vs[2], vs[0], st, name)))
            return r
        if name in BORROW:
            self.use(vs[0], st, name)
            o = ("obj", ("imm", "item of %s" % name))
            r = [(o, st)]
            if BORROW[name] == "exc":
                r.append((NULL, self.exc(st)))
            elif BORROW[name] == "null":
                r.append((NULL, st))
            return r
        if name in PURE or name in INTS:
            self.use(vs[0], st, name)
            if name == "PyArray_SAMESHAPE":
                self.use(vs[1], st, name)
            return [(U, st)]
        if name in FALLIBLE:
            self.use(vs[0], st, name)
            return [(U, st), (("int", -1), self.exc(st))]
        if name in ("PyObject_IsTrue", "PyObject_Not", "PyObject_RichCompareBool"):
            self.use(vs[0], st, name)
            return [(("int", 0), st), (("int", 1), st), (("int", -1), self.exc(st))]
        if name in STATUS:
            for v in vs:
                if v[0] in ("obj", "null", "uninit", "raw"):
                    self.use(v, st, name)
            return [(("int", 0), st), (("int", -1), self.exc(st))]
        if name in RAW:
            self.use(vs[0], st, name)
            return [(("raw", vs[0][1]) if vs[0][0] == "obj" else PTR, st)]
        if name in RAWERR:
            self.use(vs[0], st, name)
            return [(("raw", vs[0][1]) if vs[0][0] == "obj" else PTR, st), (NULL, self.exc(st))]
        if name == "PyModule_GetState":
            return [(PTR, st)]
        if name in ("PyArray_ITER_NEXT", "PyArray_ITER_RESET"):
            self.use(vs[0], st, name)
            return [(U, st)]
        if name == "PyArray_Return":
            if vs[0][0] == "null":
                return [(NULL, st)]
            self.use(vs[0], st, name)
            # a zero-dimensional array is exchanged for a scalar, which may fail
            x = self.exc(self.decref(vs[0], st, name))
            return [(vs[0], st), (NULL, x)]
        if name == "Py_BuildValue":
            return self.build(vs, st)
        if name in ("PyArg_ParseTupleAndKeywords", "PyArg_ParseTuple", "PyArg_Parse"):
            return self.parse(name, vs, st, es)
        if name in ALLOC:
            v, x = self.alloc(st, name, "mem")
            return [(v, x), (NULL, st)]
        if name in FREES:
            if vs[0][0] == "null":
                if name == "fclose":
                    self.fail("null", "fclose of NULL")
                return [(U, st)]
            self.use(vs[0], st, name)
            if vs[0][0] != "mem":
                if vs[0][0] in ("u", "ptr"):
                    return [(U, st)]
                self.fail("release", "%s of something it did not allocate" % name)
            if name not in ALLOC[vs[0][1][2]]:
                self.fail("release", "memory of %s is released by %s" % (vs[0][1][2], name))
            x = st.copy()
            o = x.heap[vs[0][1]]
            x.heap[vs[0][1]] = (o[0], 0, False, o[3])
            return [(U, x)]
        if name == "PyEval_SaveThread":
            x = st.copy()
            if not x.gil:
                self.fail("lock", "the interpreter lock is released twice")
            x.gil = False
            return [(("gil",), x)]
        if name == "PyEval_RestoreThread":
            x = st.copy()
            if x.gil:
                self.fail("lock", "the interpreter lock is acquired twice")
            x.gil = True
            return [(U, x)]
        if name in LIBC:
            for v in vs:
                if v[0] in ("null", "raw", "mem", "uninit"):
                    self.use(v, st, name)
            return [(U, st)]
        if name in ("PyArray_AxisConverter", "PyArray_IntpConverter", "PyArray_BoolConverter"):
            return [(("int", 1), st), (("int", 0), self.exc(st))]
        self.unk("call of %s" % name)
        raise Giveup("call of %s" % name)

    def calls_api(self, f, seen=()):
        if f.name in seen:
            return False
        for s in cc.walk(f.body):
            for e in cc.exprs(s):
                for x in cc.sub(e):
                    if x[0] == "call" and x[1][0] == "var":
                        n = x[1][1]
                        if n in self.u.funcs:
                            if self.calls_api(self.u.funcs[n], seen + (f.name,)):
                                return True
                        elif n not in LIBC:
                            return True
        return False

    def give(self, v, owner, st, name):
        x = self.decref_only(v, st, name)
        return x

    def decref_only(self, v, st, name):
        """a reference handed to another object: no longer owned, still alive"""
        self.use(v, st, name)
        x = st.copy()
        o = x.heap.get(v[1], ("imm", 0, True, ()))
        if o[1] <= 0:
            self.fail("release", "%s takes a reference the function does not own (%s)" % (name, self.site(v[1])))
        x.heap[v[1]] = (o[0], o[1] - 1, True, o[3])
        return x

    def build(self, vs, st):
        fmt = vs[0][1] if vs[0][0] == "str" else None
        if fmt is None:
            raise Giveup("Py_BuildValue format")
        x = y = st
        i = 1
        for c in fmt:
            if c in "()[]{},: \t":
                continue
            if i >= len(vs):
                self.fail("format", "Py_BuildValue has fewer arguments than its format %r" % fmt)
            if c in "NOS":
                v = vs[i]
                if v[0] == "null":
                    # NULL makes the call fail; the others are released
                    pass
                elif c == "N":
                    x = self.decref_only(v, x, "Py_BuildValue(N)")
                    y = self.decref(v, y, "Py_BuildValue(N)")
                else:
                    self.use(v, x, "Py_BuildValue")
            i += 1
        if i != len(vs):
            self.fail("format", "Py_BuildValue has %d arguments for the format %r" % (len(vs) - 1, fmt))
        if fmt == "":
            return [(("obj", ("imm", "_Py_NoneStruct")), self.incref(("obj", ("imm", "_Py_NoneStruct")), st, "Py_BuildValue"))]
        v, x = self.alloc(x, "Py_BuildValue")
        return [(v, x), (NULL, self.exc(y))]

    def units(self, fmt):
        """[(unit, optional)] or None"""
        out, opt, i = [], False, 0
        while i < len(fmt):
            c = fmt[i]
            if c in ":;":
                break
            if c == "|":
                opt = True
            elif c == "$":
                pass
            elif c == "O" and fmt[i + 1:i + 2] in ("&", "!"):
                out.append((c + fmt[i + 1], opt))
                i += 1
            elif c in "sz" and fmt[i + 1:i + 2] in ("#", "*"):
                return None
            elif c in FMT or c in "OszSUY":
                out.append((c, opt))
            else:
                return None
            i += 1
        return out

    def parse(self, name, vs, st, es):
        kw = name.endswith("Keywords")
        base = 4 if kw else 2
        fmt = vs[base - 2 if kw else 1]
        if fmt[0] != "str":
            raise Giveup("format of %s" % name)
        un = self.units(fmt[1])
        if un is None:
            raise Giveup("format %r" % fmt[1])
        if name == "PyArg_Parse":
            self.use(vs[0], st, name)
        rest = list(vs[base:])
        targets = []
        for u, opt in un:
            need = 2 if len(u) == 2 else 1
            if len(rest) < need:
                self.fail("format", "%s has fewer arguments than its format %r asks for" % (name, fmt[1]))
            targets.append((u, opt, rest[:need]))
            rest = rest[need:]
        if rest:
            self.fail("format", "%s has more arguments than its format %r asks for" % (name, fmt[1]))
        if kw:
            n = self.kwcount(es[3])
            if n is not None:
                if n[1] is False:
                    self.fail("format", "the keyword list does not end with NULL")
                if n[0] != len(un):
                    self.fail("format", "%d keywords for a format of %d arguments" % (n[0], len(un)))
        for u, opt, t in targets:
            v = t[-1]
            if u in FMT and v[0] == "addr":
                ty = self.vartype(v[1])
                if ty is not None and not self.sametype(ty, FMT[u]):
                    self.fail("format", "format %r writes a %s into a variable of type %s" % (u, FMT[u], ty))
            if u[0] == "O" and v[0] == "addr":
                ty = self.vartype(v[1])
                if ty is not None and u != "O&" and not ty.rstrip().endswith("*"):
                    self.fail("format", "format %r stores an object in a variable of type %s" % (u, ty))
        # the call can fail after any prefix of the conversions
        cur, out = [(st, False)], []
        out.append((("int", 0), self.exc(st)))
        for i, (u, opt, t) in enumerate(targets):
            nxt = []
            for x, lack in cur:
                v = t[-1]
                if opt:
                    nxt.append((x, True))          # not given: the variable keeps its value
                if u == "O&":
                    c = t[0]
                    cname = c[1] if c[0] in ("fun", "static") else None
                    obj = ("obj", ("imm", "argument %d" % (i + 1)))
                    if cname in self.u.funcs:
                        line = self.line
                        for r, y in self.run(self.u.funcs[cname], (obj, v), x):
                            self.line = line
                            b = None if r is None else self.truth(r)
                            if b is not True:
                                if not y.exc:
                                    self.fail("exception", "%s fails without setting an exception" % cname)
                                out.append((("int", 0), y))
                            if b is not False:
                                if y.exc:
                                    self.fail("exception", "%s succeeds with an exception set" % cname)
                                nxt.append((y, lack))
                        self.line = line
                    elif cname in ("PyArray_AxisConverter", "PyArray_IntpConverter", "PyArray_BoolConverter"):
                        y = x.copy()
                        if v[0] == "addr":
                            y.env[v[1]] = U
                        nxt.append((y, lack))
                        out.append((("int", 0), self.exc(x)))
                    elif cname == "PyArray_Converter":
                        o, y = self.alloc(x, cname)
                        y.env[v[1]] = o
                        nxt.append((y, lack))
                        out.append((("int", 0), self.exc(x)))
                    elif cname == "PyArray_OutputConverter":
                        for o in (NULL, obj):
                            y = x.copy()
                            y.env[v[1]] = o
                            nxt.append((y, lack))
                        out.append((("int", 0), self.exc(x)))
                    else:
                        raise Giveup("converter %s" % cname)
                else:
                    y = x.copy()
                    if v[0] == "addr":
                        y.env[v[1]] = ("obj", ("imm", "argument %d" % (i + 1))) if u[0] in "OSUY" else PTR if u[0] == "s" else U
                    elif v[0] in ("null", "uninit"):
                        self.use(v, x, name)
                    nxt.append((y, lack))
                    out.append((("int", 0), self.exc(x)))
            cur = [(x, True) for x in self.dedupe([x for x, lack in nxt if lack])] + [(x, False) for x in self.dedupe([x for x, lack in nxt if not lack])]
        if kw:
            # an unknown keyword, in the place of a missing one, is noticed
            # after the conversions
            out += [(("int", 0), self.exc(x)) for x, lack in cur if lack]
        cur = [x for x, lack in cur]
        # memos on the written variables are void
        res = []
        for v, x in out + [(("int", 1), x) for x in cur]:
            x = x.copy()
            for _, _, t in targets:
                if t[-1][0] == "addr":
                    self.clear(x, t[-1][1].split(":", 1)[1])
            res.append((v, x))
        seen, fin = set(), []
        for v, x in res:
            k = (v, x.key())
            if k not in seen:
                seen.add(k)
                fin.append((v, x))
        return fin

    def kwcount(self, e):
        while e[0] == "cast":
            e = e[2]
        if e[0] != "var":
            return None
        f = self.ctx[-1][2]
        for s in cc.walk(f.body):
            if s.kind == "decl" and s.a == e[1] and s.c is not None and s.c[0] == "init":
                el = s.c[1]
                def nul(x):
                    while x[0] == "cast":
                        x = x[2]
                    return x[0] == "null" or x == ("num", 0)
                if not el or not nul(el[-1]):
                    return (len(el), False)
                return (len([x for x in el if not nul(x)]), True)
        g = self.u.globals.get(e[1])
        return None

    def vartype(self, n):
        name = n.split(":", 1)[1]
        f = self.ctx[-1][2]
        ts = {s.b for s in cc.walk(f.body) if s.kind == "decl" and s.a == name}
        ts |= {t for q, t in f.params if q == name}
        return ts.pop() if len(ts) == 1 else None

    def sametype(self, a, b):
        al = {"npy_intp": "Py_ssize_t", "ptrdiff_t": "Py_ssize_t", "npy_double": "double"}
        a = a.replace("const ", "").replace("static ", "").strip()
        return al.get(a, a) == b or {a, b} <= {"Py_ssize_t", "long"} or {a, b} <= {"int", "unsigned int"} and b == "int"

    # ------------------------------------------------------------ top level
    def entry(self, f, kind):
        """explore a function; kind 'object' (returns a new reference),
        'init', 'status'"""
        self.fn = f.name
        self.stats["states"] = 0
        st = State()
        params = []
        for n, t in f.params:
            params.append(("obj", ("imm", n)) if "PyObject" in t else PTR if t.rstrip().endswith("*") else U)
        n0 = len(self.bad)
        try:
            res = self.run(f, tuple(params), st)
        except Giveup as g:
            del self.ctx[:]
            self.depth = 0
            self.unknown.append((f.name, self.line, str(g)))
            return None
        self.stats["paths"] += len(res)
        for v, x in res:
            try:
                self.exit(f, kind, v, x)
            except Stop:
                pass
        return len(self.bad) - n0

    def exit(self, f, kind, v, x):
        ret = v if v is not None else U
        isnull = ret[0] == "null" or ret == ("int", 0) and kind == "object"
        if not x.gil:
            self.fail("lock", "returns without the interpreter lock")
        how = "returning NULL" if isnull else "returning a result"
        if kind == "object":
            if isnull and not x.exc:
                self.fail("exception", "returns NULL without setting an exception")
            if not isnull and x.exc:
                self.fail("exception", "returns a result with an exception set")
            if not isnull and ret[0] not in ("obj",):
                raise_ = ret[0] in ("u", "ptr")
                if raise_:
                    self.unk("result of unknown origin")
                    return
                self.fail("result", "returns something that is no object")
            if not isnull and x.heap.get(ret[1], ("imm", 0, True))[2] is False:
                self.fail("released", "returns an object it already released (created at %s)" % self.site(ret[1]))
        for oid, o in sorted(x.heap.items(), key=repr):
            want = 1 if kind == "object" and ret == ("obj", oid) else 0
            if o[0] == "mem":
                if o[2]:
                    self.fail("leak", "%s: memory of %s is not freed" % (how, self.site(oid)))
                continue
            if o[1] > want:
                self.fail("leak", "%s: a reference to %s is not released" % (how, self.site(oid)))
            if o[1] < want:
                self.fail("release", "%s: the result is returned without a reference of its own" % how)
        if kind == "object" and ret[0] == "obj" and ret[1] not in x.heap:
            self.fail("release", "the borrowed object %s is returned without a new reference" % (ret[1][1],))

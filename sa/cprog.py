"""The C extension as a program of the abstract interpreter: clang's syntax
tree (cc) is written out as Python text, with pointers as values of their
own (array, byte offset, element size), so that the same value numbering
that compares the interpreted code compares the compiled one.  Exceptions
are raised where PyErr_Format sets them (the clean-up that follows is the
business of the ownership analysis)."""
from fractions import Fraction
from . import cc, npm, terms as T
from .terms import Node, const
from .values import *

PAD = "    "


class Cannot(Exception):
    pass


SIZES = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1, "unsigned char": 1, "short": 2,
         "Py_ssize_t": 8, "npy_intp": 8, "size_t": 8, "ptrdiff_t": 8, "npy_double": 8, "void": 1, "long long": 8, "uint32_t": 4, "int32_t": 4}
EXC = {"ValueError", "TypeError", "MemoryError", "IndexError", "KeyError", "RuntimeError", "AttributeError", "ZeroDivisionError", "ArithmeticError"}
DROP = {"Py_DECREF", "Py_XDECREF", "Py_INCREF", "Py_XINCREF", "Py_CLEAR_", "PyMem_Free", "free", "PyErr_Clear", "PyEval_RestoreThread", "PyEval_SaveThread"}
MATH = {"sqrt": "math.sqrt", "sin": "math.sin", "cos": "math.cos", "tan": "math.tan", "acos": "math.acos", "asin": "math.asin",
        "atan": "math.atan", "atan2": "math.atan2", "fabs": "abs", "exp": "math.exp", "log": "math.log", "pow": "pow", "floor": "math.floor"}


def ctype(t):
    t = t.replace("const ", "").replace("static ", "").replace("struct ", "").strip()
    return t


def deref(t):
    t = ctype(t)
    if t.endswith("]"):
        return t[:t.rindex("[")].strip()
    if t.endswith("*"):
        return t[:-1].strip()
    return None


def size_of(t):
    t = ctype(t)
    if t.endswith("]"):
        i = t.index("[")
        n = t[i + 1:t.index("]", i)]
        return int(n) * size_of((t[:i] + t[t.index("]", i) + 1:]).strip()) if n else None
    if t.endswith("*"):
        return 8
    return SIZES.get(t)


class Fn(object):
    def __init__(self, prog, f):
        self.p, self.u, self.f = prog, prog.u, f
        self.types = {n: ctype(t) for n, t in f.params}
        self.obj = "*" in f.ret and "PyObject" in f.ret
        self.cells = set()
        self.lines, self.at, self.line = [], [], f.line or 0
        self.ind = 1
        self.n = 0
        self.labels = {}
        self.kw = {}
        self.depth = 0
        self.loops = []
        for s in cc.walk(f.body):
            if s.kind == "decl":
                self.types[s.a] = ctype(s.b)
                if s.c is not None and s.c[0] == "init" and "char" in s.b and "*" in s.b:
                    self.kw[s.a] = [cc_str(x) for x in s.c[1]]
            if s.kind == "block":
                for i, q in enumerate(s.a):
                    z = q
                    while z.kind == "label":
                        self.labels[z.a] = (s.a, i)
                        z = z.b
            for e in cc.exprs(s):
                self.addresses(e)

    def addresses(self, e):
        if e[0] == "call" and e[1][0] == "var" and e[1][1].startswith("PyArg_Parse"):
            return
        if e[0] == "un" and e[1] == "&" and e[2][0] == "var":
            self.cells.add(e[2][1])
        for x in e:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    self.addresses(x)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            self.addresses(y)

    # ------------------------------------------------------------------ text
    def put(self, s):
        self.lines.append(PAD*self.ind + s)
        self.at.append(self.line)

    def tmp(self):
        self.n += 1
        return "__t%d" % self.n

    def name(self, n):
        return "v_" + n

    # ----------------------------------------------------------------- types
    def typ(self, e):
        k = e[0]
        if k == "var":
            return self.types.get(e[1]) or ctype(self.u.gtypes.get(e[1], ""))
        if k == "num":
            return "double" if isinstance(e[1], float) else "int"
        if k in ("cast", "conv"):
            return ctype(e[1])
        if k == "bin":
            return ctype(e[4]) if len(e) > 4 else "int"
        if k == "idx":
            return deref(self.typ(e[1]) or "")
        if k == "un":
            if e[1] == "*":
                return deref(self.typ(e[2]) or "")
            if e[1] == "&":
                return (self.typ(e[2]) or "void") + " *"
            if e[1] == "!":
                return "int"
            return self.typ(e[2])
        if k == "assign":
            return self.typ(e[2])
        if k == "cond":
            return self.typ(e[2])
        if k == "call" and e[1][0] == "var":
            f = self.u.funcs.get(e[1][1])
            if f is not None:
                return ctype(f.ret)
            if e[1][1] in MATH:
                return "double"
        if k == "sizeof":
            return "unsigned long"
        return None

    # ----------------------------------------------------------- expressions
    def lit(self, v):
        if isinstance(v, float):
            for m in (Fraction(1), Fraction(2), Fraction(1, 2), Fraction(4), Fraction(1, 4), Fraction(1, 180), Fraction(1, 360)):
                if abs(v - 3.141592653589793*float(m)) < 1e-14*max(1., float(m)):
                    return "(math.pi*%d/%d)" % (m.numerator, m.denominator)
            if abs(v - 180/3.141592653589793) < 1e-12:
                return "(180/math.pi)"
            return repr(v)
        return repr(v)

    def x(self, e):
        """text of an expression; its side effects are put before"""
        k = e[0]
        if k == "num":
            return self.lit(e[1])
        if k == "str":
            return repr(e[1])
        if k == "null":
            return "None"
        if k == "enum":
            return "__c_enum__(%r)" % e[1]
        if k == "var":
            n = e[1]
            if n in self.types:
                return "__c_get__(%s, 0)" % self.name(n) if n in self.cells else self.name(n)
            if n in ("_Py_NoneStruct", "_Py_TrueStruct", "_Py_FalseStruct"):
                return {"N": "None", "T": "True", "F": "False"}[n[4]]
            if n in self.u.funcs:
                return "f_" + n
            if n in self.u.globals and n in self.u.gtypes:
                return self.p.globalvar(self, n)
            return "__c_name__(%r)" % n
        if k in ("cast", "conv"):
            t = ctype(e[1])
            a = self.x(e[2])
            if t.endswith("*"):
                d = deref(t)
                s = size_of(d)
                if ("Py" in d and d not in ("Py_ssize_t", "Py_intptr_t", "npy_intp")) or s is None or d.endswith("*"):
                    return a
                return "__c_cast__(%s, %d)" % (a, s)
            src = self.typ(e[2])
            if t in ("int", "long", "Py_ssize_t", "size_t", "unsigned long", "unsigned int") and src in ("double", "float"):
                return "__c_trunc__(%s)" % a
            if t in ("double", "float") and src not in ("double", "float"):
                return "__c_real__(%s)" % a
            return a
        if k == "sizeof":
            s = size_of(e[1] or "")
            if s is None:
                raise Cannot("sizeof %s" % e[1])
            return str(s)
        if k == "un":
            op = e[1]
            if op == "-":
                return "(-%s)" % self.x(e[2])
            if op == "+":
                return self.x(e[2])
            if op == "!":
                return "(not %s)" % self.truth(e[2])
            if op == "~":
                return "(~%s)" % self.x(e[2])
            if op == "*":
                return "__c_get__(%s, 0)" % self.x(e[2])
            if op == "&":
                t = e[2]
                while t[0] == "cast":
                    t = t[2]
                if t[0] == "var":
                    if t[1] in self.types:
                        return self.name(t[1])
                    return self.x(t)
                if t[0] == "idx":
                    return "__c_add__(%s, %s)" % (self.x(t[1]), self.x(t[2]))
                if t[0] == "un" and t[1] == "*":
                    return self.x(t[2])
                raise Cannot("address of %s" % t[0])
            if op in ("post++", "post--", "pre++", "pre--"):
                old = self.tmp()
                self.put("%s = %s" % (old, self.x(e[2])))
                t = self.typ(e[2]) or ""
                one = "1" if op.endswith("++") else "-1"
                new = "__c_add__(%s, %s)" % (old, one) if t.endswith("*") else "%s + %s" % (old, one)
                self.store(e[2], new)
                return old if op.startswith("post") else self.x(e[2])
            raise Cannot("operator %s" % op)
        if k == "bin":
            op = e[1]
            if op == ",":
                self.x(e[2])
                return self.x(e[3])
            if op in ("&&", "||"):
                a = self.truth(e[2])
                n = len(self.lines)
                b = self.truth(e[3])
                if len(self.lines) == n:
                    return "(%s %s %s)" % (a, "and" if op == "&&" else "or", b)
                pend = self.lines[n:], self.at[n:]
                del self.lines[n:], self.at[n:]
                t = self.tmp()
                self.put("%s = bool(%s)" % (t, a))
                self.put("if %s:" % (t if op == "&&" else "not " + t))
                self.lines += [PAD + l for l in pend[0]]
                self.at += pend[1]
                self.ind += 1
                self.put("%s = bool(%s)" % (t, b))
                self.ind -= 1
                return t
            ta, tb = self.typ(e[2]) or "", self.typ(e[3]) or ""
            pa, pb = ta.endswith(("*", "]")), tb.endswith(("*", "]"))
            a = self.hold(e[2], e[3])
            b = self.x(e[3])
            if op in ("+", "-") and pa and pb:
                return "__c_diff__(%s, %s)" % (a, b)
            if op in ("+", "-") and pa:
                return "__c_add__(%s, %s%s)" % (a, "-" if op == "-" else "", b)
            if op == "+" and pb:
                return "__c_add__(%s, %s)" % (b, a)
            if op in ("==", "!=") and (pa or pb or "None" in (a, b)):
                if (e[3] == ("num", 0)):
                    b = "None"
                return "__c_same__(%s, %s)" % (a, b) if op == "==" else "(not __c_same__(%s, %s))" % (a, b)
            if op == "/":
                t = ctype(e[4]) if len(e) > 4 else "double"
                return "(%s / %s)" % (a, b) if t in ("double", "float") else "(%s // %s)" % (a, b)
            if op == "%":
                return "(%s %% %s)" % (a, b)
            return "(%s %s %s)" % (a, op, b)
        if k == "assign":
            return self.assign(e)
        if k == "cond":
            c = self.truth(e[1])
            n = len(self.lines)
            a = self.x(e[2])
            b = self.x(e[3])
            if len(self.lines) == n:
                return "(%s if %s else %s)" % (a, c, b)
            del self.lines[n:], self.at[n:]
            t = self.tmp()
            self.put("if %s:" % c)
            self.ind += 1
            self.put("%s = %s" % (t, self.x(e[2])))
            self.ind -= 1
            self.put("else:")
            self.ind += 1
            self.put("%s = %s" % (t, self.x(e[3])))
            self.ind -= 1
            return t
        if k == "idx":
            a = self.hold(e[1], e[2])
            return "__c_get__(%s, %s)" % (a, self.x(e[2]))
        if k == "member":
            return "%s.%s" % (self.x(e[1]), e[2])
        if k == "call":
            return self.call(e)
        raise Cannot("expression %s" % k)

    def truth(self, e):
        """the condition e: pointers are compared with NULL"""
        x = self.x(e)
        t = self.typ(e) or ""
        if t.endswith("*") and x not in ("None", "True", "False"):
            return "(not __c_same__(%s, None))" % x
        return x

    def hold(self, a, b):
        """the first operand, kept if the second has side effects"""
        x = self.x(a)
        n = len(self.lines)
        self.x(b)
        if len(self.lines) > n:
            del self.lines[n:], self.at[n:]
            t = self.tmp()
            self.put("%s = %s" % (t, x))
            return t
        return x

    def store(self, lhs, text):
        while lhs[0] in ("cast", "conv"):
            lhs = lhs[2]
        if lhs[0] == "var":
            if lhs[1] not in self.types:
                raise Cannot("store to global %s" % lhs[1])
            if lhs[1] in self.cells:
                self.put("__c_set__(%s, 0, %s)" % (self.name(lhs[1]), text))
            else:
                self.put("%s = %s" % (self.name(lhs[1]), text))
        elif lhs[0] == "idx":
            p, i = self.x(lhs[1]), self.x(lhs[2])
            self.put("__c_set__(%s, %s, %s)" % (p, i, text))
        elif lhs[0] == "un" and lhs[1] == "*":
            self.put("__c_set__(%s, 0, %s)" % (self.x(lhs[2]), text))
        else:
            raise Cannot("store to %s" % lhs[0])

    def fit(self, t, v, e):
        """implicit conversion of pointers"""
        t = ctype(t or "")
        if not t.endswith("*") or v == "None":
            return v
        d = deref(t)
        n = size_of(d)
        if n is None or d == "void" or d.endswith("*") or self.typ(e) == t:
            return v
        return "__c_cast__(%s, %d)" % (v, n)

    def assign(self, e):
        op, lhs, rhs = e[1], e[2], e[3]
        t = self.tmp()
        if op == "=":
            v = self.x(rhs)
            if rhs[0] == "num" and isinstance(rhs[1], int) and self.typ(lhs) in ("double", "float"):
                v += "."
            if (self.typ(lhs) or "").endswith("*") and rhs == ("num", 0):
                v = "None"
            v = self.fit(self.typ(lhs), v, rhs)
        else:
            b = op[:-1]
            if (self.typ(lhs) or "").endswith("*"):
                r = self.x(rhs)
                v = "__c_add__(%s, %s%s)" % (self.x(lhs), "-" if b == "-" else "", r)
            else:
                r = self.x(rhs)
                lt, rt = self.typ(lhs), self.typ(rhs)
                o = b
                if b == "/" and lt not in ("double", "float", None) and rt not in ("double", "float", None):
                    o = "//"
                v = "%s %s (%s)" % (self.x(lhs), o, r)
        self.put("%s = %s" % (t, v))
        self.store(lhs, t)
        return t

    # ----------------------------------------------------------------- calls
    def call(self, e):
        if e[1][0] != "var":
            raise Cannot("call through a pointer")
        n, args = e[1][1], e[2]
        if n in ("PyArg_ParseTupleAndKeywords", "PyArg_ParseTuple"):
            return self.parse(n, args)
        if n in DROP:
            return "None"
        if n in ("PyErr_Format", "PyErr_SetString", "PyErr_SetNone"):
            x = args[0]
            while x[0] in ("cast", "conv"):
                x = x[2]
            ex = x[1][6:] if x[0] == "var" and x[1].startswith("PyExc_") else None
            if ex is None and x[0] == "un" and x[2][0] == "var":
                ex = x[2][1].replace("PyExc_", "").lstrip("_")
            self.put("raise %s('C')" % (ex if ex in EXC else "Exception"))
            return "None"
        if n == "PyErr_NoMemory":
            self.put("raise MemoryError('C')")
            return "None"
        if n == "PyErr_Occurred":
            return "None"
        if n in MATH and n not in self.u.funcs:
            return "%s(%s)" % (MATH[n], ", ".join(self.x(a) for a in args))
        xs = []
        for i, a in enumerate(args):
            xs.append(self.x(a))
            if any(self.effects(b) for b in args[i + 1:]):
                t = self.tmp()
                self.put("%s = %s" % (t, xs[-1]))
                xs[-1] = t
        if n in self.u.funcs:
            self.p.need(n)
            ps = self.u.funcs[n].params
            if len(ps) == len(xs):
                xs = [self.fit(t, v, b) for (_, t), v, b in zip(ps, xs, args)]
            return "f_%s(%s)" % (n, ", ".join(xs))
        if n == "PyObject_IsTrue":
            return "(1 if %s else 0)" % xs[0]
        if n == "PyFloat_AsDouble":
            return "__c_real__(%s)" % xs[0]
        if n == "PySequence_GetItem":
            return "%s[%s]" % tuple(xs)
        if n in ("PySequence_Size", "PyUnicode_GetSize", "PyUnicode_GetLength", "PySequence_Length"):
            return "len(%s)" % xs[0]
        if n == "PyUnicode_Check":
            return "isinstance(%s, str)" % xs[0]
        if n == "PyLong_Check":
            return "__c_isint__(%s)" % xs[0]
        if n in ("PyLong_AsLong", "PyLong_AsSsize_t", "PyFloat_FromDouble", "PyUnicode_AsASCIIString", "PyLong_FromLong", "PyArray_Return_"):
            return xs[0]
        if n == "PySequence_Check":
            return "(isinstance(%s, (tuple, list, str)) or __c_isarray__(%s))" % (xs[0], xs[0])
        if n == "PyBool_FromLong":
            return "bool(%s)" % xs[0]
        if n in ("memset", "memcpy", "memmove"):
            self.put("__c_%s__(%s)" % ("memset" if n == "memset" else "memcpy", ", ".join(xs)))
            return xs[0]
        if n == "Py_BuildValue":
            return self.build(args, xs)
        if n in API:
            return "__%s__(%s)" % (n, ", ".join(xs))
        return "__c_unknown__(%r)" % n

    def effects(self, e):
        n, k = len(self.lines), self.n
        self.x(e)
        r = len(self.lines) > n
        del self.lines[n:], self.at[n:]
        return r

    def build(self, args, xs):
        f = args[0]
        if f[0] != "str":
            raise Cannot("format")
        r = [c for c in f[1] if c not in "() ,"]
        if any(c not in "dfiINOSn" for c in r) or len(r) != len(xs) - 1:
            raise Cannot("Py_BuildValue %r" % f[1])
        if not r:
            return "None"
        if len(r) == 1 and "(" not in f[1]:
            return xs[1]
        return "(%s,)" % ", ".join(xs[1:])

    def parse(self, n, args):
        kw = n.endswith("Keywords")
        rest = list(args[4 if kw else 2:])
        f = args[2 if kw else 1]
        if f[0] != "str":
            raise Cannot("format")
        fmt = f[1].split(":")[0].split(";")[0]
        names = None
        if kw:
            a = args[3]
            while a[0] in ("cast", "conv"):
                a = a[2]
            names = self.kw.get(a[1]) if a[0] == "var" else None
            if names is None:
                raise Cannot("keyword list")
        sig, opt, i, todo = [], False, 0, []
        while i < len(fmt):
            c = fmt[i]
            i += 1
            if c == "|":
                opt = True
                continue
            if c == "$":
                continue
            if c == "O" and i < len(fmt) and fmt[i] in "&!":
                c += fmt[i]
                i += 1
            if c not in ("O", "O&", "O!", "d", "f", "i", "n", "l", "p", "U"):
                raise Cannot("format %r" % fmt)
            nm = names[len(sig)] if names else "a%d" % len(sig)
            conv = rest.pop(0) if c in ("O&", "O!") else None
            t = rest.pop(0)
            while t[0] in ("cast", "conv"):
                t = t[2]
            if not (t[0] == "un" and t[1] == "&" and t[2][0] == "var"):
                raise Cannot("target of %r" % fmt)
            sig.append((nm, opt))
            todo.append((c, nm, opt, conv, t[2]))
        if self.p.sigs.setdefault(self.f.name, sig) != sig:
            raise Cannot("two signatures")
        for c, nm, opt, conv, t in todo:
            if opt:
                self.put("if %s is not __c_unset__:" % nm)
                self.ind += 1
            if c == "O&":
                while conv[0] in ("cast", "conv"):
                    conv = conv[2]
                if conv[0] == "un":
                    conv = conv[2]
                cell = self.tmp()
                self.put("%s = __c_new__(1, 8)" % cell)
                if conv[1] in self.u.funcs:
                    self.p.need(conv[1])
                    self.put("f_%s(%s, %s)" % (conv[1], nm, cell))
                elif conv[1] in API:
                    self.put("__%s__(%s, %s)" % (conv[1], nm, cell))
                else:
                    raise Cannot("converter")
                self.store(t, "__c_get__(%s, 0)" % cell)
            elif c in ("d", "f"):
                self.store(t, "__c_real__(%s)" % nm)
            elif c == "p":
                self.store(t, "(1 if %s else 0)" % nm)
            else:
                self.store(t, nm)
            if opt:
                self.ind -= 1
        return "1"

    # ------------------------------------------------------------ statements
    def body(self, s):
        n = len(self.lines)
        self.ind += 1
        if s is not None:
            self.stmt(s)
        if len(self.lines) == n:
            self.put("pass")
        self.ind -= 1

    def block(self, stmts, i=0):
        for s in stmts[i:]:
            self.stmt(s)

    def stmt(self, s):
        if s.line:
            self.line = s.line
        k = s.kind
        if k == "block":
            self.block(s.a)
        elif k == "null":
            pass
        elif k == "expr":
            if s.a[0] == "call" or s.a[0] == "cond":
                t = self.x(s.a)
                if t != "None":
                    self.put(t)
            else:
                self.x(s.a)
        elif k == "decl":
            self.decl(s)
        elif k == "if":
            c = self.truth(s.a)
            self.put("if %s:" % c)
            self.body(s.b)
            if s.c is not None:
                self.put("else:")
                self.body(s.c)
        elif k in ("while", "for", "do"):
            if k == "for":
                if s.a is not None:
                    self.stmt(s.a)
                cond, inc, body = s.b, s.c, s.d
            elif k == "while":
                cond, inc, body = s.a, None, s.b
            else:
                cond, inc, body = s.b, None, s.a
            self.loops.append((inc, cond if k == "do" else None))
            if k == "do":
                self.put("while True:")
                self.body(body)
                self.ind += 1
                c = self.truth(cond)
                self.put("if not %s: break" % c)
                self.ind -= 1
            else:
                n = len(self.lines)
                c = "True" if cond is None else self.truth(cond)
                plain = len(self.lines) == n
                pend = self.lines[n:], self.at[n:]
                del self.lines[n:], self.at[n:]
                self.put("while %s:" % (c if plain else "True"))
                if not plain:
                    self.lines += [PAD + l for l in pend[0]]
                    self.at += pend[1]
                    self.ind += 1
                    self.put("if not %s: break" % c)
                    self.ind -= 1
                self.body(body)
                if inc is not None:
                    self.ind += 1
                    self.x(inc)
                    self.ind -= 1
            self.loops.pop()
        elif k == "continue":
            if not self.loops or self.loops[-1] is None:
                raise Cannot("continue")
            inc, cond = self.loops[-1]
            if cond is not None:
                raise Cannot("continue in do")
            if inc is not None:
                self.x(inc)
            self.put("continue")
        elif k == "break":
            if not self.loops or self.loops[-1] is None:
                raise Cannot("break in switch")
            self.put("break")
        elif k == "switch":
            self.switch(s)
        elif k in ("case", "default"):
            raise Cannot("case")
        elif k == "label":
            self.stmt(s.b)
        elif k == "goto":
            if s.a not in self.labels or self.depth > 4:
                raise Cannot("goto")
            self.depth += 1
            stmts, i = self.labels[s.a]
            save, self.loops = self.loops, []
            self.block(stmts, i)
            self.loops = save
            self.depth -= 1
            if not self.lines[-1].strip().startswith(("return", "raise")):
                raise Cannot("goto into code that goes on")
        elif k == "return":
            if s.a is None:
                self.put("return None")
            elif self.obj and s.a in (("null",), ("num", 0)):
                self.put("raise SystemError('NULL')")
            else:
                self.put("return %s" % self.x(s.a))
        else:
            raise Cannot("statement %s" % s.a)

    def decl(self, s):
        n, t = s.a, ctype(s.b)
        if n in self.kw:
            return
        self.types[n] = t
        if t.endswith("]"):
            el = deref(t)
            c = size_of(el)
            i = t.rindex("[")
            cnt = t[i + 1:-1]
            if c is None or not cnt.isdigit():
                raise Cannot("array %s" % t)
            self.put("%s = __c_new__(%s, %d)" % (self.name(n), cnt, c))
            if s.c is not None:
                if s.c[0] != "init":
                    raise Cannot("initialiser")
                vs = list(s.c[1]) + [("num", 0)]*(int(cnt) - len(s.c[1]))
                for q, v in enumerate(vs):
                    x = self.x(v)
                    if v[0] == "num" and isinstance(v[1], int) and el in ("double", "float"):
                        x += "."
                    self.put("__c_set__(%s, %d, %s)" % (self.name(n), q, x))
            return
        if n in self.cells:
            self.put("%s = __c_new__(1, %d)" % (self.name(n), size_of(t) or 8))
        if s.c is None:
            if n not in self.cells:
                self.put("%s = __c_uninit__" % self.name(n))
            return
        v = self.x(s.c)
        if t in ("double", "float") and s.c[0] == "num" and isinstance(s.c[1], int):
            v += "."
        if t.endswith("*") and s.c == ("num", 0):
            v = "None"
        v = self.fit(t, v, s.c)
        self.store(("var", n), v)

    def switch(self, s):
        body = s.b.a if s.b.kind == "block" else [s.b]
        flat = []
        for q in body:
            while q.kind in ("case", "default"):
                flat.append((q.kind, q.a if q.kind == "case" else None))
                q = q.b if q.kind == "case" else q.a
            flat.append(("s", q))
        groups = []         # (labels, start)
        cur = []
        for i, (k, v) in enumerate(flat):
            if k in ("case", "default"):
                cur.append((k, v))
            elif cur:
                groups.append((cur, i))
                cur = []
        t = self.tmp()
        self.put("%s = %s" % (t, self.x(s.a)))
        groups.sort(key=lambda g: any(k == "default" for k, _ in g[0]))
        first = True
        for labs, i in groups:
            if any(k == "default" for k, _ in labs):
                self.put("if True:" if first else "else:")
            else:
                cs = ["%s == %s" % (t, self.x(v)) for k, v in labs]
                self.put("%s %s:" % ("if" if first else "elif", " or ".join(cs)))
            first = False
            self.ind += 1
            n = len(self.lines)
            self.loops.append(None)
            for k, q in flat[i:]:
                if k != "s":
                    continue
                if q.kind == "break":
                    break
                if q.kind == "block" and q.a and q.a[-1].kind == "break":
                    self.block(q.a[:-1])
                    break
                self.stmt(q)
                if q.kind in ("return", "goto", "continue"):
                    break
            self.loops.pop()
            if len(self.lines) == n:
                self.put("pass")
            self.ind -= 1

    def text(self, exported):
        self.block(self.f.body.a)
        params = ["v_" + n for n, t in self.f.params]
        if exported:
            sig = self.p.sigs.get(self.f.name, [])
            params = [n + ("=__c_unset__" if o else "") for n, o in sig]
        head = ["def f_%s(%s):" % (self.f.name, ", ".join(params))]
        lines, at = [], []
        if not exported:
            for n, t in self.f.params:
                if n in self.cells:
                    lines += [PAD + "__t = v_%s" % n, PAD + "v_%s = __c_new__(1, 8)" % n, PAD + "__c_set__(v_%s, 0, __t)" % n]
                    at += [self.f.line or 0]*3
        lines += self.lines
        at += self.at
        if not lines:
            lines, at = [PAD + "pass"], [0]
        return head + lines, [self.f.line or 0] + at


def cc_str(x):
    while x[0] in ("cast", "conv"):
        x = x[2]
    return x[1] if x[0] == "str" else None


API = {"PyArray_FROM_OTF", "PyArray_NDIM", "PyArray_DIM", "PyArray_STRIDE", "PyArray_DATA", "PyArray_DIMS", "PyArray_SAMESHAPE", "PyArray_Check",
       "PyArray_TYPE", "PyArray_ISCOMPLEX", "PyArray_SimpleNew", "PyArray_Return", "PyMem_Malloc", "malloc", "PyBytes_AsString", "PyBytes_AS_STRING",
       "PyArray_IterNew", "PyArray_IterAllButAxis", "PyArray_ITER_NEXT", "PyArray_AxisConverter", "PyArray_SIZE", "PyArray_ISCONTIGUOUS",
       "PyArray_Copy", "PyArray_Zeros", "PyArray_DescrFromType", "PyArray_NewCopy", "PyArray_ZEROS", "PyArray_BYTES"}


class Prog(object):
    def __init__(self, unit):
        self.u = unit
        self.sigs, self.out, self.failed, self.todo = {}, {}, {}, []
        self.gl = {}

    def need(self, n):
        if n not in self.out and n not in self.failed and n not in self.todo:
            self.todo.append(n)

    def globalvar(self, fn, n):
        raise Cannot("global %s" % n)

    def add(self, names, exported=True):
        for n in names:
            self.one(n, exported)
        while self.todo:
            self.one(self.todo.pop(), False)

    def one(self, n, exported):
        f = self.u.funcs[n]
        try:
            self.out[n] = Fn(self, f).text(exported)
        except Cannot as e:
            self.failed[n] = str(e)

    def source(self):
        text, at = ["import math"], [0]
        for n in sorted(self.out):
            t, l = self.out[n]
            text += t
            at += l
        for n in sorted(self.failed):
            text += ["def f_%s(*a, **k):" % n, "    __c_unknown__(%r)" % (n + ": " + self.failed[n])]
            at += [0, 0]
        return "\n".join(text) + "\n", at


# ------------------------------------------------------------------- runtime
class CPtr(object):
    """pointer: storage, byte offset, size of what it points to"""
    memo = {}

    def __init__(self, st, off, size):
        self.st, self.off, self.size = st, off, size

    def __repr__(self):
        return "<ptr %s+%s>" % (self.st, self.off)


class Store(object):
    """storage of a pointer: an array buffer, cells, or text"""

    def __init__(self, kind, v, unit, n, shape=None):
        self.kind, self.v, self.unit, self.n, self.shape = kind, v, unit, n, shape


def ptr(st, off, size):
    k = (id(st), off, size)
    if k not in CPtr.memo:
        CPtr.memo[k] = (CPtr(st, off, size), st)
    return CPtr.memo[k][0]


def cint(v, what="offset"):
    if isinstance(v, Node) and T.isconst(v):
        v = T.cval(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Fraction)) and int(v) == v:
        return int(v)
    raise AnalysisError("symbolic %s" % what)


def runtime(I):
    stores = {}

    def bad(text):
        if not hasattr(I, "oob"):
            I.oob, I.oob_unknown = [], []
        I.oob.append((I.loc, text))
        I.throw("IndexError", "unchecked access: " + text)

    def bufstore(a):
        b = a.buf
        if id(b) not in stores:
            sh = tuple(cint(s, "size") for s in b.shape)
            n = 1
            for s in sh:
                n *= s
            stores[id(b)] = (Store("arr", Arr(b), 8, n*8, sh), b)
        return stores[id(b)][0]

    def layout(a):
        """byte offset and strides of a view"""
        st = bufstore(a)
        bs, k = [], 8
        for s in reversed(st.shape):
            bs.insert(0, k)
            k *= max(s, 1)
        off, strides = 0, [0]*len(a.shape)
        for m, s in zip(a.maps, bs):
            if m[0] == "c":
                off += s*cint(m[1])
            else:
                off += s*cint(m[2])
                strides[m[1]] += s*m[3]
        return st, off, strides

    def arr(v):
        v = I.resolve(v)
        if isinstance(v, Snap):
            v = npm.fresh(I, v)
        if isinstance(v, Node) and v.sort in "irb":
            v = npm.fresh(I, Snap((), lambda idx, v=v: v, npm.nkind(v)))
        if v is None:
            bad("NULL pointer")
        if not isinstance(v, Arr):
            raise AnalysisError("array expected in C code")
        return v

    def P(v):
        v = I.resolve(v)
        if v is None:
            bad("NULL pointer")
        if not isinstance(v, CPtr):
            raise AnalysisError("pointer expected in C code")
        return v

    def where(p, i):
        st = p.st
        o = p.off + cint(i)*p.size
        if st.kind == "text":
            return o
        if p.size != st.unit or o % st.unit:
            raise AnalysisError("access of another type")
        if not 0 <= o < st.n:
            bad("element %d of %d" % (o // st.unit, st.n // st.unit))
        return o // st.unit

    def get(I, a, k):
        p = P(a[0])
        w = where(p, a[1])
        st = p.st
        if st.kind == "text":
            b = st.v
            if not 0 <= w <= len(b) + 1 - p.size:
                bad("text beyond its end")
            return const(int.from_bytes((b + b"\0")[w:w + p.size], "little", signed=True))
        if st.kind == "cells":
            return I.getitem(st.v, const(w))
        return I.getitem(st.v, split(st, w))

    def split(st, w):
        ix = []
        for s in reversed(st.shape):
            ix.insert(0, const(w % s))
            w //= s
        return tuple(ix) if len(ix) != 1 else ix[0]

    def setv(p, w, v):
        st = p.st
        if st.kind == "cells":
            I.setitem(st.v, const(w), v)
        elif st.kind == "arr":
            if isinstance(v, Node) and v.sort == "i":
                v = T.to_real(v)
            I.setitem(st.v, split(st, w), v)
        else:
            raise AnalysisError("write to text")

    def set_(I, a, k):
        p = P(a[0])
        setv(p, where(p, a[1]), I.resolve(a[2]) if isinstance(a[2], Choice) else a[2])
        return None

    UNINIT = T.atom("uninit_c")

    def new(I, a, k):
        n, c = cint(a[0], "size"), cint(a[1])
        st = Store("cells", I.new_list([UNINIT]*n), c, n*c)
        return ptr(st, 0, c)

    def malloc(I, a, k):
        n = cint(a[0], "size")
        st = Store("cells", I.new_list([UNINIT]*(n // 8)), 8, n // 8*8)
        return ptr(st, 0, 1)

    def add(I, a, k):
        p = P(a[0])
        return ptr(p.st, p.off + cint(a[1])*p.size, p.size)

    def diff(I, a, k):
        p, q = P(a[0]), P(a[1])
        if p.st is not q.st:
            raise AnalysisError("difference of pointers")
        return const((p.off - q.off) // p.size)

    def cast(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, CPtr):
            return ptr(v.st, v.off, cint(a[1]))
        return v

    def same(I, a, k):
        x, y = I.resolve(a[0]), I.resolve(a[1])
        if isinstance(x, Choice) or isinstance(y, Choice):
            raise AnalysisError("comparison of pointers")
        return TRUE if x is y else FALSE

    TRUE, FALSE = T.TRUE, T.FALSE

    def real(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, (Arr, Snap)):
            v = npm.item(I, v)
        if not isinstance(v, Node):
            I.throw("TypeError", "must be real number")
        return T.to_real(v) if v.sort != "o" else T.call("float", [v], sort="r")

    def trunc(I, a, k):
        v = a[0]
        if isinstance(v, Node) and T.isconst(v):
            return const(int(T.cval(v)))
        return T.fn("int", v, sort="i")

    def isint(I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, Node):
            return TRUE if v.sort in ("i", "b") else FALSE
        return FALSE

    def unknown(I, a, k):
        raise AnalysisError("C code: %s" % (a[0],))

    def memset(I, a, k):
        p, v, n = P(a[0]), cint(a[1]), cint(a[2])
        if v != 0 or p.st.kind == "text":
            raise AnalysisError("memset")
        u = p.st.unit
        q = ptr(p.st, p.off, u)
        for i in range(n // u):
            setv(q, where(q, const(i)), const(0.) if u == 8 else const(0))
        return None

    def memcpy(I, a, k):
        d, s, n = P(a[0]), P(a[1]), cint(a[2])
        u = d.st.unit
        d, s = ptr(d.st, d.off, u), ptr(s.st, s.off, u)
        vs = [get(I, [s, const(i)], {}) for i in range(n // u)]
        for i, v in enumerate(vs):
            setv(d, where(d, const(i)), v)
        return None

    np_ = I.externs["numpy"].table

    def contiguous(a):
        st, off, strides = layout(a)
        k = 8
        for n, s in reversed(list(zip(a.shape, strides))):
            n = cint(n)
            if n > 1 and s != k:
                return False
            k *= n
        return True

    def from_otf(I, a, k):
        v = I.resolve(a[0])
        fl = cint(a[2])
        if isinstance(v, Arr) and v.dt == "f" and not fl & 0x20 and (not fl & 1 or contiguous(v)) and not v.matrix:
            return v
        r = I.call(np_["array"], [v, np_["double"]], {})
        return arr(r)

    def ndim(I, a, k):
        return const(len(arr(a[0]).shape))

    def dim(I, a, k):
        v, i = arr(a[0]), cint(a[1])
        if not 0 <= i < len(v.shape):
            bad("size of axis %d of an array with %d" % (i, len(v.shape)))
        return v.shape[i]

    def stride(I, a, k):
        v, i = arr(a[0]), cint(a[1])
        if not 0 <= i < len(v.shape):
            bad("stride of axis %d of an array with %d" % (i, len(v.shape)))
        return const(layout(v)[2][i])

    def data(I, a, k):
        st, off, _ = layout(arr(a[0]))
        return ptr(st, off, 1)

    def dims(I, a, k):
        v = arr(a[0])
        st = Store("cells", I.new_list(list(v.shape)), 8, 8*len(v.shape))
        return ptr(st, 0, 8)

    def sameshape(I, a, k):
        x, y = arr(a[0]), arr(a[1])
        return lift([cint(s) for s in x.shape] == [cint(s) for s in y.shape])

    def acheck(I, a, k):
        return lift(isinstance(I.resolve(a[0]), (Arr, Snap)))

    def atype(I, a, k):
        return const({"f": 12, "i": 7, "b": 0, "c": 15}.get(arr(a[0]).dt, 17))

    def iscomplex(I, a, k):
        return lift(arr(a[0]).dt == "c")

    def simplenew(I, a, k):
        n = cint(a[0])
        sh = []
        if n:
            p = P(a[1])
            p = ptr(p.st, p.off, p.st.unit)
            sh = [const(cint(get(I, [p, const(i)], {}))) for i in range(n)]
        return npm.fresh(I, Snap(tuple(sh), lambda idx: T.call("uninit_array", [], idx, "r"), "f"))

    def zeros(I, a, k):
        r = simplenew(I, a, k)
        return I.call(np_["zeros"], [r.shape], {})

    def ret(I, a, k):
        v = arr(a[0])
        return npm.item(I, v) if not v.shape else v

    def copy(I, a, k):
        return arr(I.call(np_["array"], [arr(a[0])], {}))

    def text(I, a, k):
        v = I.resolve(a[0])
        if not isinstance(v, str):
            raise AnalysisError("text in C code")
        st = Store("text", v.encode("ascii"), 1, len(v))
        return ptr(st, 0, 1)

    class It(object):
        pass

    def iterator(v, axis=None):
        st, off, strides = layout(v)
        sh = [cint(s) for s in v.shape]
        ps = []
        import itertools
        for ix in itertools.product(*[range(1 if q == axis else n) for q, n in enumerate(sh)]):
            if axis is not None and sh[axis] == 0:
                break
            ps.append(ptr(st, off + sum(i*s for i, s in zip(ix, strides)), 1))
        size = 1
        for q, n in enumerate(sh):
            size *= 1 if q == axis else n
        m = I.get(I.modules["__cprog__"], "CIter")
        o = I.call(m, [], {})
        I.setattr_(o, "index", const(0))
        I.setattr_(o, "size", const(size))
        I.setattr_(o, "dataptr", ps[0] if ps else ptr(st, off, 1))
        I.setattr_(o, "ptrs", tuple(ps))
        return o

    def iternew(I, a, k):
        return iterator(arr(a[0]))

    def iterbut(I, a, k):
        v = arr(a[0])
        ax = cint(get(I, [ptr(P(a[1]).st, P(a[1]).off, P(a[1]).st.unit), const(0)], {}))
        if ax < 0:
            raise AnalysisError("axis chosen by numpy")
        if ax >= len(v.shape):
            bad("axis %d of an array with %d" % (ax, len(v.shape)))
        return iterator(v, ax)

    def iternext(I, a, k):
        o = I.resolve(a[0])
        if o is None:
            bad("NULL pointer")
        i = cint(I.getattr_(o, "index")) + 1
        I.setattr_(o, "index", const(i))
        ps = I.getattr_(o, "ptrs")
        if i < len(ps):
            I.setattr_(o, "dataptr", ps[i])
        elif ps:
            p = ps[-1]
            I.setattr_(o, "dataptr", ptr(p.st, p.st.n, 1))
        return None

    def axisconv(I, a, k):
        v = I.resolve(a[0])
        c = P(a[1])
        setv(ptr(c.st, c.off, c.st.unit), 0, const(32) if v is None else const(cint(v, "axis")))
        return const(1)

    def asize(I, a, k):
        n = 1
        for s in arr(a[0]).shape:
            n *= cint(s)
        return const(n)

    def isarray(I, a, k):
        v = I.resolve(a[0])
        return lift(isinstance(v, (Arr, Snap)) and len(v.shape) > 0)

    def azeros(I, a, k):
        return zeros(I, a[:2], k)

    def cenum(I, a, k):
        e = {"NPY_BOOL": 0, "NPY_BYTE": 1, "NPY_INT": 5, "NPY_LONG": 7, "NPY_INTP": 7, "NPY_FLOAT": 11, "NPY_DOUBLE": 12, "NPY_CDOUBLE": 15, "NPY_OBJECT": 17}
        if a[0] not in e:
            raise AnalysisError("C constant %s" % a[0])
        return const(e[a[0]])

    fs = {"__c_get__": get, "__c_set__": set_, "__c_new__": new, "__c_add__": add, "__c_diff__": diff, "__c_cast__": cast, "__c_same__": same,
          "__c_real__": real, "__c_trunc__": trunc, "__c_isint__": isint, "__c_unknown__": unknown, "__c_memset__": memset, "__c_memcpy__": memcpy,
          "__c_enum__": cenum, "__c_isarray__": isarray, "__PyArray_Zeros__": azeros, "__PyArray_DescrFromType__": lambda I, a, k: a[0], "__c_name__": unknown,
          "__PyArray_FROM_OTF__": from_otf, "__PyArray_NDIM__": ndim, "__PyArray_DIM__": dim, "__PyArray_STRIDE__": stride,
          "__PyArray_DATA__": data, "__PyArray_BYTES__": data, "__PyArray_DIMS__": dims, "__PyArray_SAMESHAPE__": sameshape, "__PyArray_Check__": acheck,
          "__PyArray_TYPE__": atype, "__PyArray_ISCOMPLEX__": iscomplex, "__PyArray_SimpleNew__": simplenew, "__PyArray_ZEROS__": zeros,
          "__PyArray_Return__": ret, "__PyMem_Malloc__": malloc, "__malloc__": malloc, "__PyBytes_AsString__": text, "__PyBytes_AS_STRING__": text,
          "__PyArray_IterNew__": iternew, "__PyArray_IterAllButAxis__": iterbut, "__PyArray_ITER_NEXT__": iternext,
          "__PyArray_AxisConverter__": axisconv, "__PyArray_SIZE__": asize, "__PyArray_ISCONTIGUOUS__": lambda I, a, k: lift(contiguous(arr(a[0]))),
          "__PyArray_Copy__": copy, "__PyArray_NewCopy__": copy}
    from .terms import lift
    return {n: Builtin(n, f) for n, f in fs.items()}


def load(ck, I, path):
    """the functions of the extension as a module: {python name: function}"""
    from .checks import c22
    u = cc.parse(path)
    if u.errors:
        raise AnalysisError("C source: %s" % u.errors[0])
    rows, odd = c22.exported(u)
    pr = Prog(u)
    pr.add([f.name for _, _, f, _ in rows])
    src, at = pr.source()
    env = runtime(I)
    env["__c_unset__"] = I.new_list([])
    env["__c_uninit__"] = T.atom("uninit_c")
    ck.spec(I, "class CIter(object):\n    pass\n", "__cprog__")
    m = cspec(ck, I, src, at, path, env)
    return {n: I.get(m, "f_" + f.name) for _, n, f, _ in rows}, {n: f for _, n, f, _ in rows}, pr


def cspec(ck, I, src, at, path, env):
    import ast
    from .interp import Act
    from .values import Frame
    tree = ast.parse(src, path)
    for n in ast.walk(tree):
        if hasattr(n, "lineno"):
            n.lineno = at[n.lineno - 1] or 1
            n.end_lineno = n.lineno
    m = Module("electrode._transformations_c", path)
    m.loaded = True
    m.frame = Frame(None, m)
    I.set(m, "__name__", "electrode._transformations_c")
    for k, v in env.items():
        I.set(m, k, v)
    I.acts.append(Act(m.frame))
    loc = I.loc
    try:
        I.exec_block(tree.body)
    finally:
        I.acts.pop()
        I.loc = loc
    I.freeze()
    I.modules["electrode._transformations_c"] = m
    return m

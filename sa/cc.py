"""C front end: clang's syntax tree (parsed against the declarations in
sa/cinc, so that every API macro is one call) as small tuples.

expressions  ("var", name) ("num", v) ("str", s) ("call", callee, args)
             ("un", op, e) ("bin", op, a, b) ("assign", op, lhs, rhs)
             ("cond", c, a, b) ("idx", a, i) ("member", e, field, arrow)
             ("cast", type, e) ("sizeof", type) ("init", elements)
statements   Stmt objects with .kind, .line and fields"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))


class CError(Exception):
    pass


class Stmt(object):
    __slots__ = ("kind", "line", "a", "b", "c", "d", "id")
    n = 0

    def __init__(self, kind, line, a=None, b=None, c=None, d=None):
        self.kind, self.line, self.a, self.b, self.c, self.d = kind, line, a, b, c, d
        Stmt.n += 1
        self.id = Stmt.n

    def __repr__(self):
        return "%s@%s" % (self.kind, self.line)


class CFunc(object):
    def __init__(self, name, ret, params, body, line):
        self.name, self.ret, self.params, self.body, self.line = name, ret, params, body, line


class Unit(object):
    def __init__(self):
        self.funcs, self.globals, self.decls, self.gtypes = {}, {}, set(), {}


class Conv(object):
    def __init__(self):
        self.line = 0

    def upd(self, loc):
        if not isinstance(loc, dict):
            return
        if "spellingLoc" in loc:
            self.upd(loc["spellingLoc"])
            self.upd(loc.get("expansionLoc"))
            return
        if "line" in loc:
            self.line = loc["line"]

    def at(self, n):
        """line of a node (clang leaves out the line when it did not change)"""
        self.upd(n.get("loc"))
        r = n.get("range") or {}
        self.upd(r.get("begin"))
        l = self.line
        self.upd(r.get("end"))
        n["_l"] = l
        for c in n.get("inner", ()):
            if isinstance(c, dict) and c:
                self.at(c)
        return l

    # ------------------------------------------------------------ expressions
    def expr(self, n):
        k = n["kind"]
        inn = [c for c in n.get("inner", ()) if c]
        if k in ("ImplicitCastExpr",):
            e = self.expr(inn[0])
            ck = n.get("castKind")
            if ck in ("IntegralToFloating", "FloatingToIntegral", "IntegralCast"):
                return ("conv", n["type"]["qualType"], e)
            return e
        if k in ("ParenExpr", "ConstantExpr", "FullExpr", "ExprWithCleanups"):
            return self.expr(inn[0])
        if k == "CStyleCastExpr":
            t = n["type"]["qualType"]
            e = self.expr(inn[0])
            if n.get("castKind") == "NullToPointer":
                return ("null",)
            return ("cast", t, e)
        if k == "IntegerLiteral":
            return ("num", int(n["value"]))
        if k == "CharacterLiteral":
            return ("num", int(n["value"]))
        if k == "FloatingLiteral":
            return ("num", float(n["value"]))
        if k == "StringLiteral":
            return ("str", json.loads(n["value"]) if n["value"].startswith('"') else n["value"])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] == "EnumConstantDecl":
                return ("enum", d["name"])
            return ("var", d["name"])
        if k == "CallExpr":
            return ("call", self.expr(inn[0]), tuple(self.expr(c) for c in inn[1:]))
        if k == "UnaryOperator":
            op = n["opcode"]
            if op in ("++", "--"):
                op = ("post" if n.get("isPostfix") else "pre") + op
            if op == "__extension__":
                return self.expr(inn[0])
            return ("un", op, self.expr(inn[0]))
        if k == "BinaryOperator":
            a, b = self.expr(inn[0]), self.expr(inn[1])
            if n["opcode"] == "=":
                return ("assign", "=", a, b)
            return ("bin", n["opcode"], a, b, n["type"]["qualType"])
        if k == "CompoundAssignOperator":
            return ("assign", n["opcode"], self.expr(inn[0]), self.expr(inn[1]))
        if k == "ConditionalOperator":
            return ("cond", self.expr(inn[0]), self.expr(inn[1]), self.expr(inn[2]))
        if k == "ArraySubscriptExpr":
            return ("idx", self.expr(inn[0]), self.expr(inn[1]))
        if k == "MemberExpr":
            return ("member", self.expr(inn[0]), n.get("name"), n.get("isArrow", False))
        if k == "UnaryExprOrTypeTraitExpr":
            t = (n.get("argType") or {}).get("qualType")
            if t is None and inn:
                t = inn[0].get("type", {}).get("qualType")
            return ("sizeof", t)
        if k == "InitListExpr":
            return ("init", tuple(self.expr(c) for c in inn))
        if k == "ImplicitValueInitExpr":
            return ("num", 0)
        if k == "CompoundLiteralExpr":
            return self.expr(inn[0])
        if k in ("RecoveryExpr", "StmtExpr", "GNUNullExpr", "VAArgExpr", "AddrLabelExpr"):
            return ("unknown", k)
        return ("unknown", k)

    # ------------------------------------------------------------- statements
    def stmt(self, n):
        if not n:
            return Stmt("null", self.line)
        k = n["kind"]
        line = n.get("_l", 0)
        inn = n.get("inner", [])
        if k == "CompoundStmt":
            return Stmt("block", line, [self.stmt(c) for c in inn if c])
        if k == "DeclStmt":
            out = []
            for d in inn:
                if d["kind"] == "VarDecl":
                    init = [c for c in d.get("inner", ()) if c and c["kind"] not in ("AlignedAttr", "UnusedAttr")]
                    out.append(Stmt("decl", d.get("_l", line), d["name"], d["type"]["qualType"], self.expr(init[0]) if init and "init" in d else None, d.get("storageClass")))
            return out[0] if len(out) == 1 else Stmt("block", line, out)
        if k == "IfStmt":
            c = [x for x in inn if x]
            return Stmt("if", line, self.expr(c[0]), self.stmt(c[1]), self.stmt(c[2]) if len(c) > 2 else None)
        if k == "WhileStmt":
            return Stmt("while", line, self.expr(inn[-2]), self.stmt(inn[-1]))
        if k == "DoStmt":
            return Stmt("do", line, self.stmt(inn[0]), self.expr(inn[1]))
        if k == "ForStmt":
            i, _, c, s, b = inn
            return Stmt("for", line, self.stmt(i) if i else None, self.expr(c) if c else None, self.expr(s) if s else None, self.stmt(b))
        if k == "SwitchStmt":
            c = [x for x in inn if x]
            return Stmt("switch", line, self.expr(c[0]), self.stmt(c[1]))
        if k == "CaseStmt":
            return Stmt("case", line, self.expr(inn[0]), self.stmt(inn[-1]))
        if k == "DefaultStmt":
            return Stmt("default", line, self.stmt(inn[0]))
        if k == "ReturnStmt":
            return Stmt("return", line, self.expr(inn[0]) if inn else None)
        if k == "GotoStmt":
            return Stmt("goto", line, n.get("targetLabelDeclId"))
        if k == "LabelStmt":
            return Stmt("label", line, n.get("declId"), self.stmt(inn[0]) if inn else Stmt("null", line), n.get("name"))
        if k == "BreakStmt":
            return Stmt("break", line)
        if k == "ContinueStmt":
            return Stmt("continue", line)
        if k == "NullStmt":
            return Stmt("null", line)
        if k == "AttributedStmt":
            return self.stmt([x for x in inn if x][-1])
        if "Expr" in k or "Operator" in k or "Literal" in k:
            return Stmt("expr", line, self.expr(n))
        return Stmt("unknown", line, k)


def parse(path):
    p = subprocess.run(["clang", "-fsyntax-only", "-w", "-ferror-limit=0", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion",
                        "-Wno-error=incompatible-function-pointer-types", "-I", os.path.join(HERE, "cinc"), "-Xclang", "-ast-dump=json", path],
                       capture_output=True, text=True)
    try:
        tree = json.loads(p.stdout)
    except ValueError:
        raise CError("clang: %s" % (p.stderr.strip().split("\n") or ["no output"])[0])
    u = Unit()
    u.errors = [l for l in p.stderr.split("\n") if "error:" in l]
    cv = Conv()
    cv.at(tree)
    main = os.path.abspath(path)
    for n in tree["inner"]:
        if n["kind"] == "FunctionDecl":
            body = [c for c in n.get("inner", ()) if c and c["kind"] == "CompoundStmt"]
            params = [(c.get("name", ""), c["type"]["qualType"]) for c in n.get("inner", ()) if c and c["kind"] == "ParmVarDecl"]
            if n.get("isImplicit") and not body:
                continue
            u.decls.add(n["name"])
            if body:
                u.funcs[n["name"]] = CFunc(n["name"], n["type"]["qualType"].split("(")[0].strip(), params, cv.stmt(body[0]), body[0].get("_l"))
        elif n["kind"] == "VarDecl":
            u.gtypes[n["name"]] = n["type"]["qualType"]
            inn = [c for c in n.get("inner", ()) if c and "Attr" not in c["kind"]]
            if inn and "init" in n:
                u.globals[n["name"]] = cv.expr(inn[0])
    return u


def walk(s):
    """statements below a statement"""
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, Stmt):
            yield x
            for y in (x.a, x.b, x.c, x.d):
                if isinstance(y, Stmt):
                    st.append(y)
                elif isinstance(y, list):
                    st.extend(y)


def exprs(s):
    """expressions directly in a statement"""
    for y in (s.a, s.b, s.c, s.d):
        if isinstance(y, tuple):
            yield y


def sub(e):
    """all subexpressions"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))

"""Scopes, definite-unassignment and class attribute tables of the package's
Python sources, from the syntax tree alone."""
import ast, os, builtins

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__path__", "__package__", "__spec__", "__loader__", "__class__", "__debug__",
                                 "__module__", "__qualname__", "__annotations__"}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope(object):
    def __init__(self, node, parent, kind):
        self.node, self.parent, self.kind = node, parent, kind
        self.names, self.globals, self.nonlocals = {}, set(), set()
        self.star = False
        self.children = {}

    def bind(self, name, how):
        if name in self.globals:
            s = self
            while s.parent is not None:
                s = s.parent
            s.names.setdefault(name, []).append(how)
        else:
            self.names.setdefault(name, []).append(how)

    def lookup(self, name, skipclass=False):
        s, first = self, True
        while s is not None:
            if name in s.names and not (s.kind == "class" and not first) and name not in s.globals:
                return s
            first = False
            s = s.parent
        return None

    def anystar(self):
        s = self
        while s is not None:
            if s.star:
                return True
            s = s.parent
        return False


class Mod(object):
    def __init__(self, name, path, src):
        self.name, self.path = name, path
        self.tree = ast.parse(src)
        self.scope = Scope(self.tree, None, "module")
        self.scopes = {self.tree: self.scope}
        self.uses = []           # (Name node, scope, function stack)
        self.classes, self.funcs = {}, {}
        self.parent = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.build(self.tree.body, self.scope)

    # --- scope construction
    def build(self, body, sc):
        for s in body:
            self.collect_decl(s, sc)
        for s in body:
            self.visit(s, sc)

    def collect_decl(self, n, sc):
        for x in walk_scope(n):
            if isinstance(x, ast.Global):
                sc.globals |= set(x.names)
            if isinstance(x, ast.Nonlocal):
                sc.nonlocals |= set(x.names)

    def visit(self, n, sc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            sc.bind(n.name, ("def", n))
            for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                self.visit(d, sc)
            for a in allargs(n.args):
                if a.annotation is not None:
                    self.visit(a.annotation, sc)
            self.func(n, sc, n.body)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k is not None]:
                self.visit(d, sc)
            self.func(n, sc, [n.body])
            return
        if isinstance(n, ast.ClassDef):
            sc.bind(n.name, ("class", n))
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, sc)
            s = Scope(n, sc, "class")
            self.scopes[n] = s
            self.build(n.body, s)
            return
        if isinstance(n, COMPS):
            s = Scope(n, sc, "comp")
            self.scopes[n] = s
            first = True
            for g in n.generators:
                self.visit(g.iter, sc if first else s)
                first = False
                self.visit(g.target, s)
                for i in g.ifs:
                    self.visit(i, s)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(e, s)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    sc.bind(a.asname, ("import", a.name, n))
                else:
                    sc.bind(a.name.split(".")[0], ("import", a.name.split(".")[0], n))
            return
        if isinstance(n, ast.ImportFrom):
            m = n.module or ""
            if n.level:
                base = self.name.split(".")
                base = base[:len(base) - n.level + (1 if self.path.endswith("__init__.py") else 0)]
                m = ".".join(base + ([m] if m else []))
            for a in n.names:
                if a.name == "*":
                    sc.star = True
                else:
                    sc.bind(a.asname or a.name, ("from", m, a.name, n))
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.uses.append((n, sc))
            else:
                s = sc
                sc.bind(n.id, ("assign", n))
            return
        if isinstance(n, ast.NamedExpr):
            s = sc
            while s.kind == "comp":
                s = s.parent
            s.bind(n.target.id, ("assign", n.target))
            self.visit(n.value, sc)
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            sc.bind(n.name, ("assign", n))
        if hasattr(ast, "MatchAs") and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            sc.bind(n.name, ("assign", n))
        for c in ast.iter_child_nodes(n):
            self.visit(c, sc)

    def func(self, n, sc, body):
        s = Scope(n, sc, "func")
        self.scopes[n] = s
        for a in allargs(n.args):
            s.bind(a.arg, ("arg", a))
        self.build(body, s)


def allargs(a):
    return a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])


def walk_scope(n):
    """nodes of a statement without nested scopes"""
    st = [n]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, SCOPES + (ast.ClassDef,)) and x is not n:
            continue
        if isinstance(x, SCOPES + (ast.ClassDef,)):
            continue
        st.extend(ast.iter_child_nodes(x))


# ------------------------------------------------------- must-unassigned

class Unassigned(object):
    """names no path has assigned at the point they are read. State: set of
    names that may have been assigned; None: unreachable"""

    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.scope = mod.scopes[fn]
        self.locals = {k for k, v in self.scope.names.items() if k not in self.scope.globals and k not in self.scope.nonlocals}
        self.errors = []

    def run(self):
        body = self.fn.body if isinstance(self.fn.body, list) else [ast.Expr(self.fn.body)]
        st = {a.arg for a in allargs(self.fn.args)}
        self.loops = []
        # names assigned in nested scopes through nonlocal
        for s in ast.walk(self.fn):
            if isinstance(s, ast.Nonlocal):
                st |= set(s.names)
        self.block(body, st)
        return self.errors

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def join(self, *s):
        s = [x for x in s if x is not None]
        return set().union(*s) if s else None

    def expr(self, e, st):
        """reads in e; returns the state with walrus targets"""
        if e is None:
            return
        for x in self.reads(e):
            if x.id in self.locals and x.id not in st:
                self.errors.append(x)
        for x in walk_scope(e):
            if isinstance(x, ast.NamedExpr):
                st.add(x.target.id)

    def reads(self, e):
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, SCOPES):
                st.extend(x.args.defaults + [k for k in x.args.kw_defaults if k is not None])
                continue
            if isinstance(x, COMPS):
                s = self.mod.scopes.get(x)
                bound = set(s.names) if s else set()
                st2 = list(ast.iter_child_nodes(x))
                for y in st2:
                    for z in self.reads(y):
                        if z.id not in bound:
                            yield z
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                yield x
            if isinstance(x, ast.NamedExpr):
                st.append(x.value)
                continue
            st.extend(ast.iter_child_nodes(x))

    def targets(self, t, st):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.add(x.id)
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                self.expr(x, st)

    def stmt(self, s, st):
        st = set(st)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults:
                self.expr(d, st)
            st.add(s.name)
            return st
        if isinstance(s, ast.ClassDef):
            st.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.add(a.asname or a.name.split(".")[0])
            return st
        if isinstance(s, ast.Assign):
            self.expr(s.value, st)
            for t in s.targets:
                self.targets(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in st:
                    self.errors.append(s.target)
            self.expr(s.value, st)
            self.targets(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            self.expr(s.value, st)
            if s.value is not None:
                self.targets(s.target, st)
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, st)
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, st)
            return self.join(self.block(s.body, st), self.block(s.orelse, st) if s.orelse else st)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.expr(s.test, st)
            else:
                self.expr(s.iter, st)
            self.loops.append([])
            # a later iteration sees everything an earlier one may assign
            inner = set(st)
            for x in s.body:
                for y in walk_scope(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        inner.add(y.id)
                    if isinstance(y, (ast.FunctionDef, ast.ClassDef)):
                        inner.add(y.name)
            if not isinstance(s, ast.While):
                self.targets(s.target, inner)
            end = self.block(s.body, inner)
            brk = self.loops.pop()
            infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            after = self.join(None if infinite else st, None if infinite else end, None if infinite else inner)
            if s.orelse and after is not None:
                after = self.block(s.orelse, after)
            return self.join(after, *brk)
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops and isinstance(s, ast.Break):
                self.loops[-1].append(st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    self.targets(i.optional_vars, st)
            r = self.block(s.body, st)
            return self.join(r, None)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            may = set(st)
            for x in s.body:
                for y in walk_scope(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        may.add(y.id)
                    if isinstance(y, (ast.Import, ast.ImportFrom)):
                        for a in y.names:
                            may.add(a.asname or a.name.split(".")[0])
            end = self.block(s.body, st)
            if end is not None and s.orelse:
                end = self.block(s.orelse, end)
            hs = []
            for h in s.handlers:
                hst = set(may)
                if h.name:
                    hst.add(h.name)
                hs.append(self.block(h.body, hst))
            out = self.join(end, *hs)
            if s.finalbody:
                f = self.block(s.finalbody, self.join(out, may) or may)
                return None if out is None or f is None else f
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals and t.id not in st:
                        self.errors.append(t)
                    st.discard(t.id)
                else:
                    self.expr(t, st)
            return st
        if isinstance(s, ast.Match if hasattr(ast, "Match") else ()):
            self.expr(s.subject, st)
            outs = [st]
            for c in s.cases:
                b = set(st)
                for y in ast.walk(c.pattern):
                    if getattr(y, "name", None):
                        b.add(y.name)
                if c.guard is not None:
                    self.expr(c.guard, b)
                outs.append(self.block(c.body, b))
            return self.join(*outs)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st

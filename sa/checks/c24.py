"""Name, attribute and signature resolution over the package's sources."""
import ast, json, os, subprocess, sys
from ..resolve import *

DESC = ("Every function of every module is resolved from its syntax tree: global names through the scopes, imports through the package's own modules and "
        "the installed dependencies, attributes of modules, of self and of instances with a known class through the class tables, calls of resolvable "
        "targets by binding their arguments to the signature, local reads by a may-assign data flow (a read that no path assigns before), and literal "
        "format strings by counting their arguments.")

PY = "/opt/venv/bin/python"


class Sig(object):
    def __init__(self, pos, npos_required, kwonly, kwreq, star, kw, posonly=0):
        self.pos, self.req, self.kwonly, self.kwreq, self.star, self.kw, self.posonly = pos, npos_required, kwonly, kwreq, star, kw, posonly

    @staticmethod
    def of(node, drop=0):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if drop and not pos and not a.vararg:
            return None
        req = len(pos) - len(a.defaults)
        ko = [x.arg for x in a.kwonlyargs]
        kr = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return Sig(pos[drop:], max(0, req - drop), ko, kr, a.vararg is not None, a.kwarg is not None, max(0, len(a.posonlyargs) - drop))

    @staticmethod
    def ext(params, drop=0):
        pos, req, ko, kr, star, kw, po = [], 0, [], [], False, False, 0
        for name, kind, d in params:
            if kind in (0, 1):
                pos.append(name)
                po += kind == 0
                req += not d
            elif kind == 2:
                star = True
            elif kind == 3:
                ko.append(name)
                if not d:
                    kr.append(name)
            else:
                kw = True
        return Sig(pos[drop:], max(0, req - drop), ko, kr, star, kw, max(0, po - drop))

    def bind(self, call):
        """why the call cannot bind, or None"""
        if any(isinstance(a, ast.Starred) for a in call.args):
            n, more = sum(not isinstance(a, ast.Starred) for a in call.args), True
        else:
            n, more = len(call.args), False
        if n > len(self.pos) and not self.star:
            return "takes at most %d positional arguments, %d given" % (len(self.pos), n)
        dstar = any(k.arg is None for k in call.keywords)
        names = [k.arg for k in call.keywords if k.arg is not None]
        for k in names:
            if k in self.pos[self.posonly:]:
                if self.pos.index(k) < n:
                    return "argument %r is given twice" % k
            elif k not in self.kwonly and not self.kw:
                return "has no argument %r" % k
        if not more and not dstar:
            miss = [p for i, p in enumerate(self.pos[:self.req]) if i >= n and p not in names]
            miss += [k for k in self.kwreq if k not in names]
            if miss:
                return "argument %r is missing" % miss[0]
        return None


class Pkg(object):
    def __init__(self, ck):
        self.ck = ck
        self.mods = {}
        d = os.path.join(ck.repo, "electrode")
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".py"):
                nm = "electrode" if fn == "__init__.py" else "electrode." + fn[:-3]
                p = os.path.join(d, fn)
                try:
                    self.mods[nm] = Mod(nm, p, open(p, encoding="utf8").read())
                except SyntaxError as e:
                    ck.ob("parse/" + fn, "electrode/" + fn, "parses")
                    ck.unknown("parse/" + fn, e)
            elif fn.endswith((".pyx", ".c", ".so")):
                pass
        self.compiled = {}
        try:
            from .. import pyx
        except ImportError:
            pyx = None
        self.ext = {}
        self.classes = {}
        for m in self.mods.values():
            for n, hows in m.scope.names.items():
                for h in hows:
                    if h[0] == "class":
                        self.classes[(m.name, n)] = h[1]
        self.assigned = set()      # attribute names stored on anything
        self.outside = set()       # the same, stored on anything but a method's receiver
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.assigned.add(x.attr)
                    if receiver_class(self, m, x.value) is None:
                        self.outside.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                    self.dynamic = True
        self.words, self.loose, self.methods = set(), [], []
        self.packages = {"math", "itertools", "collections", "logging", "warnings", "os", "os.path", "sys", "random", "copy", "functools", "operator"}
        self.defined = set(self.assigned)       # every name an attribute of the package can have
        self.bynames = {}
        for m in self.mods.values():
            for n, s in m.scopes.items():
                if s.kind in ("class", "module"):
                    self.defined |= set(s.names)
                if s.kind == "class":
                    for f in n.body:
                        if isinstance(f, ast.FunctionDef):
                            self.bynames.setdefault(f.name, []).append(f)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in x.targets):
                    for y in ast.walk(x.value):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str):
                            self.defined |= set(y.value.split())
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    for a in [x.module] if isinstance(x, ast.ImportFrom) and not x.level and x.module else [b.name for b in x.names] if isinstance(x, ast.Import) else []:
                        if a.split(".")[0] != "electrode":
                            self.packages.add(a.split(".")[0])

    # ---- values: ("mod", name) package module, ("ext", module, path),
    # ("class", module, ClassDef), ("func", module, FunctionDef), None unknown
    def name(self, mod, sc, n):
        s = sc.lookup(n)
        if s is None:
            return None
        hows = s.names[n]
        if s.kind != "module" and s.kind != "func":
            if len(hows) != 1:
                return None
        vals = [self.how(mod, h) for h in hows]
        if any(v is None for v in vals):
            return None
        return vals

    def how(self, mod, h):
        if h[0] == "def":
            return None if h[1].decorator_list else ("func", mod, h[1])
        if h[0] == "class":
            return ("class", mod, h[1])
        if h[0] == "import":
            if h[1] in self.mods:
                return ("mod", h[1])
            return ("ext", h[1], ())
        if h[0] == "from":
            if h[1] in self.mods:
                m = self.mods[h[1]]
                if h[1] + "." + h[2] in self.mods and h[2] not in m.scope.names:
                    return ("mod", h[1] + "." + h[2])
                if h[2] in m.scope.names and not m.scope.star:
                    vs = [self.how(m, g) for g in m.scope.names[h[2]]]
                    return vs[0] if len(vs) == 1 else None
                return None
            if h[1].split(".")[0] == "electrode":
                return None
            return ("ext", h[1], (h[2],))
        return None

    def attr(self, v, a):
        if v[0] == "mod":
            m = self.mods[v[1]]
            if a in m.scope.names:
                vs = [self.how(m, g) for g in m.scope.names[a]]
                return vs[0] if len(vs) == 1 else None
            if v[1] + "." + a in self.mods:
                return ("mod", v[1] + "." + a)
            return None
        if v[0] == "ext":
            return ("ext", v[1], v[2] + (a,))
        return None

    def value(self, mod, sc, e):
        """list of possible values of an expression or None"""
        if isinstance(e, ast.Name):
            return self.name(mod, sc, e.id)
        if isinstance(e, ast.Attribute):
            vs = self.value(mod, sc, e.value)
            if vs is None:
                return None
            out = []
            for v in vs:
                w = self.attr(v, e.attr) if v[0] in ("mod", "ext") else None
                if w is None:
                    return None
                out.append(w)
            return out
        return None

    # ---- classes
    def mro(self, mod, node):
        """(list of (mod, ClassDef), names of builtin/external bases) or None"""
        out, ext = [(mod, node)], []
        for b in node.bases:
            vs = self.value(mod, mod.scopes[node].parent or mod.scope, b)
            if vs is None:
                if isinstance(b, ast.Name) and b.id in ("list", "dict", "object", "tuple", "Exception", "ValueError", "set", "str", "float", "int"):
                    ext.append(b.id)
                    continue
                return None
            v = vs[0]
            if v[0] == "class":
                r = self.mro(v[1], v[2])
                if r is None:
                    return None
                out += r[0]
                ext += r[1]
            else:
                return None
        return out, ext

    def members(self, mod, node):
        r = self.mro(mod, node)
        if r is None:
            return None
        names = set(dir(object)) | {"__dict__", "__module__", "__doc__", "__weakref__", "__annotations__"}
        for e in r[1]:
            import builtins
            names |= set(dir(getattr(builtins, e)))
        fam = list(r[0])
        for (mn, cn), c in self.classes.items():
            rr = self.mro(self.mods[mn], c)
            if rr is None:
                continue
            if any(x[1] is node for x in rr[0]):
                fam += rr[0]
        for m, c in fam:
            if c.decorator_list or any(k.arg == "metaclass" for k in c.keywords):
                return None
            sc = m.scopes[c]
            names |= set(sc.names)
            for x in ast.walk(c):
                if isinstance(x, (ast.FunctionDef,)) and x.name in ("__getattr__", "__getattribute__"):
                    return None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    names.add(x.attr)
            for s in c.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__slots__" for t in s.targets):
                    for y in ast.walk(s.value):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str):
                            names |= set(y.value.split())
            for x in ast.walk(c):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars"):
                    return None
                if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    up = m.parent.get(x)
                    if not (isinstance(up, ast.Attribute) and up.attr in ("pop", "get", "keys", "items", "copy")):
                        return None
        return names

    def find(self, mod, node, name, skip=False):
        r = self.mro(mod, node)
        if r is None:
            return None
        for m, c in r[0][1 if skip else 0:]:
            hs = m.scopes[c].names.get(name)
            if hs:
                if len(hs) == 1 and hs[0][0] == "def":
                    return (m, hs[0][1])
                return None
        return None


def kind(f):
    """instance / static / class / property / other"""
    k = "instance"
    for d in f.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if n == "staticmethod":
            k = "static"
        elif n == "classmethod":
            k = "class"
        elif n == "contextmanager":
            pass
        elif n in ("property", "setter", "deleter", "getter"):
            return "property"
        else:
            return "other"
    return k


def ctor(pkg, mod, node):
    f = pkg.find(mod, node, "__init__")
    if pkg.find(mod, node, "__new__") is not None or node.decorator_list:
        return None
    if f is None:
        r = pkg.mro(mod, node)
        if r is not None and not r[1] and not any("__init__" in m.scopes[c].names for m, c in r[0]):
            return Sig([], 0, [], [], False, False)
        return None
    return Sig.of(f[1], 1) if kind(f[1]) == "instance" else None


def check(ck):
    P = Pkg(ck)
    todo = []          # external queries: (key, where, module, path, call or None, text, function)
    for mn in sorted(P.mods):
        ck.guarded("module/" + mn, lambda: module(ck, P, P.mods[mn], todo))
    ck.guarded("externals", lambda: externals(ck, P, todo))


def where(mod, node, fn):
    return "electrode/%s:%d %s" % (os.path.basename(mod.path), getattr(node, "lineno", 0), fn)


def qual(mod, node):
    s = []
    while node is not None:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            s.append(node.name)
        node = mod.parent.get(node)
    return ".".join(reversed(s)) or "module"


def guarded_by_try(mod, node, excs):
    """inside the body of a try that handles one of the exceptions"""
    n = node
    while n in mod.parent:
        p = mod.parent[n]
        if isinstance(p, ast.Try) and any(n is s for s in p.body):
            for h in p.handlers:
                names = [None] if h.type is None else [getattr(x, "id", getattr(x, "attr", "?")) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if any(x is None or x in excs + ("Exception", "BaseException") for x in names):
                    return True
        if isinstance(p, SCOPES):
            # the exception surfaces where the function is called
            return False
        n = p
    return False


def main_block(mod, node):
    n = node
    while n in mod.parent:
        n = mod.parent[n]
        if isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
            return True
    return False


def module(ck, P, mod, todo):
    base = os.path.basename(mod.path)
    funcs = [n for n in ast.walk(mod.tree) if isinstance(n, SCOPES)]
    for f in funcs:
        ck.visited.add("%s.%s" % (mod.name, qual(mod, f)))
    ck.ob("names/" + mod.name, base, "every global name is defined")
    for n, sc in mod.uses:
        if sc.lookup(n.id) is None and n.id not in BUILTINS and not sc.anystar():
            if guarded_by_try(mod, n, ("NameError",)):
                continue
            ck.fail("names/%s/%s/%s" % (mod.name, qual(mod, n), n.id), where(mod, n, qual(mod, n)), "the name %r is defined nowhere" % n.id)
    # imports from the package
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.ImportFrom):
            m = s.module or ""
            if s.level:
                b = mod.name.split(".")
                b = b[:len(b) - s.level + (1 if base == "__init__.py" else 0)]
                m = ".".join(b + ([m] if m else []))
            for a in s.names:
                key = "import/%s/%s.%s" % (mod.name, m, a.name)
                ck.ob(key, where(mod, s, qual(mod, s)), "the imported name exists")
                if m.split(".")[0] == "electrode":
                    if m in P.mods:
                        t = P.mods[m]
                        if a.name != "*" and a.name not in t.scope.names and m + "." + a.name not in P.mods and not t.scope.star and not ext_exists(ck, m, a.name):
                            if not guarded_by_try(mod, s, ("ImportError",)):
                                ck.fail(key, where(mod, s, qual(mod, s)), "%s has no name %r" % (m, a.name))
                    elif not ext_module(ck, m) and not guarded_by_try(mod, s, ("ImportError", "ModuleNotFoundError")):
                        ck.fail(key, where(mod, s, qual(mod, s)), "there is no module %s" % m)
                elif a.name != "*" and not guarded_by_try(mod, s, ("ImportError",)):
                    todo.append((key, where(mod, s, qual(mod, s)), m, (a.name,), None, "%s has no name %r"))
    # locals
    for f in funcs:
        if isinstance(f, ast.Lambda):
            continue
        q = qual(mod, f)
        ck.ob("locals/%s.%s" % (mod.name, q), where(mod, f, q), "no local is read before every assignment")
        for e in Unassigned(mod, f).run():
            if not guarded_by_try(mod, e, ("UnboundLocalError", "NameError")):
                ck.fail("locals/%s.%s/%s" % (mod.name, q, e.id), where(mod, e, q), "the local %r is read where no path has assigned it" % e.id)
    # attributes and calls
    for node in ast.walk(mod.tree):
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            attribute(ck, P, mod, node, todo)
        if isinstance(node, ast.Call):
            call(ck, P, mod, node, todo)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            fmt(ck, mod, node)
    # functions used as methods need a receiver
    for c in ast.walk(mod.tree):
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and kind(f) in ("instance", "class", "property"):
                    key = "self/%s.%s.%s" % (mod.name, c.name, f.name)
                    ck.ob(key, where(mod, f, qual(mod, f)), "the method accepts its receiver")
                    if not (f.args.args or f.args.posonlyargs or f.args.vararg):
                        ck.fail(key, where(mod, f, qual(mod, f)), "the method takes no receiver: every call through an instance fails")


def ext_module(ck, m):
    d = os.path.join(ck.repo, *m.split("."))
    return any(os.path.exists(d + e) for e in (".pyx", ".py", ".c", ".so")) or os.path.isdir(d) or \
        m.split(".")[-1] == "_transformations"


def ext_exists(ck, m, name):
    return ext_module(ck, m + "." + name)


def imports(mod, node):
    """{root package: bound names} of the absolute imports inside a node"""
    out = {}
    for x in ast.walk(node):
        if isinstance(x, ast.ImportFrom) and not x.level:
            out.setdefault((x.module or "").split(".")[0], set()).update(a.asname or a.name for a in x.names)
        if isinstance(x, ast.Import):
            for a in x.names:
                out.setdefault(a.name.split(".")[0], set()).add(a.asname or a.name.split(".")[0])
    return out


def refs(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}


def reach(mod, pkg):
    """functions of a module that can hold an object of a package: those that
    import it or name it, what these call and what calls these"""
    key = (mod.name, pkg)
    if key not in _reach:
        funs = [f for f in ast.walk(mod.tree) if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))]
        names = imports(mod, mod.tree).get(pkg, set())
        inside = {f for f in funs if pkg in imports(mod, f)}
        hit = {f for f in funs if f in inside or {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} & names}
        rf = {f: refs(f) for f in funs}
        down, up = set(hit), set(hit)
        while True:
            n = {g for g in funs if g not in down and any(g.name in rf[f] for f in down)}
            m = {g for g in funs if g not in up and any(f.name in rf[g] for f in up)}
            if not n and not m:
                break
            down |= n
            up |= m
        _reach[key] = down | up if hit else set()
    return _reach[key]


_reach = {}


def imported(mod, node):
    """packages whose objects the code around node may handle"""
    out = set()
    chain = []
    n = node
    while n in mod.parent:
        n = mod.parent[n]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            chain.append(n)
    for pkg in imports(mod, mod.tree):
        if not chain or reach(mod, pkg) & set(chain):
            out.add(pkg)
    return out


def enclosing(mod, node):
    """(function, class) lexically around node; class only when the function
    is its method"""
    n, fn, first = node, None, None
    while n in mod.parent:
        p = mod.parent[n]
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = p
            first = first or p
        if isinstance(p, ast.ClassDef):
            return first, fn, p
        n = p
    return first, fn, None


def scope_of(mod, node):
    n = node
    child = node
    while True:
        if n in mod.scopes and n is not node:
            s = mod.scopes[n]
            if s.kind == "comp":
                g = n.generators[0].iter
                if child is g or any(x is node for x in ast.walk(g)):
                    n, child = mod.parent[n], n
                    continue
                return s
            if s.kind == "class" and any(child is b for b in n.bases + n.decorator_list):
                n, child = mod.parent.get(n), n
                continue
            if s.kind == "func" and not isinstance(n, ast.Lambda) and not any(child is b for b in n.body):
                n, child = mod.parent.get(n), n
                continue
            return s
        child = n
        n = mod.parent.get(n)
        if n is None:
            return mod.scope


def receiver_class(P, mod, node):
    """class of `self` when node is that name inside a method"""
    first, meth, cls = enclosing(mod, node)
    if cls is None or meth is None or kind(meth) not in ("instance", "property"):
        return None
    if mod.parent.get(meth) is not cls:
        return None
    a = meth.args.posonlyargs + meth.args.args
    if not a or not isinstance(node, ast.Name) or node.id != a[0].arg:
        return None
    # not rebound
    s = scope_of(mod, node).lookup(node.id)
    if s is None or s.node is not meth or len(s.names[node.id]) != 1:
        return None
    return cls


def asserted_class(P, mod, node, s):
    """class an `assert isinstance(name, C)` or `if isinstance(name, C):` around
    node establishes, when the name is bound only outside that block"""
    def test(e):
        for t in (e.values if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) else [e]):
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and not t.keywords \
                    and isinstance(t.args[0], ast.Name) and t.args[0].id == node.id:
                vs = P.value(mod, scope_of(mod, t), t.args[1])
                if vs is not None and len(vs) == 1 and vs[0][0] == "class":
                    return vs[0]
        return None

    if s is None or s.kind != "func":
        return None
    n = node
    while n in mod.parent and n is not s.node:
        p = mod.parent[n]
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if not isinstance(b, list) or n not in b:
                continue
            bound = any(isinstance(x, ast.Name) and x.id == node.id and not isinstance(x.ctx, ast.Load) for st in b for x in ast.walk(st))
            if bound:
                continue
            for st in b[:b.index(n)]:
                if isinstance(st, ast.Assert):
                    v = test(st.test)
                    if v is not None:
                        return v
            if isinstance(p, ast.If) and fld == "body":
                v = test(p.test)
                if v is not None:
                    return v
        n = p
    return None


def instance_class(P, mod, node):
    """class of a local that is assigned once, from a constructor call"""
    if not isinstance(node, ast.Name):
        return None
    s = scope_of(mod, node).lookup(node.id)
    v = asserted_class(P, mod, node, s)
    if v is not None:
        return v
    if s is None or s.kind == "class" or len(s.names[node.id]) != 1 or s.names[node.id][0][0] != "assign":
        return None
    t = s.names[node.id][0][1]
    p = mod.parent.get(t)
    if not isinstance(p, ast.Assign) or len(p.targets) != 1 or p.targets[0] is not t or not isinstance(p.value, ast.Call):
        return None
    vs = P.value(mod, scope_of(mod, p), p.value.func)
    if vs is not None and len(vs) == 1 and vs[0][0] == "class":
        return vs[0]
    return None


def hasattr_guard(mod, node):
    n = node
    while n in mod.parent:
        c, n = n, mod.parent[n]
        if isinstance(n, (ast.If, ast.IfExp)) and "hasattr" in ast.dump(n.test):
            return True
        if isinstance(n, ast.BoolOp) and "hasattr" in ast.dump(n):
            return True
    return False


def attribute(ck, P, mod, node, todo):
    q = qual(mod, node)
    w = where(mod, node, q)
    safe = guarded_by_try(mod, node, ("AttributeError",)) or hasattr_guard(mod, node)
    # a name that nothing defines
    if node.attr not in P.defined and not safe and not node.attr.startswith("__") and P.value(mod, scope_of(mod, node), node.value) is None:
        key = "word/%s.%s/%s" % (mod.name, q, node.attr)
        ck.ob(key, w, "something defines the attribute")
        P.words.add(node.attr)
        P.loose.append((node.attr, key, w, imported(mod, node)))
    # modules
    root, path = node, []
    while isinstance(root, ast.Attribute):
        path.append(root.attr)
        root = root.value
    path.reverse()
    if isinstance(root, ast.Name):
        cls = receiver_class(P, mod, root)
        tgt = (mod, cls) if cls is not None else None
        if tgt is None:
            v = instance_class(P, mod, root)
            if v is not None:
                tgt = (v[1], v[2])
        if tgt is not None and len(path) == 1:
            names = P.members(*tgt)
            key = "attr/%s.%s/%s.%s" % (mod.name, q, root.id, path[0])
            ck.ob(key, w, "the attribute exists on the class")
            if names is not None and path[0] not in names and path[0] not in P.outside and not safe:
                ck.fail(key, w, "no class attribute, method or assignment defines %s.%s" % (tgt[1].name, path[0]))
            return
        vs = P.name(mod, scope_of(mod, root), root.id)
        if vs is None:
            return
        for v in vs:
            u = v
            for k, a in enumerate(path):
                if u is None:
                    break
                if u[0] == "mod":
                    m = P.mods[u[1]]
                    key = "modattr/%s.%s/%s" % (mod.name, q, ".".join([root.id] + path[:k + 1]))
                    ck.ob(key, w, "the module has the name")
                    if a not in m.scope.names and u[1] + "." + a not in P.mods and not m.scope.star and not ext_exists(ck, u[1], a):
                        if not safe:
                            ck.fail(key, w, "module %s has no name %r" % (u[1], a))
                        break
                    u = P.attr(u, a)
                elif u[0] == "ext":
                    if not safe and isinstance(mod.parent.get(node), ast.Attribute) is False:
                        key = "extattr/%s.%s/%s" % (mod.name, q, ".".join([root.id] + path))
                        ck.ob(key, w, "the library has the name")
                        todo.append((key, w, u[1], u[2] + tuple(path[k:]), None, "%s has no name %r"))
                    break
                elif u[0] == "class":
                    key = "clsattr/%s.%s/%s" % (mod.name, q, ".".join([root.id] + path[:k + 1]))
                    names = P.members(u[1], u[2])
                    ck.ob(key, w, "the class has the name")
                    if names is not None and a not in names and a not in P.outside and not safe:
                        ck.fail(key, w, "class %s has no attribute %r" % (u[2].name, a))
                    break
                else:
                    break


def call(ck, P, mod, node, todo):
    q = qual(mod, node)
    w = where(mod, node, q)
    f = node.func
    sig, label = None, None
    if guarded_by_try(mod, node, ("TypeError",)):
        return
    sc = scope_of(mod, node)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
        first, meth, cls = enclosing(mod, node)
        if cls is not None:
            m = P.find(mod, cls, f.attr, skip=True)
            r = P.mro(mod, cls)
            if m is not None and len([b for b in cls.bases]) == 1:
                sig, label = Sig.of(m[1], 1), "%s.%s" % ("super()", f.attr)
            elif m is None and r is not None and not any(f.attr in mm.scopes[c].names for mm, c in r[0][1:]):
                import builtins
                names = set(dir(object)).union(*[dir(getattr(builtins, e)) for e in r[1]])
                key = "super/%s.%s/%s" % (mod.name, q, f.attr)
                ck.ob(key, w, "the base class has the method")
                if f.attr not in names:
                    ck.fail(key, w, "no base class of %s has a method %r" % (cls.name, f.attr))
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        cls = receiver_class(P, mod, f.value)
        tgt = (mod, cls) if cls is not None else None
        if tgt is None:
            v = instance_class(P, mod, f.value)
            if v is not None:
                tgt = (v[1], v[2])
        if tgt is not None:
            m = P.find(tgt[0], tgt[1], f.attr)
            over = [c for (mn, cn), c in P.classes.items() if c is not tgt[1] and P.mro(P.mods[mn], c)
                    and any(x[1] is tgt[1] for x in P.mro(P.mods[mn], c)[0]) and f.attr in P.mods[mn].scopes[c].names]
            if m is not None and f.attr not in P.outside and not over:
                k = kind(m[1])
                if k in ("instance", "class"):
                    sig, label = Sig.of(m[1], 1), "%s.%s" % (tgt[1].name, f.attr)
                elif k == "static":
                    sig, label = Sig.of(m[1]), "%s.%s" % (tgt[1].name, f.attr)
    if sig is None and label is None:
        vs = P.value(mod, sc, f)
        if vs is None and isinstance(f, ast.Attribute):
            bs = P.value(mod, sc, f.value)
            if bs is not None and len(bs) == 1 and bs[0][0] == "class":
                m = P.find(bs[0][1], bs[0][2], f.attr)
                if m is not None:
                    k = kind(m[1])
                    sig = Sig.of(m[1], 1 if k == "class" else 0) if k != "other" and k != "property" else None
                    label = "%s.%s" % (bs[0][2].name, f.attr)
        elif vs is not None:
            if len(vs) == 1 and vs[0][0] == "func":
                sig, label = Sig.of(vs[0][2]), vs[0][2].name
            elif len(vs) == 1 and vs[0][0] == "class":
                sig, label = ctor(P, vs[0][1], vs[0][2]), vs[0][2].name
            elif all(v[0] == "ext" for v in vs):
                for v in vs:
                    key = "call/%s.%s/%s:%s" % (mod.name, q, ast.unparse(f), ",".join([str(len(node.args))] + sorted(str(k.arg) for k in node.keywords)))
                    ck.ob(key, w, "the arguments bind to the library's signature")
                    todo.append((key, w, v[1], v[2], node, None))
                return
    if sig is None and isinstance(f, ast.Attribute) and f.attr in P.bynames and f.attr not in P.outside and not f.attr.startswith("__"):
        # a method of an object of unknown class: some method of that name
        # must take these arguments, unless a dependency has the name too
        vs = P.value(mod, sc, f.value)
        if vs is None and all(kind(g) in ("instance", "class", "static") for g in P.bynames[f.attr]):
            key = "method/%s.%s/%s:%s" % (mod.name, q, f.attr, ",".join([str(len(node.args))] + sorted(str(k.arg) for k in node.keywords)))
            ck.ob(key, w, "some method of the name takes the arguments")
            whys = []
            for g in P.bynames[f.attr]:
                s = Sig.of(g, 0 if kind(g) == "static" else 1)
                whys.append(None if s is None else s.bind(node))
            if all(whys):
                P.words.add(f.attr)
                P.methods.append((f.attr, key, w, "%s %s" % (f.attr, whys[0]), imported(mod, node)))
    if sig is not None:
        key = "call/%s.%s/%s:%s" % (mod.name, q, label, ",".join([str(len(node.args))] + sorted(str(k.arg) for k in node.keywords)))
        ck.ob(key, w, "the arguments bind to the signature")
        ck.callsites.add(w)
        why = sig.bind(node)
        if why:
            ck.fail(key, w, "%s %s" % (label, why))


def fmt(ck, mod, node):
    import re
    q = qual(mod, node)
    w = where(mod, node, q)
    ds = re.findall(r"%(\(\w+\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])", node.left.value)
    ck.ob("format/%s.%s/%d" % (mod.name, q, len(ds)), w, "the format string gets its arguments")
    if any(d[0] for d in ds):
        return
    n = sum((d[4] != "%") + (d[2] == "*") + (d[3] == "*") for d in ds)
    key = "format/%s.%s/%s" % (mod.name, q, node.left.value[:40])
    if any(d[4] not in "diouxXeEfFgGcrsa%" for d in ds):
        ck.fail(key, w, "unsupported conversion in the format string")
        return
    if isinstance(node.right, ast.Tuple):
        if any(isinstance(e, ast.Starred) for e in node.right.elts):
            return
        if len(node.right.elts) != n:
            ck.fail(key, w, "the format string takes %d values, %d given" % (n, len(node.right.elts)))
    elif isinstance(node.right, (ast.Constant, ast.JoinedStr, ast.ListComp, ast.List)):
        if n != 1:
            ck.fail(key, w, "the format string takes %d values, one given" % n)


def externals(ck, P, todo):
    qs = sorted({(t[2], t[3]) for t in todo})
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        import tempfile
        with tempfile.TemporaryDirectory() as tmp:
            p = subprocess.run([PY, "-s", os.path.join(here, "depinfo.py")], input=json.dumps({"names": qs, "words": sorted(P.words), "packages": sorted(P.packages)}), capture_output=True, text=True, timeout=300,
                               cwd=here, env={"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "HOME": tmp, "MPLCONFIGDIR": tmp})
        res = json.loads(p.stdout)
        absent = set(res["words"])
        res = res["names"]
    except Exception as e:
        for t in todo:
            ck.unknown(t[0], "dependencies cannot be inspected: %s" % type(e).__name__)
        return
    ans = {q: r for q, r in zip(qs, res)}
    missing = set()
    none = {m.split(".")[0] for (m, path), r in ans.items() if r["st"] == "unknown"}
    for a, key, w, mods in P.loose:
        if a in absent and not mods & none:
            ck.fail(key, w, "nothing the library or its dependencies define has an attribute %r" % a)
    for a, key, w, why, mods in P.methods:
        if not mods & none and a in absent:
            ck.fail(key, w, why)
    for key, w, m, path, node, text in todo:
        r = ans[(m, path)]
        if r["st"] == "unknown":
            if m not in missing:
                missing.add(m)
                ck.unknown("dependency/" + m, "not installed or not inspectable")
            continue
        if r["st"] == "absent":
            ck.fail(key, w, "%s has no name %r in the installed version" % (".".join((m,) + path[:r["k"]]), path[r["k"]]))
            continue
        if node is not None and r["kind"] == "module":
            ck.fail(key, w, "%s is a module, not a function" % ".".join((m,) + path))
            continue
        if node is not None and r.get("sig") is not None:
            s = Sig.ext(r["sig"])
            why = s.bind(node)
            if why:
                ck.fail(key, w, "%s %s" % (".".join((m,) + path), why))

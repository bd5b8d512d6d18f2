"""Behaviour-preserving rewrites of a python file: refactor.py KIND IN OUT (tools only: no check uses this).

The checks must stay quiet, with nothing more undecided, on /repo files rewritten this way."""
import ast, sys, copy

K = [0]


def fresh(p="_t"):
    K[0] += 1
    return "%s%d" % (p, K[0])


class Base(ast.NodeTransformer):
    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list):
                setattr(s, f, self.block(b))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body)
        if isinstance(s, ast.ClassDef):
            return s
        return self.one(s)

    def one(self, s):
        return s

    def visit_Module(self, m):
        m.body = self.block(m.body)
        return m


class Plain(Base):
    pass


def N(i, c=None):
    return ast.Name(id=i, ctx=c or ast.Load())


class Ret(Base):
    def one(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            v = fresh("_res")
            return [ast.Assign(targets=[N(v, ast.Store())], value=s.value), ast.Return(value=N(v))]
        return s


class Inv(Base):
    def one(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
        return s


class Comp(Base):
    """list comprehensions at statement level become loops"""
    depth = 0

    def one(self, s):
        if isinstance(s, (ast.FunctionDef,)):
            return s
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and self.infunc:
            c = s.value
            names = {n.id for n in ast.walk(c) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            ren = {n: fresh("_" + n) for n in names}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    return N(ren.get(n.id, n.id), n.ctx)
            # the outermost iterable is evaluated outside
            g = c.generators
            first = g[0].iter
            c2 = R().visit(copy.deepcopy(c))
            l = fresh("_l")
            body = [ast.Expr(ast.Call(func=ast.Attribute(value=N(l), attr="append", ctx=ast.Load()), args=[c2.elt], keywords=[]))]
            for i, gg in reversed(list(enumerate(c2.generators))):
                for t in reversed(gg.ifs):
                    body = [ast.If(test=t, body=body, orelse=[])]
                body = [ast.For(target=gg.target, iter=first if i == 0 else gg.iter, body=body, orelse=[])]
            s2 = copy.copy(s)
            s2.value = N(l)
            return [ast.Assign(targets=[N(l, ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))] + body + [s2]
        return s
    infunc = False

    def stmt(self, s):
        old = self.infunc
        if isinstance(s, ast.FunctionDef):
            self.infunc = True
        r = Base.stmt(self, s)
        self.infunc = old
        return r


class Loop(Base):
    """for over a list of values through an explicit iterator"""
    def one(self, s):
        if isinstance(s, ast.For) and not s.orelse and not any(isinstance(n, ast.Continue) for n in ast.walk(s)) and self.infunc:
            l, i = fresh("_seq"), fresh("_i")
            return [ast.Assign(targets=[N(l, ast.Store())], value=ast.Call(func=N("list"), args=[s.iter], keywords=[])),
                    ast.For(target=N(i, ast.Store()), iter=ast.Call(func=N("range"), args=[ast.Call(func=N("len"), args=[N(l)], keywords=[])], keywords=[]),
                            body=[ast.Assign(targets=[s.target], value=ast.Subscript(value=N(l), slice=N(i), ctx=ast.Load()))] + s.body, orelse=[])]
        return s
    infunc = False
    stmt = Comp.stmt


class While(Loop):
    def one(self, s):
        if isinstance(s, ast.For) and not s.orelse and not any(isinstance(n, ast.Continue) for n in ast.walk(s)) and self.infunc:
            l, i = fresh("_seq"), fresh("_i")
            return [ast.Assign(targets=[N(l, ast.Store())], value=ast.Call(func=N("list"), args=[s.iter], keywords=[])),
                    ast.Assign(targets=[N(i, ast.Store())], value=ast.Constant(0)),
                    ast.While(test=ast.Compare(left=N(i), ops=[ast.Lt()], comparators=[ast.Call(func=N("len"), args=[N(l)], keywords=[])]),
                              body=[ast.Assign(targets=[s.target], value=ast.Subscript(value=N(l), slice=N(i), ctx=ast.Load())),
                                    ast.AugAssign(target=N(i, ast.Store()), op=ast.Add(), value=ast.Constant(1))] + s.body, orelse=[])]
        return s


class Rename(Base):
    """local names of functions"""
    def stmt(self, s):
        if isinstance(s, ast.FunctionDef):
            if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Lambda, ast.FunctionDef, ast.ClassDef)) for b in s.body for n in ast.walk(b)) or \
               any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec") for n in ast.walk(s)):
                return s
            args = {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)}
            loc = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
            loc |= {n.name for n in ast.walk(s) if isinstance(n, ast.ExceptHandler) and n.name}
            for n in ast.walk(s):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        loc.discard((a.asname or a.name).split(".")[0])
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in loc:
                    n.id = n.id + "_v"
                elif isinstance(n, ast.ExceptHandler) and n.name in loc:
                    n.name += "_v"
            return s
        return Base.stmt(self, s)


class Lift(Base):
    """calls that are arguments of the outermost expression get a name"""
    infunc = False
    stmt = Comp.stmt

    def one(self, s):
        if not self.infunc or not isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) or s.value is None:
            return s
        if isinstance(s, ast.AugAssign) and not isinstance(s.target, ast.Name):
            return s
        pre = []
        e = s.value

        def pure(x):
            return isinstance(x, (ast.Name, ast.Constant)) or isinstance(x, ast.Attribute) and pure(x.value)

        def lift(e, top):
            if isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute) and not pure(e.func.value):
                    e.func.value = lift(e.func.value, False)
                if any(isinstance(a, ast.Starred) for a in e.args):
                    return e
                e.args = [lift(a, False) for a in e.args]
                for k in e.keywords:
                    k.value = lift(k.value, False)
            elif isinstance(e, ast.BinOp):
                e.left = lift(e.left, False)
                e.right = lift(e.right, False)
            elif isinstance(e, ast.Tuple) and top:
                e.elts = [lift(a, False) for a in e.elts]
                return e
            elif isinstance(e, ast.Attribute) and not pure(e):
                e.value = lift(e.value, False)
            elif isinstance(e, ast.Subscript):
                e.value = lift(e.value, False)
                return e
            elif pure(e):
                return e
            else:
                return e
            if top:
                return e
            v = fresh("_t")
            pre.append(ast.Assign(targets=[N(v, ast.Store())], value=e))
            return N(v)
        s.value = lift(e, True)
        return pre + [s]


class Helper(Base):
    """function bodies move to a private function, the public one delegates"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                add = []
                for f in s.body:
                    if isinstance(f, ast.FunctionDef):
                        add += self.split(f, s)
                    else:
                        add.append(f)
                s.body = add
                out.append(s)
            elif isinstance(s, ast.FunctionDef):
                out += self.split(s, None)
            else:
                out.append(s)
        m.body = out
        return m

    def split(self, f, cls):
        if f.decorator_list or f.name.startswith("__") or f.args.vararg or f.args.kwarg or f.args.kwonlyargs or \
           any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
            return [f]
        args = [a.arg for a in f.args.args]
        doc = []
        body = f.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = [body[0]], body[1:]
        if not body or cls is not None and (not args or args[0] != "self"):
            return [f]
        h = "_%s_impl" % f.name.lstrip("_")
        hf = ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=body, decorator_list=[], type_params=[])
        if cls is not None:
            call = ast.Call(func=ast.Attribute(value=N("self"), attr=h, ctx=ast.Load()), args=[N(a) for a in args[1:]], keywords=[])
        else:
            call = ast.Call(func=N(h), args=[N(a) for a in args], keywords=[])
        f.body = doc + [ast.Return(value=call)]
        return [hf, f]


class Np(Base):
    """equivalent spellings"""
    def visit_Module(self, m):
        class R(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy"):
                    a = n.func.attr
                    if a in ("sin", "cos", "sqrt") and False:
                        return n
                    if a == "square" and len(n.args) == 1:
                        return ast.BinOp(left=n.args[0], op=ast.Pow(), right=ast.Constant(2))
                    if a == "array" and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], ast.List):
                        return ast.Call(func=ast.Attribute(value=n.func.value, attr="asarray", ctx=ast.Load()), args=n.args, keywords=[])
                    if a == "dot" and len(n.args) == 2 and not n.keywords:
                        return ast.Call(func=n.func, args=[], keywords=[ast.keyword(arg="a", value=n.args[0]), ast.keyword(arg="b", value=n.args[1])]) if False else \
                            ast.Call(func=ast.Attribute(value=ast.Call(func=ast.Attribute(value=n.func.value, attr="asarray", ctx=ast.Load()), args=[n.args[0]], keywords=[]), attr="dot", ctx=ast.Load()), args=[n.args[1]], keywords=[])
                    if a in ("zeros", "empty", "ones") and len(n.args) == 1 and not n.keywords:
                        return ast.Call(func=n.func, args=[], keywords=[ast.keyword(arg="shape", value=n.args[0])])
                    if a == "absolute" or a == "abs":
                        return ast.Call(func=ast.Attribute(value=n.func.value, attr="absolute", ctx=ast.Load()), args=n.args, keywords=n.keywords)
                return n

            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == "newaxis" and isinstance(n.value, ast.Name):
                    return ast.Constant(None)
                if n.attr == "T" and isinstance(n.ctx, ast.Load):
                    return ast.Call(func=ast.Attribute(value=n.value, attr="transpose", ctx=ast.Load()), args=[], keywords=[])
                return n

            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[type(n.ops[0])]
                    return ast.Compare(left=n.comparators[0], ops=[sw()], comparators=[n.left])
                return n

            def visit_UnaryOp(self, n):
                self.generic_visit(n)
                if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                    return ast.BinOp(left=ast.Constant(-1), op=ast.Mult(), right=n.operand)
                return n
        return R().visit(m)


class Tup(Base):
    def one(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
            if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                vs = [fresh("_u") for _ in s.value.elts]
                return [ast.Assign(targets=[N(v, ast.Store())], value=e) for v, e in zip(vs, s.value.elts)] + \
                    [ast.Assign(targets=[t], value=N(v)) for v, t in zip(vs, s.targets[0].elts)]
            v = fresh("_u")
            return [ast.Assign(targets=[N(v, ast.Store())], value=ast.Call(func=N("tuple"), args=[s.value], keywords=[]))] + \
                [ast.Assign(targets=[t], value=ast.Subscript(value=N(v), slice=ast.Constant(i), ctx=ast.Load())) for i, t in enumerate(s.targets[0].elts)]
        return s
    infunc = True


class Kw(Base):
    """positional arguments of calls to functions of this module become keyword arguments"""
    def visit_Module(self, m):
        sig = {}
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                for f in s.body:
                    if isinstance(f, ast.FunctionDef):
                        a = [x.arg for x in f.args.args]
                        if a[:1] == ["self"] and not f.args.vararg and not f.decorator_list:
                            sig.setdefault(f.name, set()).add(tuple(a[1:]))

        class R(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and \
                        len(sig.get(n.func.attr, ())) == 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                    names = list(sig[n.func.attr])[0]
                    if len(n.args) <= len(names):
                        n.keywords = [ast.keyword(arg=k, value=v) for k, v in zip(names, n.args)] + n.keywords
                        n.args = []
                return n
        return R().visit(m)


KINDS = dict(plain=Plain, ret=Ret, inv=Inv, comp=Comp, loop=Loop, **{"while": While}, rename=Rename, lift=Lift, helper=Helper, np=Np, tup=Tup, kw=Kw)
if __name__ == "__main__":
    kind, a, b = sys.argv[1:4]
    t = ast.parse(open(a).read())
    for k in kind.split("+"):
        t = KINDS[k]().visit(t)
        t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
    open(b, "w").write(ast.unparse(t) + "\n")

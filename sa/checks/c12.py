import ast
from ._drive import *
from .c11 import fields2

DESC = ("Every entry point is abstractly interpreted (a) after another call with different arguments on the same objects, (b) after a call followed by "
        "new voltages and new array contents, and compared with the call from a fresh state; (c) every default argument value and the solver options "
        "of the library are compared before and after; (d) constructors must not hand out their mutable default values; (e) no function "
        "changes a process-wide setting.")

SETTERS = {"seterr", "set_printoptions", "simplefilter", "filterwarnings", "setlocale", "chdir", "setrecursionlimit", "setswitchinterval",
           "setdefaulttimeout", "basicConfig", "set_string_function", "seterrcall", "putenv", "unsetenv", "setbufsize", "setcontext", "disable"}


def funcs(I):
    out = []
    seen = set()

    def fn(f, path):
        if id(f) in seen:
            return
        seen.add(id(f))
        out.append((path, f))

    def val(v, path, d=0):
        if isinstance(v, Func):
            fn(v, path)
        elif isinstance(v, Cls) and d < 2 and id(v) not in seen:
            seen.add(id(v))
            for n in sorted(v.ns):
                val(v.ns[n], path + "." + n, d + 1)
        elif isinstance(v, Prop):
            for g in (v.get, v.set):
                if isinstance(g, Func):
                    fn(g, path)
        elif isinstance(v, (ClassMethod, StaticMethod)):
            if isinstance(v.func, Func):
                fn(v.func, path)
    for (o, f) in sorted(((k[0], k[1]) for k in I.base if isinstance(k[0], Module) and k[0].name.startswith("electrode.") and isinstance(k[1], str)),
                         key=lambda k: (k[0].name, k[1])):
        v = I.base[(o, f)]
        if isinstance(v, (Func, Cls)) and getattr(getattr(v, "module", None), "name", o.name) == o.name:
            val(v, o.name.split(".", 1)[1] + ".py: " + f)
    return out


def defaults(I):
    """mutable default argument values of the library's functions"""
    out = []
    for path, f in funcs(I):
        n = [a.arg for a in f.node.args.args]
        for a, v in zip(n[len(n) - len(f.defaults):], f.defaults):
            if isinstance(v, (Arr, PList, PDict, PObj)):
                out.append(("electrode/%s(%s)" % (path, a), v))
        for a, v in zip(f.node.args.kwonlyargs, f.kwdefaults):
            if isinstance(v, (Arr, PList, PDict, PObj)):
                out.append(("electrode/%s(%s)" % (path, a.arg), v))
    return out


def check(ck):
    labs = [l for l in ck.labs() if l.mode == "rand"][:2]
    for l in labs:
        l.eps = True
    n = [0, 0]
    for env in (system_drivers, kind_drivers, util_drivers):
        def group():
            I, F, ds = env(ck)
            I.freeze()
            df = defaults(I)
            n[0] += len(df)
            lib = []
            try:
                lib.append(("cvxopt.solvers.options", I.get(I.module("cvxopt.solvers"), "options")))
            except (AnalysisError, KeyError):
                pass
            for d in ds:
                ck.guarded(d.key, lambda: one(ck, I, d, labs, df, lib))
            ck.guarded("ctor", lambda: constructors(ck, I))
        ck.guarded(env.__name__, group)
    settings(ck)


def one(ck, I, d, labs, df, lib):
    I.ov = {}
    a0 = d.mk("")
    a1 = d.mk("B")
    for i, (x, y) in enumerate(zip(a0, a1)):   # the same objects, other plain arguments
        if isinstance(x, PObj) and not isinstance(x, PList):
            a1[i] = x
    I.freeze()
    db = [ck.cap(I, v) for _, v in df]
    lb = [ck.cap(I, v) for _, v in lib]
    o = ck.run(I, d.f, *a0)
    ck.note(I)
    if o.live is FALSE:
        ck.ob(d.key, d.where, "independent of history")
        ck.unknown(d.key, "raises in every case: %s %s" % (o.excs[-1][1], o.excs[-1][3]))
        return
    fresh_ = ck.cap(I, o.value)
    da = [ck.cap(I, v) for _, v in df]
    la = [ck.cap(I, v) for _, v in lib]
    for (nm, _), x, y in zip(df, db, da):
        ck.same("%s/default/%s" % (d.key, nm), nm, y, x, labs=labs[:1], guard=o.live, rule="default argument value unchanged by %s" % d.key)
    for (nm, _), x, y in zip(lib, lb, la):
        ck.same("%s/%s" % (d.key, nm), d.where, y, x, labs=labs[:1], guard=o.live, rule="library settings unchanged")
    if not d.hist:
        I.ov = {}
        return
    # (a)
    I.ov = {}
    ck.run(I, d.f, *a1)
    for i in d.may:
        if i < len(a0) and isinstance(a0[i], Arr) and a1[i] is a0[i]:
            return
    o2 = ck.run(I, d.f, *a0)
    second = ck.cap(I, o2.value)
    I.ov = {}
    ck.same(d.key + "/after-other", d.where, second, fresh_, labs=labs, guard=o.live, rule="same result as from a fresh state after a call with other arguments")
    # (b)
    if d.mutate:
        I.ov = {}
        d.mutate(I, a0)
        o3 = ck.run(I, d.f, *a0)
        want = ck.cap(I, o3.value)
        I.ov = {}
        ck.run(I, d.f, *a0)
        d.mutate(I, a0)
        for i in d.may:
            if i < len(a0) and isinstance(a0[i], Arr):
                I.ov = {k: v for k, v in I.ov.items() if k[0] is not a0[i].buf}
        o4 = ck.run(I, d.f, *a0)
        got = ck.cap(I, o4.value)
        I.ov = {}
        ck.same(d.key + "/after-change", d.where, got, want, labs=labs, guard=o3.live, rule="voltages and array contents changed between two calls are seen")


def constructors(ck, I):
    """an instance must not share a mutable default with the next one"""
    for path, f in funcs(I):
        if not path.endswith("." + "__init__") or f.cls is None:
            continue
        ds = [v for v in list(f.defaults) + list(f.kwdefaults) if isinstance(v, (PList, PDict, Arr, PObj))]
        if not ds:
            continue
        key = "ctor/" + path

        def go():
            I.ov = {}
            o = ck.run(I, I.getattr_(I.module("electrode." + path.split(".py")[0]), path.split(": ")[1].split(".")[0]))
            ck.note(I)
            ck.ob(key, "electrode/" + path, "mutable default values are not handed out")
            if o.live is FALSE:
                return
            v = I.resolve(o.value)
            for (p, fld) in list(I.ov):
                if p is v:
                    x = I.resolve(I.ov[(p, fld)])
                    if any(x is q for q in ds):
                        ck.fail(key, "electrode/" + path, "attribute %s of every instance made without that argument is the same default object" % (fld,))
        ck.guarded(key, go)


def settings(ck):
    """calls and assignments that change the process for everyone else"""
    import os
    d = os.path.join(ck.repo, "electrode")
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".py"):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, fn), encoding="utf8").read())
        except SyntaxError as e:
            ck.unknown("settings/" + fn, e)
            continue
        for f in ast.walk(tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            ck.ob("settings/%s/%s" % (fn, getattr(f, "name", f.lineno)), "electrode/" + fn, "changes no process-wide setting")
            body = f.body if isinstance(f.body, list) else [f.body]
            scan(ck, fn, getattr(f, "name", "lambda"), body, False)


def scan(ck, fn, name, body, scoped):
    for st in body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        sc = scoped
        if isinstance(st, ast.With):
            sc = sc or any("catch_warnings" in ast.dump(i.context_expr) or "errstate" in ast.dump(i.context_expr)
                           or "printoptions" in ast.dump(i.context_expr) or "rc_context" in ast.dump(i.context_expr) for i in st.items)
        if isinstance(st, ast.Try) and st.finalbody:
            sc = True
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.stmt):
                scan(ck, fn, name, [c], sc)
            elif isinstance(c, ast.ExceptHandler):
                scan(ck, fn, name, c.body, sc)
            elif not sc:
                expr(ck, fn, name, c, st)


def dotted(n):
    s = []
    while isinstance(n, ast.Attribute):
        s.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        s.append(n.id)
        return ".".join(reversed(s))
    return None


def expr(ck, fn, name, e, st):
    for c in ast.walk(e):
        key = "settings/%s/%s" % (fn, name)
        if isinstance(c, ast.Call):
            d = dotted(c.func) or ""
            top = d.split(".")[0]
            if d.split(".")[-1] in SETTERS and top in ("np", "numpy", "warnings", "locale", "os", "sys", "logging", "socket", "decimal", "mpmath"):
                ck.fail(key, "electrode/%s:%d %s" % (fn, c.lineno, name), "%s changes a process-wide setting that later calls see" % d)
            if d in ("np.random.seed", "numpy.random.seed", "random.seed"):
                ck.fail(key, "electrode/%s:%d %s" % (fn, c.lineno, name), "%s reseeds the global generator for everyone else" % d)
            if d.endswith("rcParams.update") or d.endswith("environ.update"):
                ck.fail(key, "electrode/%s:%d %s" % (fn, c.lineno, name), "%s changes a process-wide setting that later calls see" % d)
        if isinstance(c, (ast.Subscript, ast.Attribute)) and isinstance(c.ctx, (ast.Store, ast.Del)):
            d = dotted(c.value) or ""
            if d.endswith("rcParams") or d.endswith("os.environ"):
                ck.fail(key, "electrode/%s:%d %s" % (fn, c.lineno, name), "%s is changed for everyone else" % d)

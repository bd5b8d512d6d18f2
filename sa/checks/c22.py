from .. import cc, own
import os

DESC = ("Ownership typestate over clang's syntax tree of electrode/transformations.c, converters and helpers inlined: every exported "
        "function and the module initialisation are explored over all branches, with every call into the Python and numpy interfaces, every "
        "converter and every allocation succeeding and failing.  On each path: what was acquired is released exactly once or returned, "
        "nothing is used after its release, when its creation failed or before it is set, NULL is returned exactly when an exception is "
        "set, nothing runs Python code with an exception pending, and the interpreter lock is given up and taken back in pairs, with no "
        "call into the interpreter in between.  The method table declares for each function the call convention its parameters have.")

VAR, KW, NOARGS, ONE = 1, 2, 4, 8


def number(e):
    if e[0] == "num":
        return e[1]
    if e[0] == "cast":
        return number(e[2])
    if e[0] == "bin" and e[1] == "|":
        a, b = number(e[2]), number(e[3])
        return None if a is None or b is None else a | b
    return None


def bare(e):
    while e[0] == "cast":
        e = e[2]
    return e


def exported(u):
    """[(table, python name, function, flags)] and the functions that could
    not be read"""
    rows, odd = [], []
    for n, g in u.globals.items():
        if "PyMethodDef" not in u.gtypes.get(n, "") or g is None or g[0] != "init":
            continue
        for r in g[1]:
            if r[0] != "init" or not r[1]:
                continue
            it = [bare(x) for x in r[1]]
            if len(it) < 2 or it[0][0] != "str":
                continue
            f = it[1]
            if f[0] == "un" and f[1] == "&":
                f = bare(f[2])
            fl = number(r[1][2]) if len(r[1]) > 2 else 0
            if f[0] == "var" and f[1] in u.funcs:
                rows.append((n, it[0][1], u.funcs[f[1]], fl))
            else:
                odd.append((n, it[0][1]))
    return rows, odd


def check(ck):
    path = os.path.join(ck.repo, "electrode", "transformations.c")
    rel = "electrode/transformations.c"
    if not os.path.exists(path):
        ck.ob("source", rel, "the extension's source")
        ck.unknown("source", "no %s" % rel)
        return
    try:
        u = cc.parse(path)
    except cc.CError as e:
        ck.ob("source", rel, "the extension's source")
        ck.unknown("source", str(e))
        return
    ck.ob("source", rel, "read completely")
    for e in list(u.errors)[:3]:
        ck.unknown("source", str(e))
    rows, odd = exported(u)
    if not rows:
        ck.unknown("source", "no method table")
    for t, n in odd:
        ck.unknown("source", "method %s of %s" % (n, t))
    A = own.Analysis(u)
    seen = {}
    for t, name, f, fl in rows:
        w = "%s:%s %s" % (rel, f.line, f.name)
        ck.ob("flags-" + name, w, "the declared calling convention is the function's")
        if fl is None:
            ck.unknown("flags-" + name, "flags")
        else:
            want = 3 if fl & KW else 2
            if len(f.params) != want:
                ck.fail("flags-" + name, w, "declared with %s parameters, defined with %d" % (want, len(f.params)))
        seen[f.name] = f
    for n, f in u.funcs.items():
        if n.startswith("PyInit_"):
            seen[n] = f
    kinds = {"leak": "everything acquired is released or returned", "release": "only what is owned is released", "released": "nothing is used after its release",
             "null": "no failed creation is used", "uninitialised": "nothing is used before it is set", "exception": "NULL is returned exactly with an exception set",
             "lock": "the interpreter lock is paired", "format": "formats match their arguments", "pending": "no Python code runs with an exception pending",
             "result": "an object is returned"}
    for n, f in seen.items():
        key = "own-" + n
        ck.ob(key, "%s:%s %s" % (rel, f.line, n), "references, buffers, errors and lock on every path")
        nb, nu = len(A.bad), len(A.unknown)
        try:
            A.entry(f, "object")
        except RecursionError:
            A.unknown.append((n, 0, "recursion"))
        for fn, rule, line, text in dict.fromkeys(A.bad[nb:]):
            ck.fail(key, "%s:%s %s" % (rel, line, fn), "%s (%s)" % (text, kinds.get(rule, rule)))
        for fn, line, text in dict.fromkeys(A.unknown[nu:]):
            ck.unknown(key, "%s at line %s" % (text, line))
    for fn, line, name in A.stats["calls"]:
        ck.callsites.add("%s:%s %s" % (rel, line, name))
    ck.notes.append("%d distinct outcomes explored" % A.stats["paths"])
    ck.visited |= {"electrode/transformations.c:%s" % n for n in seen}

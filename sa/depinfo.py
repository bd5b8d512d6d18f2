"""Names and signatures of the installed dependencies. Run by the project's
interpreter as `python -m depinfo` (only third party and standard modules are
imported, never the analysed repository): reads JSON queries from stdin."""
import sys, json, importlib, inspect, warnings

warnings.simplefilter("ignore")


def mod(name, cache={}):
    if name not in cache:
        try:
            cache[name] = importlib.import_module(name)
        except BaseException as e:
            cache[name] = None
    return cache[name]


def walk(m, path):
    """('ok', object) | ('absent', k) | ('unknown',)"""
    o = mod(m)
    if o is None:
        return ("unknown", None)
    name = m
    for k, p in enumerate(path):
        try:
            o2 = getattr(o, p)
        except AttributeError:
            if inspect.ismodule(o):
                s = mod(o.__name__ + "." + p)
                if s is not None:
                    o = s
                    continue
                return ("absent", k)
            if inspect.isclass(o):
                return ("absent", k)
            return ("unknown", None)
        except BaseException:
            return ("unknown", None)
        o = o2
    return ("ok", o)


def sig(o):
    try:
        s = inspect.signature(o)
    except BaseException:
        return None
    out = []
    for p in s.parameters.values():
        out.append([p.name, int(p.kind), p.default is not inspect.Parameter.empty])
    return out


def words(packages):
    """every attribute or function name that occurs in the sources of the
    packages, or on the built-in types"""
    import os, re, builtins, types
    out = set()
    for t in list(vars(builtins).values()) + list(vars(types).values()):
        out |= set(dir(t))
    rx = re.compile(r"(?:\.|\bdef\s+|\bclass\s+|^\s*)(\w+)", re.M)
    for p in packages:
        m = mod(p)
        if m is None:
            continue
        out |= set(dir(m))
        for v in list(vars(m).values()):
            if inspect.isclass(v):
                out |= set(dir(v))
            if inspect.ismodule(v):
                for u in list(vars(v).values()):
                    if inspect.isclass(u):
                        out |= set(dir(u))
        f = getattr(m, "__file__", None)
        if not f:
            continue
        if os.path.basename(f).startswith("__init__"):
            files = [os.path.join(d, n) for d, _, ns in os.walk(os.path.dirname(f)) if "tests" not in d for n in ns if n.endswith((".py", ".pyi"))]
        else:
            files = [f] if f.endswith(".py") else []
        for n in files:
            try:
                out |= set(rx.findall(open(n, encoding="utf8", errors="replace").read()))
            except OSError:
                pass
    return out


def main():
    import matplotlib
    matplotlib.use("Agg")
    q = json.load(sys.stdin)
    out = []
    for m, path in q["names"]:
        st, o = walk(m, path)
        r = {"st": st}
        if st == "absent":
            r["k"] = o
        if st == "ok":
            r["kind"] = "module" if inspect.ismodule(o) else "class" if inspect.isclass(o) else "callable" if callable(o) else "value"
            if callable(o):
                r["sig"] = sig(o)
            if inspect.isclass(o):
                r["dir"] = sorted(dir(o))
        out.append(r)
    json.dump({"names": out, "words": sorted(set(q["words"]) - words(q["packages"]))}, sys.stdout)


if __name__ == "__main__":
    main()

"""Meta-test of the engine's numpy/python model (not a check): every expression
is analysed with unknown arrays and its value graph, evaluated at small
integers, compared with what numpy computes for those integers.

python3 tools/np_diff.py [substring]"""
import sys, json, subprocess
sys.path.insert(0, "/verif")
VALS = dict(
    a=[[1, 2, -3], [4, 0, 6]], b=[[2, 5, 1], [-1, 3, 7]], m=[[2, 1, 0], [1, 3, -1], [0, 2, 5]], v=[3, -1, 2], w=[4, 1, -2], u=[5, 2],
    q=[[[1, 2, 3], [4, 5, 6], [7, 8, 10]], [[2, 0, 1], [1, 1, 1], [3, -2, 4]]])
INTS = dict(n=[2, 0, 1], k=[1, 1, 2])
EX = open(__file__.replace(".py", ".txt")).read().split("\n")
EX = [e for e in EX if e.strip() and not e.startswith("#")]

REF = r"""
import sys, json, numpy as np, warnings, operator, itertools, functools, math, collections, copy
from numpy import linalg
from fractions import Fraction
warnings.simplefilter("ignore")
V, N, EX = json.load(sys.stdin)
def enc(x):
    if isinstance(x, np.ndarray):
        return ["arr", list(x.shape), [enc(y) for y in x.ravel().tolist()]] if x.ndim else enc(x.item())
    if isinstance(x, (np.generic,)): x = x.item()
    if isinstance(x, bool): return ["b", x]
    if isinstance(x, (int, float)):
        if x != x or x in (float("inf"), -float("inf")): return ["special"]
        f = Fraction(x).limit_denominator(5000)
        if abs(f - Fraction(x)) > 1e-9: return ["irr"]
        return ["q", f.numerator, f.denominator]
    if isinstance(x, complex): return ["c", enc(x.real), enc(x.imag)]
    if x is None or isinstance(x, str): return ["lit", repr(x)]
    if isinstance(x, tuple): return ["tuple", [enc(y) for y in x]]
    if isinstance(x, (list, range)): return ["list", [enc(y) for y in x]]
    if isinstance(x, (set, frozenset)): return ["set", [enc(y) for y in x]]
    if isinstance(x, dict): return ["dict", [[enc(a), enc(b)] for a, b in x.items()]]
    if isinstance(x, slice): return ["other", "slice"]
    try:
        return ["list", [enc(y) for y in x]]
    except TypeError:
        return ["other", type(x).__name__]
out = []
for e in EX:
    env = {k: np.array(x, dtype=float) for k, x in V.items()}
    env.update({k: np.array(x) for k, x in N.items()})
    env.update(globals())
    try:
        if ";" in e or "=" in e.split("(")[0]:
            exec("def f_():\n    " + e.replace("; ", "\n    ").replace("~", "    "), env)
            r = env["f_"]()
        else:
            r = eval(e, env)
        out.append(enc(r))
    except Exception as x:
        out.append(["exc", type(x).__name__])
print(json.dumps(out))
"""


def main(sub):
    ex = [e for e in EX if sub in e]
    r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", REF], input=json.dumps([VALS, INTS, ex]), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr)
        return
    ref = json.loads(r.stdout)
    from sa.check import Ck, conc, AnalysisError
    import sa.terms as T
    from sa import npm
    ck = Ck("F")
    bad = und = 0
    lab = T.Labelling("z", "rand", (1, 3))

    def look(L):
        def f(*idx):
            x = L
            for i in idx:
                x = x[int(i)]
            return x % T.P
        return f

    def looki(L):
        def f(*idx):
            x = L
            for i in idx:
                x = x[int(i)]
            return x
        return f
    for k, x in VALS.items():
        lab.fixed[k] = look(x)
    for k, x in INTS.items():
        lab.fixed[k] = looki(x)

    def shape(x):
        return (len(x),) + shape(x[0]) if isinstance(x, list) else ()

    def dec(r):
        t = r[0]
        if t == "q":
            return r[1] * pow(r[2], T.P - 2, T.P) % T.P
        if t == "b":
            return r[1]
        if t == "arr":
            return ("arr", tuple(r[1]), tuple(dec(x) for x in r[2]))
        if t in ("tuple", "list"):
            return (t,) + tuple(dec(x) for x in r[1])
        if t == "set":
            return (t,) + tuple(sorted((dec(x) for x in r[1]), key=repr))
        if t == "dict":
            return (t,) + tuple(sorted(((dec(x), dec(y)) for x, y in r[1]), key=repr))
        if t == "lit":
            return ("lit", None) if r[1] == "None" else ("o", T._h("const", r[1]))
        if t == "c":
            x, y = dec(r[1]), dec(r[2])
            return ("cx", x, y)
        return tuple(r)

    def eqv(g, e):
        if isinstance(e, tuple) and e and e[0] in ("irr", "other", "special"):
            return True
        if isinstance(e, tuple) and e and e[0] == "cx":
            return g == e[1] if e[2] == 0 and not isinstance(g, tuple) else tuple(g)[-2:] == e[1:]
        if isinstance(g, tuple) and isinstance(e, tuple):
            if len(g) != len(e):
                return False
            return all(eqv(x, y) for x, y in zip(g, e))
        if isinstance(g, tuple) or isinstance(e, tuple):
            return False
        if isinstance(g, str) or isinstance(e, str) or g is None or e is None:
            return g == e
        return int(g) % T.P == int(e) % T.P
    for e, want in zip(ex, ref):
        I = ck.interp()
        body = ("    " + e.replace("; ", "\n    ").replace("~", "    ")) if ";" in e or "=" in e.split("(")[0] else "    return " + e
        src = "import numpy as np, operator, itertools, functools, math, collections, copy\nfrom numpy import linalg\ndef f(%s):\n%s\n" % (
            ", ".join(list(VALS) + list(INTS)), body)
        args = [npm.sym_array(I, k, [T.const(d) for d in shape(x)]) for k, x in VALS.items()] + \
               [npm.sym_array(I, k, [T.const(d) for d in shape(x)], "i", rng=(0, 2)) for k, x in INTS.items()]
        try:
            m = ck.spec(I, src, "p%d" % ex.index(e))
            o = ck.run(I, I.get(m, "f"), *args)
            st = o.state(lab)
            if st:
                got = ("exc", st[1])
            else:
                got = conc(lab, ck.cap(I, o.value))
        except AnalysisError as x:
            und += 1
            print("undecided ", e, "|", type(x).__name__, str(x)[:70], "" if want[0] != "exc" else "(python raises %s)" % want[1])
            continue
        except Exception as x:
            bad += 1
            print("CRASH     ", e, "|", type(x).__name__, str(x)[:90])
            continue
        if want[0] == "exc" or got[:1] == ("exc",) if isinstance(got, tuple) else want[0] == "exc":
            g2 = list(got if isinstance(got, tuple) else [got])[:2]
            if g2 != want and [g2[0], {"ValueError": "AxisError", "TypeError": "UFuncTypeError"}.get(g2[-1])] != want:
                bad += 1
                print("MISMATCH  ", e, "| engine", str(got)[:60], "| python", str(want)[:60])
            continue
        w = dec(want)
        if not eqv(got, w):
            bad += 1
            print("MISMATCH  ", e, "| engine", str(got)[:100], "| python", str(want)[:100])
    print(len(ex), "expressions", bad, "bad", und, "undecided")


if __name__ == "__main__":
    main(sys.argv[1] if len(sys.argv) > 1 else "")

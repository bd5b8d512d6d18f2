"""Meta-test of the engine (not a check): random small programs are run by
CPython on concrete integers and analysed with unknown inputs; the value graph
evaluated at the same integers must give CPython's outcome."""
import sys, random
sys.path.insert(0, "/verif")
from sa.check import *

V = ["a", "b", "c", "x", "y"]


class G(object):
    def __init__(self, r):
        self.r = r

    def ex(self, d=2):
        r = self.r
        if d == 0 or r.random() < .3:
            return r.choice(V + ["1", "2", "0", "-3"])
        k = r.random()
        if k < .7:
            return "(%s %s %s)" % (self.ex(d-1), r.choice("+-*"), self.ex(d-1))
        if k < .8:
            return "(%s if %s else %s)" % (self.ex(d-1), self.cond(), self.ex(d-1))
        if k < .9:
            return "len(l)"
        return "sum(l)"

    def cond(self):
        r = self.r
        c = "%s %s %s" % (self.ex(1), r.choice(["<", "<=", "==", "!=", ">", ">="]), self.ex(1))
        if r.random() < .2:
            c = "%s %s %s" % (c, r.choice(["and", "or"]), self.cond())
        if r.random() < .1:
            c = "not (%s)" % c
        return c

    def block(self, ind, d, loop, n=None):
        r = self.r
        out = []
        for _ in range(n or r.randint(1, 3)):
            out += self.stmt(ind, d, loop)
        return out

    def stmt(self, ind, d, loop):
        r = self.r
        p = "    " * ind
        k = r.random()
        if d == 0 or k < .3:
            return [p + "%s = %s" % (r.choice("xy"), self.ex())]
        if k < .37:
            return [p + "l.append(%s)" % self.ex(1)]
        if k < .40:
            return [p + "o.f = %s" % self.ex(1)]
        if k < .43:
            return [p + "x = o.f"]
        if k < .62:
            o = [p + "if %s:" % self.cond()] + self.block(ind+1, d-1, loop)
            if r.random() < .5:
                o += [p + "else:"] + self.block(ind+1, d-1, loop)
            return o
        if k < .72:
            o = [p + "for i%d in range(%d):" % (ind, r.randint(0, 3))] + self.block(ind+1, d-1, True)
            if r.random() < .3:
                o += [p + "else:"] + self.block(ind+1, d-1, loop)
            return o
        if k < .80 and loop:
            return [p + "if %s: %s" % (self.cond(), r.choice(["break", "continue"]))]
        if k < .84:
            return [p + "if %s: return %s" % (self.cond(), self.ex())]
        if k < .89:
            return [p + "if %s: raise %s" % (self.cond(), r.choice(["ValueError", "KeyError", "TypeError"]))]
        if k < .95:
            o = [p + "try:"] + self.block(ind+1, d-1, loop)
            if r.random() < .7:
                o += [p + "except %s:" % r.choice(["ValueError", "KeyError", "(ValueError, KeyError)", "LookupError"])] + self.block(ind+1, d-1, loop)
                if r.random() < .3:
                    o += [p + "else:"] + self.block(ind+1, d-1, loop)
                if r.random() < .3:
                    o += [p + "finally:"] + self.block(ind+1, 0, False)
            else:
                o += [p + "finally:"] + self.block(ind+1, 0, False)
            return o
        if k < .98:
            return [p + "with ctx(o, %s):" % self.ex(1)] + self.block(ind+1, d-1, loop)
        return [p + "x = h(%s, %s)" % (self.ex(1), self.ex(1))]


HEAD = '''
from contextlib import contextmanager
class O(object):
    def __init__(self): self.f = 0
@contextmanager
def ctx(o, v):
    old = o.f
    o.f = v
    try:
        yield
    finally:
        o.f = old
def h(p, q):
    for k in range(2):
        if p > q: return p + k
        p = p + 2
    return q
def f(a, b, c):
    x, y, l, o = 0, 1, [], O()
    out = g(a, b, c, x, y, l, o)
    return out, l, o.f
'''


def main(n, seed):
    bad = und = 0
    for t in range(n):
        r = random.Random("%s/%s" % (seed, t))
        g = G(r)
        src = HEAD + "def g(a, b, c, x, y, l, o):\n" + "\n".join(g.block(1, 3, False, 4)) + "\n    return x, y\n"
        env = {}
        exec(src, env)
        ck = Ck("F")
        I = ck.interp()
        A = [T.atom(q, "i") for q in "abc"]
        try:
            m = ck.spec(I, src, "p")
            o = ck.run(I, I.get(m, "f"), *A)
            cv = ck.cap(I, o.value)
        except AnalysisError as e:
            und += 1
            continue
        for q in range(6):
            lab = T.Labelling("z%d" % q, "small", (1, 3))
            vals = [int(lab(x)) for x in A]
            try:
                ref = env["f"](*vals)
                ref = repr(ref)
            except Exception as e:
                ref = type(e).__name__
            st = o.state(lab)
            if st:
                got = st[1]
            else:
                v = conc(lab, cv)

                def back(v):
                    if isinstance(v, tuple) and v and v[0] == "tuple":
                        return tuple(back(x) for x in v[1:])
                    if isinstance(v, tuple) and v and v[0] == "list":
                        return [back(x) for x in v[1:]]
                    if v == ("lit", None):
                        return None
                    v = T.cent(v % T.P if isinstance(v, int) else T.parts(v)[0])
                    return v
                got = repr(back(v))
            if got != ref:
                bad += 1
                print("MISMATCH seed", t, vals, "engine", got, "python", ref)
                print(src[len(HEAD):])
                break
        if bad > 3:
            break
    print(n, "programs", bad, "bad", und, "undecided")


if __name__ == "__main__":
    main(int(sys.argv[1]), sys.argv[2])

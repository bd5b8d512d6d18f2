"""The field kernels as value graphs, and forward differentiation of graphs."""
from ..check import *
from ..values import *

COMP = "cexpressions"
INTP = "expressions"
W = {COMP: "electrode/cexpressions.pyx: ", INTP: "electrode/expressions.py: "}


class Kern(object):
    def __init__(self, ck, *mods):
        self.ck = ck
        self.I = ck.interp(*["electrode." + m for m in mods or (COMP, INTP)])

    def fn(self, mod, name):
        return self.ck.attr(self.I, mod, name)

    def x(self, n=1, name="x"):
        return npm.sym_array(self.I, name, (const(n), const(3)))

    def arr(self, name, *shape):
        return npm.sym_array(self.I, name, tuple(const(s) if isinstance(s, int) else s for s in shape))

    def ints(self, rows):
        I = self.I
        l = I.new_list([I.new_list([const(v) for v in r]) if isinstance(r, (list, tuple)) else const(r) for r in rows])
        np_ = I.externs["numpy"].table
        return I.call(np_["asanyarray"], [l, np_["intc"]], {})

    def empty(self, shape):
        np_ = self.I.externs["numpy"].table
        return self.I.call(np_["zeros"], [tuple(const(q) for q in shape), np_["intc"]], {})

    def point(self, mod, x, pts, areas, pot, deriv, nmax, h, out):
        return self.ck.run(self.I, self.fn(mod, "point_potential"), x, pts, areas, pot, const(deriv), const(nmax), h, out)

    def polygon(self, mod, x, paths, pot, deriv, nmax, h, out):
        return self.ck.run(self.I, self.fn(mod, "polygon_potential"), x, paths, pot, const(deriv), const(nmax), h, out)

    def mesh(self, mod, x, pts, edges, polys, pots, deriv, nmax, h, out):
        return self.ck.run(self.I, self.fn(mod, "mesh_potential"), x, pts, edges, polys, pots, const(deriv), const(nmax), h, out)


class NotDiff(Exception):
    pass


def differentiator(wrt):
    """D(node) = d node / d wrt(atom) as a value graph (forward mode)"""
    memo = {}
    zero = const(0.)

    def go(n):
        st = [n]
        while st:
            c = st[-1]
            if c in memo:
                st.pop()
                continue
            todo = [a for a in deps(c) if a not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[c] = rule(c)
            st.pop()
        return memo[n]

    def deps(n):
        if n.op in ("const", "atom"):
            return ()
        if n.op == "ite":
            return n.args[1:]
        return [a for a in n.args if isinstance(a, Node)]

    def rule(n):
        if n is wrt:
            return const(1.)
        if n.op in ("const", "atom"):
            return zero
        d = [memo[a] for a in deps(n)]
        if all(q is zero for q in d):
            return zero
        a = n.args
        if n.op == "add":
            r = d[0]
            for q in d[1:]:
                r = T.add(r, q)
            return r
        if n.op == "neg":
            return T.neg(d[0])
        if n.op == "sub":
            return T.sub(d[0], d[1])
        if n.op == "mul":
            r = zero
            for i in range(len(a)):
                if d[i] is zero:
                    continue
                t = d[i]
                for j in range(len(a)):
                    if j != i:
                        t = T.mul(t, a[j])
                r = T.add(r, t)
            return r
        if n.op == "div":
            q = T.div(d[0], a[1])
            if d[1] is not zero:
                q = T.sub(q, T.div(T.mul(n, d[1]), a[1]))
            return q
        if n.op == "pow":
            e = n.x
            return T.mul(T.mul(const(e), T.power(a[0], const(e - 1))), d[0])
        if n.op == "toreal":
            return d[0]
        if n.op == "ite":
            return T.ite(a[0], d[0], d[1])
        if n.op == "fn":
            if n.x == "abs":
                return T.mul(T.div(a[0], n), d[0])
            if n.x == "arctan2":
                u, v = a
                den = T.add(T.mul(u, u), T.mul(v, v))
                return T.div(T.sub(T.mul(v, d[0]), T.mul(u, d[1])), den)
            if n.x == "arctan":
                return T.div(d[0], T.add(const(1.), T.mul(a[0], a[0])))
            if n.x == "log":
                return T.div(d[0], a[0])
            if n.x == "sin":
                return T.mul(T.fn("cos", a[0]), d[0])
            if n.x == "cos":
                return T.neg(T.mul(T.fn("sin", a[0]), d[0]))
            if n.x == "exp":
                return T.mul(n, d[0])
        raise NotDiff("%s %s" % (n.op, n.x if isinstance(n.x, str) else ""))
    return go

"""Moving the trap minimum step by step."""
from ._sys import *
import itertools

DESC = ("Adjust is abstractly interpreted over all sequences (up to length 3, thorough 4) of proposals (either method, axes, scales), acceptances, rejections and "
        "own voltage changes on an assembly of contract electrodes with unknown voltages; the minimum and the modes are unknown functions of the voltages set "
        "(C13, C14, C29 are their checks). After every operation the voltages set, their history, the recorded minima and curvatures and the returned "
        "values are compared with the stated bookkeeping; the proposed changes solve the stated linear equations.")

SRC = '''
import numpy as np

class Model(object):
    def __init__(self, s, names, x0, groups, order):
        self.s, self.names, self.groups = s, names, groups
        self.hist = {}
        for i in range(len(names)):
            self.hist[names[i]] = [s[i].dc]
        self.prop = None
        self.begin(groups, x0, order)

    def begin(self, groups, x0, order):
        s, self.groups = self.s, groups
        self.xms = [u_minimum(s, (0., 0., 0.)) if x0 is None else x0]
        w, v = u_modes(s, self.xms[0])
        if order is None:
            order = [2, 0, 1]
        self.curves = [[w[i] for i in order]]
        self.basis = [[v[0, i], v[1, i], v[2, i]] for i in order]

    def grad(self, name, x):
        return __kernel__(self.s[self.names.index(name)].tag, np.array([[x[0], x[1], x[2]]]), 1)[0]

    def change(self, axis, l, dis, same, method):
        x, v = self.xms[-1], self.basis[axis]
        if method == "force":
            r = [self.curves[0 if same else -1][axis]*dis/l*v[i] for i in range(3)]
        else:
            x = [x[i] + dis/l*v[i] for i in range(3)]
            p = np.array([[x[0], x[1], x[2]]])
            g = elpot(self.s, p, 1, "dc")[0] + pseudo(self.s, p, 1)[0]
            r = [-g[i] for i in range(3)]
        m = [[sum([self.grad(n, x)[i] for n in self.groups[k]]) for k in range(len(self.groups))] for i in range(3)]
        return np.linalg.solve(np.array(m), np.array(r))

    def volts(self, dv):
        c = {}
        for k in range(len(self.groups)):
            for n in self.groups[k]:
                c[n] = self.hist[n][-1] + dv[k]
        return c

    def put(self, c):
        for n in c:
            self.s[self.names.index(n)].dc = c[n]

    def look(self, dv):
        self.put(self.volts(dv))
        x = u_minimum(self.s, None)
        w, v = u_modes(self.s, x)
        o = [2, 0, 1]
        w = [w[i] for i in o]
        v = [[v[0, i], v[1, i], v[2, i]] for i in o]
        return x, w, v

    def propose(self, axis, l, dis, same, method):
        dv = self.change(axis, l, dis, same, method)
        x, w, v = self.look(dv)
        self.prop = (dv, x, w)
        return (dv, x, x - self.xms[-1], [np.sqrt(w[i]) - np.sqrt(self.curves[0][i]) for i in range(3)],
                [[v[i][j] - self.basis[i][j] for j in range(3)] for i in range(3)])

    def step(self, own, accept):
        if own is None:
            if self.prop is None:
                raise AttributeError("nothing proposed")
            dv, x, w = self.prop
        else:
            dv = own
        if accept:
            if own is not None:
                x, w, v = self.look(dv)
            c = self.volts(dv)
            self.put(c)
            for n in self.names:
                self.hist[n].append(c[n] if n in c else self.hist[n][-1])
            self.xms.append(x)
            self.curves.append(w)
        else:
            self.put({n: h[-1] for n, h in self.hist.items()})
        self.prop = None
        return 0

    def state(self):
        return [e.dc for e in self.s], [e.rf for e in self.s], [list(self.hist[n]) for n in self.names], [[q[0], q[1], q[2]] for q in self.xms], \
            list(self.curves), self.basis

def state(a, names):
    s = a.system
    return [e.dc for e in s], [e.rf for e in s], [list(a.volts[n]) for n in names], [[q[0], q[1], q[2]] for q in a.xms], [[w[0], w[1], w[2]] for w in a.curves], \\
        [[a.basis[i][j] for j in range(3)] for i in range(3)]

def start(s, names, x0, groups, order):
    a = Adjust(s)
    kw = {} if order is None else {"axis_order": order}
    xm, ax = a.set_move_init(groups, **kw) if x0 is None else a.set_move_init(groups, x0, **kw)
    return a, (xm[0], xm[1], xm[2]), [(n, [v[0], v[1], v[2]]) for n, v in ax]

def impl(s, names, x0, groups, order, ops, mode):
    a, xm, ax = start(s, names, x0, groups, order)
    out = [(xm, ax), state(a, names)]
    for op in ops:
        try:
            if op[0] == "p":
                dv, xx, df, dvec = a.propose_move(axis=op[1], l=op[2], dis=op[3], same_scale=op[4], method=op[5])
                out.append(([dv[k] for k in range(len(groups))], [xx[0][i] for i in range(3)], [xx[1][i] for i in range(3)], [df[i] for i in range(3)],
                            [[dvec[i][j] for j in range(3)] for i in range(3)]))
            elif op[0] == "d":
                dv = a.propose_move()[0]
                out.append([dv[k] for k in range(len(groups))])
            elif op[0] == "v":
                dv = a.volt_change(op[1], op[2], op[3])
                out.append([dv[k] for k in range(len(groups))])
            elif op[0] == "re":
                xm = a.set_move_init(op[1], op[2])[0]
                out.append((xm[0], xm[1], xm[2]))
            else:
                out.append(a.next_step(op[1], op[2]) if op[1] is not None else a.next_step(accept=op[2]) if not op[2] else a.next_step())
        except AttributeError:
            out.append("nothing proposed")
        out.append(state(a, names))
    return out

def spec(s, names, x0, groups, order, ops, mode):
    m = Model(s, names, x0, groups, order)
    x = m.xms[0]
    out = [((x[0], x[1], x[2]), [(n, v) for n, v in zip(("axial", "radial1", "radial2"), m.basis)]), m.state()]
    for op in ops:
        try:
            if op[0] == "p":
                dv, xn, dx, df, dvec = m.propose(op[1], op[2], op[3], op[4], op[5])
                out.append(([dv[k] for k in range(len(groups))], [xn[i] for i in range(3)], [dx[i] for i in range(3)], df, dvec))
            elif op[0] == "d":
                dv = m.propose(1, 200e-6, 10e-9, False, "force")[0]
                out.append([dv[k] for k in range(len(groups))])
            elif op[0] == "v":
                dv = m.change(op[1], op[2], op[3], False, "force")
                out.append([dv[k] for k in range(len(groups))])
            elif op[0] == "re":
                m.begin(op[1], op[2], None)
                out.append((op[2][0], op[2][1], op[2][2]))
            else:
                out.append(m.step(op[1], op[2]))
        except AttributeError:
            out.append("nothing proposed")
        out.append(m.state())
    return out
'''
W = "electrode/adjust.py: Adjust"


def check(ck):
    E = SysEnv(ck, extra=("electrode.adjust",))
    I = E.I
    np_ = lambda n: I.externs["numpy"].table[n]

    def volts(s):
        return [I.as_o(I.getattr_(e, n)) for e in I.items_of(s) for n in ("dc", "rf")]

    def vec(name, args, n=3):
        return I.call(np_("array"), [I.new_list([T.call("%s_%d" % (name, j), args, sort="r") for j in range(n)])], {})

    def minimum(I, a, k):
        return vec("min", volts(a[0]))

    def modes(I, a, k):
        x = a[1] if len(a) > 1 else k["x"]
        x = npm.snap(I, I.call(np_("array"), [x], {}))
        d = volts(a[0]) + [T.to_real(x(const(j))) for j in range(3)]
        # first components 2, -1, 5: sorted in descending order 2, 0, 1
        v = I.call(np_("array"), [I.new_list([I.new_list([const(q) for q in (2, -1, 5)])] + [I.new_list([T.call("vec%d_%d" % (i, j), d, sort="r") for j in range(3)])
                                                                                         for i in (1, 2)])], {})
        return (vec("ew", d), v)
    I.stubs["system.System.minimum"], I.stubs["system.System.modes"] = minimum, modes
    m = ck.spec(I, SRC, "c47spec", Adjust=ck.attr(I, "adjust", "Adjust"), elpot=E.fn("elpot"), pseudo=E.fn("pseudo"),
                u_minimum=Builtin("u_minimum", minimum), u_modes=Builtin("u_modes", modes))
    F = lambda n: I.get(m, n)
    labs = [l for l in ck.labs() if l.mode == "rand"][:2]
    names = ["a", "b", "c", "d", "e"]
    G1 = (("b",), ("a", "d"), ("c",))
    G2 = (("e",), ("a",), ("b", "c", "d"))
    P = lambda j, ax, meth, same=False: ("p", const(ax), T.atom("l%d" % j), T.atom("dis%d" % j), TRUE if same else FALSE, meth)
    OPS = {"pf": lambda j: P(j, 1, "force"), "ps": lambda j: P(j, 0, "force", True), "pp": lambda j: P(j, 2, "position"),
           "acc": lambda j: ("n", None, TRUE), "rej": lambda j: ("n", None, FALSE),
           "own": lambda j: ("n", vec("own%d" % j, []), TRUE), "ownrej": lambda j: ("n", vec("own%d" % j, []), FALSE),
           "re": lambda j: ("re", I.new_list([I.new_list(list(q)) for q in G2]), npm.sym_array(I, "y%d" % j, (const(3),))),
           "re1": lambda j: ("re", I.new_list([I.new_list(list(q)) for q in G1]), npm.sym_array(I, "z%d" % j, (const(3),))),
           "def": lambda j: ("d",), "vol": lambda j: ("v", const(2), T.atom("l%d" % j), T.atom("dis%d" % j))}

    def one(seq, G=G1, x0=True, order=None):
        key = "-".join(seq or ("init",)) + ("" if G is G1 else "/other groups") + ("" if x0 else "/search") + ("" if order is None else "/order%s" % (order,))

        def go():
            res = []
            for f in ("impl", "spec"):
                I.ov = {}
                s = E.make(5, names=names)
                g = I.new_list([I.new_list(list(q)) for q in G])
                x = npm.sym_array(I, "x", (const(3),)) if x0 else None
                ops = tuple(OPS[q](j) for j, q in enumerate(seq))
                if order is None:
                    o = None
                else:
                    o = I.new_list([const(q) for q in order])
                I.freeze()
                r = ck.run(I, F(f), s, tuple(names), x, g, o, ops, None)
                if f == "impl":
                    ck.note(I)
                res.append((r, ck.cap(I, r.value) if r.value is not None else None))
            (o1, c1), (o2, c2) = res
            ck.agree(key, W, o1, o2, c1, c2, labs=labs, rule="voltages, history, minima, curvatures and returned values follow the sequence")
        ck.guarded(key, go)
    one(())
    one((), x0=False)
    one(("pf", "acc"), x0=False)
    for o in ((0, 1, 2), (1, 2, 0), (2, 1, 0)):
        one(("pf", "acc"), order=o)
        one(("pp",), order=o)
    for n in (1, 2, 3) if ck.tier == "quick" else (1, 2, 3, 4):
        for seq in itertools.product(("pf", "pp", "acc", "rej", "own"), repeat=n):
            if n > 2 and (seq[0] in ("acc", "rej") or seq[0] == seq[1]):
                continue
            one(seq)
    for seq in (("ps",), ("def",), ("vol",), ("pf", "acc", "ps", "acc"), ("ownrej",), ("pf", "ownrej", "acc"), ("own", "pf", "acc", "pf", "rej"), ("def", "acc"),
                ("vol", "acc"), ("pf", "vol", "acc"), ("re",), ("pf", "re", "rej"), ("pf", "acc", "re", "pp", "acc"), ("pf", "re", "pf", "acc"),
                ("own", "re", "rej"), ("own", "re", "own", "pf", "rej")):
        one(seq)
        one(seq, G=G2)
    for seq in (("pf", "re1", "rej"), ("own", "re1", "rej"), ("own", "re1", "own"), ("pf", "acc", "re1", "pf", "acc"), ("own", "pp", "re1", "rej", "pf", "acc"),
                ("own", "re1", "own", "re", "own")):
        one(seq, G=G2)

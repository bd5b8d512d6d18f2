from ..check import *

DESC = ("rotate_tensor is abstractly interpreted into a value graph for tensors of degree 0..6 (batch of symbolic length, "
        "also two batch axes, also degree omitted) and a general 3x3 matrix of unknowns; every component is compared by "
        "global value numbering with the explicit contraction sum_i c[n,i..] r[i,j].. ; argument arrays must be unchanged.")

SPEC = {
    0: "return np.array(c)",
    1: "return np.einsum('...a,ai->...i', c, r)",
    2: "return np.einsum('...ab,ai,bj->...ij', c, r, r)",
    3: "return np.einsum('...abc,ai,bj,ck->...ijk', c, r, r, r)",
    4: "return np.einsum('...abcd,ai->...ibcd', np.einsum('...abcd,bj,ck,dl->...ajkl', c, r, r, r), r)",
}
for n in (5, 6):
    ix = "abcdef"[:n]
    SPEC[n] = "\n    ".join("c = np.einsum('...%s,%sz->...%s', c, r)" % (ix, a, ix.replace(a, "z")) for a in ix) + "\n    return c"


def check(ck):
    I = ck.interp("electrode.utils")
    f = ck.attr(I, "utils", "rotate_tensor")
    n, m = T.atom("n", "i", rng=(1, 3)), T.atom("m", "i", rng=(1, 2))
    three = const(3)
    for order in range(7):
        m_ = ck.spec(I, "import numpy as np\ndef spec(c, r, order=None):\n    " + SPEC[order], "spec%d" % order)
        sp = I.get(m_, "spec")
        for tag, batch, passorder in (("batch", (n,), True), ("omitted", (n,), False), ("batch2", (n, m), True), ("single", (), True)):
            if order == 4 and tag == "batch2" or order > 4 and tag not in ("single", "omitted"):
                continue
            if order > 4:
                batch = (const(1),) if batch else ()
            if tag == "single" and order == 0:
                continue

            def go():
                I.ov = {}
                c = npm.sym_array(I, "c", batch + (three,) * order)
                r = npm.sym_array(I, "r", (three, three))
                I.freeze()
                kw = {"order": const(order)} if passorder else {}
                ck.vs("order%d-%s" % (order, tag), "electrode/utils.py: rotate_tensor", I, f, sp, [c, r], kw,
                      labs=ck.labs()[:4 if order < 5 else 2] if order >= 3 else None,
                      rule="every component equals the contraction of all tensor indices with the first index of the basis")
            ck.guarded("order%d-%s" % (order, tag), go)

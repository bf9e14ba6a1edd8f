"""C02: XGate.unitary is the matrix with a 1 at ((j + plus) mod d, j) and 0 elsewhere."""
from .c11 import gate_only, single
from .common import *

X = GATES["x"]


def unitary(be):
    def body(v):
        d, k, q = z3.Ints("d plus qreg")
        v.assume(d >= 2)
        v.cases = lambda m: [[be, num(m, d), num(m, k), 0, [], []]] if num(m, d) <= 60 else []
        g = v.call(v.cls(X), qreg=q, dims=d, plus=k, backend=v.cls(BACKENDS[be]))
        e = matrix_view(v, v.get(g, "unitary"), d)
        i, j = z3.Ints("i j")
        v.assume(conj(le(0, i), lt(i, d), le(0, j), lt(j, d)))
        want = ite(eq(i, v.eng.posdiv(add(j, k), d)[1]), 1, 0)
        v.ob("entry (i, j) is 1 for i = (j + plus) mod d, else 0", eq(e(i, j), want))

    return Task(f"XGate.unitary[{be}]", body, [X + ".__init__", X + ".unitary"], assume=[EXACT])


def tasks():
    return [unitary(b) for b in BACKENDS] + [gate_only(single(b, "open", "x")) for b in BACKENDS]

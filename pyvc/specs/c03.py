"""C03: ZGate.unitary is diagonal with exp(2 pi i j / d) at (j, j)."""
from .c11 import gate_only, single
from .common import *

Z = GATES["z"]


def unitary(be):
    def body(v):
        d, q = z3.Ints("d qreg")
        v.assume(d >= 2)
        v.cases = lambda m: [[be, num(m, d), None, 0, [], []]] if num(m, d) <= 60 else []
        g = v.call(v.cls(Z), qreg=q, dims=d, backend=v.cls(BACKENDS[be]))
        e = matrix_view(v, v.get(g, "unitary"), d)
        i, j = z3.Ints("i j")
        v.assume(conj(le(0, i), lt(i, d), le(0, j), lt(j, d)))
        w = v.eng.cis(mul(mul(mul(2, PI), real(j)), v.it.lib.inv(d)))
        v.ob("entry (i, j) is exp(2 pi i j / d) for i = j, else 0", eq(e(i, j), ite(eq(i, j), w, 0)))

    return Task(f"ZGate.unitary[{be}]", body, [Z + ".__init__", Z + ".unitary"], assume=[EXACT])


def tasks():
    return [unitary(b) for b in BACKENDS] + [gate_only(single(b, "open", "z")) for b in BACKENDS]

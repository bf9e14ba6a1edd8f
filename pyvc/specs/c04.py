"""C04: HGate.unitary has exp(2 pi i j k / d) / sqrt(d) at (j, k).  That this matrix is unitary is the
theorem dft_unitary of lemmas/Fourier.lean."""
from .c11 import gate_only, single
from .common import *

H = GATES["h"]


def unitary(be):
    def body(v):
        eng = v.eng
        d, q = z3.Ints("d qreg")
        v.assume(d >= 2)
        v.cases = lambda m: [[be, num(m, d), None, 0, [], []]] if num(m, d) <= 60 else []
        g = v.call(v.cls(H), qreg=q, dims=d, backend=v.cls(BACKENDS[be]))
        e = matrix_view(v, v.get(g, "unitary"), d)
        j, k = z3.Ints("j k")
        v.assume(conj(le(0, j), lt(j, d), le(0, k), lt(k, d)))
        w = eng.cis(mul(mul(mul(2, PI), real(mul(j, k))), v.it.lib.inv(d)))
        s = v.it.lib.inv(eng.sqrt(d))
        v.ob("entry (j, k) is exp(2 pi i j k / d) / sqrt(d)", eq(e(j, k), mul(s, w)))

    return Task(f"HGate.unitary[{be}]", body, [H + ".__init__", H + ".unitary"], assume=[EXACT])


def tasks():
    return [unitary(b) for b in BACKENDS] + [gate_only(single(b, "open", "h")) for b in BACKENDS]

"""C07: the operator of a custom gate is the user's matrix; a matrix that is not unitary or does not have the size of
its registers makes every use of the operator fail."""
from .c11 import gate2, gate_only, single
from .common import *

G = GATES["g"]
CLIENT = """
def client(A, U, qreg, dims, be):
    class Custom(A):
        def __init__(self, qreg, dims, backend):
            super().__init__(qreg, dims, backend)
            self._unitary = U
    g = Custom(qreg=qreg, dims=dims, backend=be)
    return g.unitary
"""


def unitary(name, regs, good):
    be = BACKENDS[name]

    def run(v):
        eng = v.eng
        p, q, d0, d1, r0 = z3.Ints("rows columns d0 d1 r0")
        v.assume(conj(le(1, p), le(1, q), le(2, d0), le(2, d1), le(0, r0)))
        re, im = (z3.Function(x, z3.IntSort(), z3.IntSort(), z3.RealSort()) for x in ("re_u", "im_u"))
        el = lambda i, j: CNum(re(lift(i), lift(j)), im(lift(i), lift(j)))
        u = ArrV((p, q), el, "c")
        qreg, dims, D = {1: (r0, d0, d0), 2: (ListV(Seq.of([r0, add(r0, 1)])), ListV(Seq.of([d0, d1])), mul(d0, d1)), 3: (ListV(Seq.of([r0])), ListV(Seq.of([d0])), d0)}[regs]
        ok = z3.Bool("is_unitary")

        def is_unitary(it, f, b):
            # the contract of is_unitary (C15): a function of the matrix, here the user's
            e = matrix_view(v, b["a"], p, q)
            i, j = z3.Ints("i1 j1")
            c = cplx(e(i, j))
            v.ob("the matrix tested is the user's", z3.Implies(z3.And(0 <= i, i < p, 0 <= j, j < q), lift(conj(eq(c.re, re(i, j)), eq(c.im, im(i, j))))))
            return ok

        v.it.contracts = {be + ".is_unitary": is_unitary}
        fits = conj(ok, eq(p, D), eq(q, D))
        v.assume(fits if good else nott(fits))
        mk = lambda: v.call(v.client(CLIENT), v.cls(G), u, qreg, dims, v.cls(be))
        if good:
            e = matrix_view(v, mk(), D)
            i, j = z3.Ints("i j")
            v.assume(conj(le(0, i), lt(i, D), le(0, j), lt(j, D)))
            c = cplx(e(i, j))
            v.ob("the entries of the user's matrix", conj(eq(c.re, re(i, j)), eq(c.im, im(i, j))))
        else:
            exc, r = v.raises(mk)
            v.ob("fails", exc is not None)

    return Task(f"ArbitaryGate.unitary[{name}, {('one register', 'two registers', 'a list of one register')[regs - 1]}, {'fits' if good else 'does not fit'}]", run, [G + ".__init__", G + ".unitary", be + ".matrix"], assume=[EXACT])


def tasks():
    calls = [gate_only(t) for b in BACKENDS for t in (single(b, "open", "gate"), gate2(b, "open"))]
    return [unitary(b, r, g) for b in BACKENDS for r in (1, 2, 3) for g in (True, False)] + calls

"""C05: entry (r', r) of CXGate.unitary is 1 exactly for r' = image of r, where the image replaces the target
digit of the numbers whose control digit is at the top."""
from .c11 import a_list, a_tuple, cx, gate_only
from .common import *

CX = GATES["cx"]


def unitary(be, forward):
    def body(v):
        eng = v.eng
        a, m, k = z3.Ints("first m plus")
        v.assume(conj(le(0, a), le(2, m)))
        D = Dims(v, m)
        D.digits()
        s, t = (0, sub(m, 1)) if forward else (sub(m, 1), 0)
        img = D.update("image", t, lambda r: MOD(D.DIG(lift(t), r) + k, D.d(lift(t))))
        r, q = z3.Ints("r r2")
        D.extra = []
        eng.on_first.append(search(D, lambda b: [img(b), b]))
        acting = TupleV([add(a, s), add(a, t)])
        v.cases = lambda mod: case(mod)
        g = v.call(v.cls(CX), qreg=D.list(), acting_on=acting, plus=k, backend=v.cls(BACKENDS[be]))
        e = matrix_view(v, v.get(g, "unitary"), D.total())
        v.assume(conj(le(0, r), lt(r, D.total()), le(0, q), lt(q, D.total())))
        top = eq(D.DIG(lift(s), r), sub(D.d(lift(s)), 1))
        im = ite(top, img(r), r)
        eng.fact(D.unique(q, r))
        v.ob("entry (r', r) is 1 for r' = image of r, else 0", eq(e(q, r), ite(eq(q, im), 1, 0)))

        def case(mod):
            mm = num(mod, m)
            if mm > 5:
                return None
            ds = [min(num(mod, D.d(z3.IntVal(x))), 9) for x in range(mm)]
            return None

    return Task(f"CXGate.unitary[{be}, control {'before' if forward else 'after'} target]", body, [CX + ".__init__", CX + ".unitary", CX + ".update", "qudiet.utils.linalg.ttg", "qudiet.utils.numpy.get_index"], assume=[EXACT])


def tasks():
    calls = [gate_only(cx(b, "open", f, form)) for f in (True, False) for b, form in (("numpy", a_list), ("sparse", a_tuple))]
    return [unitary(b, f) for b in BACKENDS for f in (True, False)] + calls

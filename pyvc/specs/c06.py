"""C06: entry (r', r) of the Toffoli matrix is 1 exactly for r' = image of r, where the image replaces the target
digit of the numbers whose control digits are all at the top; the gate spans the registers from the lowest to the
highest of its controls and its target."""
from .c11 import a_list, a_tuple, gate_only, toffoli
from .common import *

TOF = GATES["tof"]


def setup(v, controlled=True):
    eng = v.eng
    n, q, t, k, lo, hi, at = z3.Ints("n q t plus lo hi at")
    c = z3.Function("ctl", z3.IntSort(), z3.IntSort())
    eng.intseqs["ctl"] = c
    if not controlled:
        # the gate without controls, which acts on its target alone
        q, lo, hi = 0, t, add(t, 1)
    v.assume(conj(le(0, t), lt(t, n)))
    if controlled:
        v.assume(le(1, q))
        ends(v, n, q, t, lo, hi, c)
    eng.points += [lo, sub(hi, 1)]
    D = Dims(v, hi, lo=lo)
    D.digits()
    img = D.update("image", t, lambda r: MOD(D.DIG(t, r) + k, D.d(t)))
    eng.on_first.append(search(D, lambda b: [img(b), b]))
    ctl = ListV(Seq([Seg(q, lambda j: c(lift(j)), True)]) if controlled else Seq())
    dims = ListV(Seq([Seg(n, lambda j: D.d(lift(j)), True)]))
    return D, n, q, t, k, lo, hi, c, img, ctl, dims


def ends(v, n, q, t, lo, hi, c):
    eng, j = v.eng, z3.Int("j")
    # every control is a register other than the target; lo and hi are the lowest and the highest register in use
    eng.pc(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), z3.And(c(j) >= 0, c(j) < n, c(j) != t, lo <= c(j), c(j) < hi)), patterns=[c(j)]))
    a, b = z3.Ints("lo_at hi_at")
    v.assume(conj(le(lo, t), lt(t, hi), z3.Or(t == lo, z3.And(a >= 0, a < q, c(a) == lo)), z3.Or(t == hi - 1, z3.And(b >= 0, b < q, c(b) == hi - 1))))
    v.assume(conj(c(0) >= lo, le(add(lo, 2), hi), le(0, lo), le(hi, n)))


DM = "qudiet.circuit_library.standard_gates.toffoli_utility.toffoli_dm"


def entry(v, D, q, c, img):
    """the contract of the matrix: (row, column) -> entry"""
    eng = v.eng

    def top(r):
        return eng.forall(q, lambda j: eq(D.DIG(c(lift(j)), lift(r)), sub(D.d(c(lift(j))), 1)))

    im = lambda r: ite(top(r), img(lift(r)), r)
    return top, im, lambda a, b: ite(eq(a, im(b)), 1, 0)


def matrix(v, controlled=True):
    eng = v.eng
    D, n, q, t, k, lo, hi, c, img, ctl, dims = setup(v, controlled)
    top, im, ent = entry(v, D, q, c, img)
    r, s = z3.Ints("r r2")
    D.extra = []
    res = v.call(v.fn(DM), TupleV([ctl, t]), k, dims)
    m, a, b = v.items(res, 3)
    v.ob("lowest register", eq(a, lo))
    v.ob("highest register", eq(b, sub(hi, 1)))
    e = matrix_view(v, m, D.total())
    v.assume(conj(le(0, r), lt(r, D.total()), le(0, s), lt(s, D.total())))
    im = img(r) if eng.branch(top(r)) else r
    eng.fact(D.unique(s, r))
    v.ob("entry (r', r) is 1 for r' = image of r, else 0", eq(e(s, r), ite(eq(s, im), 1, 0)))


def unitary(be, controlled=True):
    be = BACKENDS[be]

    def body(v):
        eng = v.eng
        D, n, q, t, k, lo, hi, c, img, ctl, dims = setup(v, controlled)
        top, im, ent = entry(v, D, q, c, img)
        T = D.total()

        def dm(it, f, b):
            # the contract of toffoli_dm
            cs, tt = v.items(b["qargs"], 2)
            for what, x, y in (("the controls", cs, ctl), ("the target", tt, t), ("the increment", b["plus"], k), ("the dimensions", b["dims"], dims)):
                v.ob(f"toffoli_dm gets {what}", v.same(x, y))
            return TupleV([ArrV((T, T), ent, "f"), lo, sub(hi, 1)])

        def is_unitary(it, f, b):
            # the contract of is_unitary (C15) and lemma permutation_unitary (lemmas/Fourier.lean)
            e = matrix_view(v, b["a"], T)
            r, s, x = z3.Ints("r1 r2 x1")
            ok = lambda *xs: conj(*[conj(le(0, y), lt(y, T)) for y in xs])

            def perm():
                v.assume(ok(r, s, x))
                v.ob("the matrix tested is that of toffoli_dm", eq(e(x, r), ent(x, r)))
                tr, ts = eng.branch(top(r)), eng.branch(top(s))
                u, w = (img(r) if tr else r), (img(s) if ts else s)
                v.assume(eq(u, w))
                eng.fact(D.unique(r, s))
                K = D.K(lift(r), lift(s))
                for c_ in (K, t):
                    eng.fact(D.MARK(D.DIG(c_, lift(u))))
                    eng.fact(D.MARK(D.DIG(c_, lift(w))))
                    for x_ in (r, s):
                        eng.fact(D.update_at["image"](x_, c_))
                eng.fact(mod_cancel(D.DIG(t, r), D.DIG(t, s), k, D.d(t)))
                v.ob("the image of the numbers is injective", eq(r, s))

            eng.explore(perm)
            eng.trusted.add("lemma permutation_unitary (lemmas/Fourier.lean)")
            return True

        v.it.contracts = {DM: dm, be + ".is_unitary": is_unitary}
        g = v.call(v.cls(TOF), qreg=TupleV([ctl, t]), dims=dims, plus=k, backend=v.cls(be))
        v.ob("acts on the registers from the lowest to the highest in use", v.same(v.get(g, "_acting_on"), ListV(Seq([Seg(sub(hi, lo), lambda j: add(lo, j), True)]))))
        v.ob("keeps the dimensions of these registers", v.same(v.get(g, "dims"), ListV(D.seq())))
        e = matrix_view(v, v.get(g, "unitary"), T)
        r, s = z3.Ints("r r2")
        v.assume(conj(le(0, r), lt(r, T), le(0, s), lt(s, T)))
        v.ob("the operator is the matrix of toffoli_dm", eq(e(s, r), ent(s, r)))

    return Task(f"Toffoli.unitary[{be.rsplit('.', 1)[1]}{'' if controlled else ', no control'}]", body, [TOF + ".__init__", "qudiet.circuit_library.ArbitaryGate.unitary", be + ".matrix"], assume=[EXACT])


def tasks():
    fns = [DM, "qudiet.circuit_library.standard_gates.toffoli_utility.generate_combinations"]
    out = [Task("toffoli_dm" + w, (lambda c: lambda v: matrix(v, c))(c), fns, assume=[EXACT]) for c, w in ((True, ""), (False, "[no control]"))]
    calls = [gate_only(toffoli(b, "open", form, c)) for c in (True, False) for b, form in (("numpy", a_list), ("sparse", a_tuple))]
    return out + [unitary(b, c) for c in (True, False) for b in BACKENDS] + calls

"""C14: Output.__call__ gives, for the basis states in order, one entry per nonzero amplitude: its label and its value."""
from ..loops import same_value
from .common import *

OUT = "qudiet.core.output."
TO = "qudiet.utils.numpy.Nbase_to_bin"


def output(sp, kind, method):
    def run(v):
        eng = v.eng
        n = z3.Int("n")
        v.assume(le(1, n))
        D = Dims(v, n)
        N = D.total()
        re, im = (z3.Function(x, z3.IntSort(), z3.RealSort()) for x in ("re_amp", "im_amp"))
        amp = lambda j: CNum(re(lift(j)), im(lift(j)))
        state = ArrV((N, 1), lambda i, j: amp(i), "c", sp)
        dims = D.list()

        digit = z3.Function("digit", z3.IntSort(), z3.IntSort(), z3.IntSort())
        digits = lambda r: Seq([Seg(n, lambda i: digit(lift(i), lift(r)), True)])

        def to_digits(it, f, b):
            # the contract of Nbase_to_bin (C01)
            v.ob("labels are made for basis states", conj(le(0, b["_repr"]), lt(b["_repr"], N)))
            v.ob("labels are made with the dimensions of the registers", v.same(b["base"], dims))
            return ListV(digits(b["_repr"]))

        v.it.contracts[TO] = to_digits
        T, M = v.cls(OUT + "OutputType"), v.cls(OUT + "OutputMethod")
        o = v.call(v.cls(OUT + "Output"), dims, v.get(T, kind), v.get(M, method))
        r = v.it.force(v.call(o, state))
        v.ob("a list", isinstance(r, ListV))
        segs = r.seq.segs
        # entries for j = 0, 1, .. N-1, those with cond(j) only
        v.ob("entries for the basis states in order", len(segs) == 1 and segs[0].cond is not None and eng.valid(eq(segs[0].n, N)))
        if len(segs) != 1 or segs[0].cond is None:
            raise Unsupported("form of the output")
        g = segs[0]
        j = z3.Int("j")
        v.assume(conj(le(0, j), lt(j, N)))
        nz = nott(conj(eq(re(j), 0), eq(im(j), 0)))
        v.ob("an entry exactly for a nonzero amplitude", eq(g.cond(j), nz))
        if not eng.branch(nz):
            return
        e = v.it.force(g.get(j))
        v.ob("the entry is a dictionary", isinstance(e, DictV))
        items = v.it.lib.seq_of(v.call(v.get(e, "items")))
        c = items.concrete()
        v.ob("with one label", c is not None and len(c) == 1)
        k, x = v.items(c[0], 2)
        if kind == "print":
            want = StrT(["|", ("join", "", Seq([Seg(n, lambda i: StrT([("str", digit(lift(i), j))]), False)])), ">"])
        else:
            want = TupleV(digits(j))
        v.ob("the label has the digits of the basis state", same_value(eng, v.it.force(k), want))
        if method == "amplitude":
            z = cplx(x)
            v.ob("the value is the amplitude", conj(eq(z.re, re(j)), eq(z.im, im(j))))
        else:
            v.ob("the value is a real number", not isinstance(x, CNum))
            v.ob("the value is the squared modulus", eq(arith(x), add(mul(re(j), re(j)), mul(im(j), im(j)))))

    return Task(f"Output[{'sparse' if sp else 'dense'} state, {kind}, {method}]", run, [OUT + "Output.__init__", OUT + "Output.__call__"], assume=[EXACT])


def tasks():
    return [output(sp, k, m) for sp in (False, True) for k in ("print", "state") for m in ("amplitude", "probability")]

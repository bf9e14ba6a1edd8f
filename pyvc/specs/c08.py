"""C08: the operator of a layer is unitary(0) (x) unitary(1) (x) ... (x) unitary(m-1) for its gates in list order, and
the operator of an idle gate is the identity of its register."""
from .circ import *


def layer(name):
    be = BACKENDS[name]

    def run(v):
        eng, it = v.eng, v.it
        m, j = z3.Ints("m j")
        v.assume(conj(le(1, m), le(0, j), lt(j, m)))
        G = Gates(v)
        kron = []

        def contract(it, f, b):
            # the contract of the backend's kron (C15)
            return MatV("kron", (b["a"], b["b"]))

        v.it.contracts = {be + ".kron": contract}
        gs = ListV(Seq([Seg(m, lambda k: G.get(k))]))
        r = v.call(v.client("def client(M, gs, be):\n    return M('m', *gs).exec(be)\n"), v.cls(MOMENT), gs, v.cls(be))
        s = atoms(v, it.force(r), "kron")
        v.ob("as many factors as gates", eq(s.length(), m))
        v.ob("factor j is the operator of gate j", is_atom(v, it.at(s, j), "unitary of gate", j))

    return Task(f"Moment.exec[{name}]", run, [MOMENT + ".__init__", MOMENT + ".exec", MOMENT + "._Moment__populate_list", MOMENT + "._Moment__push_list"])


def idle(name):
    def run(v):
        d, q = z3.Ints("d qreg")
        v.assume(d >= 2)
        g = v.call(v.cls(GATES["i"]), qreg=q, dims=d, backend=v.cls(BACKENDS[name]))
        e = matrix_view(v, v.get(g, "unitary"), d)
        i, j = z3.Ints("i j")
        v.assume(conj(le(0, i), lt(i, d), le(0, j), lt(j, d)))
        v.ob("1 on the diagonal, 0 elsewhere", eq(e(i, j), ite(eq(i, j), 1, 0)))

    return Task(f"IGate.unitary[{name}]", run, [GATES["i"] + ".__init__", GATES["i"] + ".unitary", BACKENDS[name] + ".eye"])


def tasks():
    return [f(b) for f in (layer, idle) for b in BACKENDS]

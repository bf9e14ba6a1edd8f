"""C10: exec of a measured flow is layer(m-2) * ... * layer(1) * layer(0) for its layers in time order without the
measurement layer; run passes it to the output, changes no layer and gives the same again."""
from .circ import *

LAYER = MOMENT + ".exec"


def flow(v, be, measured):
    """a flow of m >= 2 layers, the last one is the measurement"""
    m, n = z3.Ints("layers registers")
    v.assume(conj(le(2, m), le(1, n)))
    L = Layers(v)
    layers = ListV(Seq([Seg(m, lambda k: L.get(k))]))

    def exec_(it, f, b):
        # the contract of Moment.exec (C08)
        s = b["self"]
        v.ob("layers are computed on the backend of the run", b["backend"] is v.cls(be))
        if isinstance(s, SymObj) and s.schema is L:
            return MatV("atom", ("layer", s.key))
        return NotImplemented

    v.it.contracts[LAYER] = exec_
    # the contract of the backend's dot (C15)
    v.it.contracts[be + ".dot"] = lambda it, f, b: MatV("dot", (b["a"], b["b"]))
    if measured:
        flags = Seg(n, lambda j: 1, True)
    else:
        mc = z3.Function("measured", I, I)
        x = z3.Int("unmeasured")
        j = z3.Int("j")
        v.assume(conj(le(0, x), lt(x, n), eq(mc(x), 0)))
        flags = Seg(n, lambda j: ite(eq(mc(lift(j)), 0), 0, 1), True)
    f = v.call(v.client("def client(F, layers, flags):\n    f = F()\n    f._opflow_list = layers\n    f._measurement_count = flags\n    return f\n"), v.cls(FLOW), layers, ListV(Seq([flags])))
    return f, m, n, L


def product(v, r, m, what=""):
    r = v.it.force(r)
    s = atoms(v, r, "dot")
    v.ob(f"{what}one factor per layer before the measurement", eq(s.length(), sub(m, 1)))
    j = z3.Int("j")
    v.assume(conj(le(0, j), lt(j, sub(m, 1))))
    v.ob(f"{what}the factors are the operators of the layers, the first layer rightmost", is_atom(v, v.it.at(s, j), "layer", sub(sub(m, 2), j)))


def unchanged(v, f, m, L, flags=True):
    ls = seq_of(v, v.get(f, "_opflow_list"))
    v.ob("the number of layers is unchanged", eq(ls.length(), m))
    j = z3.Int("j2")
    v.assume(conj(le(0, j), lt(j, m)))
    x = v.it.force(v.it.at(ls, j))
    v.ob("the layers are unchanged", isinstance(x, SymObj) and x.schema is L and not x.fields and eq(x.key, j))


def exec_(name):
    be = BACKENDS[name]

    def run(v):
        f, m, n, L = flow(v, be, True)
        r = v.call(v.get(f, "exec"), v.cls(be))
        product(v, r, m)
        unchanged(v, f, m, L)

    return Task(f"OperatorFlow.exec[{name}]", run, [FLOW + ".exec", FLOW + ".__init__"])


def run_(name):
    be = BACKENDS[name]

    def run(v):
        f, m, n, L = flow(v, be, True)
        got = []

        def output(it, g, b):
            got.append(b["result"])
            return Opaque("output", (len(got),))

        v.it.contracts["qudiet.core.output.Output.__call__"] = output
        c = v.call(v.client("def client(QC, be, f):\n    c = QC([2, 2], backend=be)\n    c.op_flow = f\n    return c\n"), v.cls(QC), v.cls(be), f)
        for k in ("first run: ", "second run: "):
            r = v.it.force(v.call(v.get(c, "run")))
            v.ob(f"{k}one state is put out", len(got) == 1)
            v.ob(f"{k}the result is that output", isinstance(r, Opaque) and r.tag == "output")
            product(v, got.pop(), m, k)
        unchanged(v, f, m, L)

    return Task(f"QuantumCircuit.run[{name}]", run, [QC + ".run", FLOW + ".exec"])


def tasks():
    return [f(b) for f in (exec_, run_) for b in BACKENDS]

"""C19: the numbers get_circuit_info and get_circuit_config report, for a circuit of any number of layers of any gates."""
from .circ import *

COUNTED = {"x": "x", "h": "h", "z": "z", "cx": "cx", "toffoli": "tof", "arbitary": ("g1", "g2")}


class Filled(Layers):
    """layers of which layer k holds the gates gate(k, 0) .. gate(k, size(k) - 1)"""

    def __init__(self, v, G):
        super().__init__(v, "filled")
        self.G = G
        self.size = z3.Function("size", I, I)
        self.gate = z3.Function("gate_at", I, I, I)

    def list(self, k):
        g = lambda i: self.G.get(self.gate(lift(k), lift(i)))
        return ListV(Seq([Seg(self.size(lift(k)), g)]))

    def getattr(self, it, o, name):
        if name == "_moment_list":
            return self.list(o.key)
        return super().getattr(it, o, name)


def circuit(v, measured, pair=False, make=None, init=None):
    eng = v.eng
    n, m = z3.Ints("n layers")
    v.assume(conj(le(1, n), le(0, m)))
    G = make(n) if make else Gates(v)
    L = Filled(v, G)
    g, k = z3.Ints("g k")
    # layers of gates hold no measurement and no initial state
    eng.fact(z3.ForAll([g], z3.And(G.kind(g) >= 0, G.kind(g) <= K["g2"]), patterns=[G.kind(g)]))
    eng.fact(z3.ForAll([k], L.size(k) >= 1, patterns=[L.size(k)]))
    d = z3.Function("d", I, I)
    eng.intseqs["d"] = d
    eng.fact(z3.ForAll([k], d(k) >= 2, patterns=[d(k)]))
    if pair:
        dim = z3.Int("dim")
        v.assume(le(2, dim))
        regs = TupleV([n, dim])
    else:
        regs = ListV(Seq([Seg(n, lambda j: d(lift(j)), True)]))
    layers = ListV(Seq([Seg(m, lambda k: L.get(k))]))
    c = v.call(v.client("""
        def client(QC, be, regs, layers, init):
            c = QC(regs, init_states=init, backend=be)
            c.op_flow._opflow_list = c.op_flow._opflow_list + layers
            return c
    """), v.cls(QC), v.cls(BACKENDS["sparse"]), regs, layers, init(n, d) if init else None)
    if measured:
        v.call(v.get(c, "measure_all"))
    return c, n, m, L


def info(measured, pair):
    def run(v):
        eng = v.eng
        c, n, m, L = circuit(v, measured, pair)
        r = v.call(v.get(c, "get_circuit_info"))
        get = lambda o, k: v.it.force(v.it.getitem(o, k))
        v.ob("width: the number of registers", eq(get(r, "qudit"), n))
        v.ob("depth: the number of layers of gates", eq(get(r, "depth"), m))
        d = get(r, "details")
        v.ob("the counts are a dictionary", isinstance(d, DictV))
        total = 0
        known = {}
        for name, kinds in COUNTED.items():
            kinds = kinds if isinstance(kinds, tuple) else (kinds,)
            want = eng.sum(m, lambda k: eng.sum(L.size(lift(k)), lambda i: ite(disj(*[eq(L.G.kind(L.gate(lift(k), lift(i))), K[x]) for x in kinds]), 1, 0)))
            has = v.it.lib.contains(d, name)
            has = eng.branch(has) if not isinstance(has, bool) else has
            v.ob(f"{name}: counted exactly if it occurs", eq(want, 0) if not has else neq(want, 0))
            if has:
                v.ob(f"{name}: the count is the number of such gates", eq(get(d, name), want))
                total = add(total, want)
        v.ob("the total is the sum of the counts", eq(get(r, "gate_count"), total))
        ks = v.it.lib.seq_of(v.call(v.get(d, "keys"))).concrete()
        v.ob("no other kind", ks is not None and set(ks) <= set(COUNTED))

    return Task(f"get_circuit_info[{'measured' if measured else 'open'}, {'pair' if pair else 'list'}]", run, [QC + ".get_circuit_info"])


def config(measured, pair):
    def run(v):
        c, n, m, L = circuit(v, measured, pair)
        r = v.call(v.get(c, "get_circuit_config"))
        get = lambda o, k: v.it.force(v.it.getitem(o, k))
        v.ob("width: the number of registers", eq(get(r, "width"), n))
        v.ob("depth: the number of layers of gates", eq(get(r, "depth"), m))

    return Task(f"get_circuit_config[{'measured' if measured else 'open'}, {'pair' if pair else 'list'}]", run, [QC + ".get_circuit_config"])


def tasks():
    return [f(a, b) for f in (info, config) for a in (True, False) for b in (True, False)]

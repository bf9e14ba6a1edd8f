"""C13: a new circuit holds one layer: InitState(d(j), level(j)) for every register j, in order; its column has the
single 1 at its level.  Bad levels, dimensions and register arguments are refused with a ValueError."""
from .common import *

QC = "qudiet.core.quantum_circuit.QuantumCircuit"
INIT = "qudiet.core.init_states.InitState"
FNS = [QC + ".__init__", QC + "._QuantumCircuit__initialize_states", INIT + ".__init__", INIT + ".unitary", "qudiet.core.moment.Moment.__init__", "qudiet.core.operator_flow.OperatorFlow.populate_opflow"]


def initial(v, c, n, dim, level):
    """obligations on a new circuit c"""
    eng, it = v.eng, v.it
    layers = v.get(v.get(c, "op_flow"), "_opflow_list")
    (m,) = v.items(layers, 1)
    gs = seq_of(v, v.get(m, "_moment_list"))
    j = z3.Int("j")
    v.assume(conj(le(0, j), lt(j, n)))
    v.ob("one initial state per register", eq(gs.length(), n))
    g = it.force(it.at(gs, j))
    v.ob("an InitState", isinstance(g, ObjV) and g.cls.name == "InitState")
    v.ob("its register", v.same(v.get(g, "qreg"), j))
    v.ob("its dimension", v.same(v.get(g, "dim"), dim(j)))
    v.ob("its level", v.same(v.get(g, "state"), level(j)))
    e = matrix_view(v, v.get(g, "unitary"), dim(j), 1)
    i = z3.Int("i")
    v.assume(conj(le(0, i), lt(i, dim(j))))
    v.ob("its column has its 1 at its level, 0 elsewhere", eq(e(i, 0), ite(eq(i, level(j)), 1, 0)))
    v.ob("number of registers", v.same(v.get(c, "_reg_length"), n))
    k = z3.Int("k")
    v.assume(conj(le(0, k), lt(k, n)))
    for f in ("_reg_dims", "qregs"):
        ds = seq_of(v, v.get(c, f))
        v.ob(f"as many entries in {f}", eq(ds.length(), n))
        v.ob(f"{f} are the dimensions", eq(it.at(ds, k), dim(k)))


def levels(v, n):
    """the level argument: None or a list of m <= n whole numbers"""
    eng = v.eng
    m = z3.Int("m")
    s = uf("s", z3.IntSort(), z3.IntSort())
    eng.intseqs["s"] = s
    v.assume(conj(le(0, m), le(m, n)))
    given = eng.branch(z3.Bool("levels_given"))
    arg = ListV(Seq([Seg(m, lambda j: s(lift(j)), True)])) if given else None
    return arg, (m if given else 0), s


def body(be, pair, good):
    def run(v):
        eng = v.eng
        n, d0 = z3.Ints("n d0")
        v.assume(le(1, n))
        d = uf("d", z3.IntSort(), z3.IntSort())
        eng.intseqs["d"] = d
        dim = (lambda j: d0) if pair else (lambda j: d(lift(j)))
        arg, m, s = levels(v, n)
        level = lambda j: ite(lt(j, m), s(lift(j)), 0)
        fine = eng.forall(n, lambda j: conj(le(2, dim(j)), le(0, level(j)), lt(level(j), dim(j))))
        v.assume(fine if good else nott(fine))
        qregs = TupleV([n, d0]) if pair else ListV(Seq([Seg(n, lambda j: d(lift(j)), True)]))
        mk = lambda: v.call(v.cls(QC), qregs, init_states=arg, backend=v.cls(BACKENDS[be]))
        if good:
            initial(v, mk(), n, dim, level)
        else:
            exc, r = v.raises(mk)
            v.ob("refused with a ValueError", exc == "ValueError")

    return Task(f"QuantumCircuit[{'pair' if pair else 'list'}, {be}, {'good' if good else 'bad'} arguments]", run, FNS, assume=[EXACT])


def kind(what, val):
    def run(v):
        exc, r = v.raises(lambda: v.call(v.cls(QC), val(v)))
        v.ob("refused with a ValueError", exc == "ValueError")

    return Task(f"QuantumCircuit[{what}]", run, FNS)


def tasks():
    kinds = [kind("a number", lambda v: v.int("q")), kind("a text", lambda v: "2"), kind("None", lambda v: None), kind("a range", lambda v: RangeV(2, 4))]
    return [body(b, p, g) for b in BACKENDS for p in (False, True) for g in (True, False)] + kinds

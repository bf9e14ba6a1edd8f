"""C16: a run without a measurement of every register raises; measure_all closes the circuit; after that every gate call
returns False and changes nothing, nor does a second measurement."""
from . import c10, c11
from .circ import *


def unmeasured(name):
    be = BACKENDS[name]

    def run(v):
        f, m, n, L = c10.flow(v, be, False)
        exc, r = v.raises(lambda: v.call(v.get(f, "exec"), v.cls(be)))
        v.ob("the run of a flow with an unmeasured register fails", exc is not None)
        del v.it.contracts[be + ".dot"]

    return Task(f"exec without measurement[{name}]", run, [FLOW + ".exec"])


def run_open(state):
    def run(v):
        C = Circuit(v, BACKENDS["sparse"], state)
        exc, r = v.raises(lambda: v.call(v.get(C.c, "run")))
        v.ob("the run of a circuit without a measurement fails", exc is not None)

    return Task(f"run of a circuit that is {state}", run, [QC + ".run", FLOW + ".exec"])


def measure(state):
    def run(v):
        C = Circuit(v, BACKENDS["sparse"], state)
        v.call(v.get(C.c, "measure_all"))
        if state == "closed":
            C.unchanged("a second measurement")
            return
        now = C.earlier_kept("measure_all")
        C.registers_kept("measure_all")
        n0 = C.layers0.length()
        v.ob("one more layer", eq(now.length(), add(n0, 1)))
        v.ob("the layer before stays in its place", v.it.at(now, sub(n0, 1)) is C.last0)
        C.gates_kept("the layer before", v.get(C.last0, "_moment_list"))
        gs = seq_of(v, v.get(v.it.at(now, n0), "_moment_list"))
        v.ob("one measurement per register", eq(gs.length(), C.n))
        j = z3.Int("j_m")
        v.assume(conj(le(0, j), lt(j, C.n)))
        g = v.it.force(v.it.at(gs, j))
        ok = isinstance(g, ObjV) and g.cls is v.cls(GATES["m"])
        v.ob("all of them measurements", ok)
        if ok:
            v.ob("in register order", v.same(v.get(g, "acting_on"), j))
        fl = seq_of(v, v.get(v.get(C.c, "op_flow"), "_measurement_count"))
        v.ob("every register counts as measured", conj(eq(fl.length(), C.n), eq(v.it.at(fl, j), 1)))

    return Task(f"measure_all on a circuit that is {state}", run, [QC + ".measure_all", FLOW + ".populate_opflow", FLOW + ".populate_opflow_test", FLOW + "._OperatorFlow__detect_measurement_and_add_count"])


def closed(what, ctx):
    def run(v):
        C = Circuit(v, BACKENDS["sparse"], "closed")
        r = v.call(*ctx(v, C))
        v.ob("refused by returning False", v.same(r, False))
        C.unchanged("after the call")

    return Task(f"{what} after the measurement", run, [QC + "." + what.split(" ")[0], QC + "._QuantumCircuit__add_moment_to_opflow", FLOW + ".populate_opflow"])


def single(name):
    def ctx(v, C):
        q, plus = z3.Ints("q plus")
        v.assume(conj(le(0, q), lt(q, C.n)))
        v.eng.split_points.append(q)
        f = v.get(C.c, name)
        if name == "gate":
            return f, v.call(v.client("def client(A):\n    class Custom(A):\n        pass\n    return Custom\n"), v.cls(GATES["g"])), q
        return (f, q, C.d(q), plus) if name == "x" else (f, q)

    return ctx


def cx(forward):
    def ctx(v, C):
        lo, hi, plus = z3.Ints("lo hi plus")
        c11.span(v, C, lo, hi)
        return v.get(C.c, "cx"), c11.a_list([lo, hi] if forward else [hi, lo]), plus

    return ctx


def gate2(v, C):
    lo = z3.Int("lo")
    c11.span(v, C, lo, add(lo, 1))
    A = v.call(v.client("def client(A):\n    class Custom(A):\n        pass\n    return Custom\n"), v.cls(GATES["g"]))
    return v.get(C.c, "gate"), A, c11.a_list([lo, add(lo, 1)])


def toffoli(v, C):
    lo, hi, t, q, plus = z3.Ints("lo hi t q plus")
    c11.span(v, C, lo, hi)
    return v.get(C.c, "toffoli"), TupleV([c11.controls(v, lo, hi, t, q), t]), plus


def tasks():
    out = [unmeasured(b) for b in BACKENDS] + [run_open("fresh"), run_open("open")] + [measure(s) for s in ("fresh", "open", "closed")]
    out += [closed(k, single(k)) for k in ("x", "h", "z", "gate")] + [closed(f"cx control {'before' if f else 'after'} target", cx(f)) for f in (True, False)]
    return out + [closed("gate on two registers", gate2), closed("toffoli", toffoli)]

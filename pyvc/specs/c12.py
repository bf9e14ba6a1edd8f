"""C12: an illegal placement raises a ValueError and leaves the circuit as it was."""
from .circ import *


def task(be, state, what, ctx):
    def run(v):
        C = Circuit(v, BACKENDS[be], state)
        thunk, bad = ctx(v, C)
        v.assume(bad)
        exc, r = v.raises(thunk)
        v.ob("refused with a ValueError", exc == "ValueError")
        C.unchanged("after the call")

    return Task(f"{what} on a circuit that is {state}[{be}]", run, [QC + "." + what.split(" ")[0], QC + "._QuantumCircuit__validate_gate_inputs"])


def single(name, *extra, custom=False):
    def ctx(v, C):
        q, plus, dm = z3.Ints("q plus dims")
        given = v.eng.branch(z3.Bool("dims_given"))
        kw = {"dims": dm} if given else {}
        if given:
            v.assume(le(1, dm))
        if name == "x":
            kw["plus"] = plus
        bad = disj(lt(q, 0), le(C.n, q), conj(given, lt(C.d(q), dm)))
        args = [v.client("def client(qreg, dims, backend):\n    return None\n")] if name == "gate" else []
        return (lambda: v.call(v.get(C.c, name), *args, q, **kw)), bad

    return ctx


def cx(form):
    def ctx(v, C):
        a, b, plus = z3.Ints("a b plus")
        bad = disj(lt(a, 0), le(C.n, a), lt(b, 0), le(C.n, b), eq(a, b))
        return (lambda: v.call(v.get(C.c, "cx"), form([a, b]), plus)), bad

    return ctx


def toffoli(v, C):
    q, t, plus = z3.Ints("q t plus")
    c = z3.Function("ctl", I, I)
    v.eng.intseqs["ctl"] = c
    v.assume(le(1, q))
    ctl = ListV(Seq([Seg(q, lambda j: c(lift(j)), True)]))
    bad = disj(lt(t, 0), le(C.n, t), nott(v.eng.forall(q, lambda j: conj(le(0, c(lift(j))), lt(c(lift(j)), C.n)))))
    return (lambda: v.call(v.get(C.c, "toffoli"), TupleV([ctl, t]), plus)), bad


def gate2(v, C):
    a, b = z3.Ints("a b")
    bad = disj(lt(a, 0), le(C.n, a), lt(b, 0), le(C.n, b))
    g = v.client("def client(qreg, dims, backend):\n    return None\n")
    return (lambda: v.call(v.get(C.c, "gate"), g, ListV(Seq.of([a, b])))), bad


def tasks():
    calls = [(k, single(k)) for k in ("h", "x", "z", "gate")]
    calls += [("cx with a list", cx(lambda x: ListV(Seq.of(x)))), ("cx with a tuple", cx(TupleV)), ("toffoli", toffoli), ("gate with two registers", gate2)]
    # the backend only goes into the gate
    return [task("sparse", s, w, c) for w, c in calls for s in ("fresh", "open", "closed")]

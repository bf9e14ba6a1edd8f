"""C22: frame and ownership.  What is built or called writes only to objects of its own circuit or to new ones, keeps no list of the caller, and
no layer, gate list or register list of a circuit is reachable from another one.  Every operation starts from a circuit in an arbitrary state
that is separate from the other circuit and from the caller's lists, and leaves it so."""
from . import c19
from .circ import *
from .c11 import a_list, a_tuple, controls, span

OWNERS = (QC, FLOW, MOMENT)


class Heap:
    """what exists before the operation"""

    def __init__(self, v):
        self.v = v
        # another circuit; whatever is set up at the first use of a class or a module exists from here on
        self.other = v.call(v.client(OTHER), v.cls(QC), v.cls(GATES["g"]), v.cls(BACKENDS["sparse"]))

    def start(self, given=None):
        if given is not None:
            self.given, self.before = given, [(l, l.seq) for l in given]
        self.taken = self.reach(self.other, False)
        self.taken_all = self.reach(self.other, True)
        self.mark, self.aid = len(self.v.eng.journal), Mut._n

    def reach(self, x, gates):
        """the mutable objects that can be reached from x, by identity; without those inside of gates, unless asked for"""
        v, eng = self.v, self.v.eng
        owners = [v.cls(c) for c in OWNERS]
        seen, out = set(), {}

        def go(x):
            x = v.it.force(x)
            if isinstance(x, (list, tuple)):
                for y in x:
                    go(y)
                return
            if not isinstance(x, (Mut, TupleV, BoundV)) or id(x) in seen:
                return
            seen.add(id(x))
            if isinstance(x, Mut):
                out[id(x)] = x
            if isinstance(x, ObjV):
                if gates or x.cls in owners:
                    for y in x.fields.values():
                        go(y)
            elif isinstance(x, SymObj):
                for y in x.fields.values():
                    go(y)
            elif isinstance(x, BoundV):
                go(x.self_)
            elif isinstance(x, DictV):
                for e in x.entries:
                    if e[0] != "c":
                        raise Unsupported("dictionary of unknown content in a circuit")
                    go(e[1])
                    go(e[2])
            elif isinstance(x, (ListV, TupleV)):
                for s in x.seq.segs:
                    if s.num:
                        continue
                    if isinstance(s.n, int) and s.cond is None:
                        for j in range(s.n):
                            go(s.get(j))
                        continue
                    j = z3.Int(eng.name("any"))

                    def element():
                        eng.pc(conj(le(0, j), lt(j, s.n)))
                        if s.cond is not None:
                            eng.pc(s.cond(j))
                        go(s.get(j))

                    eng.explore(element)

        go(x)
        return out

    def check(self, c, own, what="after it"):
        """own: what was reachable from the circuit before"""
        v = self.v
        written = {}
        for o, a, old in v.eng.journal[self.mark :]:
            if o.aid <= self.aid and not isinstance(o, EnvV):
                written[id(o)] = o
        v.ob(f"{what}: no list of the caller was written", not any(id(l) in written for l in self.given))
        v.ob(f"{what}: nothing of another circuit was written", not any(i in self.taken_all for i in written))
        now = self.reach(c, True)
        v.ob(f"{what}: the circuit keeps no list of the caller", not any(id(l) in now for l in self.given))
        parts = self.reach(c, False)
        v.ob(f"{what}: the circuit has nothing in common with another one", not any(i in self.taken for i in parts))
        # new parts of the circuit come from the operation itself
        v.ob(f"{what}: nothing that existed before became a part of the circuit", all(i in own or o.aid > self.aid for i, o in parts.items()))


OTHER = """
def client(QC, A, be):
    class Custom(A):
        pass
    c = QC([2, 3, 2], init_states=[1], backend=be)
    d = QC((2, 3), backend=be)
    for x in (c,):
        x.x(0)
        x.z(1, dims=3)
        x.h(2)
        x.gate(Custom, 0)
        x.gate(Custom, [0, 1])
        x.cx((0, 1), 2)
        x.toffoli(([0, 1], 2))
        x.measure_all()
        x.get_circuit_config()
        x.get_circuit_info()
    return [c, d]
"""


def build(pair):
    def run(v):
        eng = v.eng
        h = Heap(v)
        n, m, d0 = z3.Ints("n m d0")
        d, s = uf("d", I, I), uf("s", I, I)
        eng.intseqs["d"], eng.intseqs["s"] = d, s
        v.assume(conj(le(1, n), le(0, m), le(m, n), le(2, d0)))
        j = z3.Int("j")
        eng.fact(z3.ForAll([j], d(j) >= 2, patterns=[d(j)]))
        eng.fact(z3.ForAll([j], z3.And(s(j) >= 0, s(j) < (d0 if pair else d(j))), patterns=[s(j)]))
        levels = ListV(Seq([Seg(m, lambda j: s(lift(j)), True)]))
        regs = TupleV([n, d0]) if pair else ListV(Seq([Seg(n, lambda j: d(lift(j)), True)]))
        given = [levels] + ([] if pair else [regs])
        h.start(given)
        mk = lambda: v.call(v.cls(QC), regs, init_states=levels, backend=v.cls(BACKENDS["sparse"]))
        c = mk()
        h.check(c, {}, "a new circuit")
        # a second one from the same lists
        h.other = TupleV([h.other, c])
        h.start()
        h.check(mk(), {}, "a second circuit from the same lists")
        for l, q in h.before:
            v.ob("the lists of the caller are as before", l.seq is q)

    return Task(f"building circuits[{'pair' if pair else 'list'}]", run, [QC + ".__init__", QC + "._QuantumCircuit__initialize_states", FLOW + ".__init__", FLOW + ".populate_opflow", MOMENT + ".__init__", INIT + ".__init__", "qudiet.core.output.Output.__init__"])


def op(what, state, fns, setup):
    def run(v):
        h = Heap(v)
        C = Circuit(v, BACKENDS["sparse"], state)
        given, thunk = setup(v, C)
        h.start(given + [C.given])
        own = h.reach(C.c, False)
        v.ob("before it: the circuits are separate", not any(i in h.taken for i in own))
        thunk()
        h.check(C.c, own)
        for l, q in h.before:
            v.ob("the lists of the caller are as before", l.seq is q)

    return Task(f"{what} on a circuit that is {state}", run, fns)


def one(name):
    def setup(v, C):
        q, plus = z3.Ints("q plus")
        v.assume(conj(le(0, q), lt(q, C.n)))
        v.eng.split_points.append(q)
        args = []
        if name == "gate":
            args = [v.call(v.client(CUSTOM), v.cls(GATES["g"]))]
        kw = {"plus": plus} if name == "x" else {}
        return [], lambda: v.call(v.get(C.c, name), *args, q, **kw)

    return setup


CUSTOM = "def client(A):\n    class Custom(A):\n        pass\n    return Custom\n"


def two(form):
    def setup(v, C):
        lo, hi, plus = z3.Ints("lo hi plus")
        span(v, C, lo, hi)
        g = form([lo, hi])
        return ([g] if isinstance(g, ListV) else []), lambda: v.call(v.get(C.c, "cx"), g, plus)

    return setup


def gate2(v, C):
    lo = z3.Int("lo")
    span(v, C, lo, add(lo, 1))
    g = a_list([lo, add(lo, 1)])
    A = v.call(v.client(CUSTOM), v.cls(GATES["g"]))
    return [g], lambda: v.call(v.get(C.c, "gate"), A, g)


def tof(pair):
    def setup(v, C):
        lo, hi, t, q, plus = z3.Ints("lo hi t q plus")
        span(v, C, lo, hi)
        ctl = controls(v, lo, hi, t, q, a_list)
        g = pair([ctl, t])
        return [ctl] + ([g] if isinstance(g, ListV) else []), lambda: v.call(v.get(C.c, "toffoli"), g, plus)

    return setup


def measure(v, C):
    return [], lambda: v.call(v.get(C.c, "measure_all"))


def config(v, C):
    return [], lambda: v.call(v.get(C.c, "get_circuit_config"))


def running(v, C):
    # the contracts of Moment.exec (C08), of the backend's dot (C15) and of Output (C14): they return new values and write nothing
    key = lambda s: s.key if isinstance(s, SymObj) else id(s)
    v.it.contracts[MOMENT + ".exec"] = lambda it, f, b: MatV("atom", ("layer", key(b["self"])))
    v.it.contracts[BACKENDS["sparse"] + ".dot"] = lambda it, f, b: MatV("dot", (b["a"], b["b"]))
    v.it.contracts["qudiet.core.output.Output.__call__"] = lambda it, f, b: Opaque("output", ())
    return [], lambda: v.call(v.get(C.c, "run"))


def counting():
    def run(v):
        h = Heap(v)
        c, n, m, L = c19.circuit(v, True)
        h.start([])
        own = h.reach(c, False)
        v.ob("before it: the circuits are separate", not any(i in h.taken for i in own))
        v.call(v.get(c, "get_circuit_info"))
        h.check(c, own)

    return Task("get_circuit_info on a measured circuit", run, [QC + ".get_circuit_info"])


def tasks():
    add_ = [QC + "._QuantumCircuit__add_moment_to_opflow", QC + "._QuantumCircuit__validate_gate_inputs", FLOW + ".populate_opflow", FLOW + ".populate_opflow_test", MOMENT + ".__init__", MOMENT + ".replace_igate"]
    calls = [(k, [QC + "." + k] + add_, one(k)) for k in ("x", "h", "z", "gate")]
    calls += [(f"cx with a {f.__name__[2:]}", [QC + ".cx"] + add_, two(f)) for f in (a_list, a_tuple)]
    calls += [(f"toffoli with a {f.__name__[2:]}", [QC + ".toffoli"] + add_, tof(f)) for f in (a_list, a_tuple)]
    calls += [("gate on two registers", [QC + ".gate"] + add_, gate2), ("measure_all", [QC + ".measure_all"], measure), ("get_circuit_config", [QC + ".get_circuit_config"], config)]
    out = [op("run", "closed", [QC + ".run", FLOW + ".exec"], running), counting()]
    return out + [build(True), build(False)] + [op(w, s, f, c) for w, f, c in calls for s in ("fresh", "open", "closed")]

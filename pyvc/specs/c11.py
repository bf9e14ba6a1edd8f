"""C11: a gate call on legal registers makes one layer: the requested gate at its registers and an idle gate on every other
register, in register order, and hands it to the flow once (tasks `makes its layer`).  The flow puts it behind the other
layers, or puts the gate in the place of the idle gate of its register in the last layer (tasks `populate_opflow`), or
refuses it after the measurement.  Everything else is as before."""
from .circ import *

ADD = FLOW + ".populate_opflow"


def idles(v, C, what, gs, isgate, lo, hi):
    """obligations: gs is idle gates, the gate, idle gates"""
    eng = v.eng
    v.ob(f"{what}: the layer has the gate and an idle gate per other register", eq(gs.length(), sub(C.n, sub(hi, lo))))
    v.ob(f"{what}: the gate is at its registers", isgate(v.it.force(v.it.at(gs, lo))))
    for side, start, end, off in (("before", 0, lo, 0), ("after", add(lo, 1), gs.length(), sub(hi, lo))):
        if eng.branch(lt(start, end)):
            j = z3.Int(f"j_{side}")
            v.assume(conj(le(start, j), lt(j, end)))
            g = v.it.force(v.it.at(gs, j))
            q = add(j, off)
            ok = isinstance(g, ObjV) and g.cls is v.cls(GATES["i"])
            v.ob(f"{what}: idle {side} it", ok)
            if ok:
                for f in ("qreg", "acting_on"):
                    v.ob(f"{what}: {f} of the registers {side} it in order", v.same(v.get(g, f), q))
                v.ob(f"{what}: their dimensions", v.same(v.get(g, "dims"), C.d(lift(q))))
                v.ob(f"{what}: their backend", v.get(g, "backend") is v.cls(C.be))


def record(v, C):
    """the contract of populate_opflow, for the caller: it gets layers of gates and says whether they were accepted"""
    got = []

    def handler(it, f, b):
        a = b.get("args")
        if b["self"] is not C.flow:
            raise Unsupported("layer for another flow")
        got.extend(v.it.force(x) for x in a.seq.concrete())
        return z3.Bool("accepted")

    v.it.contracts[ADD] = handler
    return got


def layer(v, C, what, r, got, isgate, lo, hi):
    if v.gate_only:
        # of the properties of one kind of gate: what the call makes is that gate
        if not got and not v.eng.valid(eq(C.layers().length(), C.layers0.length())):
            raise Unsupported("the flow is extended without populate_opflow")
        v.ob(f"{what}: one layer is added", len(got) == 1)
        if len(got) == 1:
            g = v.it.at(seq_of(v, v.get(got[0], "_moment_list")), lo)
            v.ob(f"{what}: it has the gate at its registers", isgate(v.it.force(g)))
        return
    if not got and not v.eng.valid(eq(C.layers().length(), C.layers0.length())):
        raise Unsupported("the flow is extended without populate_opflow")
    v.ob(f"{what}: one layer is added", len(got) == 1)
    if len(got) != 1:
        return
    v.ob(f"{what}: returns whether it was accepted", v.same(r, z3.Bool("accepted")))
    m = got[0]
    v.ob(f"{what}: it is a layer", isinstance(m, ObjV) and m.cls is v.cls(MOMENT))
    idles(v, C, what, seq_of(v, v.get(m, "_moment_list")), isgate, lo, hi)
    del v.it.contracts[ADD]
    C.unchanged(f"{what}: before the layer is added")


def single(be, state, name):
    def run(v):
        C = Circuit(v, BACKENDS[be], state)
        q, plus, dm = z3.Ints("q plus dims")
        v.assume(conj(le(0, q), lt(q, C.n)))
        # loops over the registers are cut at the registers of the gate
        v.eng.split_points.append(q)
        v.eng.split_first = True
        kw = {}
        if v.eng.branch(z3.Bool("dims_given")):
            # a smaller dimension than that of the register is outside the property
            kw["dims"] = C.d(q)
        step = 1
        if name == "x" and v.eng.branch(z3.Bool("plus_given")):
            kw["plus"] = step = plus
        args = []
        if name == "gate":
            args = [v.client("def client(A):\n    class Custom(A):\n        pass\n    return Custom\n")]
            args = [v.call(args[0], v.cls(GATES["g"]))]
        cls = args[0] if args else v.cls(GATES[name])
        got = record(v, C)
        r = v.call(v.get(C.c, name), *args, q, **kw)

        def isgate(g):
            if not (isinstance(g, ObjV) and g.cls is cls):
                return False
            ok = conj(v.same(v.get(g, "qreg"), q), v.same(v.get(g, "acting_on"), q), v.same(v.get(g, "dims"), C.d(q)), v.get(g, "backend") is v.cls(C.be))
            if name == "x":
                ok = conj(ok, v.same(v.get(g, "plus"), step))
            return ok

        layer(v, C, name, r, got, isgate, q, q)

    return Task(f"{name} makes its layer[{be}, circuit {state}]", run, [QC + "." + name, QC + "._QuantumCircuit__add_moment_to_opflow", GATES["i"] + ".__init__"])


def span(v, C, lo, hi):
    """0 <= lo < hi < n; loops over the registers are cut there"""
    v.assume(conj(le(0, lo), lt(lo, hi), lt(hi, C.n)))
    # [0,lo) lo (lo,hi) hi (hi,n)
    v.eng.split_points += [lo, hi]
    v.eng.split_first = True
    v.eng.points += [lo, hi]


def piece(C, lo, hi):
    """dimensions of the registers lo .. hi"""
    return ListV(Seq([Seg(add(sub(hi, lo), 1), lambda j: C.d(lift(add(lo, j))), True)]))


def cx(be, state, forward, form):
    def run(v):
        C = Circuit(v, BACKENDS[be], state)
        lo, hi, plus = z3.Ints("lo hi plus")
        span(v, C, lo, hi)
        a, b = (lo, hi) if forward else (hi, lo)
        got = record(v, C)
        given = form([a, b])
        r = v.call(v.get(C.c, "cx"), given, plus)

        def isgate(g):
            if not (isinstance(g, ObjV) and g.cls is v.cls(GATES["cx"])):
                return False
            acting = v.get(g, "acting_on")
            if not isinstance(acting, (TupleV, ListV)) or acting is given and isinstance(given, ListV):
                return False
            x = v.items(acting, 2)
            return conj(v.same(x[0], a), v.same(x[1], b), v.same(v.get(g, "_plus"), plus), v.same(v.get(g, "_qreg"), piece(C, lo, hi)), v.get(g, "backend") is v.cls(C.be))

        layer(v, C, "cx", r, got, isgate, lo, hi)

    return Task(f"cx makes its layer[{be}, circuit {state}, control {'before' if forward else 'after'} target, {form.__name__}]", run, [QC + ".cx", QC + "._QuantumCircuit__add_moment_to_opflow", QC + "._QuantumCircuit__validate_gate_inputs", GATES["cx"] + ".__init__"])


def a_list(x):
    return ListV(Seq.of(x))


def a_tuple(x):
    return TupleV(x)


def gate2(be, state):
    def run(v):
        C = Circuit(v, BACKENDS[be], state)
        lo = z3.Int("lo")
        hi = add(lo, 1)
        span(v, C, lo, hi)
        A = v.call(v.client("def client(A):\n    class Custom(A):\n        pass\n    return Custom\n"), v.cls(GATES["g"]))
        got = record(v, C)
        given = a_list([lo, hi])
        r = v.call(v.get(C.c, "gate"), A, given)

        def isgate(g):
            if not (isinstance(g, ObjV) and g.cls is A):
                return False
            ok = [v.get(g, "backend") is v.cls(C.be), v.same(v.get(g, "dims"), piece(C, lo, hi))]
            for f in ("qreg", "acting_on"):
                x = v.get(g, f)
                ok.append(x is not given and v.same(x, a_list([lo, hi])))
            return conj(*ok)

        layer(v, C, "gate", r, got, isgate, lo, hi)

    return Task(f"gate on two registers makes its layer[{be}, circuit {state}]", run, [QC + ".gate", QC + "._QuantumCircuit__add_moment_to_opflow", QC + "._QuantumCircuit__validate_gate_inputs", GATES["g"] + ".__init__"])


DM = "qudiet.circuit_library.standard_gates.toffoli_utility.toffoli_dm"


def controls(v, lo, hi, t, q, form=a_list, dm=True):
    """q controls and a target t between lo and hi; the contract of toffoli_dm (C06)"""
    eng = v.eng
    c = z3.Function("ctl", I, I)
    eng.intseqs["ctl"] = c
    j = z3.Int("j_ctl")
    v.assume(conj(le(1, q), le(lo, t), le(t, hi)))
    eng.pc(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < q), z3.And(lo <= c(j), c(j) <= hi, c(j) != t)), patterns=[c(j)]))
    if dm:
        # lo and hi are the lowest and the highest of the registers named
        v.it.contracts[DM] = lambda it, f, b: TupleV([Opaque("matrix", ()), lo, hi])
    ctl = form([])
    ctl.seq = Seq([Seg(q, lambda j: c(lift(j)), True)])
    return ctl


def toffoli(be, state, form, controlled=True):
    def run(v):
        eng = v.eng
        C = Circuit(v, BACKENDS[be], state)
        lo, hi, t, q, plus = z3.Ints("lo hi t q plus")
        if controlled:
            span(v, C, lo, hi)
            ctl = controls(v, lo, hi, t, q, form)
        else:
            lo = hi = t
            v.assume(conj(le(0, t), lt(t, C.n)))
            v.eng.split_points.append(t)
            v.eng.split_first = True
            ctl = form([])
        got = record(v, C)
        matrix = Opaque("matrix", ())

        def dm(it, f, b):
            # the contract of toffoli_dm (C06): lo and hi are the lowest and the highest of the registers named
            cs, tt = v.items(b["qargs"], 2)
            ok = isinstance(v.it.force(cs), ListV)
            v.ob("toffoli: the matrix is made for the controls", ok and v.same(cs, ListV(ctl.seq)))
            v.ob("toffoli: the matrix is made for the target", v.same(tt, t))
            v.ob("toffoli: the matrix is made for the increment", v.same(b["plus"], plus))
            v.ob("toffoli: the matrix is made for the dimensions", v.same(b["dims"], C.dims))
            return TupleV([matrix, lo, hi])

        v.it.contracts[DM] = dm
        r = v.call(v.get(C.c, "toffoli"), TupleV([ctl, t]), plus)

        def isgate(g):
            if not (isinstance(g, ObjV) and g.cls is v.cls(GATES["tof"])):
                return False
            ok = [v.get(g, "backend") is v.cls(C.be), v.get(g, "_unitary") is matrix, v.same(v.get(g, "dims"), piece(C, lo, hi)), v.same(v.get(g, "_plus"), plus)]
            for f in ("qreg", "acting_on"):
                x = v.items(v.get(g, f), 2)
                y = v.it.force(x[0])
                ok += [v.same(x[1], t), isinstance(y, ListV) and y is not ctl and v.same(y, ListV(ctl.seq))]
            return conj(*ok)

        layer(v, C, "toffoli", r, got, isgate, lo, hi)

    return Task(f"toffoli makes its layer[{be}, circuit {state}, {form.__name__}{'' if controlled else ', no control'}]", run, [QC + ".toffoli", QC + "._QuantumCircuit__add_moment_to_opflow", QC + "._QuantumCircuit__validate_gate_inputs", GATES["tof"] + ".__init__"])


def new_layer(v, C, kinds):
    """a layer as the gate calls make it: one gate of some of these kinds on the registers lo .. hi, else idle gates"""
    lo, hi = z3.Ints("lo hi")
    N = Gates(v, "new")
    g = N.get(0)
    v.assume(conj(le(0, lo), le(lo, hi), lt(hi, C.n), eq(N.lo(0), lo), eq(N.hi(0), hi), disj(*[N.is_(g, k) for k in kinds])))
    single = disj(*[N.is_(g, k) for k in ("x", "z", "h", "g1")])
    # a Toffoli gate without controls is on one register
    v.eng.pc(z3.If(lo == hi, z3.Or(single, lift(N.is_(g, "tof"))), z3.Not(lift(single))))
    v.assume(conj(le(lo, N.ctl(0)), le(N.ctl(0), hi), le(lo, N.tgt(0)), le(N.tgt(0), hi)))
    cls = v.cls(GATES["i"])
    idle = lambda off: lambda j: v.call(cls, qreg=add(j, off), dims=C.d(lift(add(j, off))), backend=v.cls(C.be))
    gs = ListV(Seq([Seg(lo, idle(0)), Seg(1, lambda j: g), Seg(sub(sub(C.n, hi), 1), idle(add(hi, 1)))]))
    m = v.call(v.client("def client(M, gs):\n    return M('m', *gs)\n"), v.cls(MOMENT), gs)
    return m, g, lo, hi


class History:
    """ghost state: the calls 0 .. N-1 accepted so far, call k placed a gate on the registers from(k) .. to(k) in layer pos(k),
    at place at(k) of it.  Invariant: gates that share a register are in layers of the order of their calls; a gate of the last layer
    is there, on its registers, and is not an idle gate"""

    def __init__(self, v, C):
        self.v, self.C = v, C
        self.N = N = z3.Int("calls")
        v.assume(le(0, N))
        f = lambda s: z3.Function(s, I, I)
        self.pos, self.at, self.lo, self.hi = f("pos"), f("at"), f("from"), f("to")
        self.last = sub(C.layers0.length(), 1)
        if C.state == "fresh":
            v.assume(eq(N, 0))

    def share(self, k, lo, hi):
        return z3.And(self.lo(k) <= lift(hi), lift(lo) <= self.hi(k))

    def placed(self, layer, lo, hi, x):
        """obligations: the invariant holds with call N placed in this layer (at place x of the last one, or in a new one)"""
        v, C, k = self.v, self.C, z3.Int("k_call")
        G = C.G
        if C.state == "fresh":
            return
        # the invariant, for an arbitrary earlier call
        v.assume(conj(le(0, k), lt(k, self.N), le(0, self.pos(k)), le(self.pos(k), self.last), le(self.lo(k), self.hi(k))))
        if C.state == "open":
            a = self.at(k)
            v.assume(z3.Implies(self.pos(k) == lift(self.last), z3.And(a >= 0, a < C.size, G.lo(a) == self.lo(k), G.hi(a) == self.hi(k), G.kind(a) != K["i"])))
        v.ob("a gate that shares a register with an earlier one is in a later layer", z3.Implies(self.share(k, lo, hi), self.pos(k) < lift(layer)))
        if x is not None:
            v.ob("no earlier gate gives way", z3.Implies(self.pos(k) == lift(self.last), self.at(k) != lift(x)))


def populate(state, kinds, what):
    def run(v):
        eng = v.eng
        C = Circuit(v, BACKENDS["sparse"], state)
        m, g, lo, hi = new_layer(v, C, kinds)
        H = History(v, C)
        flags = v.get(C.flow, "_measurement_count")
        r = v.call(v.get(C.flow, "populate_opflow"), m)
        if state == "closed":
            v.ob("refused by returning False", v.same(r, False))
            C.unchanged("after it")
            return
        fl = seq_of(v, v.get(C.flow, "_measurement_count"))
        k = z3.Int("k_flag")
        v.assume(conj(le(0, k), lt(k, C.n)))
        v.ob("no register counts as measured", conj(eq(fl.length(), C.n), eq(v.it.at(fl, k), 0)))
        v.ob("accepted", v.same(r, True))
        now = C.earlier_kept("after it")
        C.registers_kept("after it")
        n0 = C.layers0.length()
        last = v.it.at(now, sub(n0, 1))
        v.ob("the last layer stays in its place", last is C.last0)
        if eng.branch(eq(now.length(), n0)):
            # moved into the last layer
            v.ob("only into a layer of gates", state == "open")
            if state != "open":
                return
            v.ob("a gate on one register", eq(lo, hi))
            gs = seq_of(v, v.get(last, "_moment_list"))
            v.ob("the layer has as many gates", eq(gs.length(), C.size))
            x = C.cover(lift(lo))
            eng.fact(z3.And(x >= 0, x < C.size, C.G.lo(x) <= lift(lo), lift(lo) <= C.G.hi(x)))
            v.ob("its register was idle in the last layer", C.G.is_(C.G.get(x), "i"))
            v.ob("the gate is in the place of the idle one", v.it.force(v.it.at(gs, x)) is g)
            j = z3.Int("j_gate")
            v.assume(conj(le(0, j), lt(j, C.size), neq(j, x)))
            y = v.it.force(v.it.at(gs, j))
            v.ob("the other gates of the layer are kept", isinstance(y, SymObj) and y.schema is C.G and not y.fields and eq(y.key, j))
            v.ob("the idle gate spanned just that register", conj(eq(C.G.lo(x), lo), eq(C.G.hi(x), hi)))
            H.placed(sub(n0, 1), lo, hi, x)
            return
        v.ob("one new layer", eq(now.length(), add(n0, 1)))
        C.gates_kept("the layer before", v.get(last, "_moment_list"))
        new = v.it.at(now, n0)
        v.ob("the new layer is the one given", new is m)
        idles(v, C, "the new layer", seq_of(v, v.get(new, "_moment_list")), lambda x: x is g, lo, hi)
        H.placed(n0, lo, hi, None)

    return Task(f"populate_opflow[{what}, circuit {state}]", run, [FLOW + ".populate_opflow", FLOW + ".populate_opflow_test", MOMENT + ".replace_igate", MOMENT + ".get_qreg_moment", MOMENT + ".__init__", POPULATE, FLOW + "._OperatorFlow__detect_measurement_and_add_count"])


def general(state):
    """any layer of gates that cover the registers, as a user of Moment and OperatorFlow may hand in"""

    def run(v):
        eng = v.eng
        C = Circuit(v, BACKENDS["sparse"], state)
        eng.count_facts = True
        N, s = Gates(v, "new"), z3.Int("size_new")
        cov = covers(v, N, C.n, s, "cover_new")
        gs = ListV(Seq([Seg(s, lambda j: N.get(j))]))
        m = v.call(v.client("def client(M, gs):\n    return M('m', *gs)\n"), v.cls(MOMENT), gs)
        r = v.call(v.get(C.flow, "populate_opflow"), m)
        if state == "closed":
            v.ob("refused by returning False", v.same(r, False))
            C.unchanged("after it")
            return
        v.ob("accepted", v.same(r, True))
        now = C.earlier_kept("after it")
        n0 = C.layers0.length()
        last = v.it.at(now, sub(n0, 1))
        v.ob("the last layer stays in its place", last is C.last0)
        if eng.branch(eq(now.length(), n0)):
            v.ob("only into a layer of gates", state == "open")
            if state != "open":
                return
            old = seq_of(v, v.get(last, "_moment_list"))
            v.ob("the layer has as many gates", eq(old.length(), C.size))
            # every gate of the new layer that is not idle
            w = z3.Int("w_gate")
            if eng.branch(eng.exists(s, lambda k: nott(N.is_(N.get(k), "i")))):
                v.assume(conj(le(0, w), lt(w, s), nott(N.is_(N.get(w), "i"))))
                x = C.cover(N.lo(w))
                eng.fact(z3.And(x >= 0, x < C.size, C.G.lo(x) <= N.lo(w), N.lo(w) <= C.G.hi(x)))
                y = v.it.force(v.it.at(old, x))
                v.ob("every gate is in the last layer, at its register", isinstance(y, SymObj) and not y.fields and y.schema is N and eq(y.key, w))
                v.ob("whose registers were idle", conj(C.G.is_(C.G.get(x), "i"), eq(C.G.lo(x), N.lo(w)), eq(C.G.hi(x), N.hi(w))))
            # every gate of the last layer
            j = z3.Int("j_gate")
            v.assume(conj(le(0, j), lt(j, C.size), nott(C.G.is_(C.G.get(j), "i"))))
            y = v.it.force(v.it.at(old, j))
            v.ob("no gate of the last layer is lost", isinstance(y, SymObj) and not y.fields and y.schema is C.G and eq(y.key, j))
            return
        v.ob("one new layer", eq(now.length(), add(n0, 1)))
        C.gates_kept("the layer before", v.get(last, "_moment_list"))
        new = v.it.at(now, n0)
        v.ob("the new layer is the one given", new is m)
        ns = seq_of(v, v.get(new, "_moment_list"))
        v.ob("it has as many gates", eq(ns.length(), s))
        j = z3.Int("j_gate")
        v.assume(conj(le(0, j), lt(j, s)))
        y = v.it.force(v.it.at(ns, j))
        v.ob("its gates are unchanged", isinstance(y, SymObj) and not y.fields and y.schema is N and eq(y.key, j))

    return Task(f"populate_opflow[any layer, circuit {state}]", run, [FLOW + ".populate_opflow", FLOW + ".populate_opflow_test", MOMENT + ".replace_igate", MOMENT + ".get_qreg_moment", MOMENT + ".__init__", POPULATE, FLOW + "._OperatorFlow__detect_measurement_and_add_count"])


def gate_only(task):
    """the same call; of the layer only the gate is looked at"""
    f = task.body

    def run(v):
        v.gate_only = True
        f(v)

    task.body, task.name = run, task.name.replace("makes its layer", "makes the gate")
    return task


def populates(states=("fresh", "open", "closed")):
    return [populate(st, ks, w) for st in states for ks, w in ((("x", "z", "h"), "x z h"), (("g1", "g2", "cx", "tof"), "others"))]


def tasks():
    s = ("sparse", "open")
    out = [populate_task()] + [single(*s, k) for k in ("x", "h", "z", "gate")]
    out += [cx(*s, f, form) for f in (True, False) for form in (a_list, a_tuple)]
    return out + [gate2(*s)] + [toffoli(*s, f, c) for c in (True, False) for f in (a_list, a_tuple)] + populates() + [general("closed")]

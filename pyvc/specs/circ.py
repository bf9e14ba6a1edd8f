"""symbolic gates, layers and circuits"""
from ..loops import same_value
from .common import *

Q = "qudiet.core."
QC = Q + "quantum_circuit.QuantumCircuit"
FLOW = Q + "operator_flow.OperatorFlow"
MOMENT = Q + "moment.Moment"
INIT = Q + "init_states.InitState"
KINDS = ["i", "x", "z", "h", "cx", "tof", "g1", "g2", "m", "init"]
K = {k: n for n, k in enumerate(KINDS)}
I = z3.IntSort()


class Gates:
    """family of gates of unknown kind: gate key -> kind, lowest and highest register, data"""

    def __init__(self, v, name="gate"):
        self.v, self.name = v, name
        f = lambda s: z3.Function(f"{s}_{name}", I, I)
        self.kind, self.lo, self.hi, self.plus, self.ctl, self.tgt = (f(s) for s in ("kind", "lo", "hi", "plus", "ctl", "tgt"))
        self.memo = {}
        self.custom = None
        self.reads = None

    def get(self, key):
        key = simp(key)
        k = key.get_id() if is_sym(key) else key
        o = self.memo.get(k)
        if o is None:
            o = self.memo[k] = (SymObj(self, key), key)
        return o[0]

    def classes(self):
        """class of each kind"""
        v = self.v
        out = [v.cls(GATES[k]) for k in ("i", "x", "z", "h", "cx", "tof")]
        return out + [v.cls(GATES["g"])] * 2 + [v.cls(GATES["m"]), v.cls(INIT)]

    def same(self, a, b):
        return eq(a.key, b.key) if a.schema is b.schema else False

    def isinstance(self, it, o, c):
        if isinstance(c, (TypeV, LibV)):
            return c.name == "object"
        ks = [k for k, d in enumerate(self.classes()) if c in d.mro()]
        if len(ks) == len(KINDS):
            return True
        return disj(*[eq(self.kind(lift(o.key)), k) for k in ks])

    def is_(self, o, *kinds):
        return disj(*[eq(self.kind(lift(o.key)), K[k]) for k in kinds])

    def pick(self, o):
        """the kind of the gate, by cases"""
        br = self.v.eng.branch
        for k in KINDS[:-1]:
            if br(self.is_(o, k)):
                return k
        self.v.eng.pc(self.is_(o, "init"))
        return "init"

    def type_of(self, it, o):
        return self.classes()[K[self.pick(o)]]

    def getattr(self, it, o, name):
        k = lift(o.key)
        if name == "__class__":
            return self.type_of(it, o)
        if name == "unitary":
            return MatV("atom", ("unitary of " + self.name, o.key))
        if name in ("acting_on", "qreg", "_qreg", "_acting_on"):
            return self.register(it, o, name)
        raise Unsupported(f"attribute {name} of a gate of unknown kind")

    def register(self, it, o, name):
        k = lift(o.key)
        br = self.v.eng.branch
        if br(self.is_(o, "i", "x", "z", "h", "g1")):
            if name in ("acting_on", "qreg"):
                return self.lo(k)
        elif br(self.is_(o, "cx")):
            if name in ("acting_on", "_acting_on"):
                return TupleV([self.ctl(k), self.tgt(k)])
        elif br(self.is_(o, "tof")):
            n = z3.Function("n_ctl_" + self.name, I, I)(k)
            c = z3.Function("ctls_" + self.name, I, I, I)
            if name in ("acting_on", "qreg"):
                return TupleV([ListV(Seq([Seg(n, lambda j: c(k, lift(j)), True)])), self.tgt(k)])
            if name == "_acting_on":
                lo, hi = self.lo(k), self.hi(k)
                return ListV(Seq([Seg(add(sub(hi, lo), 1), lambda j: add(lo, j), True)]))
        elif br(self.is_(o, "g2")):
            if name in ("acting_on", "qreg"):
                return ListV(Seq.of([self.lo(k), self.hi(k)]))
        elif br(self.is_(o, "m")):
            if name in ("acting_on", "_qreg"):
                return self.lo(k)
        else:
            if name == "qreg":
                return self.lo(k)
            if name == "acting_on":
                it.raise_("AttributeError", name)
        raise Unsupported(f"attribute {name} of a gate of unknown kind")


class Layers:
    """family of layers of unknown content: only the contract of the methods of Moment is known"""

    def __init__(self, v, name="layer"):
        self.v, self.name = v, name
        self.memo = {}

    def get(self, key):
        key = simp(key)
        k = key.get_id() if is_sym(key) else key
        o = self.memo.get(k)
        if o is None:
            o = self.memo[k] = (SymObj(self, key), key)
        return o[0]

    def same(self, a, b):
        return eq(a.key, b.key) if a.schema is b.schema else False

    def type_of(self, it, o):
        return self.v.cls(MOMENT)

    def isinstance(self, it, o, c):
        return isinstance(c, ClassV) and c in self.v.cls(MOMENT).mro()

    def getattr(self, it, o, name):
        a = self.v.cls(MOMENT).lookup(name)
        if a is None:
            raise Unsupported(f"field {name} of a layer of unknown content")
        return it.bind(o, a)


POPULATE = MOMENT + "._Moment__populate_list"


def use_populate(v):
    """contract of Moment.__populate_list, proved by the task populate_list: a list of operations in a moment whose own
    list is empty becomes its content, in order"""

    def contract(it, f, b):
        s = b["self"]
        if not isinstance(s, ObjV):
            return NotImplemented
        ops, own = s.fields.get("_operations"), s.fields.get("_moment_list")
        if not isinstance(ops, ListV) or not isinstance(own, ListV) or ops is own or own.seq.length() != 0:
            return NotImplemented
        v.eng.put(own, "seq", ops.seq)
        return True

    v.it.contracts[POPULATE] = contract


def populate_task():
    """an arbitrary sequence of gates"""

    def run(v):
        m = z3.Int("m")
        v.assume(le(0, m))
        G = Gates(v)
        gs = ListV(Seq([Seg(m, lambda k: G.get(k))]))
        o = v.call(v.client("def client(M, gs):\n    return M('m', *gs)\n"), v.cls(MOMENT), gs)
        for what, ls in (("the list", v.get(o, "_moment_list")), ("peek_list", v.call(v.get(o, "peek_list")))):
            s = seq_of(v, ls)
            v.ob(f"{what} has all gates", eq(s.length(), m))
            j = z3.Int("j")
            if v.eng.branch(lt(0, m)):
                v.assume(conj(le(0, j), lt(j, m)))
                g = v.it.force(v.it.at(s, j))
                v.ob(f"{what} has them in order", isinstance(g, SymObj) and not g.fields and eq(g.key, j))
        v.ob("the operations stay a list of their own", v.get(o, "_operations") is not v.get(o, "_moment_list"))

    return Task("Moment holds its gates in order", run, [MOMENT + ".__init__", POPULATE, MOMENT + "._Moment__push_list", MOMENT + ".peek_list"])


def atoms(v, m, op):
    """the factors of an operator term in order: sequence of values (kron and dot are associative)"""
    if isinstance(m, MatV) and m.op == op:
        return atoms(v, m.args[0], op).cat(atoms(v, m.args[1], op))
    if isinstance(m, MatV) and m.op == "fold":
        v0, j, key, j0, term = m.args
        first = atoms(v, v0, op)
        if isinstance(term, MatV) and term.op == op:
            a, b = term.args
            hole = lambda t: isinstance(t, MatV) and t.op == "hole" and t.args[0] == key
            if hole(a) and isinstance(b, MatV) and b.op == "atom":
                return first.cat(Seq([Seg(j, lambda i: subst(b, [(j0, i)]))]))
            if hole(b) and isinstance(a, MatV) and a.op == "atom":
                return Seq([Seg(j, lambda i: subst(a, [(j0, sub(sub(j, 1), i))]))]).cat(first)
        raise Unsupported("form of an accumulated operator")
    return Seq.of([m])


def is_atom(v, m, tag, key):
    return isinstance(m, MatV) and m.op == "atom" and m.args[0] == tag and eq(m.args[1], key)


BUILD = """
def client(QC, M, dims, be, gs, earlier, closed):
    c = QC(dims, backend=be)
    if gs is not None:
        last = M('m', *gs)
        c.op_flow._opflow_list = earlier + [last]
        if closed:
            c.op_flow._measurement_count = len(dims) * [1]
    return c
"""


def covers(v, G, n, s, name):
    """the gates 0 .. s-1 of the family cover the registers 0 .. n-1 in order, once each; the result gives the gate of a register"""
    eng = v.eng
    cov = z3.Function(name, I, I)
    eng.intseqs[name] = cov
    j, q = z3.Ints("j q")
    lo, hi, kd = G.lo, G.hi, G.kind
    v.assume(conj(le(1, s), le(s, n)))
    inr = z3.And(0 <= j, j < s)
    single = z3.Or(*[kd(j) == K[x] for x in ("i", "x", "z", "h", "g1")])
    fact = lambda f, *p: eng.fact(z3.ForAll([j], z3.Implies(inr, f), patterns=list(p)))
    fact(z3.And(0 <= lo(j), lo(j) <= hi(j), hi(j) < n, kd(j) >= 0, kd(j) <= K["g2"]), lo(j), hi(j), kd(j))
    # a Toffoli gate without controls is on one register
    fact(z3.If(lo(j) == hi(j), z3.Or(single, kd(j) == K["tof"]), z3.Not(single)), kd(j))
    fact(z3.Implies(kd(j) == K["g2"], hi(j) == lo(j) + 1), kd(j))
    # the registers named by a controlled gate are among those it spans
    fact(z3.And(lo(j) <= G.tgt(j), G.tgt(j) <= hi(j)), G.tgt(j))
    fact(z3.And(lo(j) <= G.ctl(j), G.ctl(j) <= hi(j)), G.ctl(j))
    # registers in order, once each
    fact(z3.And(cov(lo(j)) == j, cov(hi(j)) == j), kd(j), lo(j), hi(j))
    eng.fact(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= cov(q), cov(q) < s, lo(cov(q)) <= q, q <= hi(cov(q)))), patterns=[cov(q)]))
    eng.fact(z3.ForAll([j, q], z3.Implies(z3.And(inr, lo(j) <= q, q <= hi(j)), cov(q) == j), patterns=[z3.MultiPattern(lo(j), cov(q))]))
    return cov


class Circuit:
    """a circuit in an arbitrary reachable state:
    fresh - no gate yet, the only layer is that of the initial states
    open - the last layer holds gates that cover the registers 0 .. n-1 in order, once each
    closed - the last layer is the measurement of all registers"""

    def __init__(self, v, be, state):
        eng = v.eng
        use_populate(v)
        self.v, self.be, self.state = v, be, state
        self.n = n = z3.Int("n")
        v.assume(le(1, n))
        self.d = d = z3.Function("d", I, I)
        eng.intseqs["d"] = d
        k = z3.Int("k_d")
        eng.fact(z3.ForAll([k], d(k) >= 2, patterns=[d(k)]))
        self.dims = ListV(Seq([Seg(n, lambda j: d(lift(j)), True)]))
        self.m = self.size = None
        gs = None
        self.L = Layers(v)
        self.G = G = Gates(v)
        earlier = ListV()
        if state != "fresh":
            self.m = z3.Int("earlier")
            v.assume(le(1, self.m))
            earlier = ListV(Seq([Seg(self.m, lambda j: self.L.get(j))]))
        if state == "open":
            self.size = s = z3.Int("size")
            self.cover = covers(v, G, n, s, "cover")
            gs = ListV(Seq([Seg(s, lambda j: G.get(j))]))
        if state == "closed":
            M = v.cls(GATES["m"])
            gs = ListV(Seq([Seg(n, lambda j: v.call(M, qreg=j))]))
        self.c = v.call(v.client(BUILD), v.cls(QC), v.cls(MOMENT), self.dims, v.cls(be), gs, earlier, state == "closed")
        self.given = self.dims
        flow = v.get(self.c, "op_flow")
        self.flow = flow
        self.layers0 = seq_of(v, v.get(flow, "_opflow_list"))
        self.last0 = v.it.at(self.layers0, sub(self.layers0.length(), 1))
        self.gates0 = seq_of(v, v.get(self.last0, "_moment_list"))

    def layers(self):
        return seq_of(self.v, self.v.get(self.v.get(self.c, "op_flow"), "_opflow_list"))

    def earlier_kept(self, what):
        """the layers before the last one of before are the same objects and were not written"""
        v, now = self.v, self.layers()
        if self.m is None:
            return now
        j = z3.Int("j_layer")
        v.assume(conj(le(0, j), lt(j, self.m)))
        x = v.it.force(v.it.at(now, j))
        v.ob(f"{what}: the earlier layers are kept", isinstance(x, SymObj) and x.schema is self.L and not x.fields and eq(x.key, j))
        return now

    def unchanged(self, what):
        """obligations: the circuit is as before"""
        v = self.v
        now = self.earlier_kept(what)
        n0 = self.layers0.length()
        v.ob(f"{what}: the number of layers is unchanged", eq(now.length(), n0))
        last = v.it.at(now, sub(n0, 1))
        v.ob(f"{what}: the last layer is the same", last is self.last0)
        self.gates_kept(what, v.get(last, "_moment_list"))
        self.registers_kept(what)

    def gates_kept(self, what, gs):
        v, gs = self.v, seq_of(self.v, gs)
        v.ob(f"{what}: the layer has as many gates", eq(gs.length(), self.gates0.length()))
        j = z3.Int("j_gate")
        v.assume(conj(le(0, j), lt(j, self.gates0.length())))
        v.ob(f"{what}: the gates of the layer are unchanged", self.gate_same(v.it.at(gs, j), v.it.at(self.gates0, j)))

    def gate_same(self, a, b):
        v = self.v
        a, b = v.it.force(a), v.it.force(b)
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            return conj(not a.fields, v.same(a, b))
        return a is b or same_value(v.eng, a, b, True)

    def registers_kept(self, what):
        v = self.v
        k = z3.Int("k_reg")
        v.assume(conj(le(0, k), lt(k, self.n)))
        for f in ("_reg_dims", "qregs"):
            ds = seq_of(v, v.get(self.c, f))
            v.ob(f"{what}: {f}", conj(eq(ds.length(), self.n), eq(v.it.at(ds, k), self.d(k))))
        v.ob(f"{what}: the number of registers", v.same(v.get(self.c, "_reg_length"), self.n))

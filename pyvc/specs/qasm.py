"""QASM texts of any size, and circuit_from_qasm against them: the parser is interpreted, re and the text methods by their contracts on
texts with symbolic parts (text.py), the circuit by the contracts of its constructor and its gate calls (C11, C13), which are
recorded."""
from ..text import BLANK, CS, PyCall
from .circ import *

QASM = "qudiet.qasm.qasm_parser."
EMPTY, BLANKS, COMMENT, X, XP, RX, H, Z, CX, CXP, CNOT, CNOTP, TOF = range(13)
CODE = {X: 1, XP: 1, RX: 1, H: 2, Z: 3, CX: 4, CXP: 4, CNOT: 4, CNOTP: 4, TOF: 5}
LINE = CS("\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029", True)
COMMA = CS(", ")


def run(name, cls, *key, least=1):
    return ("run", Opaque(name, key), cls, least)


def number(x):
    return ("str", x)


class Program:
    """ghost: n declarations and m lines, declaration q of kind D(q) and dimension d(q), line k of kind K(k) with the numbers A, B, C, P"""

    def __init__(self, v):
        self.v = v
        eng = v.eng
        f = lambda s: z3.Function(s, I, I)
        b = lambda s: z3.Function(s, I, z3.BoolSort())
        self.n, self.m, self.h = z3.Ints("registers lines header_lines")
        v.assume(conj(le(1, self.n), le(0, self.m), le(0, self.h)))
        self.D, self.K, self.A, self.B, self.C, self.P = map(f, ("decl", "kind", "first", "second", "third", "plus"))
        self.dim = f("dimension")
        self.ind, self.gap, self.comma, self.hind, self.dind, self.hempty = map(b, ("indented", "gap", "comma", "header_indented", "decl_indented", "header_empty"))
        k = z3.Int("k_line")
        for g in (self.A, self.B, self.C):
            eng.fact(z3.ForAll([k], z3.And(g(k) >= 0, g(k) < self.n), patterns=[g(k)]))
        eng.fact(z3.ForAll([k], z3.And(self.K(k) >= 0, self.K(k) <= TOF), patterns=[self.K(k)]))
        eng.fact(z3.ForAll([k], z3.And(self.D(k) >= 0, self.D(k) <= 2), patterns=[self.D(k)]))
        eng.fact(z3.ForAll([k], z3.And(self.dim(k) >= 2, z3.Implies(self.D(k) == 1, self.dim(k) == 2), z3.Implies(self.D(k) == 2, self.dim(k) == 3)), patterns=[self.dim(k)]))
        # a Toffoli line names three registers
        eng.fact(z3.ForAll([k], z3.Implies(self.K(k) == TOF, z3.And(self.A(k) != self.B(k), self.B(k) != self.C(k), self.A(k) != self.C(k))), patterns=[self.K(k)]))

    def which(self, t, n):
        for x in range(n - 1):
            if self.v.eng.branch(eq(t, x)):
                return x
        return n - 1

    def indent(self, c, name, *key):
        return [run(name, BLANK, *key)] if self.v.eng.branch(c) else []

    def header(self, k):
        k = lift(k)
        if self.v.eng.branch(self.hempty(k)):
            return StrT(["\n"])
        return StrT(["\n", *self.indent(self.hind(k), "header blanks", k), "#", run("header", LINE, k, least=0)])

    def decl(self, q):
        q = lift(q)
        k = self.which(self.D(q), 3)
        gap = "\n" if self.v.eng.branch(self.gap(q)) else ""
        body = [["qudit x", number(q), " (", number(self.dim(q)), ")"], ["qubit x", number(q)], ["qutrit x", number(q)]][k]
        return StrT([gap + "\n", *self.indent(self.dind(q), "declaration blanks", q), *body])

    def kind(self, k):
        return self.which(self.K(lift(k)), 13)

    def line(self, k):
        k = lift(k)
        t = self.kind(k)
        a, b, c, p = (number(f(k)) for f in (self.A, self.B, self.C, self.P))
        s = lambda i, cls=BLANK: run(f"separator {i}", cls, k)
        if t == EMPTY:
            return StrT(["\n"])
        if t == BLANKS:
            return StrT(["\n", run("blanks", BLANK, k)])
        if t == COMMENT:
            body = ["#", run("comment", LINE, k, least=0)]
        elif t in (X, H, Z):
            body = [{X: "X", H: "H", Z: "Z"}[t], s(1), "x", a]
        elif t == XP:
            body = ["X", s(1), "x", a, s(2), p]
        elif t == RX:
            body = ["RX", s(1), "x", a, s(2), "180"]
        elif t == TOF:
            body = ["Toffoli x", a, s(1, COMMA), "x", b, s(2, COMMA), "x", c]
        else:
            comma = "," if self.v.eng.branch(self.comma(k)) else ""
            body = ["CX" if t in (CX, CXP) else "CNOT", s(1), "x", a, comma, s(2), "x", b] + ([s(3), p] if t in (CXP, CNOTP) else [])
        return StrT(["\n", *self.indent(self.ind(k), "blanks", k), *body])

    def text(self, unit, indented):
        many = lambda n, f: ("join", "", Seq([Seg(n, lambda k: Lazy(lambda: f(k)))]))
        ind = [run("indent", BLANK)] if indented else []
        return StrT(["#", run("first", LINE, least=0), many(self.h, self.header), "\n", *ind, f".{unit} ", number(self.n), "\n", many(self.n, self.decl), "\n\n", *ind, ".begin", many(self.m, self.line), "\n", *ind, ".end", "\n"])

    def call(self, k):
        """what line k asks for: (code, first, second, third, increment), None for a line without a gate"""
        k = lift(k)
        t = self.kind(k)
        if t not in CODE:
            return None
        plus = self.P(k) if t in (XP, CXP, CNOTP) else 1 if CODE[t] in (1, 4, 5) else 0
        two = CODE[t] >= 4
        return CODE[t], self.A(k), self.B(k) if two else 0, self.C(k) if t == TOF else 0, plus


class Recorded:
    """the circuit the parser makes: its constructor and its calls are recorded"""

    def __init__(self, v):
        self.v = v
        self.log, self.made = ListV(), []
        it = v.it

        def make(it, c, args, kw):
            o = ObjV(c)
            b = it.bindargs(c.lookup("__init__"), [o, *args], kw)
            self.made.append(b)
            return o

        it.contracts[QC] = make

        def entry(*xs):
            it.lib.method(self.log, "append", [TupleV(list(xs))], {})
            return True

        it.contracts[QC + ".x"] = lambda it, f, b: entry(1, b["qreg"], 0, 0, b["plus"])
        it.contracts[QC + ".h"] = lambda it, f, b: entry(2, b["qreg"], 0, 0, 0)
        it.contracts[QC + ".z"] = lambda it, f, b: entry(3, b["qreg"], 0, 0, 0)
        it.contracts[QC + ".measure_all"] = lambda it, f, b: entry(6, 0, 0, 0, 0)

        def cx(it, f, b):
            x = v.items(b["acting_on"], 2)
            return entry(4, x[0], x[1], 0, b["plus"])

        def toffoli(it, f, b):
            x = v.items(b["qreg"], 2)
            y = v.items(x[0], 2)
            return entry(5, y[0], y[1], x[1], b["plus"])

        it.contracts[QC + ".cx"] = cx
        it.contracts[QC + ".toffoli"] = toffoli


def parsed(v, backend=None, file=False, unit="qudit", indented=False):
    v.eng.name_states = True
    p = Program(v)
    r = Recorded(v)
    text = p.text(unit, indented)
    kw = {} if backend is None else {"backend": v.cls(backend)}
    if file:
        name = Opaque("file name")
        F = v.client("class File:\n    def __init__(self, t):\n        self.t = t\n    def __enter__(self):\n        return self\n    def __exit__(self, a, b, c):\n        return False\n    def read(self):\n        return self.t\n    def close(self):\n        return None\n", "File")

        def open_(it, args, kw):
            v.ob("the file named is opened", args[0] is name)
            v.ob("for reading", len(args) < 2 or it.force(args[1]) in ("r", "rt"))
            return v.call(F, text)

        v.it.stubs["builtins.open"] = PyCall(open_)
        got = v.call(v.fn(QASM + "parse_qasm"), name, **kw)
    else:
        got = v.call(v.fn(QASM + "circuit_from_qasm"), text, **kw)
    v.ob("one circuit is made", len(r.made) == 1)
    return p, r, v.it.force(got)


def lines(v, indented):
    p, r, got = parsed(v, indented=indented)
    v.ob("that circuit is returned", isinstance(got, ObjV) and got.cls is v.cls(QC))
    segs = [g for g in r.log.seq.segs if not (isinstance(g.n, int) and g.n == 0)]
    if v.eng.branch(eq(p.m, 0)):
        v.ob("only the measurement", len(segs) == 1)
        if len(segs) != 1:
            return
    else:
        v.ob("one call or none per line", len(segs) == 2)
        if len(segs) != 2:
            return
        g = segs[0]
        v.ob("a line per line", eq(g.n, p.m))
        k = z3.Int("k")
        v.assume(conj(le(0, k), lt(k, p.m)))
        want = p.call(k)
        there = True if g.cond is None else g.cond(k)
        v.ob("a call for each gate line, none for any other", eq(there, want is not None))
        if want is not None:
            x = v.items(g.get(k), 5)
            for what, a, b in zip(("kind of gate", "first register", "second register", "third register", "increment"), x, want):
                v.ob(what, v.same(a, b))
    last = segs[-1]
    v.ob("one measurement at the end", isinstance(last.n, int) and last.n == 1 and v.same(v.items(last.get(0), 5)[0], 6))


def registers(backend, file, unit, indented):
    def run(v):
        p, r, got = parsed(v, backend, file, unit, indented)
        if len(r.made) != 1:
            return
        b = r.made[0]
        want = v.cls(backend) if backend else v.client("from qudiet.core.backend import DefaultBackend\n", "DefaultBackend")
        v.ob("on the backend asked for, else the default one", v.it.force(b["backend"]) is want)
        qs = v.it.force(b["qregs"])
        v.ob("a list of dimensions", isinstance(qs, ListV))
        s = qs.seq
        v.ob("a dimension per declaration", eq(s.length(), p.n))
        q = z3.Int("q")
        v.assume(conj(le(0, q), lt(q, p.n)))
        second = v.eng.exists(p.m, lambda k: conj(eq(p.K(lift(k)), TOF), eq(p.B(lift(k)), q)))
        x = v.it.force(v.it.at(s, q))
        v.ob("the dimension declared, one more for the second register of a Toffoli line", eq(x, add(p.dim(q), ite(second, 1, 0))))
        for k in ("init_states",):
            if k in b:
                v.ob("no levels are given", v.it.force(b[k]) is None)

    w = backend.split(".")[-1] if backend else "default backend"
    return Task(f"registers of a {'file' if file else 'text'}[{w}, .{unit}{', indented' if indented else ''}]", run, [QASM + "circuit_from_qasm"] + ([QASM + "parse_qasm"] if file else []))

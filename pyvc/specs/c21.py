"""C21: what the graphical drawing puts on the axes.  The axes are those of a client that keeps a record of the calls; a text
has the extent ext(x, y), an arbitrary number.

one gate: every kind of gate is placed by a real gate call on a fresh circuit and the layer is drawn: the texts, marked
points and lines are those of that gate, and nothing else is drawn for the idle registers.
whole circuits: any number of layers of any gates; for an arbitrary register and label, the number of times the label is
written at the register is the number of gates that have it there."""
from .circ import *
from .c11 import a_list, controls, span
from .c19 import circuit

DRAW = "qudiet.utility.circuit_draw."
STUBS = """
class Extent:
    def __init__(self, w):
        self.w = w
    def get_window_extent(self, *a, **k):
        return self
    def get_points(self):
        return [[0, 0], [self.w, 1]]

class Axes:
    def __init__(self):
        self.log = []
    def text(self, x, y, s, **k):
        self.log.append(("text", x, y, s, k))
        return Extent(extent(x, y, s))
    def annotate(self, s, xy, **k):
        self.log.append(("annotate", xy[0], xy[1], s, k))
        return Extent(extent(xy[0], xy[1], s))
    def plot(self, x, y, **k):
        self.log.append(("plot", x, y, None, k))
    def add_patch(self, p):
        self.log.append(("patch", None, None, p, {}))

def extent(x, y, s):
    return 1

def rectangle(xy, width, height, **k):
    return (xy, width, height)
"""


def library(v, text):
    """the parts of matplotlib the code under contract calls; the extent of a text is any function of the text and its place"""
    v.it.stubs["matplotlib.patches.Rectangle"] = v.client(text, "rectangle")


    def extent(it, f, b):
        s = it.force(b["s"])
        ps = (s,) if isinstance(s, str) else s.parts
        name, args = "extent", [real(it.force(b["x"])), real(it.force(b["y"]))]
        for p in ps:
            if isinstance(p, str):
                name += ":" + p
            elif p[0] == "str" and is_num(it.force(p[1])):
                name += "#"
                args.append(real(it.force(p[1])))
            else:
                raise Unsupported("extent of this text")
        return z3.Function(name, *[z3.RealSort()] * (len(args) + 1))(*[lift(a) for a in args])

    v.it.contracts["client.extent"] = extent


class Log:
    """the record of one drawing, as python values"""

    def __init__(self, v, ax):
        self.v = v
        self.texts, self.plots = [], []
        calls = seq_of(v, v.get(ax, "log")).concrete()
        if calls is None:
            raise Unsupported("unknown number of drawing calls")
        for c in calls:
            what, x, y, s, k = v.items(c, 5)
            if what in ("text", "annotate"):
                self.texts.append((what, x, y, s))
            elif what == "plot":
                self.plots.append((x, y, k))
        return

    def opt(self, k, name):
        return self.v.it.lib.dict_get(k, name, None)


def start(v):
    library(v, STUBS)
    v.eng.name_states = True
    C = Circuit(v, BACKENDS["sparse"], "fresh")
    x, dpi = z3.Reals("x dpi")
    v.assume(lt(0, dpi))
    return C, x, dpi


def drawn(v, C, x, dpi, split=False):
    ax = v.call(v.client(STUBS, "Axes"))
    layers = C.layers()
    m = v.it.force(v.it.at(layers, sub(layers.length(), 1)))
    v.eng.split_first = split
    v.call(v.fn(DRAW + "_draw_layer"), v.call(v.get(m, "peek_list")), x, ax, dpi)
    return Log(v, ax)


def text(v, *parts):
    return StrT([p if isinstance(p, str) else ("str", p) for p in parts])


def label(v, L, parts, y):
    """exactly one label, this one, at this height"""
    ts = [t for t in L.texts if t[0] == "text"]
    v.ob("one label", len(ts) == 1)
    if len(ts) == 1:
        v.ob("at its register", eq(ts[0][2], add(y, 1)))
        v.ob("it is its own", v.it.lib.text_eq(v.it.force(ts[0][3]), text(v, *parts)))


def seqs(v, x, y):
    x, y = seq_of(v, x), seq_of(v, y)
    return x, y


def one(name, letter):
    def run(v):
        C, x, dpi = start(v)
        q, plus = z3.Ints("q plus")
        v.assume(conj(le(0, q), lt(q, C.n)))
        v.eng.split_points.append(q)
        args = [v.call(v.client("def client(A):\n    class Custom(A):\n        pass\n    return Custom\n"), v.cls(GATES["g"]))] if name == "gate" else []
        v.call(v.get(C.c, name), *args, q, **({"plus": plus} if name == "x" else {}))
        L = drawn(v, C, x, dpi, True)
        parts = ["$X^{+", plus, "}_{", C.d(q), "}$"] if name == "x" else [f"${letter}$"]
        label(v, L, parts, q)
        v.ob("no line", not L.plots)

    return Task(f"drawing {name}", run, [DRAW + "_draw_layer"])


def line(v, L, lo, hi, iscontrol):
    """the only line goes over the registers lo .. hi and marks the controls"""
    v.ob("one line", len(L.plots) == 1)
    if len(L.plots) != 1:
        return
    x, y, k = L.plots[0]
    xs, ys = seqs(v, x, y)
    n = add(sub(hi, lo), 1)
    v.ob("a point of the line per register", conj(eq(xs.length(), n), eq(ys.length(), n)))
    v.ob("marked with dots", L.opt(k, "marker") == "o")
    me = L.opt(k, "markevery")
    ms = seq_of(v, me)
    v.ob("a mark or none per register", eq(ms.length(), n))
    j = z3.Int("j")
    v.assume(conj(le(0, j), lt(j, n)))
    v.ob("the line goes from the lowest to the highest register", eq(v.it.at(ys, j), add(add(lo, j), 1)))
    v.ob("marks exactly the controls", eq(v.it.truth(v.it.force(v.it.at(ms, j))), iscontrol(add(lo, j))))


def cx(forward):
    def run(v):
        eng = v.eng
        C, x, dpi = start(v)
        lo, hi, plus = z3.Ints("lo hi plus")
        span(v, C, lo, hi)
        a, b = (lo, hi) if forward else (hi, lo)
        v.call(v.get(C.c, "cx"), TupleV([a, b]), plus)
        L = drawn(v, C, x, dpi)
        if eng.branch(conj(eq(C.d(a), 2), eq(C.d(b), 2))):
            v.ob("qubits: no label", not L.texts)
            dots, symbols = [], []
            for px, py, k in L.plots:
                mk, me = L.opt(k, "marker"), L.opt(k, "markevery")
                pts = [add(e, 0) for e in v.items(py, 2)] if isinstance(py, (ListV, TupleV)) else [py]
                on = [v.it.force(e) for e in seq_of(v, me).concrete()]
                if mk == "+":
                    symbols += [p for p, o in zip(pts, on) if o]
                elif L.opt(k, "color") == "black":
                    dots += [p for p, o in zip(pts, on) if o]
            v.ob("qubits: one dot", len(dots) == 1)
            v.ob("qubits: it is at the control", len(dots) != 1 or eq(dots[0], add(a, 1)))
            v.ob("qubits: one plus sign", len(symbols) == 1)
            v.ob("qubits: it is at the target", len(symbols) != 1 or eq(symbols[0], add(b, 1)))
        else:
            label(v, L, ["$X^{+", plus, "}_{", C.d(b), "}$"], b)
            line(v, L, lo, hi, lambda r: eq(r, a))

    return Task(f"drawing cx[control {'before' if forward else 'after'} target]", run, [DRAW + "_draw_layer"])


def tof(some):
    def run(v):
        C, x, dpi = start(v)
        lo, hi, t, q, plus = z3.Ints("lo hi t q plus")
        if some:
            span(v, C, lo, hi)
            ctl = controls(v, lo, hi, t, q)
            c = v.eng.intseqs["ctl"]
            a, b = z3.Ints("lo_at hi_at")
            v.assume(z3.And(z3.Or(t == lo, z3.And(a >= 0, a < q, c(a) == lo)), z3.Or(t == hi, z3.And(b >= 0, b < q, c(b) == hi))))
        else:
            v.assume(conj(le(0, t), lt(t, C.n)))
            v.eng.split_points.append(t)
            lo = hi = t
            ctl = a_list([])
            v.it.contracts["qudiet.circuit_library.standard_gates.toffoli_utility.toffoli_dm"] = lambda it, f, b: TupleV([Opaque("matrix", ()), t, t])
        v.call(v.get(C.c, "toffoli"), TupleV([ctl, t]), plus)
        L = drawn(v, C, x, dpi)
        label(v, L, ["$X^{+", plus, "}_{", C.d(t), "}$"], t)
        line(v, L, lo, hi, lambda r: v.eng.exists(q, lambda j: eq(c(lift(j)), r)) if some else False)

    return Task(f"drawing toffoli[{'controls' if some else 'no control'}]", run, [DRAW + "_draw_layer"])


def gate2(v):
    C, x, dpi = start(v)
    lo = z3.Int("lo")
    span(v, C, lo, add(lo, 1))
    A = v.call(v.client("def client(A):\n    class Custom(A):\n        pass\n    return Custom\n"), v.cls(GATES["g"]))
    v.call(v.get(C.c, "gate"), A, a_list([lo, add(lo, 1)]))
    L = drawn(v, C, x, dpi)
    v.ob("one label", len(L.texts) == 1)
    v.ob("its own", v.same(L.texts[0][3], "G"))
    v.ob("between its registers", eq(L.texts[0][2], add(real(lo), Fraction(3, 2))))
    ys = [y for x_, y, k in L.plots]
    v.ob("one line of marks", len(ys) == 1)
    y = v.items(ys[0], 2)
    v.ob("a mark at each of its registers", conj(eq(y[0], add(lo, 1)), eq(y[1], add(lo, 2))))


COUNT = """
class Extent:
    def __init__(self, w):
        self.w = w
    def get_window_extent(self, *a, **k):
        return self
    def get_points(self):
        return [[0, 0], [self.w, 1]]

class Figure:
    def __init__(self, size):
        self.size = size
    def get_size_inches(self):
        return self.size

class Axis:
    def set_visible(self, b):
        pass

class Axes:
    def __init__(self, size, q, s):
        self.figure = Figure(size)
        self.q = q
        self.s = s
        self.hits = 0
    def text(self, x, y, s, **k):
        if y == self.q + 1 and s == self.s:
            self.hits += 1
        return Extent(extent(x, y, s))
    def annotate(self, s, xy, **k):
        return Extent(extent(xy[0], xy[1], s))
    def plot(self, x, y, **k):
        pass
    def add_patch(self, p):
        pass
    def set_xlim(self, **k):
        pass
    def set_ylim(self, **k):
        pass
    def set_title(self, *a, **k):
        pass
    def get_xaxis(self):
        return Axis()
    def get_yaxis(self):
        return Axis()

def extent(x, y, s):
    return 1

def rectangle(xy, width, height, **k):
    return (xy, width, height)

def make(size, q, s):
    return Axes(size, q, s)

class Page:
    def __init__(self, ax):
        self.ax = ax
    def subplots(self, figsize):
        # the record is kept over all pages
        return (self.ax.figure, self.ax)
    def show(self):
        pass
    def close(self):
        pass

def page(ax):
    return Page(ax)
"""


class Drawn(Gates):
    """gates with the data the drawing reads; what is said of the data is what the constructors of the gates and the gate calls establish
    (C11), for circuits of registers of dimensions d"""

    def __init__(self, v, n, d):
        super().__init__(v)
        self.n, self.d = n, d
        self.nctl = z3.Function("n_ctl_gate", I, I)
        self.ctls = z3.Function("ctls_gate", I, I, I)
        g, j = z3.Ints("g j")
        lo, hi, t, kd = self.lo, self.hi, self.tgt, self.kind
        v.eng.fact(z3.ForAll([g], z3.And(0 <= lo(g), lo(g) <= hi(g), hi(g) < n, lo(g) <= t(g), t(g) <= hi(g), lo(g) <= self.ctl(g), self.ctl(g) <= hi(g), self.nctl(g) >= 0), patterns=[lo(g), hi(g), t(g), self.ctl(g), self.nctl(g)]))
        v.eng.fact(z3.ForAll([g], z3.Implies(kd(g) == K["cx"], z3.And(z3.Or(lo(g) == t(g), lo(g) == self.ctl(g)), self.ctl(g) != t(g))), patterns=[kd(g)]))
        v.eng.fact(z3.ForAll([g, j], z3.Implies(z3.And(0 <= j, j < self.nctl(g)), z3.And(lo(g) <= self.ctls(g, j), self.ctls(g, j) <= hi(g))), patterns=[self.ctls(g, j)]))

    def getattr(self, it, o, name):
        k = lift(o.key)
        br = self.v.eng.branch
        if name in ("plus", "_plus"):
            own = self.is_(o, "x") if name == "plus" else self.is_(o, "cx", "tof")
            if not br(own):
                raise Unsupported(f"attribute {name} of a gate")
            return self.plus(k)
        if name == "dims" and br(self.is_(o, "x", "z", "h", "i", "g1")):
            return self.d(self.lo(k))
        if name == "dims" and br(self.is_(o, "tof", "g2")) or name == "_qreg" and br(self.is_(o, "cx")):
            lo = self.lo(k)
            return ListV(Seq([Seg(add(sub(self.hi(k), lo), 1), lambda j: self.d(lift(add(lo, j))), True)]))
        return super().getattr(it, o, name)


def drawn_gates(v, n):
    eng = v.eng
    d = z3.Function("d", I, I)
    eng.intseqs["d"] = d
    k = z3.Int("k")
    eng.fact(z3.ForAll([k], d(k) >= 2, patterns=[d(k)]))
    G = Drawn(v, n, d)
    return d, G


def record(v, letter, size, q, P, D):
    """axes that count the texts of the given letter and data at register q"""
    want = text(v, "$X^{+", P, "}_{", D, "}$") if letter == "X" else f"${letter}$"
    library(v, COUNT)
    return v.call(v.client(COUNT, "make"), a_list(size), q, want)


def has(G, d, letter, q, P, D, g):
    """gate g has the label at register q"""
    g = lift(g)
    k = G.kind(g)
    if letter in ("H", "Z", "M", "G"):
        return conj(eq(k, K["g1" if letter == "G" else letter.lower()]), eq(G.lo(g), q))
    data = z3.And(G.plus(g) == P, d(q) == D)
    plain = z3.And(d(G.ctl(g)) == 2, d(G.tgt(g)) == 2)
    return z3.And(data, z3.Or(z3.And(k == K["x"], G.lo(g) == q), z3.And(k == K["tof"], G.tgt(g) == q), z3.And(k == K["cx"], G.tgt(g) == q, z3.Not(plain))))


def layer(letter):
    """a layer of any number of gates"""

    def run(v):
        eng = v.eng
        n, m, q, P, D = z3.Ints("n size q P D")
        v.assume(conj(le(1, n), le(0, m), le(0, q), lt(q, n)))
        d, G = drawn_gates(v, n)
        g = z3.Int("g")
        eng.fact(z3.ForAll([g], z3.And(G.kind(g) >= 0, G.kind(g) <= K["m"]), patterns=[G.kind(g)]))
        gs = ListV(Seq([Seg(m, lambda j: G.get(j))]))
        eng.name_states = True
        ax = record(v, letter, [1, 1], q, P, D)
        x, dpi = z3.Reals("x dpi")
        v.assume(lt(0, dpi))
        v.call(v.fn(DRAW + "_draw_layer"), gs, x, ax, dpi)
        total = eng.sum(m, lambda j: ite(has(G, d, letter, q, P, D, j), 1, 0))
        v.ob("the label is written at the register as often as gates have it there", eq(v.get(ax, "hits"), total))

    return Task(f"drawing a layer: label {letter}", run, [DRAW + "_draw_layer"])


def use_layer(v, L, letter, q, P, D):
    """contract of _draw_layer, proved by the tasks of the layers: the label is written at the register as often as gates of the
    layer have it there; the width returned is some number of the layer and its place"""
    G, d = L.G, L.G.d
    width = z3.Function("layer_width", I, z3.RealSort(), z3.RealSort(), z3.RealSort())

    def contract(it, f, b):
        gs = it.force(b["gates"])
        if not isinstance(gs, ListV) or len(gs.seq.segs) != 1:
            return NotImplemented
        g = gs.seq.segs[0]
        x = it.force(g.get(0))
        if not isinstance(x, SymObj) or x.schema is not G or g.cond is not None:
            return NotImplemented
        k = lift(x.key)
        if not k.decl().eq(L.gate):
            return NotImplemented
        ax = it.force(b["ax"])
        n = v.eng.sum(g.n, lambda i: ite(has(G, d, letter, q, P, D, L.gate(k.arg(0), lift(i))), 1, 0))
        it.setattr(ax, "hits", add(it.getattr(ax, "hits"), n))
        return width(k.arg(0), lift(real(it.force(b["i"]))), lift(real(it.force(b["dpi"]))))

    v.it.contracts[DRAW + "_draw_layer"] = contract


def whole(letter):
    """a measured circuit of any number of layers, drawn by QuantumCircuit.draw"""

    def run(v):
        eng = v.eng
        eng.name_states = True
        q, P, D = z3.Ints("q P D")
        c, n, m, L = circuit(v, True, make=lambda n: drawn_gates(v, n)[1])
        G, d = L.G, L.G.d
        v.assume(conj(le(0, q), lt(q, n)))
        compress = z3.Int("compress")
        v.assume(le(0, compress))
        ax = record(v, letter, [add(15, mul(n, compress)), add(n, 1)], q, P, D)
        use_layer(v, L, letter, q, P, D)
        page = v.call(v.client(COUNT, "page"), ax)
        dpi = z3.Real("dpi")
        v.assume(lt(0, dpi))
        for f in ("subplots", "show", "close"):
            v.it.stubs["matplotlib.pyplot." + f] = v.get(page, f)
        v.it.stubs["matplotlib.pyplot.rcParams"] = v.call(v.client("def client(x):\n    return {'figure.dpi': x}\n"), dpi)
        v.call(v.get(c, "draw"), "mpl", compress=compress)
        total = eng.sum(m, lambda k: eng.sum(L.size(lift(k)), lambda i: ite(has(G, d, letter, q, P, D, L.gate(lift(k), lift(i))), 1, 0)))
        v.ob("the label is written at the register as often as gates have it there", eq(v.get(ax, "hits"), add(total, 1 if letter == "M" else 0)))

    return Task(f"drawing a circuit: label {letter}", run, [DRAW + "draw_circuit_mpl", QC + ".draw"])


def tasks():
    out = [one(*k) for k in (("x", "X"), ("h", "H"), ("z", "Z"), ("gate", "G"))] + [cx(True), cx(False), tof(True), tof(False)]
    out += [Task("drawing a gate on two registers", gate2, [DRAW + "_draw_layer"])]
    return out + [layer(x) for x in "XHZGM"] + [whole(x) for x in "XHZGM"]

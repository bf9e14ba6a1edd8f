"""C20: the text form of a circuit of any number of registers and layers of any gates, entry by entry."""
from .c11 import ADD, controls
from .c19 import circuit
from .c21 import drawn_gates
from .circ import *

WIDTH = 5


def padded(v, parts):
    """the drawn entry: centred in five characters, the first odd blank on the left"""
    n = sum(len(p) if isinstance(p, str) else 1 for p in parts)
    t = list(parts)
    for k in range(max(0, WIDTH - n)):
        t = ["-"] + t if k % 2 == 0 else t + ["-"]
    return StrT([p if isinstance(p, str) else ("str", p) for p in t])


def small(v, d):
    k = z3.Int("k")
    v.eng.fact(z3.ForAll([k], d(k) <= 9, patterns=[d(k)]))


def symbol(v, L, l, q):
    """what the covering gate of register q in layer l shows there"""
    G, br = L.G, v.eng.branch
    g = L.gate(lift(l), L.cover(lift(l), lift(q)))
    k = G.kind(g)
    for kind, what in (("h", ["H"]), ("z", ["Z"]), ("x", ["X(", G.plus(g), ")"])):
        if br(eq(k, K[kind])):
            return what
    if br(eq(k, K["cx"])):
        if br(eq(q, G.ctl(g))):
            return ["*"]
        return ["X(", G.plus(g), ")"] if br(eq(q, G.tgt(g))) else ["|"]
    if br(eq(k, K["tof"])):
        if br(eq(q, G.tgt(g))):
            return ["X(", G.plus(g), ")"]
        return ["*"] if br(v.eng.exists(G.nctl(g), lambda j: eq(G.ctls(g, lift(j)), q))) else ["|"]
    return ["-----"]


def covered(v, L, n):
    """every layer covers the registers, each once"""
    eng, G = v.eng, L.G
    L.cover = cov = z3.Function("cover", I, I, I)
    l, j, q = z3.Ints("l j q")
    g = L.gate(l, j)
    inr = z3.And(0 <= j, j < L.size(l))
    eng.fact(z3.ForAll([l, q], z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= cov(l, q), cov(l, q) < L.size(l), G.lo(L.gate(l, cov(l, q))) <= q, q <= G.hi(L.gate(l, cov(l, q))))), patterns=[cov(l, q)]))
    eng.fact(z3.ForAll([l, j, q], z3.Implies(z3.And(inr, G.lo(g) <= q, q <= G.hi(g)), cov(l, q) == j), patterns=[z3.MultiPattern(g, cov(l, q))]))
    a = z3.Int("a")
    # one register, or several
    single = z3.Or(*[G.kind(a) == K[x] for x in ("i", "x", "z", "h", "g1")])
    eng.fact(z3.ForAll([a], z3.If(G.lo(a) == G.hi(a), z3.Or(single, G.kind(a) == K["tof"]), z3.Not(single)), patterns=[G.kind(a)]))
    c = z3.Int("c")
    eng.fact(z3.ForAll([a, c], z3.Implies(z3.And(0 <= c, c < G.nctl(a)), G.ctls(a, c) != G.tgt(a)), patterns=[G.ctls(a, c)]))
    # a CX gate spans the registers from the one it names to the other
    eng.fact(z3.ForAll([a], z3.Implies(G.kind(a) == K["cx"], z3.Or(z3.And(G.lo(a) == G.ctl(a), G.hi(a) == G.tgt(a)), z3.And(G.lo(a) == G.tgt(a), G.hi(a) == G.ctl(a)))), patterns=[G.kind(a)]))
    eng.fact(z3.ForAll([a], z3.And(G.plus(a) >= 0, G.plus(a) <= 8), patterns=[G.plus(a)]))


def levels(v, lv):
    """initial levels of the registers, one digit each"""
    k = z3.Int("k")

    def init(n, d):
        v.eng.intseqs["level"] = lv
        v.eng.fact(z3.ForAll([k], z3.And(lv(k) >= 0, lv(k) < d(k)), patterns=[lv(k)]))
        return ListV(Seq([Seg(n, lambda j: lv(lift(j)), True)]))

    return init


def line(v, t, n, m, q):
    """the line of register q in the text t, after the obligations on its form"""
    def need(name, cond):
        v.ob(name, cond)
        if cond is False:
            raise Unsupported("text of another form")

    need("a text", isinstance(t, StrT))
    ps = t.parts
    need("the lines of the registers, then the last one", len(ps) >= 2 and not isinstance(ps[0], str) and ps[0][0] == "join" and ps[0][1] == "")
    v.ob("the last line: depth and width", v.it.lib.text_eq(StrT(ps[1:]), StrT(["\ndepth: ", str(m) if isinstance(m, int) else ("str", m), ", width: ", ("str", n)])))
    rows = ps[0][2]
    need("a line per register", conj(len(rows.segs) == 1 and rows.segs[0].cond is None, eq(rows.segs[0].n, n)))
    return v.it.force(rows.segs[0].get(q)), need


def taken(v, t, n, m, q, l):
    """the entry in column l of that line"""
    row, need = line(v, t, n, m, q)
    rp = row.parts if isinstance(row, StrT) else [row]
    need("entries, then the end of the line", len(rp) == 2 and rp[1] == "\n" and rp[0][0] == "join" and rp[0][1] == "")
    cols = rp[0][2]
    need("an entry per layer", conj(len(cols.segs) == 1 and cols.segs[0].cond is None, eq(cols.segs[0].n, add(m, 2))))
    return v.it.force(cols.segs[0].get(l))


def whole(measured):
    def run(v):
        eng = v.eng
        lv = z3.Function("level", I, I)
        eng.name_states = True
        made = []

        def make(n):
            d, G = drawn_gates(v, n)
            made.append(d)
            return G

        c, n, m, L = circuit(v, measured, make=make, init=levels(v, lv))
        d = made[0]
        small(v, d)
        covered(v, L, n)
        t = v.it.force(v.call(v.client("def client(c):\n    return str(c)\n"), c))
        q, l = z3.Ints("q l")
        v.assume(conj(le(0, q), lt(q, n), le(0, l), lt(l, add(m, 2))))
        if eng.branch(eq(l, 0)):
            want = ["(", d(q), ")|", lv(q), ">"]
        elif eng.branch(le(l, m)):
            want = symbol(v, L, sub(l, 1), q)
        else:
            want = ["M"] if measured else ["-----"]
        v.ob("the entry", v.it.lib.text_eq(taken(v, t, n, m, q, l), padded(v, want)))

    return Task(f"the text of a circuit[{'measured' if measured else 'open'}]", run, [QC + ".__str__"])


ONE = {"h": "c.h(q)", "z": "c.z(q)", "x": "c.x(q, plus=p)", "cx": "c.cx([q, u], p)", "toffoli": "c.toffoli([cs, q], p)"}


def one(name, forward=True):
    """the layer a call makes (C11), as the only one of a circuit: what the gates say of themselves is what they were asked for"""

    def run(v):
        eng = v.eng
        eng.name_states = True
        n, q, u, p, r, l, nc, lo, hi, k = z3.Ints("n q u p r l controls lo hi k")
        d = z3.Function("d", I, I)
        eng.intseqs["d"] = d
        v.assume(conj(le(1, n), le(0, q), lt(q, n), le(0, p), le(p, 8)))
        eng.fact(z3.ForAll([k], d(k) >= 2, patterns=[d(k)]))
        small(v, d)
        pts, cl = [q], None
        if name == "cx":
            v.assume(conj(le(0, u), lt(u, n), lt(q, u) if forward else lt(u, q)))
            pts = [q, u] if forward else [u, q]
        if name == "toffoli":
            v.assume(conj(le(0, lo), lt(lo, hi), lt(hi, n)))
            cl = controls(v, lo, hi, q, nc)
            ends = lambda x: disj(eq(q, x), eng.exists(nc, lambda j: eq(v.it.at(cl.seq, j), x)))
            v.assume(conj(ends(lo), ends(hi)))
            pts = [lo, hi]
        regs = ListV(Seq([Seg(n, lambda j: d(lift(j)), True)]))
        c = v.call(v.client("def client(QC, be, regs):\n    return QC(regs, backend=be)\n"), v.cls(QC), v.cls(BACKENDS["sparse"]), regs)
        push = v.client("def client(flow, ms):\n    flow._opflow_list = flow._opflow_list + list(ms)\n    return True\n")
        v.it.contracts[ADD] = lambda it, f, b: v.call(push, b["self"], b["args"])
        eng.split_points, eng.split_first = pts, True
        v.call(v.client("def client(c, q, u, p, cs):\n    " + ONE[name] + "\n"), c, q, u, p, cl)
        eng.split_points, eng.split_first = [], False
        t = v.it.force(v.call(v.client("def client(c):\n    return str(c)\n"), c))
        v.assume(conj(le(0, r), lt(r, n)))
        b = eng.branch
        blank, inc = ["-----"], ["X(", p, ")"]
        if name == "cx":
            want = ["*"] if b(eq(r, q)) else inc if b(eq(r, u)) else ["|"] if b(conj(lt(pts[0], r), lt(r, pts[1]))) else blank
        elif name == "toffoli":
            want = inc if b(eq(r, q)) else ["*"] if b(eng.exists(nc, lambda j: eq(v.it.at(cl.seq, j), r))) else ["|"] if b(conj(lt(lo, r), lt(r, hi))) else blank
        else:
            want = {"h": ["H"], "z": ["Z"], "x": inc}[name] if b(eq(r, q)) else blank
        full = [x for w in (["(", d(r), ")|0>"], want, blank) for x in padded(v, w).parts]
        v.ob("the line", v.it.lib.text_eq(line(v, t, n, 1, r)[0], StrT([*full, "\n"])))

    how = f"[control {'before' if forward else 'after'} target]" if name == "cx" else ""
    return Task(f"the text of the layer of {name}{how}", run, [QC + ".__str__", QC + "." + name, QC + ".__init__"])


def tasks():
    return [whole(True), whole(False)] + [one(x) for x in ONE] + [one("cx", False)]

"""shared parts of the property specifications"""
import z3

from ..core import *
from ..values import *
from ..verify import Missing, Task

SRC = "qudiet."
BACKENDS = {"numpy": "qudiet.core.backend.NumpyBackend.NumpyBackend", "sparse": "qudiet.core.backend.SparseBackend.SparseBackend"}
GATES = {
    "x": "qudiet.circuit_library.standard_gates.x.XGate",
    "z": "qudiet.circuit_library.standard_gates.z.ZGate",
    "h": "qudiet.circuit_library.standard_gates.h.HGate",
    "i": "qudiet.circuit_library.standard_gates.i.IGate",
    "cx": "qudiet.circuit_library.standard_gates.cx.CXGate",
    "tof": "qudiet.circuit_library.standard_gates.toffoli_utility.Toffoli",
    "g": "qudiet.circuit_library.ArbitaryGate",
    "m": "qudiet.circuit_library.standard_gates.measurement.Measurement",
}
EXACT = "machine arithmetic is treated as mathematical: integers without overflow, complex amplitudes without rounding"


def num(m, x):
    return m.eval(lift(x), model_completion=True).as_long()


def matrix_view(v, u, n, m=None):
    """shape obligation; element function"""
    m = n if m is None else m
    if not isinstance(u, ArrV) or len(u.shape) != 2:
        v.ob("the result is a matrix", False)
        raise Infeasible()
    v.ob("shape", conj(eq(u.shape[0], n), eq(u.shape[1], m)))
    return u.snap()


def mod_cancel(a, b, k, d):
    """lemma mod_add_cancel (lemmas/Arith.lean)"""
    a, b, k, d = lift(a), lift(b), lift(k), lift(d)
    return z3.Implies(z3.And(d > 0, a >= 0, a < d, b >= 0, b < d, MOD(a + k, d) == MOD(b + k, d)), a == b)


class Dims:
    """register dimensions d(lo) .. d(hi-1), every one at least 2"""

    def __init__(self, v, n, name="d", lo=0, d=None):
        eng = v.eng
        self.v, self.lo, self.n = v, lo, n
        self.name = name
        if d is None:
            d = z3.Function(name, z3.IntSort(), z3.IntSort())
            eng.intseqs[name] = d
            k = z3.Int("k_" + name)
            eng.fact(z3.ForAll([k], d(k) >= 2, patterns=[d(k)]))
        self.d = d

        def around(e, f, l, h, p):
            # lemma prod_split around one register: P(lo, hi) = P(lo, c) * d(c) * P(c + 1, hi)
            if not f.eq(self.d):
                return
            n, o = lift(self.n), lift(self.lo)
            for c in ([simp(l - 1)] if h.eq(n) else []) + ([simp(h)] if l.eq(o) else []):
                c = lift(c)
                F = e.prods[f.name()]["f"]
                e.fact(z3.Implies(z3.And(c >= o, c < n), F(o, n) == F(o, c) * self.d(c) * F(c + 1, n)), [p])
                e.trusted.add("lemma prod_split (lemmas/Arith.lean)")

        eng.on_prod.append(around)
        # the first and the last register
        for x, y in ((add(lo, 1), n), (lo, sub(n, 1))):
            self.P(x, y)

    def seq(self, lo=None, hi=None):
        lo = self.lo if lo is None else lo
        hi = self.n if hi is None else hi
        return Seq([Seg(sub(hi, lo), lambda j: self.d(lift(add(lo, j))), True)])

    def list(self, lo=None, hi=None):
        return ListV(self.seq(lo, hi))

    def P(self, a, b):
        return self.v.eng.prod_uf(self.d, a, b)

    def W(self, i):
        """weight of register i"""
        return self.P(add(i, 1), self.n)

    def total(self):
        return self.P(self.lo, self.n)

    def split(self, a, b, c):
        """lemma prod_split at a, b, c"""
        self.v.eng.prod_split(self.d, a, b, c)
        self.v.eng.trusted.add("lemma prod_split (lemmas/Arith.lean)")

    def digits(self):
        """DIG(i, r): the digit of register i of the number r, by definition (r // W(i)) mod d(i)"""
        eng, d, n, o = self.v.eng, self.d, lift(self.n), lift(self.lo)
        self.DIG = D = z3.Function("DIG_" + self.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        i, r = z3.Ints("i r")
        P = lambda a, b: lift(self.P(a, b))
        P(o, n)
        Pf = eng.prods[d.name()]["f"]
        t = D(i, r)
        eng.fact(z3.ForAll([i, r], z3.And(t >= 0, t < d(i), t == MOD(DIV(r, Pf(i + 1, n)), d(i))), patterns=[t]))
        # the first digit needs no mod
        eng.fact(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < Pf(o, n)), D(o, r) == DIV(r, Pf(o + 1, n))), patterns=[D(o, r)]))
        # lemma digits_unique: different numbers differ in some digit
        self.K = z3.Function("differ_" + self.name, z3.IntSort(), z3.IntSort(), z3.IntSort())
        # MARK(y): numbers for which the lemmas below are used
        self.MARK = z3.Function("MARK_" + self.name, z3.IntSort(), z3.BoolSort())

        def rw(a, b):
            if z3.is_app(b) and b.decl().eq(d) and z3.is_app(a) and a.decl().name() == "floordiv":
                w = a.arg(1)
                if z3.is_app(w) and w.decl().eq(Pf) and w.arg(1).eq(n) and z3.simplify(w.arg(0) - 1 - b.arg(0)).eq(z3.IntVal(0)):
                    return D(b.arg(0), a.arg(0))
                # the last register has weight 1
            if z3.is_app(b) and b.decl().eq(d) and z3.simplify(b.arg(0) + 1 - n).eq(z3.IntVal(0)) and not (z3.is_app(a) and a.decl().name() == "floordiv") and not mentions_fn(a, D):
                return D(b.arg(0), a)
            return None

        eng.rewrites.append(rw)

    def unique(self, x, y):
        """lemma digits_unique (lemmas/MixedRadix.lean) for the numbers x and y"""
        x, y, n = lift(x), lift(y), lift(self.n)
        t, k = lift(self.total()), self.K(lift(x), lift(y))
        self.v.eng.trusted.add("lemma digits_unique (lemmas/MixedRadix.lean)")
        return z3.Implies(z3.And(x >= 0, x < t, y >= 0, y < t, x != y), z3.And(k >= lift(self.lo), k < n, self.DIG(k, x) != self.DIG(k, y)))

    def update(self, name, t, new):
        """the function that replaces digit t of a number r by new(r), for numbers with 0 <= new(r) < d(t);
        it exists by lemma digit_update (lemmas/MixedRadix.lean)"""
        eng, n, o = self.v.eng, lift(self.n), lift(self.lo)
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        t = lift(t)
        T = lift(self.total())
        c, r = z3.Ints("c r")
        v = lift(new(r))
        ok = z3.And(r >= 0, r < T, t >= o, t < n)
        eng.fact(z3.ForAll([r], z3.Implies(ok, z3.And(f(r) >= 0, f(r) < T)), patterns=[f(r)]))
        eng.fact(z3.ForAll([r, c], z3.Implies(z3.And(ok, c >= o, c < n), self.DIG(c, f(r)) == z3.If(c == t, v, self.DIG(c, r))), patterns=[self.DIG(c, f(r))]))
        eng.trusted.add("lemma digit_update (lemmas/MixedRadix.lean)")

        def at(r, c):
            """the instance for number r and register c"""
            r, c = lift(r), lift(c)
            inst = lambda e: z3.substitute(e, (z3.Int("r"), r), (z3.Int("c"), c))
            return z3.Implies(z3.And(inst(ok), c >= o, c < n), self.DIG(c, f(r)) == z3.If(c == t, inst(v), self.DIG(c, r)))

        f_at = self.update_at = getattr(self, "update_at", {})
        f_at[name] = at
        return f

    def digit(self, i, r):
        """digit i of the number r"""
        q, _ = self.v.eng.posdiv(r, self.W(i))
        return self.v.eng.posdiv(q, self.d(lift(i)))[1]


def mentions_fn(e, f):
    return bool(subterms(e, f.name()))


def search(D, images):
    """facts for searches among all numbers of D: what the search condition says at the images of the numbers in play"""

    def hook(eng, found, x, n, cond):
        if not is_sym(n) or eng.valid(eq(n, D.total())) is not True:
            return
        rows = [b for b in eng.bound if z3.is_int(b)] + getattr(D, "extra", [])
        for b in rows:
            for img in images(b):
                eng.fact(D.MARK(img), [lift(found)])
                eng.fact(implies(conj(le(0, img), lt(img, n)), disj(found, nott(cond(img)))), [lift(found)])
        for b in rows:
            for img in images(b):
                eng.fact(z3.Implies(found, D.unique(x, img)), [lift(x)])

    return hook


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def seq_of(v, x):
    """the sequence of a list, tuple or one-dimensional array"""
    x = v.it.force(x)
    if isinstance(x, (ListV, TupleV)):
        return x.seq
    if isinstance(x, ArrV) and len(x.shape) == 1:
        return Seq([Seg(x.shape[0], x.snap(), True)])
    v.ob("the result is a sequence", False)
    raise Infeasible()

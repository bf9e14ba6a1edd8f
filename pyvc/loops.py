"""Loops over an unknown number of elements.

The body is run once for an arbitrary iteration j, from a state described by one hypothesis per location
that the loop writes.  A hypothesis is a closed form in j that holds before the first iteration by
construction and is checked to be preserved by the body: a loop invariant found by the tool.  Locations
without a hypothesis keep their value; the result is used only after a round in which exactly the
locations with a hypothesis were written and every hypothesis was preserved."""
import z3

from .core import *
from .grid import Cells, Fam, same_alts, subst_items
from .values import *


class Upgrade(Exception):
    """the hypothesis of a location does not hold: try the next one"""

    def __init__(self, key, new):
        self.key, self.new = key, new


class Loc:
    def __init__(self, o, attr, name=None):
        self.o, self.attr, self.name = o, attr, name

    @property
    def key(self):
        return (id(self.o), self.attr, self.name)

    def read(self):
        v = getattr(self.o, self.attr)
        return v.get(self.name, MISSING) if self.name is not None else v

    def write(self, eng, v):
        if self.name is not None:
            d = dict(getattr(self.o, self.attr))
            if v is MISSING:
                d.pop(self.name, None)
            else:
                d[self.name] = v
            eng.put(self.o, self.attr, d)
        else:
            eng.put(self.o, self.attr, v)

    def __repr__(self):
        return f"{type(self.o).__name__}.{self.attr}" + (f"[{self.name}]" if self.name else "")


def written(eng, mark, amark):
    """locations written since mark, of objects that existed at amark"""
    first = {}
    for o, a, old in eng.journal[mark:]:
        if o.aid <= amark and (id(o), a) not in first:
            first[(id(o), a)] = (o, a, old)
    out = {}
    for o, a, old in first.values():
        cur = getattr(o, a)
        if a in ("vars", "fields"):
            for k in set(old) | set(cur):
                if old.get(k, MISSING) is not cur.get(k, MISSING):
                    l = Loc(o, a, k)
                    out[l.key] = (l, cur.get(k, MISSING))
        elif cur is not old:
            l = Loc(o, a)
            out[l.key] = (l, cur)
    return out


# ------------------------------------------------------------------ hypotheses
class Hyp:
    """closed form of a location: at(j) before iteration j; preserved(...) raises Upgrade if it is not"""

    def __init__(self, lp, loc, v0):
        self.lp, self.loc, self.v0 = lp, loc, v0

    memo = None

    def now(self, j):
        """at(j), the same on every path of one round"""
        if self.memo is None or not self.memo[0].eq(j):
            self.memo = (j, self.at(j))
        return self.memo[1]

    def at(self, j):
        raise NotImplementedError

    def preserved(self, alts, j):
        """alts: [(condition, value after the iteration)]"""
        raise NotImplementedError

    def up(self, new):
        raise Upgrade(self.loc.key, new)

    def same(self, a, b):
        if a is b:
            return True
        if is_num(a) and is_num(b):
            return self.lp.eng.valid(eq(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False


class Temp(Hyp):
    """written before it is read in every iteration"""

    last = None

    def at(self, j):
        return Poison(self.loc.key)

    def preserved(self, alts, j):
        self.last = (alts, j)

    def final(self, m):
        alts, j = self.last
        it, eng, v0, lp = self.lp.it, self.lp.eng, self.v0, self.lp

        def thunk():
            if eng.branch(le(m, 0)):
                if v0 is MISSING:
                    it.raise_("UnboundLocalError", str(self.loc.name))
                return it.force(v0)
            vs = [(subst(c, [(j, sub(m, 1))]), v) for c, v in alts]
            for q, (c, v) in enumerate(vs):
                if q == len(vs) - 1 or eng.branch(c):
                    if isinstance(v, (Poison,)) or v is MISSING:
                        raise Unsupported("variable that not every iteration sets, read after the loop")
                    return it.force(subst(v, [(j, sub(m, 1))], mark=lp.amark))

        return Lazy(thunk)


class Const(Hyp):
    """always the value it had"""

    def at(self, j):
        return self.v0

    def preserved(self, alts, j):
        for c, v in alts:
            if not (v is self.v0 or is_num(v) and is_num(self.v0) and self.lp.eng.valid(implies(c, eq(v, self.v0))) or isinstance(v, str) and v == self.v0 and isinstance(self.v0, str)):
                self.up(Probe)

    def final(self, m):
        return self.v0


class Unmap(Exception):
    pass


class Probe(Hyp):
    """unknown value; how the body changes it gives the closed form"""

    sort = None

    def at(self, j):
        eng = self.lp.eng
        v0 = self.v0
        self.j = j
        if is_num(v0) and not isinstance(v0, CNum):
            s = self.sort if self.sort is not None else lift(v0).sort()
            self.x = eng.fresh("old", s)
            return self.x
        if isinstance(v0, ListV) or isinstance(v0, TupleV) and not isinstance(v0, RangeV):
            self.mark = Prefix(v0.seq, None)
            s = Seq([self.mark])
            self.x = ListV(s) if isinstance(v0, ListV) else TupleV(s)
            if isinstance(v0, ListV):
                self.x.frozen = True
            return self.x
        if isinstance(v0, (MatV, ArrV)) or isinstance(v0, Opaque):
            self.x = MatV("hole", (self.loc.key,))
            return self.x
        if isinstance(v0, (str, StrT)):
            self.x = StrT([("hole", self.loc.key)])
            return self.x
        # anything else: only a fixed value can be described
        raise Unsupported(f"loop variable of kind {type(v0).__name__}")

    def preserved(self, alts, j):
        eng = self.lp.eng
        x = self.x
        if isinstance(x, (ListV, TupleV)):
            if all(type(v) is type(x) and v is not x and not any(isinstance(g, Prefix) for g in v.seq.segs) and isinstance(v.seq.concrete(), list) for _, v in alts):
                # a new short list in every iteration
                self.up(lambda lp, loc, v0: Prev(lp, loc, v0, alts, j))
            app = appended(alts, self.mark, lambda v: v.seq if type(v) is type(x) else None)
            self.up(lambda lp, loc, v0: AppendVar(lp, loc, v0, app))
        if isinstance(x, MatV):
            if len(alts) != 1:
                raise Unsupported("operator accumulated by cases")
            v = alts[0][1]
            if not isinstance(v, MatV):
                if not mentions_hole(v, self.loc.key):
                    self.up(lambda lp, loc, v0: Prev(lp, loc, v0, [(True, v)], j))
            self.up(lambda lp, loc, v0: FoldMat(lp, loc, v0, v, j))
        if isinstance(x, StrT):
            self.text(alts, j)
        vals = [v for _, v in alts]
        if any(not is_num(v) or isinstance(v, CNum) for v in vals):
            raise Unsupported("loop variable that changes its type")
        F = lift(arith(joined(alts)) if not z3.is_bool(x) else joined(alts))
        if F.sort() != x.sort():
            if z3.is_real(F) and z3.is_int(x):
                srt = F.sort()

                def mk(lp, loc, v0):
                    h = Probe(lp, loc, real(v0))
                    h.sort = srt
                    return h

                self.up(mk)
            raise Unsupported("loop variable that changes its type")
        F = z3.simplify(F)
        # the unknown value must not occur in the conditions
        if not mentions(F, x):
            self.up(lambda lp, loc, v0: Prev(lp, loc, v0, [(True, F)], j))
        if z3.is_bool(F):
            t, f = simp(z3.substitute(F, (x, z3.BoolVal(True)))), simp(z3.substitute(F, (x, z3.BoolVal(False))))
            if t is True:
                self.up(lambda lp, loc, v0: Flag(lp, loc, v0, f, j, True))
            if f is False:
                self.up(lambda lp, loc, v0: Flag(lp, loc, v0, t, j, False))
            raise Unsupported("truth value changed by the loop")
        D = simp(F - x)
        if not mentions(lift(D), x):
            self.up(lambda lp, loc, v0: Acc(lp, loc, v0, D, j))
        D2 = simp(z3.simplify(F - x, som=True, pull_cheap_ite=True))
        if not mentions(lift(D2), x):
            self.up(lambda lp, loc, v0: Acc(lp, loc, v0, D2, j))
        D = self.delta(F, x)
        if D is not None:
            self.up(lambda lp, loc, v0: Acc(lp, loc, v0, D, j))
        if z3.is_app(F) and F.decl().name() == "floordiv" and F.arg(0).get_id() == x.get_id() and not mentions(F.arg(1), x):
            b = F.arg(1)
            self.up(lambda lp, loc, v0: Chain(lp, loc, v0, b, j))
        if z3.is_app_of(F, z3.Z3_OP_IDIV) and F.arg(0).get_id() == x.get_id():
            raise Unsupported("repeated division by a constant")
        if z3.is_mul(F) and F.num_args() == 2:
            a, b = F.arg(0), F.arg(1)
            for p, q in ((a, b), (b, a)):
                if p.get_id() == x.get_id() and not mentions(q, x):
                    self.up(lambda lp, loc, v0: Product(lp, loc, v0, q, j))
        if z3.is_int(x):
            c = simp(z3.substitute(F, (x, z3.IntVal(0))))
            m = simp(lift(sub(simp(z3.substitute(F, (x, z3.IntVal(1)))), c)))
            if not (isinstance(m, int) and m == 1) and eng.valid(eq(F, add(mul(x, m), c))):
                self.up(lambda lp, loc, v0: Horner(lp, loc, v0, m, c, j))
        w = last_write(F, x)
        if w is not None:
            self.up(lambda lp, loc, v0: LastWrite(lp, loc, v0, w[0], w[1], j))
        if z3.is_app_of(F, z3.Z3_OP_ITE):
            c, a, b = F.children()
            for g, o in ((a, b), (b, a)):
                if o.get_id() == x.get_id() and not mentions(g, x):
                    for mx in (True, False):
                        want = z3.If(g > x, g, x) if mx else z3.If(g < x, g, x)
                        if eng.valid(F == want):
                            self.up(lambda lp, loc, v0: Extreme(lp, loc, v0, g, j, mx))
        if eng.name_states and len(eng.bound) == 1:
            self.up(Named)
        raise Unsupported(f"loop variable {self.loc.name}: no closed form for {str(F)[:120]}")

    def delta(self, F, x):
        """If(c, x + a, x + b) with c free of x"""
        if z3.is_app_of(F, z3.Z3_OP_ITE):
            c, a, b = F.children()
            if mentions(c, x):
                return None
            p, q = self.delta(a, x), self.delta(b, x)
            if p is None or q is None:
                return None
            return ite(c, p, q)
        d = simp(F - x)
        return d if not mentions(lift(d), x) else None

    def text(self, alts, j):
        key = self.loc.key
        outs = []
        for c, v in alts:
            ps = (v,) if isinstance(v, str) else v.parts
            if not ps or ps[0] != ("hole", key):
                raise Unsupported("text built in a loop")
            outs.append((c, StrT(ps[1:])))
        self.up(lambda lp, loc, v0: AccText(lp, loc, v0, outs, j))


def last_write(F, x):
    """(condition, value) if F is If(condition, value, x)"""
    if F.get_id() == x.get_id():
        return (False, None)
    if not mentions(F, x):
        return (True, F)
    if z3.is_app_of(F, z3.Z3_OP_ITE):
        c, a, b = F.children()
        if mentions(c, x):
            return None
        p, q = last_write(a, x), last_write(b, x)
        if p is None or q is None:
            return None
        cond = ite(c, p[0], q[0])
        val = p[1] if q[1] is None else q[1] if p[1] is None else ite(c, p[1], q[1])
        return (cond, val)
    return None


class Closed(Hyp):
    def final(self, m):
        return self.at(m)


def short_lists(alts):
    """lists of the same few numbers, joined element by element"""
    cs = [v.seq.concrete() if isinstance(v, (ListV, TupleV)) else None for _, v in alts]
    if len(alts) < 2 or any(c is None or len(c) != len(cs[0]) or not all(is_num(x) and not isinstance(x, CNum) for x in c) for c in cs) or len({type(v) for _, v in alts}) > 1:
        return alts
    return [(True, type(alts[0][1])(Seq.of([joined([(a[0], c[k]) for a, c in zip(alts, cs)]) for k in range(len(cs[0]))])))]


class Prev(Closed):
    """what the iteration before left"""

    tries = 0

    def now(self, j):
        return self.at(j)

    def __init__(self, lp, loc, v0, alts, j0):
        super().__init__(lp, loc, v0)
        self.alts, self.j0 = short_lists(alts), j0

    def value(self, k):
        vs = [(subst(c, [(self.j0, k)]), v) for c, v in self.alts]
        eng = self.lp.eng
        for q, (c, v) in enumerate(vs):
            if q == len(vs) - 1 or eng.branch(c):
                r = subst(v, [(self.j0, k)], mark=self.lp.amark)
                if isinstance(r, ListV):
                    r.frozen = True
                return r

    def at(self, j):
        v0 = self.v0
        if is_num(v0) and all(is_num(v) for _, v in self.alts) and not isinstance(j, int):
            F = joined(self.alts)
            return ite(le(j, 0), v0, subst(F, [(self.j0, sub(j, 1))]))
        if self.lp.eng.branch(le(j, 0)):
            return v0
        return self.value(sub(j, 1))

    def preserved(self, alts, j):
        for c, v in alts:
            w = self.value(j)
            if not (self.same(v, w) or isinstance(v, (ListV, TupleV)) and v is not self.v0 and simp(same_value(self.lp.eng, v, w, c)) is True or is_num(v) and is_num(w) and self.lp.eng.valid(implies(c, eq(v, w)))):
                if self.tries < 3:
                    # its value was given by another variable whose own form is known only now
                    def again(lp, loc, v0):
                        h = Prev(lp, loc, v0, alts, j)
                        h.tries = self.tries + 1
                        return h

                    self.up(again)
                raise Unsupported(f"loop variable {self.loc.name} depends on the iteration before")


class Named(Closed):
    """a number about which nothing is said but its first value: its value before iteration j has the name f(j)"""

    def __init__(self, lp, loc, v0):
        super().__init__(lp, loc, v0)
        eng = lp.eng
        self.f = z3.Function(eng.name("state"), z3.IntSort(), lift(v0).sort())
        eng.fact(self.f(0) == lift(v0))
        eng.abstracted = True

    def at(self, j):
        return self.f(lift(j))

    def preserved(self, alts, j):
        for c, v in alts:
            if not is_num(v) or isinstance(v, CNum) or z3.is_bool(lift(v)) or z3.is_real(lift(arith(v))) and self.f.range() == z3.IntSort():
                raise Unsupported("loop variable that changes its type")


class Acc(Closed):
    """sum of the changes"""

    def __init__(self, lp, loc, v0, D, j0):
        super().__init__(lp, loc, v0)
        self.D, self.j0 = D, j0

    def at(self, j):
        D, j0 = self.D, self.j0
        if not is_sym(D) or not mentions(D, j0):
            return add(self.v0, mul(j, D))
        return add(self.v0, self.lp.eng.sum(j, lambda k: subst(D, [(j0, k)])))

    def preserved(self, alts, j):
        d = subst(self.D, [(self.j0, j)])
        for c, v in alts:
            if not self.lp.eng.valid(implies(c, eq(v, add(self.cur, d)))):
                # it may have been read off while another variable was unknown
                n = self.lp.__dict__.setdefault("retries", {})
                n[id(self.loc)] = n.get(id(self.loc), 0) + 1
                if n[id(self.loc)] <= 3:
                    self.up(Probe)
                raise Unsupported(f"loop variable {self.loc.name}: the change is not the one assumed")


class Flag(Closed):
    """set (cleared) as soon as the condition held (failed) once"""

    def __init__(self, lp, loc, v0, c, j0, up):
        super().__init__(lp, loc, v0)
        self.c, self.j0, self.isor = c, j0, up

    def at(self, j):
        f = lambda k: self.lp.it.truth(subst(self.c, [(self.j0, k)]))
        if self.isor:
            return disj(self.v0, self.lp.eng.exists(j, f))
        return conj(self.v0, self.lp.eng.forall(j, f))

    def preserved(self, alts, j):
        d = subst(self.c, [(self.j0, j)])
        want = disj(self.cur, d) if self.isor else conj(self.cur, d)
        for c, v in alts:
            if not self.lp.eng.valid(implies(c, eq(v, want))):
                raise Unsupported(f"loop variable {self.loc.name}: flag")


class Chain(Closed):
    """floor division by one positive number after the other: (v // a) // b = v // (a * b), a lemma proved in Lean"""

    def __init__(self, lp, loc, v0, b, j0):
        super().__init__(lp, loc, v0)
        self.b, self.j0 = b, j0

    def prod(self, j):
        b, j0, lp = self.b, self.j0, self.lp
        return lp.it.lib.range_prod(Seq([Seg(j, lambda k: subst(b, [(j0, k)]), True)]), 0, j)

    def at(self, j):
        eng = self.lp.eng
        p = self.prod(j)
        eng.trusted.add("lemma floordiv_floordiv (lemmas/Arith.lean)")
        if p == 1 and not is_sym(p):
            return self.v0
        return eng.posdiv(self.v0, p)[0]

    def preserved(self, alts, j):
        eng = self.lp.eng
        d = subst(self.b, [(self.j0, j)])
        if not eng.valid(lt(0, d)):
            raise Unsupported("sign of a divisor")
        for c, v in alts:
            if not eng.valid(implies(c, eq(v, DIV(lift(self.cur), lift(d))))):
                raise Unsupported(f"loop variable {self.loc.name}: division")


class Product(Closed):
    def __init__(self, lp, loc, v0, b, j0):
        super().__init__(lp, loc, v0)
        self.b, self.j0 = b, j0

    def at(self, j):
        b, j0, lp = self.b, self.j0, self.lp
        return mul(self.v0, lp.it.lib.range_prod(Seq([Seg(j, lambda k: subst(b, [(j0, k)]), True)]), 0, j))

    def preserved(self, alts, j):
        d = subst(self.b, [(self.j0, j)])
        for c, v in alts:
            if not self.lp.eng.valid(implies(c, eq(v, mul(self.cur, d)))):
                raise Unsupported(f"loop variable {self.loc.name}: product")


class Horner(Closed):
    """v * m + x in every iteration; the closed form is a lemma proved in Lean"""

    def __init__(self, lp, loc, v0, m, x, j0):
        super().__init__(lp, loc, v0)
        self.m, self.x, self.j0 = m, x, j0

    def at(self, j):
        j0, lp = self.j0, self.lp
        eng = lp.eng
        m = Seq([Seg(j, lambda k: subst(self.m, [(j0, k)]), True)])
        prod = lambda a: lp.it.lib.range_prod(m, a, j)
        eng.trusted.add("lemma horner (lemmas/Arith.lean)")
        return add(mul(self.v0, prod(0)), eng.sum(j, lambda k: mul(subst(self.x, [(j0, k)]), prod(add(k, 1)))))

    def preserved(self, alts, j):
        m, x = subst(self.m, [(self.j0, j)]), subst(self.x, [(self.j0, j)])
        for c, v in alts:
            if not self.lp.eng.valid(implies(c, eq(v, add(mul(self.cur, m), x)))):
                raise Unsupported(f"loop variable {self.loc.name}: the recurrence is not the one assumed")


class LastWrite(Closed):
    """the value of the last iteration that wrote it"""

    def __init__(self, lp, loc, v0, c, g, j0):
        super().__init__(lp, loc, v0)
        self.c, self.g, self.j0 = c, g, j0

    def at(self, j):
        it = self.lp.it
        found, x = it.first_match(j, lambda k: subst(self.c, [(self.j0, k)]), last=True)
        return ite(found, subst(self.g, [(self.j0, x)]), self.v0)

    def preserved(self, alts, j):
        c2, g2 = subst(self.c, [(self.j0, j)]), subst(self.g, [(self.j0, j)])
        for c, v in alts:
            if not self.lp.eng.valid(implies(c, eq(v, ite(c2, g2, self.cur)))):
                raise Unsupported(f"loop variable {self.loc.name}: last write")


class Extreme(Closed):
    def __init__(self, lp, loc, v0, g, j0, mx):
        super().__init__(lp, loc, v0)
        self.g, self.j0, self.mx = g, j0, mx

    def at(self, j):
        eng = self.lp.eng
        m, w = eng.fresh("ext", lift(self.v0).sort()), eng.fresh_int("extat")
        g = lambda k: subst(self.g, [(self.j0, k)])
        less = (lambda a, b: le(a, b)) if self.mx else (lambda a, b: le(b, a))
        eng.fact(less(self.v0, m))
        eng.fact(eng.forall(j, lambda k: less(g(k), m)))
        eng.fact(disj(eq(m, self.v0), conj(le(0, w), lt(w, j), eq(m, g(w)))))
        return m

    def preserved(self, alts, j):
        g = subst(self.g, [(self.j0, j)])
        want = ite(lt(self.cur, g) if self.mx else lt(g, self.cur), g, self.cur)
        for c, v in alts:
            if not self.lp.eng.valid(implies(c, eq(v, want))):
                raise Unsupported(f"loop variable {self.loc.name}: extreme")


class FoldMat(Closed):
    """value of `term` with the hole replaced by the value before, j times"""

    def __init__(self, lp, loc, v0, term, j0):
        super().__init__(lp, loc, v0)
        self.term, self.j0 = term, j0

    def at(self, j):
        return MatV("fold", (self.v0, j, self.loc.key, self.j0, self.term))

    def preserved(self, alts, j):
        want = fill(subst(self.term, [(self.j0, j)], mark=self.lp.amark), self.loc.key, self.cur)
        if len(alts) != 1 or not mat_same(self.lp.eng, alts[0][1], want):
            raise Unsupported("operator accumulated in the loop")


def fill(t, key, v):
    if isinstance(t, MatV):
        if t.op == "hole":
            return v if t.args[0] == key else t
        return MatV(t.op, [fill(a, key, v) for a in t.args])
    return t


def mentions_hole(t, key):
    if isinstance(t, MatV):
        return t.op == "hole" and t.args[0] == key or any(mentions_hole(a, key) for a in t.args)
    return False


def mat_same(eng, a, b):
    if a is b:
        return True
    if is_num(a) and is_num(b):
        return eng.valid(eq(a, b))
    if isinstance(a, MatV) and isinstance(b, MatV):
        if a.op != b.op or len(a.args) != len(b.args):
            return False
        if a.op == "fold":
            if a.args[2] != b.args[2] or not mat_same(eng, a.args[0], b.args[0]) or not eng.valid(eq(a.args[1], b.args[1])):
                return False
            return mat_same(eng, a.args[4], subst(b.args[4], [(b.args[3], a.args[3])]))
        return all(mat_same(eng, x, y) for x, y in zip(a.args, b.args))
    if isinstance(a, (str, tuple, LibV)) or a is None:
        return a == b
    return False


class AccText(Closed):
    def __init__(self, lp, loc, v0, outs, j0):
        super().__init__(lp, loc, v0)
        self.outs, self.j0 = outs, j0

    def piece(self, k):
        vs = [(subst(c, [(self.j0, k)]), subst(v, [(self.j0, k)])) for c, v in self.outs]
        if len(vs) == 1:
            return vs[0][1]
        return Choice(vs)

    def at(self, j):
        p = [x for x in ((self.v0,) if isinstance(self.v0, str) else self.v0.parts) if x != ""]
        self.n = len(p) + 1
        return StrT([*p, ("join", "", Seq([Seg(j, self.piece)]))])

    def preserved(self, alts, j):
        eng = self.lp.eng
        cur = self.cur.parts
        outs = []
        for c, v in alts:
            ps = (v,) if isinstance(v, str) else v.parts
            if len(ps) < self.n or any(a is not b for a, b in zip(ps[: self.n], cur)):
                raise Unsupported("text built in a loop")
            outs.append((c, StrT(ps[self.n :])))
        old = [(subst(c, [(self.j0, j)]), subst(v, [(self.j0, j)])) for c, v in self.outs]
        if len(old) != len(outs) or not all(eng.valid(eq(c, d)) and same_value(eng, v, w, c) for (c, v), (d, w) in zip(old, outs)):
            self.up(lambda lp, loc, v0: AccText(lp, loc, v0, outs, j))


# ------------------------------------------------------------------ lists
class Prefix(Seg):
    """elements a list had before the iteration; `fn` None: they cannot be looked at"""

    def __init__(self, seq0, n, loc=None):
        super().__init__(n, self.no, False)
        self.seq0, self.loc = seq0, loc

    def no(self, j):
        if self.loc is not None:
            raise PoisonRead(self.loc)
        raise Unsupported("element of a list that the loop is building")


def appended(alts, mark, seqof):
    """[(condition, [elements])] that were added behind the part `mark`"""
    out = []
    for c, v in alts:
        s = seqof(v)
        if s is None or not s.segs or s.segs[0] is not mark:
            raise Unsupported("list changed in a loop otherwise than at its end")
        els = []
        for g in s.segs[1:]:
            if g.cond is not None or not isinstance(g.n, int):
                raise Unsupported("list extended by an unknown number of elements in a loop")
            els += [g.get(k) for k in range(g.n)]
        out.append((c, els))
    return out


class Appends:
    """shared by lists that are changed in place and lists that are rebound"""

    def setup(self, app, j0):
        self.app, self.j0 = app, j0
        ks = {len(e) for _, e in app}
        if len(ks) == 1:
            self.k, self.partial = ks.pop(), False
        elif ks <= {0, 1}:
            self.k, self.partial = 1, True
        else:
            raise Unsupported("different numbers of elements appended")

    def element(self, j, q=0):
        """element q of those iteration j appends"""
        vs = [(c, e[q]) for c, e in self.app if e]
        out = []
        for c, v in vs:
            out.append((subst(c, [(self.j0, j)]), subst(v, [(self.j0, j)], mark=self.lp.amark)))
        if len(out) == 1:
            return out[0][1]
        if all(is_num(v) for _, v in out):
            return joined(out)
        if all(v is out[0][1] for _, v in out):
            return out[0][1]
        if self.partial:
            return Choice(out)
        return Choice(out)

    def cond(self, j):
        return disj(*[subst(c, [(self.j0, j)]) for c, e in self.app if e])

    def seq_at(self, base, j, opaque=False):
        k = self.k
        if k == 0:
            return base
        num = not self.partial and all(is_num(v) for _, e in self.app for v in e)
        if self.partial:
            return Seq(base.segs + (Seg(j, self.element, False, self.cond),))
        if k == 1:
            return Seq(base.segs + (Seg(j, self.element, num),))
        eng = self.lp.eng

        def at(i):
            if isinstance(i, int):
                a, b = i // k, i % k
            else:
                a, b = eng.posdiv(i, k)
            if isinstance(b, int):
                return self.element(a, b)
            vs = [(eq(b, q), self.element(a, q)) for q in range(k)]
            return joined(vs) if num else Choice(vs)

        return Seq(base.segs + (Seg(mul(k, j), at, num),))


class AppendVar(Closed, Appends):
    def __init__(self, lp, loc, v0, app):
        Hyp.__init__(self, lp, loc, v0)
        self.setup(app, lp.j)

    def at(self, j):
        s = self.seq_at(self.v0.seq, j)
        self.mark = s
        r = ListV(s) if isinstance(self.v0, ListV) else TupleV(s)
        if isinstance(r, ListV) and not self.closing:
            r.frozen = True
        return r

    closing = False

    def final(self, m):
        self.closing = True
        return self.at(m)

    def preserved(self, alts, j):
        app = behind(alts, self.mark, lambda v: v.seq)
        check_append(self, app, j)


class SeqProbe(Hyp):
    """list changed in place: first with an unknown beginning, then with the elements seen"""

    def at(self, j):
        # a look into it: perhaps a list of fixed length
        fixed = len(self.v0.segs) == 1 and not self.v0.filtered and not isinstance(self.v0, Bag) and getattr(self, "k", None) is None
        self.mark = Prefix(self.v0, None, self.loc.key if fixed else None)
        n = self.v0.length() if not self.v0.filtered else None
        k = getattr(self, "k", None)
        if n is not None and k is not None:
            self.mark.n = add(n, mul(j, k))
        else:
            self.mark.n = self.lp.eng.fresh_int("len")
            self.lp.eng.fact(self.mark.n >= 0)
        self.mark_seq = Seq([self.mark])
        return self.mark_seq

    def preserved(self, alts, j):
        w = writes(self.lp.eng, alts, self.mark_seq, j)
        if w is not None:
            self.up(lambda lp, loc, v0: SeqWrite(lp, loc, v0, *w, j, False))
        app = appended(alts, self.mark, lambda v: v)
        ks = {len(e) for _, e in app}
        if len(ks) == 1 and getattr(self, "k", None) is None:
            # the length is known now: look again
            k = ks.pop()

            def mk(lp, loc, v0):
                h = SeqProbe(lp, loc, v0)
                h.k = k
                return h

            self.up(mk)
        self.up(lambda lp, loc, v0: AppendSeq(lp, loc, v0, app))


def writes(eng, alts, base, j):
    """(c, [(condition, value)]) if the iteration writes element j + c of base, or none; else None"""
    c, out = None, []
    for cond, v in alts:
        if v is base:
            continue
        if v.replaced is None or v.replaced[0] is not base:
            return None
        _, i, x = v.replaced
        d = simp(sub(i, j))
        if mentions(lift(d), j) or c is not None and not eng.valid(eq(c, d)):
            return None
        c = d
        out.append((cond, x))
    return None if c is None else (c, out)


class SeqWrite(Closed):
    """iteration j writes element j + c of the list, or none, where it was not written before"""

    def __init__(self, lp, loc, v0, c, vals, j0, known):
        Hyp.__init__(self, lp, loc, v0)
        self.c, self.vals, self.j0, self.known = c, vals, j0, known
        if len(v0.segs) != 1 or v0.filtered:
            raise Unsupported("elements of a list of several parts written in a loop")

    def value(self, k):
        """the element iteration k leaves"""
        g = self.v0.segs[0]
        out = [(subst(c, [(self.j0, k)]), subst(v, [(self.j0, k)], mark=self.lp.amark)) for c, v in self.vals]
        some = simp(disj(*[c for c, _ in out]))
        if some is not True:
            out.append((nott(some), g.get(add(self.c, k))))
        if len(out) == 1:
            return out[0][1]
        return joined(out) if all(is_num(v) for _, v in out) else Choice(out)

    def at(self, j):
        g, c = self.v0.segs[0], self.c
        num = g.num and all(is_num(v) for _, v in self.vals)
        if self.known:
            mid = Seg(j, self.value, num)
        else:
            mid = Prefix(self.v0, j)
        rest = sub(sub(g.n, c), j)
        self.seq = Seq([Seg(c, g.get, g.num), mid, Seg(rest, lambda i: g.get(add(add(c, j), i)), g.num)])
        if not is_sym(c) and c == 0:
            self.seq = Seq(self.seq.segs[1:])
        return self.seq

    def final(self, m):
        # every iteration wrote inside the list
        g = self.v0.segs[0]
        s = self.at(m)
        if self.lp.eng.valid(eq(add(self.c, m), g.n)):
            return Seq(s.segs[:-1])
        return s

    def preserved(self, alts, j):
        w = writes(self.lp.eng, alts, self.seq, j)
        if w is None or not self.lp.eng.valid(eq(w[0], self.c)):
            raise Unsupported("elements of a list written in a loop at several places")
        if not self.known:
            self.up(lambda lp, loc, v0: SeqWrite(lp, loc, v0, self.c, w[1], j, True))
        old = [(subst(c, [(self.j0, j)]), subst(v, [(self.j0, j)], mark=self.lp.amark)) for c, v in self.vals]
        eng = self.lp.eng
        for c, v in w[1]:
            if not any(eng.valid(implies(c, d)) and same_value(eng, v, x, c) for d, x in old):
                raise Unsupported("elements of a list written in a loop: no fixed form")
        if not eng.valid(eq(disj(*[c for c, _ in w[1]]), disj(*[c for c, _ in old]))):
            raise Unsupported("elements of a list written in a loop: no fixed form")


class AppendSeq(Closed, Appends):
    def __init__(self, lp, loc, v0, app):
        Hyp.__init__(self, lp, loc, v0)
        self.setup(app, lp.j)

    def at(self, j):
        self.mark = self.seq_at(self.v0, j)
        return self.mark

    def preserved(self, alts, j):
        app = behind(alts, self.mark, lambda v: v)
        check_append(self, app, j)


def behind(alts, mark, seqof):
    out = []
    for c, v in alts:
        s = seqof(v)
        if s is None or len(s.segs) < len(mark.segs) or any(a is not b for a, b in zip(s.segs, mark.segs)):
            raise Unsupported("list changed in a loop otherwise than at its end")
        els = []
        for g in s.segs[len(mark.segs) :]:
            if g.cond is not None or not isinstance(g.n, int):
                raise Unsupported("list extended by an unknown number of elements in a loop")
            els += [g.get(k) for k in range(g.n)]
        out.append((c, els))
    return out


def check_append(h, app, j):
    """what the iteration appended is what the hypothesis says; else the elements seen now are tried"""
    eng = h.lp.eng
    ok = True
    for c, els in app:
        if h.partial:
            if not eng.valid(implies(c, eq(h.cond(j), bool(els)))):
                ok = False
                continue
        elif len(els) != h.k:
            ok = False
            continue
        for q, e in enumerate(els):
            w = h.element(j, q)
            if not same_value(eng, e, w, c):
                ok = False
    if not ok:
        n = getattr(h.lp, "appends", {})
        h.lp.appends = n
        n[h.loc.key] = n.get(h.loc.key, 0) + 1
        if n[h.loc.key] > 3:
            raise Unsupported("list built in a loop: no fixed form of the elements")
        cls = type(h)
        h.up(lambda lp, loc, v0: cls(lp, loc, v0, app))


def same_value(eng, a, b, c=True, depth=0):
    """a and b are interchangeable descriptions (under c)"""
    if a is b:
        return True
    if depth > 6:
        return False
    if isinstance(b, Choice):
        if not eng.valid(implies(c, disj(*[d for d, _ in b.alts]))):
            return False
        return all(not eng.feasible(conj(c, d)) or same_value(eng, a, v, conj(c, d), depth + 1) for d, v in b.alts)
    if isinstance(a, Choice):
        return all(not eng.feasible(conj(c, d)) or same_value(eng, v, b, conj(c, d), depth + 1) for d, v in a.alts)
    if is_num(a) and is_num(b):
        return eng.valid(implies(c, eq(a, b)))
    if isinstance(a, str) or a is None or isinstance(a, (ClassV, LibV, TypeV, EnumMember)):
        return a == b if isinstance(a, str) and isinstance(b, str) else a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, ObjV):
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(same_value(eng, a.fields[k], b.fields[k], c, depth + 1) for k in a.fields)
    if isinstance(a, SymObj):
        return a.schema is b.schema and eng.valid(implies(c, eq(a.key, b.key))) and not a.fields and not b.fields
    if isinstance(a, (ListV, TupleV, SetV)):
        return same_seq(eng, a.seq, b.seq, c, depth)
    if isinstance(a, StrT):
        if len(a.parts) != len(b.parts):
            return False
        for p, q in zip(a.parts, b.parts):
            if isinstance(p, str) or isinstance(q, str):
                if p != q:
                    return False
            elif p[0] == "str" == q[0]:
                if not same_value(eng, p[1], q[1], c, depth + 1):
                    return False
            elif p[0] == "run" == q[0]:
                if p[2] is not q[2] or not same_value(eng, p[1], q[1], c, depth + 1):
                    return False
            elif p[0] == "join" == q[0]:
                if p[1] != q[1] or not same_seq(eng, p[2], q[2], c, depth):
                    return False
            else:
                return False
        return True
    if isinstance(a, MatV):
        return mat_same(eng, a, b)
    if isinstance(a, ArrV):
        if len(a.shape) != len(b.shape) or not all(eng.valid(implies(c, eq(x, y))) for x, y in zip(a.shape, b.shape)):
            return False
        ix = [z3.Int(eng.name("ix")) for _ in a.shape]
        return eng.valid(implies(conj(c, *[conj(le(0, i), lt(i, n)) for i, n in zip(ix, a.shape)]), eq(a.at(*ix), b.at(*ix))))
    if isinstance(a, Opaque):
        return a.tag == b.tag and len(a.key) == len(b.key) and all(same_value(eng, x, y, c, depth + 1) for x, y in zip(a.key, b.key))
    if isinstance(a, DictV):
        # entries written one by one
        return len(a.entries) == len(b.entries) and all(x[0] == "c" == y[0] and same_value(eng, x[1], y[1], c, depth + 1) and same_value(eng, x[2], y[2], c, depth + 1) for x, y in zip(a.entries, b.entries))
    if isinstance(a, BoundV):
        return a.fn is b.fn and same_value(eng, a.self_, b.self_, c, depth + 1)
    return False


def same_seq(eng, s, t, c, depth):
    if len(s.segs) != len(t.segs):
        return False
    for g, h in zip(s.segs, t.segs):
        if (g.cond is None) != (h.cond is None) or not eng.valid(implies(c, eq(g.n, h.n))):
            return False
        if isinstance(g.n, int) and g.cond is None:
            if not all(same_value(eng, g.get(k), h.get(k), c, depth + 1) for k in range(g.n)):
                return False
            continue
        k = z3.Int(eng.name("el"))

        def cmp(k):
            c2 = conj(c, le(0, k), lt(k, g.n))
            if g.cond is not None and not eng.valid(implies(c2, eq(g.cond(k), h.cond(k)))):
                return False
            return same_value(eng, g.get(k), h.get(k), c2, depth + 1)

        if eng.element(k, 0, g.n, cmp, lambda alts: all(v for _, v in alts)) is not True:
            return False
    return True


# ------------------------------------------------------------------ arrays: iteration j writes row (column) j only
class Rows(Hyp):
    axis = 0

    def at(self, j):
        eng = self.lp.eng
        arr = self.loc.o
        d = len(arr.shape)
        v0, axis = self.v0, self.axis
        self.uf = {}
        names = eng.name("row")

        def elem(*ix):
            if eng.valid(eq(ix[axis], j)):
                return v0(*ix)
            # another row: what it holds is not known
            s = v0(*ix)
            if isinstance(s, CNum):
                raise Unsupported("complex array written in a loop")
            srt = lift(arith(s) if not isinstance(s, bool) else s).sort()
            if not is_sym(s) and z3.is_int(lift(s)):
                srt = z3.IntSort()
            f = z3.Function(names, *[z3.IntSort()] * (d + 1), srt)
            return f(lift(j), *[lift(i) for i in ix])

        self.cur_elem = elem
        self.fname = names
        return elem

    def preserved(self, alts, j):
        eng = self.lp.eng
        arr = self.loc.o
        d = len(arr.shape)
        ix = [z3.Int(eng.name("rc")) for _ in range(d)]
        rng = conj(*[conj(le(0, i), lt(i, n)) for i, n in zip(ix, arr.shape)])
        new = []
        good = True
        for c, e in alts:
            if e is self.cur_elem:
                continue
            # other rows unchanged
            hyp = conj(c, rng, neq(ix[self.axis], j))

            def same():
                eng.pc(hyp)
                return eq(e(*ix), self.cur_elem(*ix))

            for p in eng.explore(same):
                if p.kind != "ok" or not eng.valid(implies(conj(hyp, *p.conds), p.value)):
                    good = False
            if not good:
                break
        if not good:
            if self.axis == 0 and d == 2:
                self.up(Cols)
            raise Unsupported("array written in a loop")
        self.alts, self.j0 = alts, j

    def final(self, m):
        eng = self.lp.eng
        v0, axis, alts, j0, name = self.v0, self.axis, self.alts, self.j0, self.fname

        def elem(*ix):
            if not eng.branch(conj(le(0, ix[axis]), lt(ix[axis], m))):
                return v0(*ix)
            r = ix[axis]
            vs = [(subst(c, [(j0, r)]), e) for c, e in alts]
            jx = list(ix)
            jx[axis] = j0
            for q, (c, e) in enumerate(vs):
                if q == len(vs) - 1 or eng.branch(c):
                    v = lazily(lambda: e(*jx), [(j0, r)])
                    if has_decl(v, name):
                        raise Unsupported("array written in a loop: the row depends on other rows")
                    return v

        return elem


class Cols(Rows):
    axis = 1


def has_decl(v, name):
    if isinstance(v, CNum):
        return has_decl(v.re, name) or has_decl(v.im, name)
    if not is_sym(v):
        return False
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() == name:
                return True
            st.extend(x.children())
    return False


# ------------------------------------------------------------------ tables
class CellsProbe(Hyp):
    """entries of a table written and not read"""

    def at(self, j):
        def no(r, c):
            raise Unsupported("entry of a table that the loop is filling")

        return Cells(no)

    def preserved(self, alts, j):
        self.up(lambda lp, loc, v0: CellsFam(lp, loc, v0, added(self, alts), j))


class CellsFam(Closed):
    """the writes of every iteration, one after the other"""

    def __init__(self, lp, loc, v0, new, j0):
        super().__init__(lp, loc, v0)
        self.new, self.j0 = new, j0
        self.one = Fam(self.iteration, lp.eng.name("writes"), [b for b in lp.eng.bound if not b.eq(j0)])

    def iteration(self, k):
        return [(subst(c, [(self.j0, k)]), subst_items(xs, [(self.j0, k)], self.lp.amark)) for c, xs in self.new]

    def at(self, j):
        return self.v0.plus(("f", j, self.one))

    def preserved(self, alts, j):
        new = added(self, alts)
        if not same_alts(self.lp.eng, self.one(j), new, True, same_value):
            self.up(lambda lp, loc, v0: CellsFam(lp, loc, v0, new, j))


def added(h, alts):
    """[(condition, writes of the iteration)]"""
    out = []
    for c, v in alts:
        n = len(h.cur.items)
        if v.base is not h.cur.base or any(a is not b for a, b in zip(v.items[:n], h.cur.items)):
            raise Unsupported("table written in a loop")
        out.append((c, v.items[n:]))
    return out


# ------------------------------------------------------------------ dictionaries
class DictProbe(Hyp):
    """entries written in the loop: not read by it"""

    def at(self, j):
        self.mark = ("s", 0, None, None, None)
        self.pre = tuple(self.v0) + (("hidden", self.loc.key),)
        return self.pre

    def preserved(self, alts, j):
        ws = []
        for c, es in alts:
            if tuple(es[: len(self.pre)]) != self.pre or any(e[0] != "c" for e in es[len(self.pre) :]):
                raise Unsupported("dict changed in a loop")
            ws.append((c, [(e[1], e[2]) for e in es[len(self.pre) :]]))
        if any(len(w) > 1 for _, w in ws):
            raise Unsupported("several dict entries in one iteration")
        self.ws, self.j0 = ws, j

    def final(self, m):
        ws, j0, mark = self.ws, self.j0, self.lp.amark

        def pick(k, q):
            vs = [(subst(c, [(j0, k)]), subst(w[0][q], [(j0, k)], mark=mark)) for c, w in ws if w]
            if len(vs) == 1:
                return vs[0][1]
            if all(is_num(v) for _, v in vs):
                return joined(vs)
            return Choice(vs)

        cond = lambda k: disj(*[subst(c, [(j0, k)]) for c, w in ws if w])
        return tuple(self.v0) + (("s", m, lambda k: pick(k, 0), lambda k: pick(k, 1), cond),)


class DictFixed(Hyp):
    """dict with a fixed set of known keys whose numbers change: one accumulator per key"""

    def __init__(self, lp, loc, v0):
        super().__init__(lp, loc, v0)
        if any(e[0] != "c" or not isinstance(e[1], str) for e in v0):
            raise Unsupported("dict read and written in a loop")
        self.subs = {}
        for e in v0:
            self.subs[e[1]] = Const(lp, Loc(DictCell(), "v"), e[2])
            self.subs[e[1]].loc.o.v = e[2]

    def at(self, j):
        out = []
        for e in self.v0:
            h = self.subs[e[1]]
            h.cur = h.at(j)
            out.append(("c", e[1], h.cur))
        return tuple(out)

    def preserved(self, alts, j):
        changed = False
        for q, e in enumerate(self.v0):
            h = self.subs[e[1]]
            vals = []
            for c, es in alts:
                hit = [x for x in es if x[1] == e[1]]
                if len(es) != len(self.v0) or len(hit) != 1:
                    raise Unsupported("dict keys added in a loop")
                vals.append((c, hit[0][2]))
            try:
                h.preserved(vals, j)
            except Upgrade as u:
                self.subs[e[1]] = u.new(self.lp, h.loc, h.v0)
                changed = True
        if changed:
            me = self
            self.up(lambda lp, loc, v0: me)

    def final(self, m):
        return tuple(("c", e[1], self.subs[e[1]].final(m)) for e in self.v0)


class DictCell(Mut):
    v = None


# ------------------------------------------------------------------ the loop
class Loop:
    def __init__(self, it, amark):
        self.it, self.eng, self.amark = it, it.eng, amark
        self.hyps = {}
        self.j = None

    def first_hyp(self, loc, v0):
        if loc.attr in ("vars", "fields"):
            return Temp(self, loc, v0)
        if loc.attr == "seq":
            return SeqProbe(self, loc, v0)
        if loc.attr == "_elem":
            return Rows(self, loc, v0)
        if loc.attr == "entries":
            return DictProbe(self, loc, v0)
        if loc.attr == "cells":
            return CellsProbe(self, loc, v0)
        if loc.attr in ("pos",):
            return Probe(self, loc, v0)
        raise Unsupported(f"loop writes {loc!r}")

    def next_after_read(self, h):
        """hypothesis after the value was read before it was written"""
        if isinstance(h, Temp):
            if h.v0 is MISSING:
                raise Unsupported(f"variable {h.loc.name} carried from one iteration to the next")
            return Const(self, h.loc, h.v0)
        if isinstance(h, DictProbe):
            return DictFixed(self, h.loc, h.v0)
        if isinstance(h, SeqProbe):
            return SeqWrite(self, h.loc, h.v0, 0, [], self.j, False)
        raise Unsupported("read of an unknown value in a loop")

    def rounds(self, run, pre):
        """explores the body until the hypotheses are preserved.  Returns the last round's paths"""
        eng = self.eng
        for _ in range(24):
            self.j = j = z3.Int(eng.name("j"))
            fm = len(eng.factlog)
            eng.bound.append(j)

            def thunk():
                pre(j)
                n0 = len(eng.ctx.conds)
                for h in self.hyps.values():
                    h.cur = h.now(j)
                    h.loc.write(eng, h.cur)
                m2 = len(eng.journal)
                self.pre_conds = n0
                try:
                    run(j)
                except ContinueEx:
                    pass
                return written(eng, m2, self.amark)

            eng.keep.append(j)
            try:
                paths = eng.explore(thunk, drop=len(eng.bound) - 1)
            finally:
                eng.bound.pop()
            n0 = getattr(self, "pre_conds", 0)
            if not paths:
                # no iteration is possible
                eng.generalise(j, fm)
                return [], j, n0
            changed = False
            for p in paths:
                if p.kind == "poison":
                    k = p.value.loc
                    if k not in self.hyps:
                        raise PoisonRead(k)
                    self.hyps[k] = self.next_after_read(self.hyps[k])
                    changed = True
                    break
            if changed:
                eng.dead.add(j.get_id())
                continue
            oks = [p for p in paths if p.kind in ("ok", "continue")]
            for p in oks:
                for key, (loc, v) in p.value.items():
                    if key not in self.hyps:
                        v0 = loc.read()
                        self.hyps[key] = self.first_hyp(loc, self.it.force(v0) if isinstance(v0, Lazy) else v0)
                        changed = True
            if changed:
                eng.dead.add(j.get_id())
                continue
            # preservation, in the state of the arbitrary iteration
            eng.push()
            saved, eng.ctx = eng.ctx, PathCtx([], eng.ctx)
            eng.bound.append(j)
            m = len(eng.journal)
            fm2 = len(eng.factlog)
            for f, _, _ in eng.factlog[fm:]:
                if not (eng.dead & consts(f)):
                    eng._assert(f)
            try:
                pre(j)
                if oks:
                    for key, h in list(self.hyps.items()):
                        alts = [(conj(*p.conds[n0:]), p.value[key][1] if key in p.value else h.cur) for p in oks]
                        alts = merge_alts(alts)
                        try:
                            h.preserved(alts, j)
                        except Upgrade as u:
                            self.hyps[key] = u.new(self, h.loc, h.v0)
                            changed = True
                if eng.ctx.alts:
                    raise Unsupported("case split in the check of a loop hypothesis")
            except Infeasible:
                pass
            finally:
                eng.bound.pop()
                eng.ctx = saved
                eng.undo(m)
                eng.pop()
                for f, _, _ in eng.factlog[fm2:]:
                    if not mentions(f, j) and not (eng.dead & consts(f)):
                        eng._assert(f)
            if not changed:
                eng.generalise(j, fm)
                eng.dead.add(j.get_id())
                return paths, j, n0
            eng.dead.add(j.get_id())
        raise Unsupported("loop: no hypothesis is preserved")

    def apply(self, m):
        for h in self.hyps.values():
            h.loc.write(self.eng, h.final(m))


def merge_alts(alts):
    """joins cases with the same value; scalars become one formula"""
    if all(v is alts[0][1] for _, v in alts):
        return [(True, alts[0][1])]
    if all(is_num(v) and not isinstance(v, CNum) for _, v in alts):
        try:
            return [(True, joined(alts))]
        except Unsupported:
            pass
    return alts


def summarise(it, n, one):
    """runs one(0) .. one(n-1), n > 0 known on the path"""
    eng = it.eng
    lp = Loop(it, Mut._n)

    def pre(j):
        eng.pc(le(0, j))
        eng.pc(lt(j, n))

    try:
        paths, j, n0 = lp.rounds(one, pre)
    except Upgrade:
        raise Unsupported("loop hypothesis")
    if not paths:
        return
    exits = [p for p in paths if p.kind not in ("ok", "continue")]
    if exits:
        if not any(p.kind in ("ok", "continue") for p in paths):
            # the first iteration always leaves the loop
            one(0)
            raise Infeasible()
        ex = disj(*[conj(*p.conds[n0:]) for p in exits])
        found, x = it.first_match(n, lambda k: subst(ex, [(j, k)]))
        if eng.branch(found):
            lp.apply(x)
            one(x)
            raise Infeasible()
        lp.apply(n)
        return
    lp.apply(n)


def summarise_while(it, st, fr):
    """while loop with a test that is no list to be emptied: number of iterations = first k at which the test fails"""
    eng = it.eng

    def test():
        return it.truth(it.ev(st.test, fr))

    cands = [v for v in fr.envs[0].vars.values() if isint(v) and not isinstance(v, bool)]
    for v in list(fr.envs[0].vars.values()):
        if isinstance(v, (ListV, TupleV)) and not v.seq.filtered:
            cands.append(v.seq.length())
    cands += list(getattr(eng, "bounds", []))
    errs = []
    mark, amark = len(eng.journal), Mut._n
    for B in cands:
        if isinstance(B, int) and not is_sym(B):
            continue
        if z3.is_bool(B):
            continue
        lp = Loop(it, Mut._n)

        def pre(j):
            eng.pc(le(0, j))
            eng.pc(lt(j, B))

        def run(j):
            if not eng.branch(test()):
                raise Infeasible()
            try:
                it.block(st.body, fr)
            except ContinueEx:
                pass

        try:
            paths, j, n0 = lp.rounds(run, pre)
            return finish_while(it, st, fr, lp, paths, j, n0, B, test)
        except Upgrade:
            errs.append("hypothesis")
        except Unsupported as e:
            errs.append(str(e))
            eng.undo(mark, amark)
    raise Unsupported("while loop: " + "; ".join(dict.fromkeys(errs)))


def finish_while(it, st, fr, lp, paths, j, n0, B, test):
    eng = it.eng
    if any(p.kind not in ("ok", "continue") for p in paths):
        raise Unsupported("while loop that is left from within")

    def fails(k):
        """the test fails before iteration k, if no earlier one failed"""
        mark, amark = len(eng.journal), Mut._n

        def thunk():
            lp.apply(k)
            return test()

        ps = eng.explore(thunk)
        if any(p.kind != "ok" for p in ps):
            raise Unsupported("test of a while loop")
        return nott(joined([(conj(*p.conds), p.value) for p in ps]))

    if not paths:
        # the test fails at once, or B is 0
        if eng.valid(lt(0, B)) or eng.valid(nott(test())):
            return
        raise Unsupported("while loop")
    if not eng.valid(implies(le(0, B), fails(B))) or not eng.valid(le(0, B)):
        raise Unsupported("end of a while loop")
    found, e = it.first_match(add(B, 1), fails)
    eng.fact(implies(fails(B), found))
    if not eng.valid(found):
        raise Unsupported("end of a while loop")
    eng.pc(found)
    lp.apply(e)

"""Tables: a list of lists made by nested comprehensions, of which only single entries are written.

The entries are a base and the writes since, in order: ("w", row, column, value) and ("f", n, fn) - the writes of n iterations of a loop,
fn(k) = [(condition, writes)] those of iteration k by cases.  The entry (r, c) is the value of the last write that hits it."""
import z3

from .core import *
from .values import *

I = z3.IntSort()


class Cells:
    def __init__(self, base, items=()):
        self.base, self.items = base, tuple(items)

    def plus(self, item):
        return Cells(self.base, self.items + (item,))


class Fam:
    """the writes of iteration k by cases; each answer is kept.  name, args: what it is and the variables of the loops around that it depends on"""

    def __init__(self, fn, name, args):
        self.fn, self.name, self.args = fn, name, tuple(args)
        self.alts, self.hit, self.found = {}, {}, {}

    def __call__(self, k):
        return memo(self.alts, (k,), lambda: self.fn(k))


def memo(d, key, fn):
    ids = tuple(x.get_id() if is_sym(x) else ("c", x) for x in key)
    if ids not in d:
        d[ids] = (fn(), key)  # the key is kept: its numbers stay taken
    return d[ids][0]


def certain(f):
    """holds whatever the state"""
    if not is_sym(f):
        return bool(f)
    s = z3.Solver()
    s.set("rlimit", 200000)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


class Store(Mut):
    def __init__(self, cells):
        super().__init__()
        self.cells = cells


class GridV(ListV):
    """n rows of w entries"""

    frozen = True

    def __init__(self, it, n, w, base):
        Mut.__init__(self)
        self.it, self.n, self.w = it, n, w
        self.store = Store(Cells(base))
        self.made = {}

    def row(self, r):
        r = simp(r)
        k = r.get_id() if is_sym(r) else ("c", r)
        if k not in self.made:
            self.made[k] = (GridRow(self, r), r)
        return self.made[k][0]

    @property
    def seq(self):
        return Seq([Seg(self.n, self.row)])


class GridRow(ListV):
    frozen = True

    def __init__(self, grid, r):
        Mut.__init__(self)
        self.grid, self.r = grid, r

    @property
    def seq(self):
        cells = self.grid.store.cells
        return Seq([Seg(self.grid.w, lambda c: Lazy(lambda: entry(self.grid.it, cells, self.r, c)))])

    def write(self, c, v):
        if not (v is None or isinstance(v, (str, StrT, bool)) or is_num(v)):
            raise Unsupported("value of this kind in a table")
        s = self.grid.store
        self.grid.it.eng.put(s, "cells", s.cells.plus(("w", self.r, c, v)))


def grid(it, seq):
    """the table a comprehension made, if it is one"""
    if len(seq.segs) != 1 or seq.segs[0].cond is not None or isinstance(seq.segs[0].n, int):
        return None
    g = seq.segs[0]
    probe = z3.Int(it.eng.name("row"))

    def look(k):
        x = it.force(g.get(k))
        if type(x) is ListV and not x.seq.filtered and isinstance(x.seq.length(), int):
            es = [it.force(e) for e in x.seq.concrete()]
            return (len(es), es[0]) if es and all(e is None or isinstance(e, str) for e in es) and all(e == es[0] for e in es) else None
        if type(x) is not ListV or len(x.seq.segs) != 1 or x.seq.segs[0].cond is not None:
            return None
        h = x.seq.segs[0]
        j = z3.Int(it.eng.name("col"))
        e = h.get(j)
        if mentions(lift(h.n), k) or not (e is None or isinstance(e, str)):
            return None
        return h.n, e

    x = look(probe)
    if x is None:
        return None
    return GridV(it, g.n, x[0], lambda r, c: x[1])


# ------------------------------------------------------------------ reading
def targets(items):
    for i in items:
        if i[0] == "w":
            yield i[1], i[2]


def hits(it, items, r, c):
    """formula: one of the writes is to (r, c)"""
    out = []
    for i in items:
        if i[0] == "w":
            out.append(conj(eq(c, i[2]), eq(r, i[1])))
        else:
            _, n, fn = i
            k = z3.Int(it.eng.name("hit"))
            h = simp(hits_at(it, fn, k, r, c))
            u, both = pin(h, k), []
            if u is not None:
                # the condition names the one iteration
                h = simp(hits_at(it, fn, u, r, c))
                out.append(conj(le(0, u), lt(u, n), h))
                continue
            for e in h.children() if is_sym(h) and z3.is_and(h) else [h]:
                if not (is_sym(e) and mentions(e, k)):
                    both.append(e)
            rest = [e for e in (h.children() if is_sym(h) and z3.is_and(h) else [h]) if is_sym(e) and mentions(e, k)]
            inner = conj(*rest)
            if not is_sym(inner):
                out.append(conj(*both, inner, lt(0, n)))
            else:
                out.append(conj(*both, z3.Exists([k], lift(conj(le(0, k), lt(k, n), inner)))))
    return disj(*out)


def pin(h, k):
    from .interp import pinned

    return pinned(h, k) if is_sym(h) else None


def plain(items):
    return all(i[0] == "w" for i in items)


def hits_at(it, fn, k, r, c):
    """the same for the writes of iteration k"""
    return memo(fn.hit, (k, r, c), lambda: hits_of(it, fn(k), r, c))


def hits_of(it, alts, r, c):
    alts = [(d, items) for d, items in alts if items]
    if not alts:
        return False
    cols, rows = [], []
    for _, items in alts:
        cols += columns(items)
    one = lambda xs: all(eqterm(x, xs[0]) for x in xs) and not any(x is None for x in xs)
    if one(cols):
        if all(plain(items) for _, items in alts):
            rows = [i[1] for _, items in alts for i in items]
            if one(rows):
                ds = disj(*[d for d, _ in alts])
                if certain(ds):
                    ds = True
                return conj(eq(c, cols[0]), eq(r, rows[0]), ds)
        return conj(eq(c, cols[0]), disj(*[conj(d, hits(it, items, r, cols[0])) for d, items in alts]))
    return disj(*[conj(d, hits(it, items, r, c)) for d, items in alts])


def eqterm(a, b):
    if a is None or b is None:
        return False
    return simp(eq(a, b)) is True


def columns(items):
    """the columns written to; None: one that is not a single one"""
    out = []
    for i in items:
        if i[0] == "w":
            out.append(i[2])
        else:
            k = z3.Int("column probe")
            for _, xs in i[2](k):
                for c in columns(xs):
                    out.append(None if c is None or is_sym(c) and mentions(c, k) else c)
    return out


def entry(it, cells, r, c):
    b = it.eng.branch
    v, found = last(it, cells.items, r, c)
    return v if found else cells.base(r, c)


def last(it, items, r, c):
    b = it.eng.branch
    for i in reversed(items):
        if i[0] == "w":
            if b(conj(eq(r, i[1]), eq(c, i[2]))):
                return i[3], True
            continue
        _, n, fn = i
        found, x = latest(it, n, fn, r, c)
        if b(found):
            for d, xs in fn(x):
                if xs and b(conj(d, hits(it, xs, r, c))):
                    v, ok = last(it, xs, r, c)
                    if ok:
                        return v, True
                    raise Infeasible()
            raise Infeasible()
    return None, False


def latest(it, n, fn, r, c):
    """(found, x): the last of n iterations that writes to (r, c): functions of the place, the same on every path"""
    fresh = []

    def search():
        m = len(it.eng.factlog)
        names = lambda what: z3.Function(f"{what} {fn.name}", *[I] * (len(at) + 1)) if what == "last" else z3.Function(f"{what} {fn.name}", *[I] * len(at), z3.BoolSort())
        at = [lift(a) for a in (*fn.args, n, r, c)]
        a = it.first_match(n, lambda k: hits_at(it, fn, k, r, c), last=True, names=(names("found")(*at), names("last")(*at)))
        fresh.append(1)
        return a, [f for f, _, _ in it.eng.factlog[m:]]

    a, facts = memo(fn.found, (simp(n), r, c), search)
    if not fresh:
        for f in facts:
            it.eng.fact(f)
    return a


# ------------------------------------------------------------------ substitution, comparison
def subst_items(items, pairs, mark):
    out = []
    for i in items:
        if i[0] == "w":
            out.append(("w", subst(i[1], pairs), subst(i[2], pairs), subst(i[3], pairs, mark=mark)))
        else:
            out.append(("f", subst(i[1], pairs), Fam((lambda fn: lambda k: [(subst(d, pairs), subst_items(xs, pairs, mark)) for d, xs in fn(k)])(i[2]), i[2].name, [subst(a, pairs) for a in i[2].args])))
    return tuple(out)


def same_items(eng, a, b, c, same_value):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "w":
            if not all(same_value(eng, p, q, c) for p, q in zip(x[1:], y[1:])):
                return False
            continue
        if not eng.valid(implies(c, eq(x[1], y[1]))):
            return False
        k = z3.Int(eng.name("it"))
        p, q = x[2](k), y[2](k)
        c2 = conj(c, le(0, k), lt(k, x[1]))
        if not same_alts(eng, p, q, c2, same_value):
            return False
    return True


def same_alts(eng, p, q, c, same_value):
    return len(p) == len(q) and all(eng.valid(implies(c, eq(d, e))) and same_items(eng, xs, ys, conj(c, d), same_value) for (d, xs), (e, ys) in zip(p, q))

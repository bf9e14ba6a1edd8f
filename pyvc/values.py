"""Values of the interpreted program."""
import z3

from .core import *


class Seg:
    """part of a sequence: `n` elements fn(0..n-1).  num: the elements are scalars and fn is pure.
    cond: the part holds only the fn(j) with cond(j), in order (filtered part, its length is unknown)"""

    __slots__ = ("n", "fn", "num", "cond", "cache")

    def __init__(self, n, fn, num=False, cond=None):
        self.n, self.fn, self.num, self.cond = n, fn, num, cond
        self.cache = {}

    def get(self, j):
        j = simp(j)
        key = j.get_id() if is_sym(j) else ("c", j)
        eng = ENG[0]
        e = self.cache.get(key)
        if e is not None:
            # what was computed on another path is not known here
            c = eng.ctx
            while c is not e[2] and c is not None:
                c = c.parent
            if c is e[2]:
                return e[0]
        ctx = eng.ctx
        v = self.fn(j)
        self.cache[key] = (v, j, ctx)
        return v


class Seq:
    __slots__ = ("segs", "replaced")

    def __init__(self, segs=(), replaced=None):
        self.segs = tuple(segs)
        # (sequence, position, value) this one was made from by writing one element
        self.replaced = replaced

    @staticmethod
    def of(items):
        return Seq([Seg(1, (lambda v: lambda j: v)(v), is_num(v)) for v in items])

    def length(self):
        n = 0
        for s in self.segs:
            if s.cond is not None:
                raise Unsupported("length of a filtered sequence")
            n = add(n, s.n)
        return n

    def concrete(self):
        """python list of the elements if the length is concrete, else None"""
        out = []
        for s in self.segs:
            if s.cond is not None or not isinstance(s.n, int):
                return None
            for j in range(s.n):
                out.append(s.get(j))
        return out

    def cat(self, other):
        return Seq(self.segs + other.segs)

    @property
    def filtered(self):
        return any(s.cond is not None for s in self.segs)

    @property
    def numeric(self):
        return all(s.num for s in self.segs)


class Bag(Seq):
    """elements of a set of unknown size: no order, and some may be there more than once"""

    __slots__ = ()

    def length(self):
        raise Unsupported("length of a set")

    def concrete(self):
        return None

    def cat(self, other):
        raise Unsupported("order of a set")


class ListV(Mut):
    def __init__(self, seq=None):
        super().__init__()
        self.seq = seq if seq is not None else Seq()


class TupleV:
    def __init__(self, seq):
        self.seq = seq if isinstance(seq, Seq) else Seq.of(seq)

    def items(self):
        r = self.seq.concrete()
        if r is None:
            raise Unsupported("tuple of unknown length")
        return r


class RangeV(TupleV):
    """a range object: like a tuple of its numbers"""

    def __init__(self, lo, hi, n=None):
        self.lo, self.hi = lo, hi
        if n is None:
            n = sub(hi, lo)
            n = ite(le(0, n), n, 0)
        super().__init__(Seq([Seg(n, lambda j: add(lo, j), True)]))


class IterV(Mut):
    def __init__(self, seq):
        super().__init__()
        self.base = seq
        self.pos = 0


class SetV:
    def __init__(self, seq):
        self.seq = seq


class ArrV(Mut):
    """numpy array (or scipy matrix when sparse): shape and a pure element function.
    A view (basic indexing) reads its base at the time of the read."""

    def __init__(self, shape, elem, kind="i", sparse=False, view=None):
        super().__init__()
        self.shape = tuple(shape)
        self._elem = elem
        self.kind = kind
        self.sparse = sparse
        self.loose = False
        self.view = view  # (base, map from own indices to base indices)

    def snap(self):
        """immutable element function of the present content"""
        if self.view is None:
            return self._elem
        base, mp = self.view
        e = base.snap()
        return lambda *ix: e(*mp(*ix))

    def at(self, *ix):
        return self.snap()(*ix)


class DictV(Mut):
    """entries: ('c', key, value) in order of writing, ('s', n, keyfn, valfn, condfn) for n summarised writes"""

    def __init__(self, entries=()):
        super().__init__()
        self.entries = tuple(entries)


class ObjV(Mut):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.fields = dict(fields or {})


class SymObj(Mut):
    """object of unknown class: `schema` says which classes it may have and what its fields are.
    key is the z3 term that stands for its identity."""

    def __init__(self, schema, key):
        super().__init__()
        self.schema, self.key = schema, key
        self.fields = {}


class EnvV(Mut):
    def __init__(self, vars=None):
        super().__init__()
        self.vars = dict(vars or {})


class FnV:
    def __init__(self, node, mod, env=None, cls=None, qual=None, defaults=None):
        self.node, self.mod, self.env, self.cls, self.qual = node, mod, env, cls, qual
        self.defaults = defaults


class BoundV:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class ClassV:
    def __init__(self, name, node, mod, bases):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases
        self.attrs = {}
        self.qual = f"{mod.name}.{name}"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, fn):
        self.fn = fn


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value


class LibV:
    """object of a library, known by its dotted name only"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<lib {self.name}>"


class TypeV:
    """builtin type"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<type {self.name}>"


class StrT:
    """text with symbolic parts: tuple of str | ('str', value) | ('join', seg, fn)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        self.parts = tuple(out)


class Opaque:
    """value of which only the identity is known"""

    def __init__(self, tag, key=()):
        self.tag, self.key = tag, tuple(key)


class MatV:
    """operator kept as a term: op(args) with op in atom / kron / dot / fold"""

    def __init__(self, op, args):
        self.op, self.args = op, tuple(args)


class Choice:
    """value that depends on conditions: [(cond, value)]"""

    def __init__(self, alts):
        self.alts = alts


class _Missing:
    def __repr__(self):
        return "<unbound>"


MISSING = _Missing()


class Poison:
    """value of a variable at the start of an arbitrary iteration, not known"""

    def __init__(self, loc):
        self.loc = loc


class Lazy:
    """value computed when it is read"""

    def __init__(self, thunk):
        self.make = thunk
        self.memo = None

    def thunk(self):
        eng = ENG[0]
        if self.memo is not None:
            c = eng.ctx
            while c is not self.memo[1] and c is not None:
                c = c.parent
            if c is self.memo[1]:
                return self.memo[0]
        v = self.make()
        self.memo = (v, eng.ctx)
        return v


ENG = [None]


def lazily(thunk, pairs, mark=0):
    """subst(thunk(), pairs); the facts made on the way are instantiated too"""
    eng = ENG[0]
    m = len(eng.factlog)
    # symbols made on the way belong to one value of the replaced variable
    nb = len(eng.bound)
    eng.bound.extend(a for a, _ in pairs)
    try:
        r = subst(thunk(), pairs, mark=mark)
    finally:
        del eng.bound[nb:]
    for f, _, _ in list(eng.factlog[m:]):
        g = z3.substitute(f, *[(a, lift(b)) for a, b in pairs])
        if g.get_id() != f.get_id():
            eng.fact(g)
    return r


# ------------------------------------------------------------------ substitution
def subst(v, pairs, memo=None, mark=0):
    """v with symbols replaced, structures copied; the copies cannot be written.  Objects up to `mark` stay themselves"""
    if memo is None:
        memo = {"mark": mark}
    if is_sym(v):
        return simp(z3.substitute(v, *[(a, lift(b)) for a, b in pairs]))
    if v is None or isinstance(v, (bool, int, Fraction, str, float, tuple)):
        return v
    if isinstance(v, CNum):
        return CNum(subst(v.re, pairs, memo), subst(v.im, pairs, memo))
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Mut) and v.aid <= memo["mark"]:
        return v
    r = _subst(v, pairs, memo)
    memo[id(v)] = (r, v)
    if isinstance(r, Mut):
        r.frozen = True
    return r


def subst_seq(s, pairs, memo):
    return (Bag if isinstance(s, Bag) else Seq)([subst_seg(g, pairs, memo) for g in s.segs])


def subst_seg(g, pairs, memo):
    m = memo["mark"]
    return Seg(subst(g.n, pairs), lambda j: lazily(lambda: g.fn(j), pairs, m), g.num, None if g.cond is None else (lambda j: lazily(lambda: g.cond(j), pairs, m)))


def _subst(v, pairs, memo):
    m = memo["mark"]
    if isinstance(v, RangeV):
        return RangeV(subst(v.lo, pairs), subst(v.hi, pairs), subst(v.seq.segs[0].n, pairs))
    if isinstance(v, TupleV):
        return TupleV(subst_seq(v.seq, pairs, memo))
    if isinstance(v, ListV) and hasattr(v, "grid"):
        if v.grid.aid > m:
            raise Unsupported("table made in a loop")
        return v.grid.row(subst(v.r, pairs))
    if isinstance(v, ListV) and hasattr(v, "store"):
        raise Unsupported("table made in a loop")
    if isinstance(v, ListV):
        r = ListV()
        memo[id(v)] = (r, v)
        r.seq = subst_seq(v.seq, pairs, memo)
        return r
    if isinstance(v, ArrV):
        e = v.snap()
        return ArrV([subst(s, pairs) for s in v.shape], lambda *ix: lazily(lambda: e(*ix), pairs, m), v.kind, v.sparse)
    if isinstance(v, ObjV):
        r = ObjV(v.cls)
        memo[id(v)] = (r, v)
        r.fields = {k: subst(x, pairs, memo) for k, x in v.fields.items()}
        return r
    if isinstance(v, SymObj):
        return v.schema.get(subst(v.key, pairs))
    if isinstance(v, DictV):
        return DictV([subst_entry(e, pairs, memo) for e in v.entries])
    if isinstance(v, StrT):
        return StrT([subst_part(p, pairs, memo) for p in v.parts])
    if isinstance(v, MatV):
        return MatV(v.op, [subst(a, pairs, memo) if not callable(a) else (lambda a: lambda j: lazily(lambda: a(j), pairs, m))(a) for a in v.args])
    if isinstance(v, Opaque):
        return Opaque(v.tag, [subst(k, pairs, memo) for k in v.key])
    if isinstance(v, Choice):
        return Choice([(subst(c, pairs), subst(x, pairs, memo)) for c, x in v.alts])
    if isinstance(v, BoundV):
        return BoundV(subst(v.self_, pairs, memo), v.fn)
    if isinstance(v, FArr):
        return FArr(subst(v.n, pairs), lambda j: lazily(lambda: v.cond(j), pairs, m), lambda j: lazily(lambda: v.get(j), pairs, m))
    if isinstance(v, IterV):
        r = IterV(subst_seq(v.base, pairs, memo))
        r.pos = subst(v.pos, pairs)
        return r
    if isinstance(v, SetV):
        return SetV(subst_seq(v.seq, pairs, memo))
    if isinstance(v, (ClassV, LibV, TypeV, FnV, EnumMember, _Missing, StaticV, PropV)):
        return v
    if isinstance(v, Poison):
        return v
    if hasattr(v, "substituted"):
        return v.substituted(lambda x: subst(x, pairs, memo))
    if isinstance(v, Lazy):
        return Lazy(lambda: subst(v.thunk(), pairs, mark=m))
    raise Unsupported(f"substitution in {type(v).__name__}")


def subst_part(p, pairs, memo):
    if isinstance(p, str):
        return p
    if p[0] == "str":
        return ("str", subst(p[1], pairs, memo))
    if p[0] == "run":
        return ("run", subst(p[1], pairs, memo), *p[2:])
    if p[0] == "join":
        return ("join", p[1], subst_seq(p[2], pairs, memo))
    raise Unsupported("text part")


def subst_entry(e, pairs, memo):
    m = memo["mark"]
    if e[0] == "c":
        return ("c", subst(e[1], pairs, memo), subst(e[2], pairs, memo))
    _, n, k, v, c = e
    return ("s", subst(n, pairs), lambda j: lazily(lambda: k(j), pairs, m), lambda j: lazily(lambda: v(j), pairs, m), lambda j: lazily(lambda: c(j), pairs, m))


class FArr:
    """one-dimensional numpy result of which only the elements j < n with cond(j) exist, in order: get(j)"""

    def __init__(self, n, cond, get):
        self.n, self.cond, self.get = n, cond, get

    def seq(self):
        return Seq([Seg(self.n, self.get, False, self.cond)])


INV = z3.Function("inv", z3.RealSort(), z3.RealSort())

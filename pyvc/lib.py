"""Contracts of python builtins, numpy, scipy and itertools, as operations on the values of the interpreter.

Everything in this file is trusted: it states what the library functions compute, over mathematical
integers and reals (no rounding, no overflow)."""
import ast
import re

import z3

from .core import *
from .grid import GridRow
from .text import Match, PyCall, Texts, Unknown
from .values import *

TYPES = ("int", "list", "tuple", "str", "dict", "set", "float", "bool", "complex", "type", "object", "NoneType")
FUNCS = (
    "len range enumerate zip reversed min max sum all any abs isinstance hasattr iter next map filter sorted print repr divmod round callable getattr staticmethod property super id pow open".split()
)


class Lib:
    def __init__(self, interp):
        self.it = interp
        self.texts_ = None

    @property
    def texts(self):
        if self.texts_ is None or self.texts_.eng is not self.eng:
            self.texts_ = Texts(self)
        return self.texts_

    @property
    def eng(self):
        return self.it.eng

    # ============================================================ names
    def builtin(self, name):
        if name in TYPES:
            return TypeV(name)
        if name in FUNCS or name in ("Exception", "ValueError", "AssertionError", "StopIteration", "TypeError", "IndexError", "KeyError", "NotImplementedError", "RuntimeError"):
            return LibV("builtins." + name)
        if name == "NotImplemented":
            return Opaque("NotImplemented")
        self.it.raise_("UnboundLocalError", name)

    # ============================================================ arithmetic
    def binop(self, op, a, b):
        it = self.it
        a, b = it.force(a), it.force(b)
        if isinstance(a, (MatV,)) or isinstance(b, MatV):
            raise Unsupported("arithmetic on an operator term")
        if isinstance(a, (ArrV, FArr)) or isinstance(b, (ArrV, FArr)):
            if isinstance(a, (ListV, TupleV)):
                a = self.to_array(a)
            if isinstance(b, (ListV, TupleV)):
                b = self.to_array(b)
            return self.broadcast(lambda x, y: self.scalar(op, x, y, True), a, b)
        if op == "Add":
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(a.seq.cat(b.seq))
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.seq.cat(b.seq))
            if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)):
                return self.text([*self.parts(a), *self.parts(b)])
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListV, TupleV)) and isint(y):
                    s = self.repeat_seq(x.seq, arith(y))
                    return ListV(s) if isinstance(x, ListV) else TupleV(s)
                if isinstance(x, str) and isinstance(y, int):
                    return x * y
        if op == "Mod" and isinstance(a, str):
            raise Unsupported("text formatting with %")
        if is_num(a) and is_num(b):
            return self.scalar(op, a, b, False)
        if op in ("BitAnd", "BitOr", "Sub") and isinstance(a, SetV):
            raise Unsupported("set operation")
        self.it.raise_("TypeError", f"{op} of {type(a).__name__} and {type(b).__name__}")

    def repeat_seq(self, seq, n):
        if isinstance(n, int):
            r = Seq()
            if n > 64:
                raise Unsupported("long repetition")
            for _ in range(max(0, n)):
                r = r.cat(seq)
            return r
        m = seq.length()
        if self.eng.branch(le(n, 0)):
            return Seq()
        if isinstance(m, int) and m == 1:
            v = self.it.at(seq, 0)
            return Seq([Seg(n, lambda j: v, is_num(v))])
        if isinstance(m, int) and m == 0:
            return Seq()
        if self.eng.branch(le(m, 0)):
            return Seq()
        if not seq.numeric:
            raise Unsupported("repetition of a list of objects")
        return Seq([Seg(mul(n, m), lambda j: self.it.at(seq, self.eng.posdiv(j, m)[1]), True)])

    def scalar(self, op, a, b, np_):
        e = self.eng
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            return mul(a, b)
        if op == "Div":
            return self.div(a, b, np_)
        if op in ("FloorDiv", "Mod"):
            if not (isint(a) and isint(b)):
                raise Unsupported("floor division of reals")
            return self.floordiv(a, b, np_)[0 if op == "FloorDiv" else 1]
        if op == "Pow":
            if isinstance(b, int) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = mul(r, a)
                return r
            if isinstance(a, int) and isinstance(b, int) and 0 <= b <= 64:
                return a**b
            if isinstance(b, Fraction) and b == Fraction(1, 2):
                return e.sqrt(a)
            raise Unsupported("power")
        if op in ("BitAnd", "BitOr", "BitXor"):
            t = all(isinstance(x, bool) or (is_sym(x) and z3.is_bool(x)) for x in (a, b))
            if t:
                return {"BitAnd": conj, "BitOr": disj, "BitXor": neq}[op](a, b)
            if isinstance(a, int) and isinstance(b, int):
                return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        if op in ("LShift", "RShift") and isinstance(a, int) and isinstance(b, int):
            return a << b if op == "LShift" else a >> b
        raise Unsupported(f"operator {op}")

    def decide(self, c):
        """truth of a condition that must not split inside an element: valid, or its negation valid, or None"""
        c = simp(c)
        if not is_sym(c):
            return bool(c)
        if self.eng.valid(c):
            return True
        if self.eng.valid(nott(c)):
            return False
        return None

    def split(self, c):
        """branch, if not inside an element function; there only a decided condition is allowed"""
        return self.eng.branch(c)

    def floordiv(self, a, b, np_=False):
        a, b = arith(a), arith(b)
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                self.it.raise_("ZeroDivisionError", "")
            return a // b, a % b
        d = self.decide(lt(0, b))
        if d is None:
            d = self.eng.branch(lt(0, b))
        if d is None:
            raise Unsupported("sign of a divisor")
        if d:
            return self.eng.posdiv(a, b)
        if self.split(eq(b, 0)):
            if np_:
                raise Unsupported("numpy division by zero")
            self.it.raise_("ZeroDivisionError", "")
        q, m = self.eng.posdiv(neg(a), neg(b))
        return q, neg(m)

    def inv(self, b):
        b = real(b)
        if isinstance(b, Fraction):
            return 1 / b
        b = z3.simplify(lift(b), som=True)
        r = INV(b)
        self.eng.fact(z3.Implies(b != 0, b * r == 1), [r])
        self.eng.fact(z3.Implies(b > 0, r > 0), [r])
        return r

    def div(self, a, b, np_):
        if isinstance(b, CNum):
            if not is_sym(b.im) and b.im == 0:
                b = b.re
            else:
                raise Unsupported("division by a complex number")
        if not is_sym(b):
            if b == 0:
                if np_:
                    raise Unsupported("division by zero")
                self.it.raise_("ZeroDivisionError", "")
            return mul(a, 1 / Fraction(arith(b)))
        d = self.decide(neq(b, 0))
        if d is None:
            d = self.split(neq(b, 0))
        if not d:
            if np_:
                raise Unsupported("division by zero")
            self.it.raise_("ZeroDivisionError", "")
        r = mul(a if isinstance(a, CNum) else real(a), self.inv(b))
        return r

    def unop(self, op, a):
        a = self.it.force(a)
        if op == "Not":
            return nott(self.it.truth(a))
        if op == "USub":
            if isinstance(a, ArrV):
                e = a.snap()
                return ArrV(a.shape, lambda *i: neg(e(*i)), a.kind, a.sparse)
            if is_num(a):
                return neg(a)
        if op == "UAdd" and is_num(a):
            return a
        if op == "Invert" and isinstance(a, ArrV) and a.kind == "b":
            e = a.snap()
            return ArrV(a.shape, lambda *i: nott(e(*i)), "b")
        raise Unsupported(f"operator {op} on {type(a).__name__}")

    # ============================================================ comparison
    def same(self, a, b):
        """formula: a == b in python's sense (scalars, texts, sequences, identities)"""
        it = self.it
        a, b = it.force(a), it.force(b)
        if isinstance(a, ArrV) and not a.shape:
            a = a.at()
        if isinstance(b, ArrV) and not b.shape:
            b = b.at()
        if is_num(a) and is_num(b):
            return eq(a, b)
        if isinstance(a, ArrV) or isinstance(b, ArrV):
            raise Unsupported("equality of an array inside a container")
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, StrT)) and isinstance(b, (str, StrT)):
            return self.text_eq(a, b)
        if isinstance(a, ListV) and isinstance(b, ListV) or isinstance(a, TupleV) and isinstance(b, TupleV):
            if a is b:
                return True
            return self.seq_eq(a.seq, b.seq)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        if isinstance(a, LibV) and isinstance(b, LibV):
            return a.name == b.name
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SymObj):
                if isinstance(y, SymObj):
                    return x is y or (x.schema.same(x, y))
                if isinstance(y, ObjV):
                    return False
        if a is b:
            return True
        if isinstance(a, ObjV) and isinstance(a.cls, ClassV) and a.cls.lookup("__eq__") is not None:
            return it.truth(it.call(it.getattr(a, "__eq__"), [b], {}))
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and len(a.key) == len(b.key):
            r = conj(*[eq(x, y) if is_num(x) and is_num(y) else x is y for x, y in zip(a.key, b.key)])
            if r is True:
                return True
        if isinstance(a, (Opaque, StrT)) or isinstance(b, (Opaque, StrT)):
            if not (a is None or b is None):
                raise Unsupported("equality of opaque values")
        return False

    def seq_eq(self, s, t):
        n, m = s.length(), t.length()
        k = eq(n, m)
        if k is False:
            return False
        n = n if isinstance(n, int) else m
        return conj(k, self.eng.forall(n, lambda j: self.same(self.pick(s, j), self.pick(t, j))))

    def pick(self, seq, j):
        """element j without splitting the path when j is bound"""
        return self.it.at(seq, j)

    def text_eq(self, a, b):
        p, q = self.text(self.parts(a)), self.text(self.parts(b))
        for x, y in ((p, q), (q, p)):
            if isinstance(x, str) and isinstance(y, StrT) and not any(not isinstance(z, str) and (z[0] == "join" or z[0] == "str" and not isint(self.it.force(z[1]))) for z in y.parts):
                try:
                    if not x:
                        return nott(self.texts.true(y))
                    return self.texts.re_fullmatch(re.escape(x), y) is not None
                except Unknown:
                    pass
        p, q = self.parts(p), self.parts(q)
        # different beginnings or ends
        for x, y in (((p or ("",))[0], (q or ("",))[0]), ((p or ("",))[-1][::-1], (q or ("",))[-1][::-1])):
            if isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if x[:k] != y[:k]:
                    return False
        if len(p) == len(q) == 1 and isinstance(p[0], str) and isinstance(q[0], str):
            return p == q
        if len(p) != len(q):
            raise Unsupported("equality of texts")
        r = True
        for x, y in zip(p, q):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    raise Unsupported("equality of texts")
            elif x[0] == "str" and y[0] == "str":
                r = conj(r, self.same(x[1], y[1]))
            elif x[0] == "join" and y[0] == "join" and x[1] == y[1]:
                r = conj(r, self.seq_eq(x[2], y[2]))
            elif x[0] == "run" and y[0] == "run" and x[1].tag == y[1].tag and len(x[1].key) == len(y[1].key) and all(not isinstance(k, Opaque) for k in x[1].key + y[1].key):
                c = conj(*[self.same(k, l) for k, l in zip(x[1].key, y[1].key)])
                if c is not True and not self.eng.valid(c):
                    raise Unsupported("equality of texts")
            else:
                raise Unsupported("equality of texts")
        return r

    def compare(self, op, a, b):
        it = self.it
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else nott(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else nott(r)
        if isinstance(a, (ArrV, FArr)) and not (isinstance(a, ArrV) and not a.shape) or isinstance(b, (ArrV, FArr)) and not (isinstance(b, ArrV) and not b.shape):
            if a is None or b is None:
                return op == "NotEq"
            f = {"Eq": eq, "NotEq": neq, "Lt": lt, "LtE": le, "Gt": lambda x, y: lt(y, x), "GtE": lambda x, y: le(y, x)}[op]
            a = self.to_array(a) if isinstance(a, (ListV, TupleV)) else a
            b = self.to_array(b) if isinstance(b, (ListV, TupleV)) else b
            return self.broadcast(f, a, b, "b")
        if op == "Eq":
            return self.same(a, b)
        if op == "NotEq":
            return nott(self.same(a, b))
        if isinstance(a, ArrV):
            a = a.at()
        if isinstance(b, ArrV):
            b = b.at()
        if is_num(a) and is_num(b) and not isinstance(a, CNum) and not isinstance(b, CNum):
            return {"Lt": lt, "LtE": le, "Gt": lambda x, y: lt(y, x), "GtE": lambda x, y: le(y, x)}[op](a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        self.it.raise_("TypeError", f"{op} of {type(a).__name__} and {type(b).__name__}")

    def identical(self, a, b):
        if isinstance(a, GridRow) and isinstance(b, GridRow) and a is not b:
            raise Unsupported("identity of rows of a table")
        if a is b:
            return True
        if isinstance(a, (bool,)) and isinstance(b, bool):
            return a == b
        if (isinstance(a, bool) or is_sym(a) and z3.is_bool(a)) and (isinstance(b, bool) or is_sym(b) and z3.is_bool(b)):
            return eq(a, b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return a.name == b.name
        if isinstance(a, LibV) and isinstance(b, LibV):
            return a.name == b.name
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            return a.schema.same(a, b)
        if is_num(a) and is_num(b):
            raise Unsupported("identity of numbers")
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            raise Unsupported("identity of opaque values")
        return False

    def contains(self, c, x):
        it = self.it
        c = it.force(c)
        if isinstance(c, RangeV):
            if isint(x):
                return conj(le(c.lo, x), lt(x, c.hi))
            return False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, StrT):
            return self.texts.contains(c, x)
        if isinstance(c, DictV):
            return disj(*[self.entry_match(e, x) for e in c.entries])
        if isinstance(c, (FArr,)):
            s = c.seq()
        elif isinstance(c, ArrV):
            if len(c.shape) != 1:
                raise Unsupported("membership in an array")
            s = it.iterate(c)
        else:
            s = it.iterate(c)
        return self.seq_contains(s, x)

    def seq_contains(self, s, x):
        r = False
        for g in s.segs:
            if g.num and is_num(x) and g.cond is None and not isinstance(g.n, int):
                # arithmetic progression: no quantifier needed
                v0 = g.get(0)
                if isint(v0):
                    d = simp(sub(g.get(1), v0))
                    if not is_sym(d) and d == 1:
                        k = z3.Int(self.eng.name("ap"))
                        if simp(sub(g.get(k), v0)) is not None and eq(sub(g.get(k), v0), k) is True:
                            r = disj(r, conj(le(v0, x), lt(x, add(v0, g.n))))
                            continue
            if isinstance(g.n, int) and g.cond is None:
                for j in range(g.n):
                    r = disj(r, self.same(g.get(j), x))
            else:
                r = disj(r, self.eng.exists(g.n, lambda j: conj(True if g.cond is None else g.cond(j), self.same(g.get(j), x))))
        return r

    # ============================================================ arrays
    def scal(self, a):
        """0-d view of a scalar"""
        return ArrV((), lambda: a, "i")

    def joinshape(self, n, m):
        """broadcast of two axis lengths: (length, a is 1, b is 1)"""
        n, m = simp(n), simp(m)
        one_n, one_m = isinstance(n, int) and n == 1, isinstance(m, int) and m == 1
        if one_n and one_m:
            return 1, False, False
        if one_n:
            return m, True, False
        if one_m:
            return n, False, True
        d = self.decide(eq(n, m))
        if d is True:
            return (n if isinstance(n, int) else m), False, False
        if self.split(eq(n, m)):
            return (n if isinstance(n, int) else m), False, False
        if self.split(eq(n, 1)):
            return m, True, False
        if self.split(eq(m, 1)):
            return n, False, True
        self.it.raise_("ValueError", "operands could not be broadcast together")

    def broadcast(self, f, a, b, kind=None):
        if isinstance(a, FArr) or isinstance(b, FArr):
            if isinstance(a, FArr) and is_num(b):
                return FArr(a.n, a.cond, lambda j: f(a.get(j), b))
            if isinstance(b, FArr) and is_num(a):
                return FArr(b.n, b.cond, lambda j: f(a, b.get(j)))
            if isinstance(a, FArr) and isinstance(b, FArr) and a.cond is b.cond and a.n is b.n:
                return FArr(a.n, a.cond, lambda j: f(a.get(j), b.get(j)))
            raise Unsupported("arithmetic on filtered arrays")
        sp = (isinstance(a, ArrV) and a.sparse) or (isinstance(b, ArrV) and b.sparse)
        if not isinstance(a, ArrV):
            a = self.scal(a)
        if not isinstance(b, ArrV):
            b = self.scal(b)
        na, nb = len(a.shape), len(b.shape)
        n = max(na, nb)
        shape, fa, fb = [], [], []
        for k in range(n):
            i, j = k - (n - na), k - (n - nb)
            if i < 0:
                shape.append(b.shape[j])
                fb.append((k, False))
            elif j < 0:
                shape.append(a.shape[i])
                fa.append((k, False))
            else:
                s, x, y = self.joinshape(a.shape[i], b.shape[j])
                shape.append(s)
                fa.append((k, x))
                fb.append((k, y))
        ea, eb = a.snap(), b.snap()

        def elem(*ix):
            return f(ea(*[0 if o else ix[k] for k, o in fa]), eb(*[0 if o else ix[k] for k, o in fb]))

        if not shape:
            return elem()
        order = "bifc"
        kd = kind or max(a.kind if a.kind in order else "f", b.kind if b.kind in order else "f", key=order.index)
        return ArrV(shape, elem, kd, sp)

    def kind_of(self, v):
        if isinstance(v, CNum):
            return "c"
        if isinstance(v, bool) or is_sym(v) and z3.is_bool(v):
            return "b"
        if isinstance(v, int) or is_sym(v) and z3.is_int(v):
            return "i"
        return "f"

    def to_array(self, v):
        it = self.it
        v = it.force(v)
        if isinstance(v, ArrV):
            e = v.snap()
            return ArrV(v.shape, e, v.kind, v.sparse)
        if isinstance(v, FArr):
            return v
        if isinstance(v, MatV):
            return v
        if is_num(v):
            return ArrV((), lambda: v, self.kind_of(v))
        if isinstance(v, (ListV, TupleV)):
            s = v.seq
            if s.filtered:
                if len(s.segs) == 1:
                    g = s.segs[0]
                    return FArr(g.n, g.cond, g.get)
                raise Unsupported("array of a filtered list")
            n = s.length()
            if isinstance(n, int) and n == 0:
                return ArrV((0,), lambda i: 0, "f")
            # a sample element gives the inner shape
            k = None
            for g in s.segs:
                if isinstance(g.n, int):
                    if g.n > 0:
                        k = it.force(g.get(0))
                        break
                else:
                    x = z3.Int(self.eng.name("idx"))
                    k = self.eng.element(x, 0, g.n, lambda x: self.sample(g, x), lambda alts: alts[0][1] if alts else 0)
                    break
            if is_num(k):
                return ArrV((n,), lambda i: self.pick(s, i), self.kind_of(k))
            if isinstance(k, (ListV, TupleV, ArrV)):
                inner = self.to_array(k)
                if isinstance(inner, FArr):
                    raise Unsupported("array of filtered arrays")
                shp = [n] + list(inner.shape)
                for g in s.segs:
                    # all rows of one length, else numpy makes no rectangular array
                    for j in [0] if isinstance(g.n, int) and g.n else []:
                        for q in range(g.n):
                            w = self.to_array(it.force(g.get(q))).shape
                            if len(w) != len(inner.shape) or any(self.decide(eq(x, y)) is not True for x, y in zip(w, inner.shape)):
                                raise Unsupported("array of rows of different lengths")

                def elem(i, *rest):
                    r = it.force(self.pick(s, i))
                    r = self.to_array(r)
                    return r.at(*rest)

                return ArrV(shp, elem, inner.kind)
        raise Unsupported(f"array of {type(v).__name__}")

    def sample(self, g, x):
        """an element of the part g; its shape must not depend on the position"""
        v = self.it.force(g.get(x))
        if isinstance(v, (ListV, TupleV, ArrV)):
            a = self.to_array(v)
            if isinstance(a, FArr):
                raise Unsupported("array of filtered arrays")
            if any(mentions(d, x) for d in a.shape):
                z = self.to_array(self.it.force(g.get(0)))
                if len(z.shape) != len(a.shape) or any(self.decide(eq(p, q)) is not True for p, q in zip(a.shape, z.shape)):
                    raise Unsupported("array of rows of different lengths")
                return ArrV(z.shape, a.snap(), a.kind)
        return v

    def row(self, a, j):
        """a[j] for a known index; a view for more than one dimension"""
        if len(a.shape) == 1:
            return a.at(j)
        return ArrV(a.shape[1:], None, a.kind, a.sparse, view=(a, lambda *ix: (j,) + ix))

    def int_of(self, i):
        if isinstance(i, ArrV) and not i.shape:
            return i.at()
        return i

    def arr_get(self, a, ix):
        it = self.it
        if not isinstance(a, ArrV):
            raise Unsupported("index into an unusual array")
        parts = list(ix[1]) if isinstance(ix, tuple) and ix[0] == "tuple" else [ix]
        if isinstance(ix, TupleV):
            parts = ix.items()
        parts = [self.int_of(it.force(p) if not isinstance(p, tuple) else p) for p in parts]
        if len(parts) == 1 and isinstance(parts[0], ArrV) and parts[0].kind == "b":
            m = parts[0]
            if len(m.shape) == 1:
                if self.split(neq(m.shape[0], a.shape[0])):
                    it.raise_("IndexError", "boolean index of another length")
                e = m.snap()
                return FArr(a.shape[0], e, lambda j: self.row(a, j))
            raise Unsupported("boolean mask")
        if len(parts) > len(a.shape):
            it.raise_("IndexError", "too many indices for array")
        if any(p is None for p in parts):
            raise Unsupported("newaxis")
        fancy = [k for k, p in enumerate(parts) if isinstance(p, (ListV, TupleV, ArrV, FArr))]
        if not fancy:
            shape, mp = [], []
            for k, n in enumerate(a.shape):
                if k < len(parts) and not isinstance(parts[k], tuple):
                    if a.sparse:
                        pass
                    i = it.norm_index(parts[k], n)
                    mp.append(("c", i))
                elif k < len(parts):
                    _, lo, hi, st = parts[k]
                    f, m = self.axis_slice(n, lo, hi, st)
                    mp.append(("v", len(shape), f))
                    shape.append(m)
                else:
                    mp.append(("v", len(shape), lambda j: j))
                    shape.append(n)
            if not shape:
                return a.at(*[p[1] for p in mp])
            return ArrV(shape, None, a.kind, a.sparse, view=(a, lambda *ix: tuple(p[1] if p[0] == "c" else p[2](ix[p[1]]) for p in mp)))
        if len(fancy) == 1 and isinstance(parts[fancy[0]], FArr):
            # filtered index
            fa = parts[fancy[0]]
            k0 = fancy[0]
            others = {k: it.norm_index(p, a.shape[k]) for k, p in enumerate(parts) if k != k0 and not isinstance(p, tuple)}
            if len(others) != len(parts) - 1:
                raise Unsupported("filtered index with slices")
            e = a.snap()
            if len(a.shape) == len(parts):
                return FArr(fa.n, fa.cond, lambda j: e(*[fa.get(j) if k == k0 else others[k] for k in range(len(parts))]))
            if len(parts) == 1:
                rest = a.shape[1:]
                return FArr(fa.n, fa.cond, lambda j: ArrV(rest, lambda *ix: e(fa.get(j), *ix), a.kind))
            raise Unsupported("filtered index")
        arrs = {k: self.to_array(parts[k]) for k in fancy}
        if any(isinstance(p, tuple) for p in parts) and fancy != [0]:
            raise Unsupported("fancy index with slices")
        # integer arrays are broadcast together; the result axes come first
        shape, ref = None, None
        for k in fancy:
            if shape is None:
                shape, ref = list(arrs[k].shape), k
            else:
                if len(arrs[k].shape) != len(shape):
                    raise Unsupported("fancy index broadcast")
                for x, y in zip(shape, arrs[k].shape):
                    if self.decide(eq(x, y)) is not True:
                        raise Unsupported("fancy index broadcast")
        nsh = len(shape)
        e = a.snap()
        fixed = {}
        slices = {}
        outshape = list(shape)
        for k, n in enumerate(a.shape):
            if k in arrs:
                continue
            if k < len(parts) and not isinstance(parts[k], tuple):
                fixed[k] = it.norm_index(parts[k], n)
            elif k < len(parts):
                f, m = self.axis_slice(n, *parts[k][1:])
                slices[k] = (len(outshape), f)
                outshape.append(m)
            else:
                slices[k] = (len(outshape), lambda j: j)
                outshape.append(n)
        # indices in range (negative ones count from the end)
        ok = True
        for k, x in arrs.items():
            n = a.shape[k]
            ee = x.snap()
            if len(x.shape) == 1:
                ok = conj(ok, self.eng.forall(x.shape[0], lambda i: conj(le(neg(n), ee(i)), lt(ee(i), n))))
            elif len(x.shape) == 2:
                ok = conj(ok, self.eng.forall(x.shape[0], lambda i: self.eng.forall(x.shape[1], lambda j: conj(le(neg(n), ee(i, j)), lt(ee(i, j), n)))))
            else:
                raise Unsupported("fancy index of rank 3")
        if not self.split(ok):
            it.raise_("IndexError", "index out of bounds")
        snaps = {k: x.snap() for k, x in arrs.items()}

        def wrap(i, n):
            if not is_sym(i):
                return i if i >= 0 else add(n, i)
            if self.decide(le(0, i)) is True:
                return i
            return ite(lt(i, 0), add(n, i), i)

        def elem(*ix):
            src = []
            for k, n in enumerate(a.shape):
                if k in snaps:
                    src.append(wrap(snaps[k](*ix[:nsh]), n))
                elif k in fixed:
                    src.append(fixed[k])
                else:
                    o, f = slices[k]
                    src.append(f(ix[o]))
            return e(*src)

        return ArrV(outshape, elem, a.kind)

    def axis_slice(self, n, lo, hi, st):
        lo, hi, st = (self.int_of(x) for x in (lo, hi, st))
        s = Seq([Seg(n, lambda j: j, True)])
        if st is None or isinstance(st, int):
            r = self.it.slice(s, lo, hi, st)
        else:
            if lo is not None or hi is not None:
                raise Unsupported("symbolic slice step")
            if not self.eng.branch(lt(0, st)):
                raise Unsupported("slice step not positive")
            q, _ = self.floordiv(add(n, sub(st, 1)), st)
            r = Seq([Seg(q, lambda j: mul(st, j), True)])
        m = r.length()
        if isinstance(m, int) and m == 0:
            return (lambda j: j), 0
        return (lambda j: self.it.at(r, j)), m

    def arr_store(self, a, r):
        if not isinstance(r, ArrV):
            raise Unsupported("in-place array operation")
        e = r.snap()
        self.write(a, lambda *ix: True, lambda *ix: e(*ix), r.kind)

    def arr_set(self, a, ix, v):
        it = self.it
        v = it.force(v)
        parts = list(ix[1]) if isinstance(ix, tuple) and ix[0] == "tuple" else [ix]
        if isinstance(ix, TupleV):
            parts = ix.items()
        parts = [self.int_of(it.force(p) if not isinstance(p, tuple) else p) for p in parts]
        conds, free = [], []
        fan = None
        for k, n in enumerate(a.shape):
            if k < len(parts) and isint(parts[k]):
                i = it.norm_index(parts[k], n)
                conds.append((k, i))
            elif k < len(parts) and isinstance(parts[k], tuple) and parts[k][1:] == (None, None, None):
                free.append(k)
            elif k >= len(parts):
                free.append(k)
            elif isinstance(parts[k], (FArr, ListV, ArrV)) and len(parts) == 1:
                fan = parts[k]
                free = list(range(1, len(a.shape)))
                break
            else:
                raise Unsupported("array assignment with this index")
        if isinstance(v, (ListV, TupleV)):
            v = self.to_array(v)
        if fan is not None:
            if isinstance(v, (ArrV, FArr)):
                raise Unsupported("array assignment with an index array")
            if isinstance(fan, FArr):
                w = lambda *jx: self.eng.exists(fan.n, lambda j: conj(fan.cond(j), eq(fan.get(j), jx[0])))
            else:
                fs = it.iterate(fan)
                w = lambda *jx: self.seq_contains(fs, jx[0])
            self.write(a, w, lambda *jx: v, self.kind_of(v))
            return
        if isinstance(v, ArrV):
            if len(v.shape) > len(free):
                raise Unsupported("shape of the assigned array")
            off = len(free) - len(v.shape)
            sel = []
            for q, s in enumerate(v.shape):
                n = a.shape[free[off + q]]
                d = self.decide(eq(n, s))
                if d is True:
                    sel.append((free[off + q], False))
                elif isinstance(s, int) and s == 1:
                    sel.append((free[off + q], True))
                elif self.split(eq(n, s)):
                    sel.append((free[off + q], False))
                else:
                    it.raise_("ValueError", "could not broadcast")
            e = v.snap()
            val = lambda *jx: e(*[0 if o else jx[k] for k, o in sel])
            kd = v.kind
        elif is_num(v):
            val = lambda *jx: v
            kd = self.kind_of(v)
        else:
            raise Unsupported("assigned value")
        self.write(a, lambda *jx: conj(*[eq(jx[k], i) for k, i in conds]), val, kd)

    def write(self, a, where, val, kd):
        order = "bifc"
        if a.kind in order and kd in order and order.index(kd) > order.index(a.kind) and a.kind in "bi" and not a.loose:
            raise Unsupported("assignment that converts the value to the type of the array")
        if a.kind == "f" and kd == "c":
            raise Unsupported("complex value into a real array")
        if getattr(a, "frozen", False):
            raise Unsupported("write to a copied value")
        if a.view is not None:
            base, mp = a.view
            inv = getattr(a, "unmap", None)
            if inv is None:
                raise Unsupported("write through a view")
            return
        old = a._elem
        self.eng.put(a, "_elem", lambda *jx: ite_lazy(where(*jx), lambda: val(*jx), lambda: old(*jx)))

    # ============================================================ dicts
    def entry_match(self, e, k):
        if e[0] == "hidden":
            raise PoisonRead(e[1])
        if e[0] == "c":
            return self.same(e[1], k)
        _, n, key, val, cond = e
        return self.eng.exists(n, lambda j: conj(cond(j), self.same(key(j), k)))

    def dict_get(self, d, k, default=MISSING):
        """the last write to the key"""
        eng = self.eng
        for e in reversed(d.entries):
            if e[0] == "hidden":
                raise PoisonRead(e[1])
            if e[0] == "c":
                if eng.branch(self.same(e[1], k)):
                    return self.it.force(e[2])
            else:
                _, n, key, val, cond = e
                found, x = self.it.first_match(n, lambda j: conj(cond(j), self.same(key(j), k)), last=True)
                if eng.branch(found):
                    return self.it.force(val(x))
        if default is MISSING:
            self.it.raise_("KeyError", "")
        return default

    def dict_set(self, d, k, v):
        k = self.it.force(k)
        out = list(d.entries)
        for q in range(len(out) - 1, -1, -1):
            e = out[q]
            if e[0] == "c":
                m = self.same(e[1], k)
                if m is True:
                    out[q] = ("c", e[1], v)
                    self.eng.put(d, "entries", tuple(out))
                    return
                if m is not False:
                    break
            else:
                break
        out.append(("c", k, v))
        self.eng.put(d, "entries", tuple(out))

    # ============================================================ texts
    def parts(self, t):
        return (t,) if isinstance(t, str) else t.parts

    def to_text(self, v):
        v = self.it.force(v)
        if isinstance(v, bool):
            return StrT([str(v)])
        if isinstance(v, int):
            return StrT([str(v)])
        if isinstance(v, str):
            return StrT([v])
        if isinstance(v, StrT):
            return v
        if isinstance(v, TypeV):
            n = {"ndarray": "numpy.ndarray", "csr_matrix": "scipy.sparse._csr.csr_matrix"}.get(v.name, v.name)
            return StrT([f"<class '{n}'>"])
        if isinstance(v, ObjV) and isinstance(v.cls.lookup("__str__"), FnV):
            return self.to_text(self.it.call(self.it.getattr(v, "__str__"), [], {}))
        return StrT([("str", v)])

    def text(self, parts):
        t = StrT(parts)
        if len(t.parts) == 0:
            return ""
        if len(t.parts) == 1 and isinstance(t.parts[0], str):
            return t.parts[0]
        return t

    # ============================================================ attributes
    def getattr(self, o, name):
        it = self.it
        if isinstance(o, LibV):
            full = o.name + "." + name
            if full in it.stubs:
                return it.stubs[full]
            if full in ("numpy.pi", "math.pi"):
                return PI
            if full in ("numpy.int64", "numpy.int32", "numpy.float64", "numpy.complex128", "numpy.ndarray", "numpy.integer"):
                return TypeV(full)
            return LibV(full)
        if isinstance(o, ArrV):
            if name == "T":
                return self.transpose(o)
            if name == "shape":
                return TupleV(list(o.shape))
            if name == "ndim":
                return len(o.shape)
            if name == "size":
                r = 1
                for s in o.shape:
                    r = mul(r, s)
                return r
            if name in ("real", "imag"):
                e = o.snap()
                f = (lambda x: x.re if isinstance(x, CNum) else x) if name == "real" else (lambda x: x.im if isinstance(x, CNum) else 0)
                return ArrV(o.shape, lambda *i: f(e(*i)), "f" if o.kind == "c" else o.kind, o.sparse)
            if name == "dtype":
                return Opaque("dtype:" + o.kind)
        if isinstance(o, FArr):
            if name == "size":
                return self.count(o)
            if name == "shape":
                return TupleV([self.count(o)])
        if isinstance(o, CNum) and name in ("real", "imag"):
            return o.re if name == "real" else o.im
        if isinstance(o, MatV):
            if name == "shape":
                raise Unsupported("shape of an operator term")
        if is_num(o) and name in ("real", "imag"):
            return o if name == "real" else 0
        if isinstance(o, Match):
            return self.texts.match_attr(o, name)
        if isinstance(o, Opaque) and o.tag == "pattern":
            return self.texts.pattern_attr(o, name)
        if o is None:
            it.raise_("AttributeError", name)
        if isinstance(o, TypeV) and name == "__name__":
            return o.name
        if isinstance(o, TypeV) and o.name == "str" and hasattr(str, name) and name != "join" and not name.startswith("_"):
            # a method not bound to a text
            def unbound(it, args, kw):
                if not args or not isinstance(it.force(args[0]), (str, StrT)):
                    raise Unsupported(f"str.{name} of no text")
                return it.call(it.getattr(it.force(args[0]), name), list(args[1:]), kw)

            return PyCall(unbound)
        if name == "__class__":
            return self.type_of(o)
        if isinstance(o, (ArrV, FArr, ListV, TupleV, DictV, SetV, str, StrT, IterV, MatV, Opaque, int, Fraction, CNum)) or is_num(o):
            return Method(o, name)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def count(self, f):
        return self.eng.sum(f.n, lambda j: ite(f.cond(j), 1, 0))

    def transpose(self, a):
        if isinstance(a, MatV):
            return MatV("T", (a,))
        if len(a.shape) < 2:
            return a
        n = len(a.shape)
        return ArrV(tuple(reversed(a.shape)), None, a.kind, a.sparse, view=(a, lambda *ix: tuple(reversed(ix))))

    def type_of(self, v):
        v = self.it.force(v)
        if isinstance(v, ObjV):
            return v.cls
        if isinstance(v, SymObj):
            return v.schema.type_of(self.it, v)
        if isinstance(v, bool) or is_sym(v) and z3.is_bool(v):
            return TypeV("bool")
        if isint(v):
            return TypeV("int")
        if v is None:
            return TypeV("NoneType")
        for c, n in ((ListV, "list"), (TupleV, "tuple"), (str, "str"), (StrT, "str"), (DictV, "dict"), (SetV, "set"), (CNum, "complex"), (Fraction, "float"), (FArr, "ndarray")):
            if isinstance(v, c):
                return TypeV("range" if isinstance(v, RangeV) else n)
        if isinstance(v, ArrV):
            return TypeV("csr_matrix" if v.sparse else "ndarray")
        if is_num(v):
            return TypeV("float")
        if isinstance(v, ClassV):
            return TypeV("type")
        if isinstance(v, EnumMember):
            return v.cls
        if isinstance(v, MatV):
            raise Unsupported("type of an operator term")
        raise Unsupported(f"type of {type(v).__name__}")

    def isinstance_(self, v, c):
        it = self.it
        v, c = it.force(v), it.force(c)
        if isinstance(c, TupleV):
            return disj(*[self.isinstance_(v, x) for x in c.items()])
        if isinstance(v, SymObj):
            return v.schema.isinstance(it, v, c)
        if isinstance(c, ClassV):
            if isinstance(v, ObjV):
                return c in v.cls.mro()
            if isinstance(v, EnumMember):
                return c is v.cls
            return False
        if isinstance(c, (TypeV, LibV)):
            if isinstance(v, (ObjV,)):
                return c.name == "object"
            t = self.type_of(v)
            if isinstance(t, ClassV):
                return c.name == "object"
            n = c.name.split(".")[-1]
            if n == "object" or n == t.name:
                return True
            if n == "int" and t.name == "bool":
                return True
            if n in ("Iterable",):
                return t.name in ("list", "tuple", "str", "dict", "set", "ndarray", "range")
            if n in ("Sequence",):
                return t.name in ("list", "tuple", "str", "range")
            if n in ("Integral", "Number", "integer"):
                if n == "integer":
                    return False
                return t.name in ("int", "bool") or n == "Number" and t.name in ("float", "complex")
            if isinstance(c, LibV) and n not in ("ndarray", "csr_matrix"):
                if n in ("spmatrix", "sparray"):
                    return t.name == "csr_matrix"
                raise Unsupported(f"isinstance of {c.name}")
            return False
        raise Unsupported("isinstance")

    def hasattr_(self, v, name):
        v = self.it.force(v)
        if name == "__iter__":
            if isinstance(v, (ListV, TupleV, SetV, DictV, str, StrT, IterV, ArrV, FArr)):
                return True
            if is_num(v) or v is None:
                return False
        if name == "toarray":
            if isinstance(v, ArrV):
                return v.sparse
            if is_num(v) or v is None or isinstance(v, (ListV, TupleV)):
                return False
        if isinstance(v, ObjV):
            return name in v.fields or v.cls.lookup(name) is not None
        if isinstance(v, SymObj):
            try:
                self.it.getattr(v, name)
                return True
            except PyRaise as e:
                if e.exc == "AttributeError":
                    return False
                raise
        raise Unsupported(f"hasattr {name}")

    def getitem(self, o, ix):
        if isinstance(o, FArr):
            if isinstance(ix, int) and ix in (0, -1):
                found, x = self.it.first_match(o.n, o.cond, last=ix == -1)
                if not self.eng.branch(found):
                    self.it.raise_("IndexError", "index of an empty array")
                return self.it.force(o.get(x))
        if isinstance(o, MatV):
            raise Unsupported("index into an operator term")
        if isinstance(o, StrT):
            if isinstance(ix, tuple):
                if ix[3] is not None:
                    raise Unsupported("index into a text")
                return self.texts.part(o, ix[1], ix[2])
            return self.texts.char(o, ix)
        if isinstance(o, Match):
            return o.group(self.it.force(ix))
        if is_num(o) or o is None:
            self.it.raise_("TypeError", "not subscriptable")
        raise Unsupported(f"index into {type(o).__name__}")

    # ============================================================ calls
    def call(self, f, args, kw):
        it = self.it
        if isinstance(f, Method):
            return self.method(f.o, f.name, args, kw)
        if any(isinstance(a, tuple) and a and a[0] == "*" for a in args):
            if isinstance(f, LibV) and f.name == "itertools.product":
                return self.product_star(args)
            if isinstance(f, LibV) and f.name in ("builtins.max", "builtins.min") and len(args) == 1:
                args = [ListV(args[0][1])]
            else:
                raise Unsupported("starred argument of unknown length")
        if isinstance(f, TypeV):
            m = getattr(self, "t_" + f.name, None)
            if m is None:
                raise Unsupported(f"call of type {f.name}")
            return m(*args, **kw)
        if isinstance(f, LibV):
            n = f.name
            if n in it.stubs:
                return it.call(it.stubs[n], args, kw)
            if n.startswith("builtins."):
                m = getattr(self, "b_" + n[9:], None)
                if m is None:
                    raise Unsupported(f"call of {n}")
                return m(*args, **kw)
            if n.startswith("object."):
                return None
            if n.startswith("warnings."):
                return None
            short = n.split(".")[-1]
            if n.startswith("re."):
                return self.texts.call(short, args, kw)
            if n.startswith("numpy.") or n.startswith("scipy.") or n.startswith("math.") or n.startswith("itertools.") or n.startswith("copy.") or n.startswith("cmath.") or n.startswith("functools.") or n.startswith("operator."):
                m = getattr(self, "l_" + short, None)
                if m is not None:
                    self.eng.trusted.add(n)
                    try:
                        return m(n, *args, **kw)
                    except TypeError as e:
                        if "l_" in str(e):
                            raise Unsupported(f"arguments of {n}")
                        raise
            raise Unsupported(f"call of {n}")
        if f is None:
            it.raise_("TypeError", "None is not callable")
        raise Unsupported(f"call of {type(f).__name__}")

    # ------------------------------------------------------------ types
    def t_list(self, v=None):
        if v is None:
            return ListV()
        if isinstance(v, FArr):
            return ListV(v.seq())
        return ListV(self.it.iterate(v))

    def t_tuple(self, v=None):
        if v is None:
            return TupleV([])
        v = self.it.force(v)
        if isinstance(v, TupleV) and not isinstance(v, RangeV):
            return v
        return TupleV(self.it.iterate(v))

    def t_set(self, v=None):
        s = Seq() if v is None else self.it.iterate(v)
        return SetV(s if s.concrete() is not None else Bag(s.segs))

    def t_dict(self, v=None, **kw):
        if v is not None and isinstance(v, DictV):
            return DictV(v.entries)
        if v is None:
            return DictV([("c", k, x) for k, x in kw.items()])
        d = DictV()
        for p in self.it.iterate(v).concrete() or self.unsupported("dict of an unknown sequence"):
            a, b = p.items()
            self.dict_set(d, a, b)
        return d

    def unsupported(self, m):
        raise Unsupported(m)

    def t_int(self, v=0):
        v = self.it.force(v)
        if isinstance(v, StrT):
            return self.texts.number(v)
        if isinstance(v, ArrV) and not v.shape:
            v = v.at()
        if isint(v):
            return arith(v)
        if isinstance(v, Fraction):
            return int(v)
        if is_sym(v) and z3.is_app_of(v, z3.Z3_OP_TO_REAL):
            return v.arg(0)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                self.it.raise_("ValueError", "int()")
        raise Unsupported("int() of a float")

    def t_bool(self, v=False):
        return self.it.truth(v)

    def t_float(self, v=0):
        if is_num(v) and not isinstance(v, CNum):
            return real(v)
        raise Unsupported("float()")

    def t_complex(self, a=0, b=0):
        if isinstance(a, CNum):
            return a
        return CNum(a, b)

    def t_str(self, v=""):
        return self.text(self.to_text(v).parts)

    def t_type(self, v):
        return self.type_of(v)

    def t_object(self):
        return Opaque("object")

    # ------------------------------------------------------------ builtins
    def b_len(self, v):
        v = self.it.force(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, StrT):
            return self.texts.length(v)
        if isinstance(v, FArr):
            return self.count(v)
        if isinstance(v, ArrV):
            if not v.shape:
                self.it.raise_("TypeError", "len() of unsized object")
            if v.sparse:
                self.it.raise_("TypeError", "sparse matrix length is ambiguous")
            return v.shape[0]
        if isinstance(v, DictV):
            if any(e[0] != "c" for e in v.entries):
                raise Unsupported("len of a summarised dict")
            return len(v.entries)
        if isinstance(v, (ListV, TupleV)):
            s = v.seq
            if s.filtered:
                n = 0
                for g in s.segs:
                    n = add(n, g.n if g.cond is None else self.eng.sum(g.n, (lambda g: lambda j: ite(g.cond(j), 1, 0))(g)))
                return n
            return s.length()
        if is_num(v) or v is None:
            self.it.raise_("TypeError", "object has no len()")
        if isinstance(v, ObjV):
            return self.it.call(self.it.getattr(v, "__len__"), [], {})
        raise Unsupported(f"len of {type(v).__name__}")

    def b_range(self, a, b=None, st=1):
        a, b, st = (self.int_of(x) for x in (a, b, st))
        if b is None:
            a, b = 0, a
        if not isint(a) or not isint(b):
            self.it.raise_("TypeError", "range of a non-integer")
        a, b = arith(a), arith(b)
        clip = lambda n: n if self.eng.valid(le(0, n)) else ite(le(0, n), n, 0)
        if st == 1:
            return RangeV(a, b, clip(sub(b, a)))
        if st == -1:
            n = clip(sub(a, b))
            return TupleV(Seq([Seg(n, lambda j: sub(a, j), True)]))
        if all(isinstance(x, int) for x in (a, b, st)):
            return TupleV(list(range(a, b, st)))
        if isinstance(st, int) and st > 1:
            q, _ = self.eng.posdiv(add(sub(b, a), st - 1), st)
            return TupleV(Seq([Seg(ite(le(0, q), q, 0), lambda j: add(a, mul(st, j)), True)]))
        raise Unsupported("range with a symbolic step")

    def seq_of(self, v):
        v = self.it.force(v)
        if isinstance(v, FArr):
            return v.seq()
        return self.it.iterate(v)

    def b_enumerate(self, v, start=0):
        s = self.seq_of(v)
        out, off = [], start
        for g in s.segs:
            if g.cond is not None:
                if len(s.segs) == 1:
                    raise Unsupported("enumerate of a filtered sequence")
                raise Unsupported("enumerate of a filtered sequence")
            out.append(Seg(g.n, (lambda g, off: lambda j: TupleV([add(off, j), g.get(j)]))(g, off)))
            off = add(off, g.n)
        return IterV(Seq(out))

    def b_zip(self, *vs):
        ss = [self.seq_of(v) for v in vs]
        if any(s.filtered for s in ss):
            gs = [s.segs[0] for s in ss]
            if all(len(s.segs) == 1 for s in ss) and all(g.cond is gs[0].cond and (g.n is gs[0].n or self.decide(eq(g.n, gs[0].n)) is True) for g in gs):
                return IterV(Seq([Seg(gs[0].n, lambda j: TupleV([g.get(j) for g in gs]), False, gs[0].cond)]))
            raise Unsupported("zip of filtered sequences")
        cs = [s.concrete() for s in ss]
        if all(c is not None for c in cs):
            return IterV(Seq.of([TupleV(list(t)) for t in zip(*cs)]))
        n = ss[0].length()
        for s in ss[1:]:
            m = s.length()
            d = self.decide(le(n, m))
            if d is None:
                d = self.eng.branch(le(n, m))
            n = n if d else m
        return IterV(Seq([Seg(n, lambda j: TupleV([self.pick(s, j) for s in ss]))]))

    def b_reversed(self, v):
        return IterV(self.it.slice(self.seq_of(v), None, None, -1))

    def b_sorted(self, v, key=None, reverse=False):
        s = self.seq_of(v)
        c = s.concrete()
        if c is None or key is not None or not all(isint(x) for x in c):
            raise Unsupported("sorted")
        out = []
        for x in c:
            k = 0
            while k < len(out) and not self.eng.branch(lt(x, out[k])):
                k += 1
            out.insert(k, x)
        if reverse:
            out.reverse()
        return ListV(Seq.of(out))

    def extreme(self, args, kw, f):
        if len(args) == 1:
            s = self.seq_of(args[0])
        else:
            s = Seq.of(list(args))
        if kw:
            raise Unsupported("min/max with options")
        c = s.concrete()
        if c is not None:
            if not c:
                self.it.raise_("ValueError", "empty sequence")
            r = self.it.force(c[0])
            for x in c[1:]:
                x = self.it.force(x)
                c = f(x, r)
                d = self.decide(c)
                r = ite(c, x, r) if d is None else x if d else r
            return r
        if s.filtered:
            return self.extreme_of_some(s, f)
        n = s.length()
        if self.eng.branch(le(n, 0)):
            self.it.raise_("ValueError", "empty sequence")
        if len(s.segs) == 1:
            # consecutive integers
            g = s.segs[0]
            k = z3.Int("k!step")
            try:
                step = simp(sub(g.get(add(k, 1)), g.get(k))) if g.num else None
            except (Unsupported, z3.Z3Exception):
                step = None
            if isinstance(step, int) and step == 1:
                return g.get(0) if f is lt else g.get(sub(n, 1))
        m, w = self.eng.fresh_int("ext"), self.eng.fresh_int("extat")
        some = lt(0, n)
        self.eng.fact(implies(some, conj(le(0, w), lt(w, n), eq(m, self.pick(s, w)))))
        for g in s.segs:
            self.eng.fact(implies(some, self.eng.forall(g.n, (lambda g: lambda j: nott(f(self.it.force(g.get(j)), m)))(g))))
        # by its own name, where the contract has one
        for c in self.eng.points:
            if self.eng.valid(eq(m, c)):
                return c
        return m

    def extreme_of_some(self, s, f):
        """of a sequence some parts of which hold only the elements that meet a condition"""
        eng = self.eng
        has = disj(*[eng.exists(g.n, g.cond) if g.cond is not None else lt(0, g.n) for g in s.segs])
        if not eng.branch(has):
            self.it.raise_("ValueError", "empty sequence")
        probe = eng.element(z3.Int(eng.name("ext")), 0, s.segs[-1].n, lambda k: self.it.force(s.segs[-1].get(k)))
        firsts = [self.it.force(g.get(0)) for g in s.segs if g.cond is None and isinstance(g.n, int) and g.n]
        isreal = any(isinstance(x, Fraction) or is_sym(x) and z3.is_real(x) for x in firsts + [probe])
        m = eng.fresh_real("ext") if isreal else eng.fresh_int("ext")

        def ok(g, j):
            return g.cond(j) if g.cond is not None else True

        for g in s.segs:
            eng.fact(eng.forall(g.n, (lambda g: lambda j: implies(ok(g, j), nott(f(self.it.force(g.get(j)), m))))(g)))
        eng.fact(disj(*[eng.exists(g.n, (lambda g: lambda j: conj(ok(g, j), eq(self.it.force(g.get(j)), m)))(g)) for g in s.segs]))
        return m

    def b_min(self, *a, **k):
        return self.extreme(a, k, lt)

    def b_max(self, *a, **k):
        return self.extreme(a, k, lambda x, y: lt(y, x))

    def b_sum(self, v, start=0):
        s = self.seq_of(v)
        r = start
        for g in s.segs:
            if isinstance(g.n, int) and g.cond is None:
                for j in range(g.n):
                    r = self.binop("Add", r, g.get(j))
            else:
                f = (lambda g: lambda j: arith(self.it.force(g.get(j))))(g)
                if g.cond is not None:
                    f2 = (lambda g, f: lambda j: ite(g.cond(j), f(j), 0))(g, f)
                else:
                    f2 = f
                r = add(r, self.eng.sum(g.n, f2))
        return r

    def quantified(self, v, conjunctive):
        s = self.seq_of(v)
        out = []
        for g in s.segs:
            if isinstance(g.n, int) and g.cond is None:
                out.extend(self.it.truth(g.get(j)) for j in range(g.n))
            else:
                f = lambda j: self.it.truth(g.get(j))
                c = g.cond
                if conjunctive:
                    out.append(self.eng.forall(g.n, (lambda g, c: lambda j: implies(True if c is None else c(j), self.it.truth(g.get(j))))(g, c)))
                else:
                    out.append(self.eng.exists(g.n, (lambda g, c: lambda j: conj(True if c is None else c(j), self.it.truth(g.get(j))))(g, c)))
        return (conj if conjunctive else disj)(*out)

    def b_all(self, v):
        return self.quantified(v, True)

    def b_any(self, v):
        return self.quantified(v, False)

    def b_abs(self, v):
        if isinstance(v, ArrV):
            return self.l_abs("", v)
        return self.eng.abs(v)

    def b_round(self, v, nd=None):
        raise Unsupported("round")

    def b_isinstance(self, v, c):
        return self.isinstance_(v, c)

    def b_hasattr(self, v, n):
        return self.hasattr_(v, n)

    def b_getattr(self, v, n, d=MISSING):
        try:
            return self.it.getattr(v, n)
        except PyRaise as e:
            if d is not MISSING and e.exc == "AttributeError":
                return d
            raise

    def b_callable(self, v):
        return isinstance(v, (FnV, BoundV, ClassV, LibV, Method))

    def b_print(self, *a, **k):
        return None

    def b_divmod(self, a, b):
        if isint(a) and isint(b):
            return TupleV(list(self.floordiv(a, b)))
        raise Unsupported("divmod")

    def b_iter(self, v):
        v = self.it.force(v)
        if isinstance(v, IterV):
            return v
        return IterV(self.seq_of(v))

    def b_next(self, v, default=MISSING):
        if not isinstance(v, IterV):
            raise Unsupported("next")
        it = self.it
        s = v.base
        if s.filtered:
            if len(s.segs) != 1 or not (isinstance(v.pos, int) and v.pos == 0):
                raise Unsupported("next of a filtered sequence")
            g = s.segs[0]
            found, x = it.first_match(g.n, g.cond)
            if not self.eng.branch(found):
                if default is not MISSING:
                    return default
                it.raise_("StopIteration", "")
            self.eng.put(v, "base", Seq([Seg(sub(sub(g.n, x), 1), lambda j: g.get(add(add(x, 1), j)), False, lambda j: g.cond(add(add(x, 1), j)))]))
            return it.force(g.get(x))
        n = s.length()
        if self.eng.branch(le(n, v.pos)):
            if default is not MISSING:
                return default
            it.raise_("StopIteration", "")
        r = it.at(s, v.pos)
        self.eng.put(v, "pos", add(v.pos, 1))
        return r

    def b_map(self, f, *vs):
        if len(vs) == 1:
            s = self.seq_of(vs[0])
        else:
            s = self.b_zip(*vs).base
        bag = isinstance(s, Bag)
        if bag:
            s = Seq(s.segs)
        acc = ListV()

        def body(v):
            a = [v] if len(vs) == 1 else v.items()
            r = self.it.call(f, a, {})
            self.eng.put(acc, "seq", acc.seq.cat(Seq.of([r])))

        self.it.loop(s, body)
        return IterV(Bag(acc.seq.segs) if bag else acc.seq)

    def b_filter(self, f, v):
        acc = ListV()

        def body(x):
            c = self.it.truth(x if f is None else self.it.call(f, [x], {}))
            if self.eng.branch(c):
                self.eng.put(acc, "seq", acc.seq.cat(Seq.of([x])))

        self.it.loop(self.seq_of(v), body)
        return IterV(acc.seq)

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw):
        o = self.it.force(o)
        if isinstance(o, (str, StrT)):
            return self.str_method(o, name, args, kw)
        t = {ListV: "list", TupleV: "tuple", RangeV: "tuple", DictV: "dict", ArrV: "arr", FArr: "farr", SetV: "set", MatV: "mat", CNum: "num", IterV: "iter"}.get(type(o))
        if t is None and is_num(o):
            t = "num"
        m = getattr(self, f"m_{t}_{name}", None)
        if m is None:
            raise Unsupported(f"method {name} of {type(o).__name__}")
        return m(o, *args, **kw)

    def setseq(self, o, s):
        if getattr(o, "frozen", False):
            raise Unsupported("change of a copied list")
        self.eng.put(o, "seq", s)

    def m_list_append(self, o, v):
        self.setseq(o, o.seq.cat(Seq.of([v])))

    def m_list_extend(self, o, v):
        self.setseq(o, o.seq.cat(self.seq_of(v)))

    def m_list_copy(self, o):
        return ListV(o.seq)

    def m_list_clear(self, o):
        self.setseq(o, Seq())

    def m_list_reverse(self, o):
        self.setseq(o, self.it.slice(o.seq, None, None, -1))

    def m_list_sort(self, o, key=None, reverse=False):
        self.setseq(o, self.b_sorted(o, key, reverse).seq)

    def m_list_pop(self, o, i=-1):
        s = o.seq
        n = s.length()
        if self.eng.branch(le(n, 0)):
            self.it.raise_("IndexError", "pop from empty list")
        if isinstance(i, int) and i == -1:
            # keep the shape of the parts
            last = s.segs[-1]
            v = self.it.seq_get(s, -1)
            if isinstance(last.n, int) and last.n == 1:
                self.setseq(o, Seq(s.segs[:-1]))
            elif isinstance(last.n, int) and last.n > 1 or len(s.segs) == 1:
                self.setseq(o, Seq(s.segs[:-1] + (Seg(sub(last.n, 1), last.get, last.num, last.cond),)))
            else:
                self.setseq(o, self.it.cut(s, 0, sub(n, 1)))
            return v
        i = self.it.norm_index(i, n)
        v = self.it.at(s, i)
        self.setseq(o, self.it.cut(s, 0, i).cat(self.it.cut(s, add(i, 1), sub(sub(n, i), 1))))
        return v

    def m_list_insert(self, o, i, v):
        s = o.seq
        n = s.length()
        i = arith(i)
        if self.eng.branch(lt(i, 0)):
            i = add(n, i)
            if self.eng.branch(lt(i, 0)):
                i = 0
        if self.eng.branch(lt(n, i)):
            i = n
        self.setseq(o, self.it.cut(s, 0, i).cat(Seq.of([v])).cat(self.it.cut(s, i, sub(n, i))))

    def m_list_remove(self, o, v):
        i = self.m_list_index(o, v)
        self.m_list_pop(o, i)

    def m_list_count(self, o, v):
        r = 0
        for g in o.seq.segs:
            f = (lambda g: lambda j: ite(conj(True if g.cond is None else g.cond(j), self.same(g.get(j), v)), 1, 0))(g)
            r = add(r, self.eng.sum(g.n, f))
        return r

    m_tuple_count = m_list_count

    def m_list_index(self, o, v):
        s = o.seq
        if s.filtered:
            raise Unsupported("index in a filtered list")
        n = s.length()
        found, x = self.it.first_match(n, lambda j: self.same(self.pick(s, j), v))
        if not self.eng.branch(found):
            self.it.raise_("ValueError", "not in list")
        return x

    m_tuple_index = m_list_index

    def m_set_add(self, o, v):
        raise Unsupported("set.add")

    def m_dict_get(self, o, k, d=None):
        return self.dict_get(o, k, d)

    def m_dict_keys(self, o):
        return ListV(self.it.iterate(o))

    def conc(self, o):
        if any(e[0] != "c" for e in o.entries):
            raise Unsupported("iteration over a summarised dict")
        return o.entries

    def m_dict_values(self, o):
        return ListV(Seq.of([e[2] for e in self.conc(o)]))

    def m_dict_items(self, o):
        return ListV(Seq.of([TupleV([e[1], e[2]]) for e in self.conc(o)]))

    def m_dict_copy(self, o):
        return DictV(o.entries)

    def m_dict_setdefault(self, o, k, d=None):
        m = disj(*[self.entry_match(e, k) for e in o.entries])
        if self.eng.branch(m):
            return self.dict_get(o, k)
        self.dict_set(o, k, d)
        return d

    def m_dict_update(self, o, d=None, **kw):
        for e in self.conc(d) if d is not None else []:
            self.dict_set(o, e[1], e[2])
        for k, v in kw.items():
            self.dict_set(o, k, v)

    def m_dict_pop(self, o, k, d=MISSING):
        es = self.conc(o)
        for q, e in enumerate(es):
            if self.eng.branch(self.same(e[1], k)):
                self.eng.put(o, "entries", tuple(es[:q] + es[q + 1 :]))
                return e[2]
        if d is MISSING:
            self.it.raise_("KeyError", "")
        return d

    def str_method(self, o, name, args, kw):
        if isinstance(o, str) and name != "join" and all(isinstance(a, (str, int)) and not is_sym(a) for a in args):
            r = getattr(o, name)(*args)
            if isinstance(r, list):
                return ListV(Seq.of(r))
            if isinstance(r, tuple):
                return TupleV(list(r))
            return r
        if name == "join" and isinstance(o, str):
            s = self.seq_of(args[0])
            c = s.concrete()
            if c is not None:
                parts = []
                for k, x in enumerate(c):
                    x = self.it.force(x)
                    if k and o:
                        parts.append(o)
                    if not isinstance(x, (str, StrT)):
                        self.it.raise_("TypeError", "join of a non-text")
                    parts.extend(self.parts(x))
                return self.text(parts)
            return self.text([("join", o, s)])
        if isinstance(o, StrT):
            return self.texts.method(o, name, args, kw)
        raise Unsupported(f"text method {name}")

    # arrays
    def m_arr_copy(self, o, order=None):
        return self.to_array(o)

    def m_arr_transpose(self, o, *ax):
        if ax:
            raise Unsupported("transpose with axes")
        return self.transpose(o)

    def m_arr_toarray(self, o):
        return ArrV(o.shape, o.snap(), o.kind)

    m_arr_todense = m_arr_toarray

    def m_arr_tocsr(self, o):
        return o

    def m_arr_tolist(self, o):
        if len(o.shape) == 1:
            return ListV(self.it.iterate(o))
        raise Unsupported("tolist")

    def m_arr_conj(self, o):
        e = o.snap()
        return ArrV(o.shape, lambda *i: self.conj1(e(*i)), o.kind, o.sparse)

    m_arr_conjugate = m_arr_conj

    def conj1(self, x):
        return CNum(x.re, neg(x.im)) if isinstance(x, CNum) else x

    def m_num_conjugate(self, o):
        return self.conj1(o)

    m_num_conj = m_num_conjugate

    def m_arr_dot(self, o, b):
        return self.l_dot("", o, b)

    def m_arr_all(self, o, axis=None):
        return self.l_all("", o, axis)

    def m_arr_any(self, o, axis=None):
        return self.l_any("", o, axis)

    def m_arr_sum(self, o, axis=None):
        return self.l_sum("", o, axis)

    def m_arr_prod(self, o, axis=None):
        return self.l_prod("", o, axis)

    def m_arr_cumprod(self, o):
        return self.l_cumprod("", o)

    def m_arr_astype(self, o, t, **kw):
        n = getattr(t, "name", str(t)).split(".")[-1]
        if n.startswith("int") and o.kind in "bi":
            e = o.snap()
            return ArrV(o.shape, lambda *i: arith(e(*i)), "i", o.sparse)
        if n.startswith("float") and o.kind in "bif":
            return ArrV(o.shape, o.snap(), "f", o.sparse)
        if n.startswith("complex"):
            return ArrV(o.shape, o.snap(), "c", o.sparse)
        raise Unsupported("astype")

    def m_arr_nonzero(self, o):
        return self.l_nonzero("", o)

    def m_arr_ravel(self, o):
        return self.ravel(o)

    def m_arr_flatten(self, o):
        return self.to_array(self.ravel(o))

    def ravel(self, o):
        if len(o.shape) == 1:
            return o
        if len(o.shape) == 2:
            n, m = o.shape
            e = o.snap()
            if isinstance(m, int) and m == 1:
                return ArrV((n,), lambda i: e(i, 0), o.kind)
            if isinstance(n, int) and n == 1:
                return ArrV((m,), lambda i: e(0, i), o.kind)
            if self.decide(lt(0, m)) is not True:
                raise Unsupported("ravel")
            return ArrV((mul(n, m),), lambda i: e(*self.eng.posdiv(i, m)), o.kind)
        raise Unsupported("ravel")

    def m_arr_reshape(self, o, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (TupleV, ListV)):
            shape = shape[0].seq.concrete() or self.unsupported("reshape")
        if len(shape) == 2 and len(o.shape) == 1:
            e = o.snap()
            n, m = shape
            if isinstance(m, int) and m == 1:
                if n == -1 or self.decide(eq(n, o.shape[0])) is True:
                    return ArrV((o.shape[0], 1), lambda i, j: e(i), o.kind)
            if isinstance(n, int) and n == 1:
                if m == -1 or self.decide(eq(m, o.shape[0])) is True:
                    return ArrV((1, o.shape[0]), lambda i, j: e(j), o.kind)
        if len(shape) == 1:
            r = self.ravel(o)
            if shape[0] == -1 or self.decide(eq(shape[0], r.shape[0])) is True:
                return r
        raise Unsupported("reshape")

    def m_farr_copy(self, o):
        return o

    def m_farr_tolist(self, o):
        return ListV(o.seq())

    def m_mat_transpose(self, o):
        return MatV("T", (o,))

    # ------------------------------------------------------------ numpy / scipy
    def mk(self, shape):
        shape = self.it.force(shape)
        if isint(shape):
            return [arith(shape)]
        return [arith(x) for x in self.it.iterate(shape).concrete()]

    def l_zeros(self, n, shape, dtype=None, **kw):
        return self.filled(shape, 0, dtype)

    def l_ones(self, n, shape, dtype=None, **kw):
        return self.filled(shape, 1, dtype)

    def l_full(self, n, shape, v, dtype=None):
        return self.filled(shape, v, dtype)

    def filled(self, shape, v, dtype):
        k = "f"
        if dtype is not None:
            t = getattr(dtype, "name", str(dtype)).split(".")[-1]
            k = "c" if t.startswith("complex") else "i" if t.startswith("int") else "b" if t == "bool" else "f"
            if k == "b":
                raise Unsupported("boolean array")
        a = ArrV(self.mk(shape), lambda *i: v, k)
        return a

    def l_eye(self, n, /, *a, **kw):
        # numpy: (N rows, M columns), scipy: (m rows, n columns)
        r, c = ("m", "n") if n.startswith("scipy") else ("N", "M")
        N = kw.get(r, a[0] if a else None)
        M = kw.get(c, a[1] if len(a) > 1 else None)
        if N is None:
            self.it.raise_("TypeError", "missing argument")
        if any(k not in (r, c, "dtype", "format") for k in kw):
            raise Unsupported("eye with a diagonal")
        M = N if M is None else M
        return ArrV((arith(N), arith(M)), lambda i, j: ite(eq(i, j), 1, 0), "f", sparse=n.startswith("scipy"))

    def l_identity(self, n, N, dtype=None, format=None):
        return self.l_eye(n, N)

    def l_array(self, n, v, dtype=None, copy=True, **kw):
        v = self.it.force(v)
        if isinstance(v, MatV):
            return v
        a = self.to_array(v)
        if isinstance(a, ArrV) and a.sparse:
            return ArrV((), lambda: Opaque("sparse in array"), "o")
        if dtype is not None and isinstance(a, ArrV):
            return self.m_arr_astype(a, dtype)
        return a

    l_asarray = l_array

    def l_arange(self, n, a, b=None, st=None, dtype=None):
        r = self.b_range(a, b, 1 if st is None else st)
        s = r.seq
        return ArrV((s.length(),), lambda i: self.it.at(s, i), "i")

    def prefix(self, s, k):
        """product of the first k elements of the numeric sequence s (0 <= k <= length)"""
        return self.range_prod(s, 0, k)

    def range_prod(self, s, lo, hi):
        """product of the elements lo..hi-1"""
        eng = self.eng
        lo, hi = simp(lo), simp(hi)
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 8:
            r = 1
            for k in range(lo, hi):
                r = mul(r, self.it.at(s, k))
            return r
        r, off = 1, 0
        if len(s.segs) == 1:
            return self.seg_prod(s.segs[0], lo, hi)
        for g in s.segs:
            nxt = add(off, g.n)
            a = sub(ite(le(off, lo), lo, off), off)
            b = sub(ite(le(hi, nxt), hi, nxt), off)
            if isinstance(g.n, int) and g.n <= 2:
                for k in range(g.n):
                    r = mul(r, ite(conj(le(lo, add(off, k)), lt(add(off, k), hi)), g.get(k), 1))
            else:
                r = mul(r, self.seg_prod(g, a, b))
            off = nxt
        return r

    def seg_prod(self, g, lo, hi):
        eng = self.eng
        k = z3.Int(eng.name("p"))
        t = arith(eng.element(k, lo, hi, lambda k: self.it.force(g.get(k))))
        if not is_sym(t):
            if t == 1:
                return 1
        elif z3.is_app(t) and t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in eng.intseqs:
            a = t.arg(0)
            up = simp(a - k)
            down = simp(a + k)
            d = t.decl()
            if not mentions(up, k):
                return eng.prod_uf(d, add(up, lo), add(up, hi))
            if not mentions(down, k):
                return eng.prod_uf(d, add(sub(down, hi), 1), add(sub(down, lo), 1))
        raise Unsupported(f"product of an unknown sequence ({str(t)[:120]})")

    def l_prod(self, n, v, axis=None, dtype=None, **kw):
        if axis is not None and not (isinstance(v, ArrV) and len(v.shape) == 1):
            raise Unsupported("prod along an axis")
        s = self.seq_of(v)
        if s.filtered:
            raise Unsupported("product of a filtered sequence")
        c = s.concrete()
        if c is not None:
            r = 1
            for x in c:
                r = mul(r, self.it.force(x))
            return r
        return self.range_prod(s, 0, s.length())

    l_product_np = l_prod

    def l_product(self, n, *a, **kw):
        if n.startswith("numpy"):
            return self.l_prod(n, *a, **kw)
        return self.cartesian([self.seq_of(x) for x in a])

    def product_star(self, args):
        if len(args) != 1:
            raise Unsupported("product of several starred arguments")
        return self.cartesian_seq(args[0][1])

    def cartesian(self, ss):
        # number of factors known: same form as the general case
        return self.cartesian_seq(Seq.of([TupleV(s) for s in ss]))

    def cartesian_seq(self, s):
        """itertools.product of the sequences in s: tuple r holds, for every factor, the digit of r"""
        self.eng.trusted.add("itertools.product")
        it = self.it
        if s.filtered:
            raise Unsupported("product of a filtered sequence")
        segs = []
        for g in s.segs:
            segs.append(Seg(g.n, (lambda g: lambda j: it.force(g.get(j)).seq.length())(g), True))
        lens = Seq(segs)
        n = lens.length()
        total = self.range_prod(lens, 0, n) if lens.concrete() is None else self.l_prod("", TupleV(lens))

        def digit(i, r):
            d = self.pick(lens, i)
            w = self.range_prod(lens, add(i, 1), n)
            if self.decide(lt(0, d)) is not True or self.decide(lt(0, w)) is not True:
                raise Unsupported("product of possibly empty factors")
            q, _ = self.floordiv(r, w)
            return self.floordiv(q, d)[1]

        def tup(r):
            out = []
            off = 0
            for g in s.segs:
                out.append(Seg(g.n, (lambda g, off: lambda i: it.at(it.force(g.get(i)).seq, digit(add(off, i), r)))(g, off), True))
                off = add(off, g.n)
            return TupleV(Seq(out))

        return IterV(Seq([Seg(total, tup)]))

    def l_cumprod(self, n, v, axis=None, dtype=None):
        s = self.seq_of(v)
        m = s.length()
        return ArrV((m,), lambda j: self.range_prod(s, 0, add(j, 1)), "i")

    def l_sum(self, n, v, axis=None, **kw):
        a = v if isinstance(v, ArrV) else None
        if a is None or len(a.shape) == 1:
            if isinstance(v, FArr):
                return self.eng.sum(v.n, lambda j: ite(v.cond(j), v.get(j), 0))
            return self.b_sum(v)
        raise Unsupported("sum of a matrix")

    def l_repeat(self, n, v, m, axis=None):
        s = self.seq_of(v)
        if not isint(m):
            raise Unsupported("repeat")
        k = s.length()
        if self.split(le(m, 0)):
            return ArrV((0,), lambda i: 0, "i")
        return ArrV((mul(k, m),), lambda j: self.pick(s, self.floordiv(j, m)[0]), "i")

    def l_tile(self, n, v, m):
        s = self.seq_of(v)
        r = self.repeat_seq(s, arith(m))
        return ArrV((r.length(),), lambda j: self.pick(r, j), "i")

    def l_swapaxes(self, n, a, i, j):
        a = self.to_array(a) if not isinstance(a, ArrV) else a
        if len(a.shape) == 2 and {i, j} == {0, 1}:
            return self.transpose(a)
        raise Unsupported("swapaxes")

    def l_transpose(self, n, a):
        return self.transpose(a if isinstance(a, (ArrV, MatV)) else self.to_array(a))

    def l_all(self, n, a, axis=None, **kw):
        return self.quant(a, axis, True)

    def l_any(self, n, a, axis=None, **kw):
        return self.quant(a, axis, False)

    def l_array_equal(self, n, a, b):
        a = a if isinstance(a, ArrV) else self.to_array(a)
        b = b if isinstance(b, ArrV) else self.to_array(b)
        if len(a.shape) != len(b.shape):
            return False
        c = conj(*[eq(x, y) for x, y in zip(a.shape, b.shape)])
        if len(a.shape) != 1:
            raise Unsupported("array_equal")
        ea, eb = a.snap(), b.snap()
        return conj(c, self.eng.forall(a.shape[0], lambda i: eq(ea(i), eb(i))))

    def quant(self, a, axis, conjunctive):
        q = self.eng.forall if conjunctive else self.eng.exists
        if isinstance(a, bool) or is_sym(a):
            return self.it.truth(a)
        if isinstance(a, (ListV, TupleV, IterV)):
            if any(not is_num(x) for x in (a.seq.concrete() or []) if not isinstance(a, IterV)):
                a = self.to_array(a)
            else:
                return self.quantified(a, conjunctive)
        if isinstance(a, FArr):
            return self.quantified(ListV(a.seq()), conjunctive)
        e = a.snap()
        t = self.it.truth
        if axis is None:
            if len(a.shape) == 1:
                return q(a.shape[0], lambda i: t(e(i)))
            if len(a.shape) == 2:
                return q(a.shape[0], lambda i: q(a.shape[1], lambda j: t(e(i, j))))
        if len(a.shape) == 2 and axis in (1, -1):
            return ArrV((a.shape[0],), lambda i: q(a.shape[1], lambda j: t(e(i, j))), "b")
        if len(a.shape) == 2 and axis == 0:
            return ArrV((a.shape[1],), lambda j: q(a.shape[0], lambda i: t(e(i, j))), "b")
        if len(a.shape) == 1 and axis in (0, -1):
            return q(a.shape[0], lambda i: t(e(i)))
        raise Unsupported("all/any")

    def l_where(self, n, c, *ab):
        if ab:
            a, b = ab
            x = self.broadcast(lambda p, q: ("pair", p, q), a, b) if False else None
            cc = c if isinstance(c, ArrV) else self.to_array(c)
            if is_num(a) and is_num(b):
                e = cc.snap()
                return ArrV(cc.shape, lambda *i: ite(self.it.truth(e(*i)), a, b), self.kind_of(a))
            raise Unsupported("where with arrays")
        return self.l_nonzero(n, c)

    def l_flatnonzero(self, n, a):
        return self.it.at(self.l_nonzero(n, self.ravel(a)).seq, 0)

    def l_nonzero(self, n, a):
        a = a if isinstance(a, ArrV) else self.to_array(a)
        if isinstance(a, MatV) or isinstance(a, FArr):
            raise Unsupported("nonzero")
        e = a.snap()
        t = self.it.truth
        if len(a.shape) == 1:
            c = lambda j: t(e(j))
            return TupleV([FArr(a.shape[0], c, lambda j: j)])
        if len(a.shape) == 2:
            r, m = a.shape
            if isinstance(m, int) and m == 1:
                c = lambda j: t(e(j, 0))
                return TupleV([FArr(r, c, lambda j: j), FArr(r, c, lambda j: 0)])
            if self.decide(lt(0, m)) is not True:
                raise Unsupported("nonzero")
            c = lambda j: t(e(*self.eng.posdiv(j, m)))
            k = mul(r, m)
            return TupleV([FArr(k, c, lambda j: self.eng.posdiv(j, m)[0]), FArr(k, c, lambda j: self.eng.posdiv(j, m)[1])])
        raise Unsupported("nonzero")

    def l_roll(self, n, a, shift, axis=None):
        a = a if isinstance(a, ArrV) else self.to_array(a)
        e = a.snap()
        k = self.int_of(shift)
        if axis is None and len(a.shape) == 2:
            return self.m_arr_reshape(self.l_roll("", self.ravel(a), k), *a.shape)
        x = 0 if axis is None else axis
        if not isinstance(x, int) or not -len(a.shape) <= x < len(a.shape):
            raise Unsupported("axis of roll")
        x %= len(a.shape)
        size = a.shape[x]
        if self.decide(lt(0, size)) is not True:
            raise Unsupported("roll of an array that may be empty")
        at = lambda i: self.eng.posdiv(sub(i, k), size)[1]
        return ArrV(a.shape, lambda *i: e(*[at(v) if t == x else v for t, v in enumerate(i)]), a.kind)

    def arg_extreme(self, a, axis, better):
        """the first place of the largest (smallest) element"""
        a = a if isinstance(a, ArrV) else self.to_array(a)
        if axis is None and len(a.shape) == 2:
            a = self.ravel(a)
        if len(a.shape) != 1 or axis not in (None, 0, -1):
            raise Unsupported("argmax along an axis")
        e, size, eng = a.snap(), a.shape[0], self.eng
        if eng.branch(le(size, 0)):
            self.it.raise_("ValueError", "argmax of an empty sequence")
        m = eng.fresh_int("arg")

        def at(i):
            v = e(i)
            if isinstance(v, CNum):
                raise Unsupported("argmax of complex numbers")
            return arith(v)

        # an array that is zero but at one place
        k = z3.Int(eng.name("s"))
        t = eng.element(k, 0, size, at)
        one = single_term(t, k) if is_sym(t) and mentions(t, k) else None
        if one is not None and eng.valid(conj(le(0, one[0]), lt(one[0], size), better(one[1], 0))):
            return one[0]
        eng.fact(conj(le(0, m), lt(m, size)))
        eng.fact(eng.forall(size, lambda j: nott(better(at(j), at(m)))))
        eng.fact(eng.forall(m, lambda j: better(at(m), at(j))))
        return m

    def l_argmax(self, n, a, axis=None):
        return self.arg_extreme(a, axis, lambda x, y: lt(y, x))

    def l_argmin(self, n, a, axis=None):
        return self.arg_extreme(a, axis, lt)

    def l_outer(self, n, a, b):
        a, b = (x if isinstance(x, ArrV) else self.to_array(x) for x in (a, b))
        a, b = self.ravel(a), self.ravel(b)
        ea, eb = a.snap(), b.snap()
        return ArrV((a.shape[0], b.shape[0]), lambda i, j: mul(ea(i), eb(j)), max(a.kind, b.kind, key="bifc".index))

    def l_diag(self, n, a, k=0):
        a = a if isinstance(a, ArrV) else self.to_array(a)
        if k != 0:
            raise Unsupported("diag")
        e = a.snap()
        if len(a.shape) == 1:
            return ArrV((a.shape[0], a.shape[0]), lambda i, j: ite(eq(i, j), e(i), 0), a.kind)
        r, m = a.shape
        if self.decide(eq(r, m)) is True:
            return ArrV((r,), lambda i: e(i, i), a.kind)
        raise Unsupported("diag")

    def l_diagonal(self, n, a):
        return self.l_diag(n, a)

    def elementwise(self, a, f, kind):
        if isinstance(a, ArrV):
            e = a.snap()
            return ArrV(a.shape, lambda *i: f(e(*i)), kind, a.sparse)
        if isinstance(a, FArr):
            return FArr(a.n, a.cond, lambda j: f(a.get(j)))
        if is_num(a):
            return f(a)
        return self.elementwise(self.to_array(a), f, kind)

    def l_exp(self, n, a):
        def f(x):
            if isinstance(x, CNum):
                if not is_sym(x.re) and x.re == 0:
                    return self.eng.cis(x.im)
                raise Unsupported("exp of a general complex number")
            if not is_sym(x) and x == 0:
                return 1
            raise Unsupported("exp of a real number")

        return self.elementwise(a, f, "c")

    def l_cos(self, n, a):
        return self.elementwise(a, lambda x: self.eng.cis(x).re, "f")

    def l_sin(self, n, a):
        return self.elementwise(a, lambda x: self.eng.cis(x).im, "f")

    def l_sqrt(self, n, a):
        def f(x):
            if isinstance(x, CNum):
                raise Unsupported("complex square root")
            if self.decide(le(0, x)) is not True:
                raise Unsupported("square root of a possibly negative number")
            return self.eng.sqrt(x)

        return self.elementwise(a, f, "f")

    def l_real_if_close(self, n, a, tol=100):
        # drops imaginary parts of at most 100 units in the last place: equal up to rounding
        if not (isinstance(tol, int) and tol == 100):
            raise Unsupported("real_if_close with another tolerance")
        return a if isinstance(a, ArrV) else self.to_array(a)

    def l_abs(self, n, a):
        return self.elementwise(a, self.eng.abs, "f")

    l_absolute = l_abs

    def l_conj(self, n, a):
        return self.elementwise(a, self.conj1, a.kind if isinstance(a, ArrV) else "c")

    l_conjugate = l_conj

    def l_real(self, n, a):
        return self.elementwise(a, lambda x: x.re if isinstance(x, CNum) else x, "f")

    def l_imag(self, n, a):
        return self.elementwise(a, lambda x: x.im if isinstance(x, CNum) else 0, "f")

    def l_mod(self, n, a, b):
        return self.binop("Mod", a, b)

    def l_kron(self, n, a, b, format=None):
        if isinstance(a, MatV) or isinstance(b, MatV):
            return MatV("kron", (a, b))
        a, b = self.mat2(a), self.mat2(b)
        (r, c), (p, q) = a.shape, b.shape
        ea, eb = a.snap(), b.snap()

        def elem(i, j):
            i1, i2 = self.pd(i, p)
            j1, j2 = self.pd(j, q)
            return mul(ea(i1, j1), eb(i2, j2))

        return ArrV((mul(r, p), mul(c, q)), elem, max(a.kind, b.kind, key="bifc".index), sparse=n.startswith("scipy"))

    def pd(self, i, p):
        if isinstance(p, int) and p == 1:
            return i, 0
        if self.decide(lt(0, p)) is not True:
            raise Unsupported("kron with an empty factor")
        return self.eng.posdiv(i, p)

    def mat2(self, a):
        a = a if isinstance(a, ArrV) else self.to_array(a)
        if not isinstance(a, ArrV) or len(a.shape) != 2:
            raise Unsupported("matrix expected")
        return a

    def l_dot(self, n, a, b):
        if isinstance(a, MatV) or isinstance(b, MatV):
            return MatV("dot", (a, b))
        a, b = self.mat2(a), self.mat2(b)
        if self.split(neq(a.shape[1], b.shape[0])):
            self.it.raise_("ValueError", "shapes not aligned")
        ea, eb = a.snap(), b.snap()
        m = a.shape[1]

        def elem(i, j):
            f = lambda k: mul(ea(i, k), eb(k, j))
            if a.kind == "c" or b.kind == "c":
                g = lambda k: cplx(f(k))
                return CNum(self.eng.sum(m, lambda k: real(g(k).re)), self.eng.sum(m, lambda k: real(g(k).im)))
            return self.eng.sum(m, f)

        return ArrV((a.shape[0], b.shape[1]), elem, max(a.kind, b.kind, key="bifc".index), sparse=a.sparse)

    l_matmul = l_dot

    def l_circulant(self, n, c):
        c = self.ravel(c if isinstance(c, ArrV) else self.to_array(c))
        e = c.snap()
        m = c.shape[0]
        return ArrV((m, m), lambda i, j: e(self.floordiv(sub(i, j), m)[1]), c.kind)

    def l_csr_matrix(self, n, a, dtype=None, **kw):
        if isinstance(a, MatV):
            return a
        a = a if isinstance(a, ArrV) else self.to_array(a)
        if len(a.shape) == 1:
            e = a.snap()
            return ArrV((1, a.shape[0]), lambda i, j: e(j), a.kind, True)
        return ArrV(a.shape, a.snap(), a.kind, True)

    def l_allclose(self, n, a, b, **kw):
        if kw:
            raise Unsupported("allclose with a tolerance")
        h = getattr(self.eng, "on_allclose", None)
        if h is None:
            raise Unsupported("allclose")
        return h(self, a, b)

    def l_gcd(self, n, a, b):
        raise Unsupported("gcd")

    def l_copy(self, n, a):
        if n.startswith("copy"):
            if isinstance(a, ListV):
                return ListV(a.seq)
            raise Unsupported("copy")
        return self.to_array(a)

    def l_ceil(self, n, a):
        if isint(a):
            return a
        a = arith(a)
        if isinstance(a, Fraction):
            return -((-a.numerator) // a.denominator)
        if is_sym(a) and z3.is_real(a):
            return simp(-z3.ToInt(-a))
        raise Unsupported("ceil")

    def l_reduce(self, n, f, s, init=MISSING):
        it = self.it
        q = self.seq_of(s)
        cell = EnvV({"r": init})
        if init is MISSING:
            m = q.length()
            if self.eng.branch(le(m, 0)):
                it.raise_("TypeError", "reduce of empty sequence")
            it.setvar(cell, "r", it.at(q, 0))
            q = it.slice(q, 1, None, None)

        def body(v):
            r = cell.vars["r"]
            if isinstance(r, Poison):
                raise PoisonRead(r.loc)
            it.setvar(cell, "r", it.call(f, [r, v], {}))

        it.loop(q, body)
        return it.force(cell.vars["r"])


class Method:
    def __init__(self, o, name):
        self.o, self.name = o, name


def ite_lazy(c, a, b):
    c = simp(c)
    if not is_sym(c):
        return a() if c else b()
    return ite(c, a(), b())

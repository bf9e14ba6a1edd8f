"""Symbolic interpreter of the real source: parses the modules of /repo/src on every run."""
import ast
import os

import z3

from .core import *
from .grid import GridRow, GridV, grid
from .values import *
from .text import Match

PYEXC = {
    "StopIteration": ("StopIteration", "Exception"),
    "IndexError": ("IndexError", "LookupError", "Exception"),
    "KeyError": ("KeyError", "LookupError", "Exception"),
    "ValueError": ("ValueError", "Exception"),
    "TypeError": ("TypeError", "Exception"),
    "AssertionError": ("AssertionError", "Exception"),
    "AttributeError": ("AttributeError", "Exception"),
    "ZeroDivisionError": ("ZeroDivisionError", "ArithmeticError", "Exception"),
    "NotImplementedError": ("NotImplementedError", "RuntimeError", "Exception"),
    "Exception": ("Exception",),
    "RuntimeError": ("RuntimeError", "Exception"),
    "UnboundLocalError": ("UnboundLocalError", "NameError", "Exception"),
}


class Module:
    def __init__(self, prog, name, path, source=None):
        self.prog, self.name, self.path = prog, name, path
        if source is None:
            with open(path) as f:
                source = f.read()
        self.source = source
        self.tree = ast.parse(self.source)
        self.globals = {}
        self.pending = {}
        self.busy = set()
        for st in self.tree.body:
            self.scan(st)

    def scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.pending.setdefault(st.name, []).append(st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.pending.setdefault(a.asname or a.name.split(".")[0], []).append((st, a))
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.pending.setdefault(a.asname or a.name, []).append((st, a))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.pending.setdefault(t.id, []).append(st)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
            self.pending.setdefault(st.target.id, []).append(st)
        elif isinstance(st, ast.Try):
            for s in st.body:
                self.scan(s)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self.scan(s)

    def get(self, name):
        if name in self.globals:
            return self.globals[name]
        if name not in self.pending:
            return MISSING
        if name in self.busy:
            raise Unsupported(f"circular definition of {name}")
        self.busy.add(name)
        try:
            d = self.pending[name][-1]
            v = self.define(d)
        finally:
            self.busy.discard(name)
        self.globals[name] = v
        return v

    def define(self, d):
        if isinstance(d, ast.FunctionDef):
            return FnV(d, self, qual=f"{self.name}.{d.name}")
        if isinstance(d, ast.ClassDef):
            return self.prog.make_class(d, self, Frame([], self))
        if isinstance(d, tuple):
            st, a = d
            if isinstance(st, ast.Import):
                return LibV(a.name if a.asname else a.name.split(".")[0])
            base = st.module or ""
            if st.level:
                parts = self.name.split(".")
                if not self.path.endswith("__init__.py"):
                    parts = parts[:-1]
                parts = parts[: len(parts) - (st.level - 1)]
                base = ".".join(parts + ([st.module] if st.module else []))
            if base.split(".")[0] == "qudiet":
                m = self.prog.module(base)
                v = m.get(a.name) if m else MISSING
                if v is MISSING:
                    m2 = self.prog.module(base + "." + a.name)
                    if m2 is None:
                        raise Unsupported(f"import of {base}.{a.name}")
                    return m2
                return v
            return LibV(base + "." + a.name)
        return self.prog.interp.ev(d.value, Frame([], self))


class Frame:
    def __init__(self, envs, mod, cls=None, fn=None):
        self.envs, self.mod, self.cls, self.fn = envs, mod, cls, fn

    def child(self, env):
        return Frame([env] + self.envs, self.mod, self.cls, self.fn)


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.interp = None

    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.root, "src", *name.split("."))
            for q in (p + ".py", os.path.join(p, "__init__.py")):
                if os.path.isfile(q):
                    self.modules[name] = Module(self, name, q)
                    break
            else:
                self.modules[name] = None
        return self.modules[name]

    def find(self, dotted):
        """function, method or class by its dotted name; None if the source has no such thing"""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            m = self.module(".".join(parts[:k]))
            if m is None:
                continue
            v = m
            for n in parts[k:]:
                if isinstance(v, Module):
                    v = v.get(n)
                elif isinstance(v, ClassV):
                    v = v.lookup(n)
                else:
                    v = None
                if v is MISSING or v is None:
                    break
            else:
                return v
        return None

    def make_class(self, node, mod, fr):
        bases = [self.interp.ev(b, fr) for b in node.bases]
        c = ClassV(node.name, node, mod, bases)
        enum = any(isinstance(b, LibV) and b.name.startswith("enum.") for b in bases)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                private = st.name.startswith("__") and not st.name.endswith("__")
                f = FnV(st, mod, cls=c, qual=f"{c.qual}.{'_' + node.name.lstrip('_') if private else ''}{st.name}", env=fr.envs)
                v = f
                for d in reversed(st.decorator_list):
                    if isinstance(d, ast.Name) and d.id == "property":
                        v = PropV(f)
                    elif isinstance(d, ast.Name) and d.id == "staticmethod":
                        v = StaticV(f)
                    elif isinstance(d, ast.Attribute) and d.attr == "setter":
                        v = PropV(c.attrs[st.name].fget, f)
                    elif isinstance(d, ast.Name) and d.id == "abstractmethod":
                        pass
                    else:
                        v = Opaque("decorated method")
                c.attrs[self.mangle(st.name, c)] = v
            elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                v = self.interp.ev(st.value, fr)
                c.attrs[st.targets[0].id] = EnumMember(c, st.targets[0].id, v) if enum else v
            elif isinstance(st, ast.AnnAssign) and st.value and isinstance(st.target, ast.Name):
                c.attrs[st.target.id] = self.interp.ev(st.value, fr)
        return c

    @staticmethod
    def mangle(name, cls):
        if cls is not None and name.startswith("__") and not name.endswith("__"):
            return f"_{cls.name.lstrip('_')}{name}"
        return name


def pinned(c, x):
    """u, if the condition c(x) says x == u"""
    if not is_sym(c):
        return None
    for e in c.children() if z3.is_and(c) else [c]:
        if not (z3.is_eq(e) and z3.is_int(e.arg(0))):
            continue
        a, b = e.arg(0), e.arg(1)
        if not (mentions(a, x) or mentions(b, x)):
            continue
        t = z3.simplify(a - b)
        for u in (z3.simplify(x - t), z3.simplify(x + t)):
            if not mentions(u, x):
                return unlift(u)
    # x >= u and x <= u
    es = c.children() if z3.is_and(c) else []
    low = [u for u in (threshold(e, x) for e in es) if u is not None]
    high = [u for u in (threshold(e, x, -1) for e in es) if u is not None] if low else []
    for u in low:
        if any(simp(eq(u, w)) is True for w in high):
            return u
    return None


def threshold(c, x, sign=1):
    """u, if the condition c(x) says x >= u  (sign -1: x <= u)"""
    if not is_sym(c):
        return None
    neg = z3.is_not(c)
    e = c.arg(0) if neg else c
    if z3.is_le(e) or z3.is_ge(e):
        a, b = e.children() if z3.is_le(e) else reversed(e.children())
    else:
        return None
    if not z3.is_int(a):
        return None
    # a <= b, or its negation b + 1 <= a
    t = z3.simplify(b + 1 - a) if neg else z3.simplify(a - b)
    u = z3.simplify(t + x if sign == 1 else x - t)
    return None if mentions(u, x) else unlift(u)


class Interp:
    def __init__(self, prog, eng, contracts=None):
        self.prog, self.eng = prog, eng
        prog.interp = self
        ENG[0] = eng
        self.contracts = contracts or {}
        self.depth = 0
        self.inlined = set()
        self.used = set()
        self.while_rules = []
        self.stubs = {}  # library names with a model of their own in a task
        self.steps = 0
        from . import lib

        self.lib = eng.lib = lib.Lib(self)

    # ============================================================ names
    def lookup(self, name, fr):
        for e in fr.envs:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v.loc)
                if isinstance(v, Lazy):
                    v = v.thunk()
                return v
        v = fr.mod.get(name)
        if v is not MISSING:
            return v
        return self.lib.builtin(name)

    def setvar(self, env, name, v):
        d = dict(env.vars)
        d[name] = v
        self.eng.put(env, "vars", d)

    def setfield(self, o, name, v):
        d = dict(o.fields)
        d[name] = v
        self.eng.put(o, "fields", d)

    def raise_(self, exc, msg=""):
        raise PyRaise(exc, msg)

    def force(self, v):
        if isinstance(v, Choice):
            for c, x in v.alts:
                if self.eng.branch(c):
                    return self.force(x)
            raise Infeasible()
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if isinstance(v, Lazy):
            return self.force(v.thunk())
        return v

    # ============================================================ truth
    def truth(self, v):
        """python truth value as bool or z3 Bool"""
        v = self.force(v)
        if v is None or v is MISSING:
            return False
        if isinstance(v, (bool, int, Fraction)):
            return bool(v)
        if is_sym(v):
            return v if z3.is_bool(v) else neq(v, 0)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, CNum):
            return disj(neq(v.re, 0), neq(v.im, 0))
        if isinstance(v, (ListV, TupleV)):
            return self.nonempty(v.seq)
        if isinstance(v, DictV):
            if any(e[0] == "c" for e in v.entries):
                return True
            if not v.entries:
                return False
            raise Unsupported("truth of a summarised dict")
        if isinstance(v, ArrV):
            if len(v.shape) == 0:
                return self.truth(v.at())
            raise Unsupported("truth of an array")
        if isinstance(v, (ObjV, SymObj, ClassV, LibV, FnV, BoundV, EnumMember, TypeV)):
            return True
        if isinstance(v, StrT):
            return self.lib.texts.true(v)
        if isinstance(v, Match):
            return True
        if isinstance(v, SetV):
            return self.nonempty(v.seq)
        raise Unsupported(f"truth of {type(v).__name__}")

    def nonempty(self, seq):
        r = False
        for s in seq.segs:
            if s.cond is not None:
                r = disj(r, self.eng.exists(s.n, s.cond))
            else:
                r = disj(r, lt(0, s.n))
        return r

    def test(self, node, fr):
        return self.eng.branch(self.truth(self.ev(node, fr)))

    # ============================================================ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} (line {st.lineno})")
        m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            self.setvar(fr.envs[0], a.asname or a.name.split(".")[0], LibV(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            self.setvar(fr.envs[0], a.asname or a.name, fr.mod.define((st, a)))

    def s_FunctionDef(self, st, fr):
        self.setvar(fr.envs[0], st.name, FnV(st, fr.mod, env=fr.envs, cls=fr.cls, qual=f"{fr.mod.name}.<local>.{st.name}", defaults=self.defaults(st.args, fr)))

    def s_ClassDef(self, st, fr):
        self.setvar(fr.envs[0], st.name, self.prog.make_class(st, fr.mod, fr))

    def s_Return(self, st, fr):
        raise ReturnEx(self.ev(st.value, fr) if st.value else None)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            self.setvar(fr.envs[0], t.id, self.augment(st.op, old, self.ev(st.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            n = self.prog.mangle(t.attr, fr.cls)
            self.setattr(o, n, self.augment(st.op, self.getattr(o, n), self.ev(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            self.setitem(o, ix, self.augment(st.op, self.getitem(o, ix), self.ev(st.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def augment(self, op, old, v):
        if isinstance(old, ListV) and isinstance(op, ast.Add):
            self.eng.put(old, "seq", old.seq.cat(self.iterate(v)))
            return old
        if isinstance(old, ListV):
            raise Unsupported("in-place list operation")
        if isinstance(old, ArrV):
            r = self.lib.binop(type(op).__name__, old, v)
            self.lib.arr_store(old, r)
            return old
        return self.lib.binop(type(op).__name__, old, v)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                d = dict(fr.envs[0].vars)
                d.pop(t.id, None)
                self.eng.put(fr.envs[0], "vars", d)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.lib.method(o, "pop", [self.ev(t.slice, fr)], {})
            else:
                raise Unsupported("del")

    def s_If(self, st, fr):
        self.block(st.body if self.test(st.test, fr) else st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.test(st.test, fr):
            raise PyRaise("AssertionError", ast.unparse(st.test))

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise getattr(fr, "handling", None) or PyRaise("RuntimeError")
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        raise PyRaise(e.id if isinstance(e, ast.Name) else ast.unparse(e), "", st)

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as ex:
                kinds = PYEXC.get(ex.exc, (ex.exc, "Exception"))
                for h in st.handlers:
                    names = [] if h.type is None else ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts)
                    if h.type is None or any((n.id if isinstance(n, ast.Name) else ast.unparse(n)) in kinds + ("BaseException",) for n in names):
                        if h.name:
                            self.setvar(fr.envs[0], h.name, Opaque("exception", ()))
                        fr.handling = ex
                        self.block(h.body, fr)
                        return
                raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def s_With(self, st, fr):
        return self.within(st, list(st.items), fr)

    def within(self, st, items, fr):
        if not items:
            return self.block(st.body, fr)
        x = items[0]
        m = self.force(self.ev(x.context_expr, fr))
        if not isinstance(m, ObjV):
            raise Unsupported("with")
        v = self.call(self.getattr(m, "__enter__"), [], {})
        if x.optional_vars is not None:
            self.assign(x.optional_vars, v, fr)
        try:
            self.within(st, items[1:], fr)
        except PyRaise as ex:
            if self.eng.branch(self.truth(self.call(self.getattr(m, "__exit__"), [Opaque("exception type"), Opaque("exception"), None], {}))):
                return
            raise ex
        except ControlFlow:
            self.call(self.getattr(m, "__exit__"), [None, None, None], {})
            raise
        self.call(self.getattr(m, "__exit__"), [None, None, None], {})

    # ------------------------------------------------------------ assignment targets
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr.envs[0], t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.prog.mangle(t.attr, fr.cls), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.iterate(v)
            k = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            if k is not None:
                rest = len(t.elts) - k - 1
                n = seq.length()
                for i in range(k):
                    self.assign(t.elts[i], self.at(seq, i), fr)
                self.assign(t.elts[k].value, ListV(self.slice(seq, k, sub(n, rest), None)), fr)
                for i in range(rest):
                    self.assign(t.elts[k + 1 + i], self.at(seq, sub(n, rest - i)), fr)
                return
            if self.eng.branch(neq(seq.length(), len(t.elts))):
                self.raise_("ValueError", "wrong number of values to unpack")
            for i, x in enumerate(t.elts):
                self.assign(x, self.at(seq, i), fr)
        else:
            raise Unsupported("assignment target")

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, (ObjV, SymObj)):
            if isinstance(o, ObjV):
                p = o.cls.lookup(name)
                if isinstance(p, PropV):
                    if p.fset is None:
                        self.raise_("AttributeError", name)
                    self.call(BoundV(o, p.fset), [v], {})
                    return
            self.setfield(o, name, v)
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ============================================================ sequences
    def at(self, seq, i):
        """element i, which is known to be in range"""
        i = simp(i)
        if isinstance(seq, Bag):
            raise Unsupported("order of a set")
        segs = seq.segs
        if len(segs) > 1 and is_sym(i) and seq.numeric and not seq.filtered:
            off, parts = 0, []
            for s in segs:
                parts.append((off, s))
                off = add(off, s.n)
            v, nxt = None, None
            for o, s in reversed(parts):
                x = s.get(sub(i, o))
                v = x if v is None else ite(le(nxt, i), v, x)
                nxt = o
            return v
        off = 0
        for k, s in enumerate(segs):
            if s.cond is not None:
                if len(segs) == 1 and i == 0:
                    return self.first(s)
                raise Unsupported("index into a filtered sequence")
            if k == len(segs) - 1 or self.eng.branch(lt(i, add(off, s.n))):
                return self.force(s.get(sub(i, off)))
            off = add(off, s.n)
        raise Infeasible()

    def first(self, s):
        found, x = self.first_match(s.n, s.cond)
        if not self.eng.branch(found):
            self.raise_("IndexError", "first element of an empty sequence")
        return self.force(s.get(x))

    def first_match(self, n, cond, last=False, names=None):
        """(found, x): x is the first (last) index below n with cond, if there is one"""
        n = simp(n)
        if isinstance(n, int) and n == 0:
            return False, 0
        eng = self.eng
        found, x = names or (eng.fresh_bool("found"), eng.fresh_int("first"))
        cx = cond(x)
        u = pinned(cx, x)
        if u is not None:
            # the condition names the one index it can hold at
            return conj(le(0, u), lt(u, n), cond(u)), u
        u = None if last else threshold(cx, x)
        if u is not None and eng.valid(le(0, u)):
            return lt(u, n), u
        if last:
            other = eng.forall(n, lambda j: nott(cond(j)), add(x, 1), name="j")
        else:
            other = eng.forall(x, lambda j: nott(cond(j)), name="j")
        eng.fact(implies(found, conj(le(0, x), lt(x, n), cx, other)))
        eng.fact(disj(found, eng.forall(n, lambda j: nott(cond(j)), name="j")))
        for h in eng.on_first:
            h(eng, found, x, n, cond)
        return found, x

    def norm_index(self, i, n):
        """python index -> position; IndexError outside"""
        if not isint(i):
            if isinstance(i, ArrV) and len(i.shape) == 0:
                i = i.at()
            else:
                raise Unsupported(f"index {type(i).__name__}")
        i = arith(i)
        if isinstance(i, int) and i < 0:
            i = add(n, i)
        elif is_sym(i) and self.eng.branch(lt(i, 0)):
            i = add(n, i)
        if self.eng.branch(disj(lt(i, 0), le(n, i))):
            self.raise_("IndexError", "index out of range")
        return simp(i)

    def seq_get(self, seq, i):
        if isinstance(seq, Bag):
            raise Unsupported("order of a set")
        if seq.filtered:
            if len(seq.segs) == 1 and i == 0:
                return self.first(seq.segs[0])
            if len(seq.segs) == 1 and i == -1:
                s = seq.segs[0]
                found, x = self.first_match(s.n, s.cond, last=True)
                if not self.eng.branch(found):
                    self.raise_("IndexError", "empty")
                return self.force(s.get(x))
            raise Unsupported("index into a filtered sequence")
        # from the end, without turning it round through the length
        if isinstance(i, int) and i < 0:
            k, j = -i, len(seq.segs) - 1
            while j >= 0 and k > 0:
                s = seq.segs[j]
                if not isinstance(s.n, int):
                    break
                if k <= s.n:
                    return self.force(s.get(s.n - k))
                k -= s.n
                j -= 1
        return self.at(seq, self.norm_index(i, seq.length()))

    def slice(self, seq, lo, hi, step):
        step = 1 if step is None else step
        if isinstance(seq, Bag):
            if (lo is None or isinstance(lo, int) and lo == 0) and hi is None and step == 1:
                return seq
            raise Unsupported("order of a set")
        if not isinstance(step, int):
            raise Unsupported("symbolic slice step")
        if step == -1 and lo is None and hi is None:
            return Seq([Seg(s.n, (lambda s: lambda j: s.get(sub(sub(s.n, 1), j)))(s), s.num, None if s.cond is None else (lambda s: lambda j: s.cond(sub(sub(s.n, 1), j)))(s)) for s in reversed(seq.segs)])
        if (lo is None or isinstance(lo, int) and lo == 0) and hi is None and step == 1:
            return seq
        c = seq.concrete()
        if c is not None and not any(is_sym(x) for x in (lo, hi)):
            return Seq.of(c[slice(lo, hi, step)])
        if step < 1:
            raise Unsupported("negative slice step")
        n = seq.length()
        b = self.eng.branch

        def clamp(x, d):
            if x is None:
                return d
            if isinstance(x, int) and x < 0:
                x = add(n, x)
                return 0 if b(lt(x, 0)) else x
            if is_sym(x) and b(lt(x, 0)):
                x = add(n, x)
                if b(lt(x, 0)):
                    return 0
            return n if b(lt(n, x)) else x

        lo, hi = clamp(lo, 0), clamp(hi, n)
        if self.eng.valid(lt(hi, lo)):
            return Seq()
        # a part that may be empty is no case of its own
        if not self.eng.valid(le(lo, hi)) and b(le(hi, lo)):
            return Seq()
        m = sub(hi, lo)
        if step > 1:
            q, _ = self.eng.posdiv(add(m, step - 1), step)
            return Seq([Seg(q, lambda j: self.at(seq, add(lo, mul(step, j))), seq.numeric)])
        return self.cut(seq, lo, m)

    def cut(self, seq, lo, m):
        """m elements from position lo, in range"""
        segs = list(seq.segs)
        b = self.eng.branch
        # drop lo elements, then keep m, part by part
        out = []
        lo, m = simp(lo), simp(m)
        if len(segs) == 1 and segs[0].cond is None and (is_sym(lo) or is_sym(m)):
            s = segs[0]
            return Seq([Seg(m, lambda j: s.get(add(lo, j)), s.num)])
        while segs and not (isinstance(lo, int) and lo == 0):
            s = segs[0]
            if isinstance(lo, int) and isinstance(s.n, int):
                whole = s.n <= lo
            else:
                whole = b(le(s.n, lo))
            if whole:
                lo = sub(lo, s.n)
                segs.pop(0)
            else:
                segs[0] = Seg(sub(s.n, lo), (lambda s, lo: lambda j: s.get(add(lo, j)))(s, lo), s.num)
                lo = 0
        while segs:
            s = segs.pop(0)
            if isinstance(m, int) and m == 0:
                break
            if isinstance(m, int) and isinstance(s.n, int):
                whole = s.n <= m
            else:
                d = simp(sub(s.n, m))
                whole = True if d == 0 and not is_sym(d) else b(le(s.n, m))
            if whole:
                out.append(s)
                m = sub(m, s.n)
                if is_sym(m) and self.eng.valid(eq(m, 0)):
                    break
            else:
                out.append(Seg(m, s.fn if not s.cache else s.get, s.num))
                break
        return Seq(out)

    def iterate(self, v):
        """elements of an iterable"""
        v = self.force(v)
        if isinstance(v, (ListV, TupleV, SetV)):
            return v.seq
        if isinstance(v, Seq):
            return v
        if isinstance(v, ArrV):
            if not v.shape:
                self.raise_("TypeError", "iteration over a 0-d array")
            return Seq([Seg(v.shape[0], lambda j: self.lib.row(v, j), len(v.shape) == 1)])
        if isinstance(v, DictV):
            if any(e[0] != "c" for e in v.entries):
                raise Unsupported("iteration over a summarised dict")
            return Seq.of([e[1] for e in v.entries])
        if isinstance(v, str):
            return Seq.of(list(v))
        if isinstance(v, IterV):
            return self.slice(v.base, v.pos, None, None)
        if isinstance(v, FArr):
            return v.seq()
        if isinstance(v, (int, bool, Fraction)) or v is None or is_num(v):
            self.raise_("TypeError", "not iterable")
        raise Unsupported(f"iteration over {type(v).__name__}")

    # ============================================================ attributes and items
    def getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, ObjV):
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, (Poison, Lazy)):
                    v = self.force(v)
                return v
            if name == "__class__":
                return o.cls
            a = o.cls.lookup(name)
            if a is None:
                self.raise_("AttributeError", name)
            return self.bind(o, a)
        if isinstance(o, SymObj):
            if name in o.fields:
                return self.force(o.fields[name])
            return o.schema.getattr(self, o, name)
        if isinstance(o, ClassV):
            if name == "__name__":
                return o.name
            a = o.lookup(name)
            if a is None:
                self.raise_("AttributeError", name)
            if isinstance(a, StaticV):
                return a.fn
            return a
        if isinstance(o, Module):
            v = o.get(name)
            if v is MISSING:
                m = self.prog.module(o.name + "." + name)
                if m is not None:
                    return m
                self.raise_("AttributeError", name)
            return v
        if isinstance(o, EnumMember):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
        return self.lib.getattr(o, name)

    def bind(self, o, a):
        if isinstance(a, PropV):
            return self.call(BoundV(o, a.fget), [], {})
        if isinstance(a, FnV):
            return BoundV(o, a)
        if isinstance(a, StaticV):
            return a.fn
        return a

    def index(self, node, fr):
        """evaluated subscript: value, ('slice', lo, hi, step) or tuple of those"""
        if isinstance(node, ast.Slice):
            return ("slice",) + tuple(None if x is None else self.ev(x, fr) for x in (node.lower, node.upper, node.step))
        if isinstance(node, ast.Tuple):
            return ("tuple", [self.index(e, fr) for e in node.elts])
        return self.ev(node, fr)

    def getitem(self, o, ix):
        o = self.force(o)
        if isinstance(o, ArrV):
            return self.lib.arr_get(o, ix)
        if isinstance(ix, tuple) and ix[0] == "tuple":
            ix = TupleV([x for x in ix[1]])
        if isinstance(o, (ListV, TupleV)):
            if isinstance(ix, tuple):
                s = self.slice(o.seq, *ix[1:])
                return ListV(s) if isinstance(o, ListV) else TupleV(s)
            if isinstance(ix, (ArrV, TupleV, ListV)) and not (isinstance(ix, ArrV) and not ix.shape):
                return self.lib.arr_get(self.lib.to_array(o), ix)
            return self.force(self.seq_get(o.seq, ix))
        if isinstance(o, DictV):
            return self.lib.dict_get(o, ix)
        if isinstance(o, str):
            if isinstance(ix, tuple):
                if any(is_sym(x) for x in ix[1:]):
                    raise Unsupported("symbolic slice of a text")
                return o[slice(*ix[1:])]
            if isinstance(ix, int):
                if not -len(o) <= ix < len(o):
                    self.raise_("IndexError", "string index")
                return o[ix]
        if isinstance(o, ClassV):
            a = o.lookup(ix) if isinstance(ix, str) else None
            if a is not None:
                return a
        if isinstance(o, (LibV, TypeV)):
            return o
        return self.lib.getitem(o, ix)

    def setitem(self, o, ix, v):
        o = self.force(o)
        if isinstance(o, ArrV):
            return self.lib.arr_set(o, ix, v)
        if isinstance(o, ListV):
            if isinstance(ix, tuple):
                raise Unsupported("slice assignment on a list")
            n = o.seq.length()
            i = self.norm_index(ix, n)
            if isinstance(o, GridRow):
                return o.write(i, v)
            if isinstance(o, GridV):
                raise Unsupported("row of a table replaced")
            return self.eng.put(o, "seq", self.replace(o.seq, i, v))
        if isinstance(o, DictV):
            if isinstance(ix, tuple) and ix[0] == "tuple":
                ix = TupleV(ix[1])
            return self.lib.dict_set(o, ix, v)
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def replace(self, seq, i, v):
        b = self.eng.branch
        out, off, segs = [], 0, list(seq.segs)
        for k, s in enumerate(segs):
            if k == len(segs) - 1 or b(lt(i, add(off, s.n))):
                j = sub(i, off)
                if isinstance(s.n, int) and s.n == 1:
                    mid = [Seg(1, lambda _: v, is_num(v))]
                else:
                    pre, post = simp(j), simp(sub(sub(s.n, j), 1))
                    mid = []
                    if is_sym(pre) or pre > 0:
                        mid.append(Seg(pre, s.get, s.num))
                    mid.append(Seg(1, lambda _: v, is_num(v)))
                    if is_sym(post) or post > 0:
                        mid.append(Seg(post, (lambda s, j: lambda t: s.get(add(add(j, 1), t)))(s, j), s.num))
                return Seq(out + mid + segs[k + 1 :], (seq, i, v))
            out.append(s)
            off = add(off, s.n)
        raise Infeasible()

    # ============================================================ expressions
    def ev(self, node, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__}")
        return m(node, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
            return v
        if isinstance(v, float):
            return Fraction(v)
        if isinstance(v, complex):
            return CNum(Fraction(v.real) if v.real else 0, Fraction(v.imag) if v.imag else 0)
        if v is Ellipsis:
            return None
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), self.prog.mangle(n.attr, fr.cls))

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.index(n.slice, fr))

    def elements(self, elts, fr):
        s = Seq()
        for e in elts:
            if isinstance(e, ast.Starred):
                s = s.cat(self.iterate(self.ev(e.value, fr)))
            else:
                s = s.cat(Seq.of([self.ev(e, fr)]))
        return s

    def e_List(self, n, fr):
        return ListV(self.elements(n.elts, fr))

    def e_Tuple(self, n, fr):
        return TupleV(self.elements(n.elts, fr))

    def e_Set(self, n, fr):
        return SetV(self.elements(n.elts, fr))

    def e_Dict(self, n, fr):
        d = DictV()
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpacking")
            self.lib.dict_set(d, self.ev(k, fr), self.ev(v, fr))
        return d

    def e_UnaryOp(self, n, fr):
        v = self.force(self.ev(n.operand, fr))
        if isinstance(n.op, ast.Not):
            return nott(self.truth(v))
        return self.lib.unop(type(n.op).__name__, v)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.lib.binop(type(n.op).__name__, a, self.ev(n.right, fr))

    def e_BoolOp(self, n, fr):
        """scalars known to be booleans stay formulas; everything else short-circuits on a branch"""
        isand = isinstance(n.op, ast.And)
        v = None
        for k, e in enumerate(n.values):
            v = self.force(self.ev(e, fr))
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if self.eng.branch(t) != isand:
                return v if not is_sym(v) or not z3.is_bool(v) else (not isand)
        return v

    def e_Compare(self, n, fr):
        a = self.force(self.ev(n.left, fr))
        r = True
        for k, (op, e) in enumerate(zip(n.ops, n.comparators)):
            b = self.force(self.ev(e, fr))
            c = self.lib.compare(type(op).__name__, a, b)
            if len(n.ops) == 1:
                return c
            r = conj(r, c)
            if k < len(n.ops) - 1 and not self.eng.branch(r):
                return False
            a = b
        return r

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.test(n.test, fr) else n.orelse, fr)

    def e_Lambda(self, n, fr):
        return FnV(n, fr.mod, env=fr.envs, cls=fr.cls, qual="<lambda>", defaults=self.defaults(n.args, fr))

    def e_JoinedStr(self, n, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                if p.format_spec is not None:
                    raise Unsupported("format specification")
                v = self.ev(p.value, fr)
                parts.extend(self.lib.to_text(v).parts if not isinstance(v, str) else [v])
        return self.lib.text(parts)

    def e_Starred(self, n, fr):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_ListComp(self, n, fr):
        s = self.comprehend(n.generators, n.elt, fr)
        if isinstance(n.elt, (ast.ListComp, ast.BinOp)) and not isinstance(s, Bag):
            # lists made in the comprehension, and nowhere else
            g = grid(self, s)
            if g is not None:
                return g
        return ListV(s)

    def e_GeneratorExp(self, n, fr):
        return IterV(self.comprehend(n.generators, n.elt, fr))

    def e_SetComp(self, n, fr):
        return self.lib.t_set(ListV(self.comprehend(n.generators, n.elt, fr)))

    def e_DictComp(self, n, fr):
        d = DictV()
        env = EnvV()
        f2 = fr.child(env)

        def inner():
            self.lib.dict_set(d, self.ev(n.key, f2), self.ev(n.value, f2))

        self.nest(n.generators, 0, inner, fr, f2, env)
        return d

    def comprehend(self, gens, elt, fr):
        acc = ListV()
        env = EnvV()
        f2 = fr.child(env)

        def inner():
            v = self.ev(elt, f2)
            self.eng.put(acc, "seq", acc.seq.cat(Seq.of([v])))

        bag = []
        self.nest(gens, 0, inner, fr, f2, env, bag)
        return Bag(acc.seq.segs) if bag else acc.seq

    def nest(self, gens, k, inner, fr, f2, env, bag=None):
        if k == len(gens):
            return inner()
        g = gens[k]
        seq = self.iterate(self.ev(g.iter, fr if k == 0 else f2))
        if isinstance(seq, Bag) and bag is not None:
            # what is made of a set has no order either
            bag.append(seq)
            seq = Seq(seq.segs)

        def body(v):
            self.assign(g.target, v, f2)
            for c in g.ifs:
                if not self.test(c, f2):
                    return
            self.nest(gens, k + 1, inner, fr, f2, env, bag)

        self.loop(seq, body)

    # ============================================================ calls
    def e_Call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Name) and f.id == "super":
            raise Unsupported("bare super()")
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            self_ = self.lookup(fr.fn.node.args.args[0].arg, fr)
            cls = fr.cls
            mro = self_.cls.mro()
            for c in mro[mro.index(cls) + 1 :]:
                if f.attr in c.attrs:
                    fv = BoundV(self_, c.attrs[f.attr])
                    break
            else:
                fv = LibV("object." + f.attr)
        else:
            fv = self.ev(f, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.iterate(self.ev(a.value, fr))
                c = s.concrete()
                if c is not None:
                    args.extend(c)
                else:
                    args.append(("*", s))
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                for e in d.entries:
                    kw[e[1]] = e[2]
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fv, args, kw)

    def defaults(self, a, fr):
        return ([self.ev(d, fr) for d in a.defaults], [None if d is None else self.ev(d, fr) for d in a.kw_defaults])

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        star = [x for x in args if isinstance(x, tuple) and x[0] == "*"]
        if star:
            if not a.vararg or any(isinstance(x, tuple) for x in args[: len(names)]):
                raise Unsupported("starred argument of unknown length")
        for k, v in zip(names, args):
            out[k] = v
        rest = args[len(names) :]
        if a.vararg:
            s = Seq()
            for x in rest:
                s = s.cat(x[1] if isinstance(x, tuple) and x[0] == "*" else Seq.of([x]))
            out[a.vararg.arg] = TupleV(s)
        elif rest:
            self.raise_("TypeError", "too many arguments")
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_("TypeError", f"argument {k} twice")
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_("TypeError", f"unexpected argument {k}")
        if a.kwarg:
            out[a.kwarg.arg] = DictV([("c", k, v) for k, v in extra.items()])
        ds = f.defaults or self.defaults(a, Frame(f.env or [], f.mod, f.cls))
        for k, d in zip(names[len(names) - len(a.defaults) :], ds[0]):
            out.setdefault(k, d)
        for x, d, nd in zip(a.kwonlyargs, ds[1], a.kw_defaults):
            if nd is not None:
                out.setdefault(x.arg, d)
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in out:
                self.raise_("TypeError", f"missing argument {k}")
        return out

    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, BoundV):
            if isinstance(f.fn, FnV):
                return self.call(f.fn, [f.self_] + list(args), kw)
            if isinstance(f.fn, PropV):
                raise Unsupported("call of a property")
            return self.call(f.fn, args, kw)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kw)
        if isinstance(f, FnV):
            return self.call_fn(f, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, (ObjV, SymObj)):
            return self.call(self.getattr(f, "__call__"), args, kw)
        if callable(getattr(f, "pycall", None)):
            return f.pycall(self, args, kw)
        return self.lib.call(f, args, kw)

    def instantiate(self, c, args, kw):
        h = self.contracts.get(c.qual)
        if h:
            r = h(self, c, args, kw)
            if r is not NotImplemented:
                self.used.add(c.qual)
                return r
        if any(isinstance(b, LibV) and b.name.startswith("enum.") for b in c.bases):
            for v in c.attrs.values():
                if isinstance(v, EnumMember) and v.value == args[0]:
                    return v
        o = ObjV(c)
        init = c.lookup("__init__")
        if isinstance(init, FnV):
            self.call(BoundV(o, init), args, kw)
        return o

    def call_fn(self, f, args, kw):
        h = self.contracts.get(f.qual)
        if h and not getattr(self, "_entry", None) == f.qual:
            b = self.bindargs(f, args, kw)
            r = h(self, f, b)
            if r is not NotImplemented:
                self.used.add(f.qual)
                return r
        self.inlined.add(f.qual)
        return self.run_fn(f, self.bindargs(f, args, kw))

    def run_fn(self, f, bound):
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion too deep")
        entry, self._entry = getattr(self, "_entry", None), None
        try:
            fr = Frame([EnvV(bound)] + list(f.env or []), f.mod, f.cls, f)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator function")
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self._entry = entry
            self.depth -= 1

    # ============================================================ loops
    def s_For(self, st, fr):
        over = self.ev(st.iter, fr)
        seq = self.iterate(over)

        def body(v):
            cells = over.grid.store.cells if isinstance(over, GridRow) else None
            self.assign(st.target, v, fr)
            self.block(st.body, fr)
            if cells is not None and over.grid.store.cells is not cells:
                raise Unsupported("row of a table written in the loop over it")

        if self.loop(seq, body):
            self.block(st.orelse, fr)

    def s_While(self, st, fr):
        if st.orelse:
            raise Unsupported("while ... else")
        d = self.drain(st, fr)
        if d is not None:
            return
        # a few steps as they are: enough for loops over concrete data
        for rule in self.while_rules:
            if rule(self, st, fr):
                return
        for _ in range(40):
            t = simp(self.truth(self.ev(st.test, fr)))
            if is_sym(t):
                break
            if not t:
                return
            try:
                self.block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.while_loop(st, fr)

    def drain(self, st, fr):
        """while L: x = L.pop(0); ...   is a loop over the elements of L if L is not used otherwise"""
        if not isinstance(st.test, ast.Name) or not st.body or not isinstance(st.body[0], ast.Assign):
            return None
        c = st.body[0].value
        name = st.test.id
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "pop" and isinstance(c.func.value, ast.Name) and c.func.value.id == name and not c.keywords):
            return None
        if any(isinstance(x, ast.Name) and x.id == name for s in st.body[1:] for x in ast.walk(s)):
            return None
        L = self.lookup(name, fr)
        if not isinstance(L, ListV):
            return None
        if not c.args or (isinstance(c.args[0], ast.UnaryOp) and ast.unparse(c.args[0]) == "-1"):
            seq = self.slice(L.seq, None, None, -1)
        elif isinstance(c.args[0], ast.Constant) and c.args[0].value == 0:
            seq = L.seq
        else:
            return None
        if any(isinstance(x, (ast.Break, ast.Return)) for s in st.body for x in ast.walk(s)):
            return None

        def body(v):
            for t in st.body[0].targets:
                self.assign(t, v, fr)
            self.block(st.body[1:], fr)

        self.loop(seq, body)
        self.eng.put(L, "seq", Seq())
        return True

    def loop(self, seq, body):
        """runs body(element) for the elements in order; True if not left by break"""
        if isinstance(seq, Bag):
            raise Unsupported("order of a set")
        try:
            for s in seq.segs:
                if s.cond is None and isinstance(s.n, int):
                    for j in range(s.n):
                        try:
                            body(self.force(s.get(j)))
                        except ContinueEx:
                            pass
                else:
                    self.summed(s, body)
            return True
        except BreakEx:
            return False

    def summed(self, s, body):
        """symbolic part: summarise; else split at the points the contract names; else peel the first element"""
        from .loops import summarise

        eng = self.eng
        if eng.branch(le(s.n, 0)):
            return

        def one(j):
            if s.cond is not None and not eng.branch(s.cond(j)):
                return
            try:
                body(self.force(s.get(j)))
            except ContinueEx:
                pass

        errs = []
        mark, amark = len(eng.journal), Mut._n
        pts = [p for p in eng.split_points if isint(p)]
        whole = (lambda: summarise(self, s.n, one), True)
        # pieces [0,p) p (p,..): order of the points decided on the path
        pieces = (lambda: self.split(s, one, pts), bool(pts))
        for way, there in (pieces, whole) if eng.split_first else (whole, pieces):
            if there:
                try:
                    return way()
                except Unsupported as e:
                    errs.append(e)
                    eng.undo(mark, amark)
        try:
            one(0)
            if eng.branch(le(s.n, 1)):
                return
            return summarise(self, sub(s.n, 1), lambda j: one(add(j, 1)))
        except Unsupported as e:
            errs.append(e)
            raise Unsupported("loop: " + "; ".join(str(x) for x in errs))

    def split(self, s, one, pts):
        from .loops import summarise

        eng = self.eng
        # the positions inside the part, sorted; positions in the element numbering of this part
        base = None
        v0 = s.get(0)
        if isint(v0) and s.num:
            d = simp(sub(s.get(1), v0))
            if d == 1 and not is_sym(d):
                base = v0
        if base is None:
            base = 0
        ps = [simp(sub(p, base)) for p in pts]
        ordered = []
        for p in ps:
            k = 0
            dup = False
            while k < len(ordered):
                if eng.branch(eq(p, ordered[k])):
                    dup = True
                    break
                if eng.branch(lt(p, ordered[k])):
                    break
                k += 1
            if not dup:
                ordered.insert(k, p)
        cur = 0
        for p in ordered:
            if eng.branch(lt(p, cur)):
                continue
            if eng.branch(le(s.n, p)):
                break
            m = simp(sub(p, cur))
            if not eng.branch(le(m, 0)):
                summarise(self, m, (lambda c: lambda j: one(add(c, j)))(cur))
            one(p)
            cur = add(p, 1)
        m = simp(sub(s.n, cur))
        if not eng.branch(le(m, 0)):
            summarise(self, m, (lambda c: lambda j: one(add(c, j)))(cur))

    def while_loop(self, st, fr):
        from .loops import summarise_while

        return summarise_while(self, st, fr)

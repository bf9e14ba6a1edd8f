"""Terms, path exploration and obligations.

A run of a function is a set of paths.  Every path is found by executing the body again with another
list of branch decisions, so the interpreter works on ordinary mutable state; writes are journalled so
that an exploration nested in another one (a loop body, a value to be merged) can be undone.

Two kinds of formulas are asserted:
  fact(f)  - holds unconditionally (definition of a fresh symbol, instance of a proved lemma)
  pc(f)    - holds on the current path only
"""
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """the construct is outside the verified subset: the obligation stays undecided"""


class Infeasible(Exception):
    pass


class Giveup(Exception):
    """out of budget"""


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return isinstance(x, (bool, int, Fraction, CNum)) or (is_sym(x) and (z3.is_int(x) or z3.is_real(x) or z3.is_bool(x)))


class CNum:
    """complex number over mathematical reals"""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return f"({self.re} + {self.im} i)"


def isint(x):
    return isinstance(x, (bool, int)) or (is_sym(x) and (z3.is_int(x) or z3.is_bool(x)))


def lift(x):
    if is_sym(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    raise Unsupported(f"not a scalar: {x!r}")


def arith(x):
    """numbers for +,-,*: booleans become 0/1"""
    if isinstance(x, bool):
        return int(x)
    if is_sym(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def simp(x):
    return x if not is_sym(x) else unlift(z3.simplify(x))


def unlift(x):
    if is_sym(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x


def real(x):
    x = arith(x)
    if isinstance(x, int):
        return Fraction(x)
    if is_sym(x) and z3.is_int(x):
        return z3.ToReal(x)
    return x


def _two(a, b):
    a, b = arith(a), arith(b)
    if not is_sym(a) and not is_sym(b):
        return a, b, False
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_sym(a) and z3.is_real(a)) or (is_sym(b) and z3.is_real(b)):
        a, b = real(a), real(b)
    return lift(a), lift(b), True


def cplx(x):
    return x if isinstance(x, CNum) else CNum(x, 0)


def add(a, b):
    if isinstance(a, CNum) or isinstance(b, CNum):
        a, b = cplx(a), cplx(b)
        return CNum(add(a.re, b.re), add(a.im, b.im))
    a, b, s = _two(a, b)
    return simp(a + b) if s else a + b


def neg(a):
    if isinstance(a, CNum):
        return CNum(neg(a.re), neg(a.im))
    a = arith(a)
    return simp(-a) if is_sym(a) else -a


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, CNum) or isinstance(b, CNum):
        a, b = cplx(a), cplx(b)
        return CNum(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    a, b, s = _two(a, b)
    if s:
        # a product with an If over constants is distributed, which keeps 0/1 matrices linear
        return simp(a * b)
    return a * b


def eq(a, b):
    if isinstance(a, CNum) or isinstance(b, CNum):
        a, b = cplx(a), cplx(b)
        return conj(eq(a.re, b.re), eq(a.im, b.im))
    if is_sym(a) and is_sym(b) and z3.is_bool(a) and z3.is_bool(b):
        return simp(a == b)
    a, b, s = _two(a, b)
    return simp(a == b) if s else a == b


def lt(a, b):
    a, b, s = _two(a, b)
    return simp(a < b) if s else a < b


def le(a, b):
    a, b, s = _two(a, b)
    return simp(a <= b) if s else a <= b


def neq(a, b):
    return nott(eq(a, b))


def nott(a):
    return simp(z3.Not(a)) if is_sym(a) else not a


def conj(*xs):
    ys = []
    for x in xs:
        if is_sym(x):
            ys.append(x)
        elif not x:
            return False
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else simp(z3.And(*ys))


def disj(*xs):
    ys = []
    for x in xs:
        if is_sym(x):
            ys.append(x)
        elif x:
            return True
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else simp(z3.Or(*ys))


def implies(a, b):
    return disj(nott(a), b)


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, CNum) or isinstance(b, CNum):
        a, b = cplx(a), cplx(b)
        return CNum(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if (isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))) and (isinstance(b, bool) or (is_sym(b) and z3.is_bool(b))):
        return simp(z3.If(c, lift(a), lift(b)))
    a, b, s = _two(a, b)
    return simp(z3.If(c, lift(a), lift(b)))


DIV = z3.Function("floordiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function("mod", z3.IntSort(), z3.IntSort(), z3.IntSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
PI = z3.Real("pi")


def mentions(e, c):
    if not is_sym(e):
        return False
    seen = set()
    st = [e]
    cid = c.get_id()
    while st:
        x = st.pop()
        if x.get_id() == cid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


_consts = {}


def consts(f):
    """ids of the unknowns (constants) of a formula"""
    r = _consts.get(f.get_id())
    if r is not None and r[1].eq(f):
        return r[0]
    out, st, seen = set(), [f], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
            else:
                st.extend(x.children())
    _consts[f.get_id()] = (frozenset(out), f)
    return _consts[f.get_id()][0]


class PathCtx:
    def __init__(self, prefix, parent=None):
        self.prefix, self.parent = prefix, parent
        self.trace = []
        self.conds = []
        self.alts = []


class Lin:
    """products of unknowns replaced by uninterpreted functions of their sorted factors: unsat stays unsat"""

    def __init__(self):
        self.memo, self.keep, self.fs = {}, [], {}
        self.nq = 0

    def fn(self, n, srt):
        k = (n, str(srt))
        if k not in self.fs:
            self.fs[k] = z3.Function(f"mul{n}{srt}", *[srt] * n, srt)
        return self.fs[k]

    def __call__(self, e):
        e = z3.simplify(e, som=True, arith_lhs=False)
        return self.go(e)

    def go(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._go(e)
            self.memo[i] = r
            self.keep.append(e)
        return r

    def _go(self, e):
        if z3.is_quantifier(e):
            if e.num_vars() < 1 or not e.is_forall() and not e.is_exists():
                return e
            self.nq += 1
            vs = [z3.Const(f"{e.var_name(k)}?{self.nq}", e.var_sort(k)) for k in range(e.num_vars())]
            inst = lambda t: z3.substitute_vars(t, *reversed(vs))
            body = self.go(z3.simplify(inst(e.body()), som=True))
            pats = []
            for k in range(e.num_patterns()):
                ts = [self.go(inst(c)) for c in e.pattern(k).children()]
                pats.append(z3.MultiPattern(*ts))
            q = z3.ForAll if e.is_forall() else z3.Exists
            try:
                return q(vs, body, patterns=pats)
            except z3.Z3Exception:
                return q(vs, body)
        if not z3.is_app(e) or e.num_args() == 0:
            return e
        if z3.is_mul(e):
            c, fs = [], []
            st = [(x, 1) for x in reversed(e.children())]
            while st:
                x, _ = st.pop()
                if z3.is_mul(x):
                    st.extend((y, 1) for y in reversed(x.children()))
                elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)) and 1 <= x.arg(1).as_long() <= 6:
                    st.extend((x.arg(0), 1) for _ in range(x.arg(1).as_long()))
                elif z3.is_int_value(x) or z3.is_rational_value(x):
                    c.append(x)
                else:
                    fs.append(x)
            fs = self.factors(fs, e.sort())
            r = fs[0] if len(fs) == 1 else self.fn(len(fs), e.sort())(*fs) if fs else None
            for x in c:
                r = x if r is None else x * r
            return r
        if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_int_value(e.arg(1)) and 1 <= e.arg(1).as_long() <= 6:
            return self._go(z3.simplify(e.arg(0) * 1, som=True)) if e.arg(1).as_long() == 1 else self.monomial([e.arg(0)] * e.arg(1).as_long(), e.sort())
        if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
            return z3.ToReal(self.go(e.arg(0)))
        ch = [self.go(x) for x in e.children()]
        try:
            return e.decl()(*ch)
        except z3.Z3Exception:
            return z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch)])

    def monomial(self, fs, srt):
        fs = self.factors(fs, srt)
        return fs[0] if len(fs) == 1 else self.fn(len(fs), srt)(*fs)

    def factors(self, fs, srt):
        """sorted factors; the integer ones among real factors are collected in one integer product"""
        if srt == z3.RealSort():
            ints = [x.arg(0) for x in fs if z3.is_app_of(x, z3.Z3_OP_TO_REAL)]
            rest = [self.go(x) for x in fs if not z3.is_app_of(x, z3.Z3_OP_TO_REAL)]
            if ints:
                flat = []
                for x in ints:
                    flat.extend(x.children() if z3.is_mul(x) else [x])
                k = [x for x in flat if z3.is_int_value(x)]
                rest.append(z3.ToReal(self.monomial([x for x in flat if not z3.is_int_value(x)], z3.IntSort())))
                for x in k:
                    raise z3.Z3Exception("constant under to_real")
            return sorted(rest, key=order)
        return sorted([self.go(x) for x in fs], key=order)


def order(x):
    return x.sexpr()


class Path:
    def __init__(self, conds, kind, value):
        self.conds, self.kind, self.value = conds, kind, value

    def cond(self):
        return conj(*self.conds)


class Mut:
    """mutable object of the interpreted program; all writes go through `put`"""

    _n = 0

    def __init__(self):
        Mut._n += 1
        self.aid = Mut._n


class Eng:
    def __init__(self, budget=60.0, branch_ms=900, prove_ms=8000):
        self.solver = z3.Solver()
        self.lin, self.lins = Lin(), z3.SimpleSolver()
        self.lins.set("smt.mbqi", False)
        self.branch_ms, self.prove_ms = branch_ms, prove_ms
        self.deadline = time.time() + budget
        self.levels = [set()]
        self.keep = []  # keeps asserted expressions alive: ids stay unique
        self.factlog = []
        self.journal = []
        self.ctx = None
        self.bound = []
        self.counter = {}
        self.obligations = []
        self.solver_s = 0.0
        self.nchecks = self.nlin = 0
        self.divs = {}
        self.sums = []
        self.fork = None
        self.prods = {}
        self.trusted = set()
        self.split_points = []
        self.split_first = False
        # may loops carry numbers without a closed form (loops.Named)
        self.name_states = False
        self.angles = []
        self.hints = []
        self.rewrites = []
        self.on_prod = []
        self.abstracted = False
        self.dead = set()
        self.intseqs = {}
        self.on_first = []
        self.points = []
        self.fact(z3.And(PI > z3.RealVal("3.1415"), PI < z3.RealVal("3.1416")))
        self.axioms()

    def axioms(self):
        """floor division: proved in lemmas/Arith.lean (floordiv_axioms)"""
        a, b = z3.Ints("a b")
        q, m = DIV(a, b), MOD(a, b)
        for f in (
            z3.Implies(b > 0, z3.And(a == b * q + m, m >= 0, m < b)),
            z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a)),
            z3.Implies(z3.And(b > 0, a >= 0, a < b), z3.And(q == 0, m == a)),
            z3.Implies(z3.And(b > 0, q == 0), z3.And(a >= 0, a < b, m == a)),
            z3.Implies(z3.And(b > 0, a >= b), q >= 1),
            z3.Implies(b == 1, z3.And(q == a, m == 0)),
        ):
            self._assert(z3.ForAll([a, b], f, patterns=[q]))
            self._assert(z3.ForAll([a, b], f, patterns=[m]))
        # products of the linear abstraction
        for srt in (z3.IntSort(), z3.RealSort()):
            x, y = z3.Consts("x y", srt)
            f = self.lin.fn(2, srt)
            self.lins.add(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
        x, y = z3.Ints("x y")
        f = self.lin.fn(2, z3.IntSort())
        self.lins.add(z3.ForAll([x, y], z3.Implies(z3.And(x >= 1, y >= 0), z3.And(f(x, y) >= y)), patterns=[f(x, y)]))
        self.lins.add(z3.ForAll([x, y], z3.Implies(x == 1, f(x, y) == y), patterns=[f(x, y)]))
        self.lins.add(z3.ForAll([x, y], z3.Implies(x == 0, f(x, y) == 0), patterns=[f(x, y)]))
        z = z3.Int("z")
        f3 = self.lin.fn(3, z3.IntSort())
        t = f3(x, y, z)
        for a, b, c in ((x, y, z), (y, x, z), (z, x, y)):
            self.lins.add(z3.ForAll([x, y, z], z3.Implies(a == 1, t == f(b, c)), patterns=[t]))

    # ------------------------------------------------------------ symbols
    def name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def fresh(self, base, sort):
        n = self.name(base)
        if self.bound:
            f = z3.Function(n, *[b.sort() for b in self.bound], sort)
            return f(*self.bound)
        return z3.Const(n, sort)

    def fresh_int(self, base):
        return self.fresh(base, z3.IntSort())

    def fresh_bool(self, base):
        return self.fresh(base, z3.BoolSort())

    def fresh_real(self, base):
        return self.fresh(base, z3.RealSort())

    # ------------------------------------------------------------ assertions
    def _assert(self, f):
        if not is_sym(f):
            if not f:
                self.solver.add(z3.BoolVal(False))
                self.lins.add(z3.BoolVal(False))
            return
        i = f.get_id()
        if any(i in l for l in self.levels):
            return
        self.levels[-1].add(i)
        self.keep.append(f)
        self.solver.add(f)
        g = self.linear(f)
        if g is not None:
            self.lins.add(g)

    def linear(self, f):
        try:
            return self.lin(f)
        except z3.Z3Exception:
            return None

    def push(self):
        self.solver.push()
        self.lins.push()
        self.levels.append(set())

    def pop(self):
        self.levels.pop()
        self.solver.pop()
        self.lins.pop()

    def fact(self, f, trig=None):
        if not is_sym(f):
            return
        self.factlog.append((f, trig, None))
        self._assert(f)

    def pc(self, f):
        f = simp(f)
        if f is False:
            raise Infeasible()
        if self.ctx is not None and is_sym(f):
            self.ctx.conds.append(f)
        self._assert(f)

    def check(self, *extra, ms=None, quick=False):
        if time.time() > self.deadline:
            raise Giveup("time budget of the function used up")
        t = time.time()
        ls = [self.linear(lift(e)) for e in extra]
        ms = ms or self.branch_ms
        if None not in ls:
            # the work is limited, not the time: the same answer on a slower machine
            self.lins.set("rlimit", ms * 1500)
            self.lins.set("timeout", ms * 8)
            r = self.lins.check(*ls)
            self.nlin += 1
            if r == z3.unsat or quick:
                self.solver_s += time.time() - t
                return r
        self.solver.set("timeout", ms)
        r = self.solver.check(*[lift(e) for e in extra])
        self.solver_s += time.time() - t
        self.nchecks += 1
        return r

    def feasible(self, c):
        return self.check(c, quick=True) != z3.unsat

    def valid(self, c, ms=None):
        c = simp(c)
        if not is_sym(c):
            return bool(c)
        a = unquantified(c)
        if a is not None:
            # valid whatever the quantified parts say
            t = z3.Solver()
            t.set("rlimit", 200000)
            t.set("timeout", 1000)
            t.add(z3.Not(a))
            if t.check() == z3.unsat:
                return True
        return self.check(z3.Not(c), ms=ms or self.branch_ms // 3, quick=ms is None) == z3.unsat

    # ------------------------------------------------------------ exploration
    def branch(self, c):
        c = simp(c)
        if not is_sym(c):
            return bool(c)
        if not z3.is_bool(c):
            c = lift(neq(c, 0))
        ctx = self.ctx
        if ctx is None:
            raise Unsupported("case split outside a path")
        k = len(ctx.trace)
        if k < len(ctx.prefix):
            forced, d = ctx.prefix[k]
        elif not self.feasible(c):
            forced, d = True, False
        elif not self.feasible(z3.Not(c)):
            forced, d = True, True
        elif self.fork is not None and ctx.parent is None:
            # both ways are looked at from here, the first in a process of its own
            forced, d = False, self.fork()
        else:
            forced, d = False, True
            ctx.alts.append(ctx.trace + [(False, False)])
        ctx.trace.append((forced, d))
        f = c if d else z3.Not(c)
        if not forced:
            ctx.conds.append(f)
        self._assert(f)
        return d

    def live(self, nb):
        """facts about an arbitrary element say nothing outside of it, except in their general form"""
        dead = self.dead.union(b.get_id() for b in self.bound[nb:])
        return lambda f: not (dead & consts(f))

    def explore(self, thunk, limit=400, drop=None):
        """all paths of thunk() from the current state; state and path are restored"""
        out = []
        todo = [[]]
        while todo:
            if len(out) > limit:
                raise Giveup("too many paths")
            prefix = todo.pop()
            saved = self.ctx
            amark = Mut._n
            mark, fmark = len(self.journal), len(self.factlog)
            self.push()
            nb = len(self.bound)
            self.ctx = ctx = PathCtx(prefix, saved)
            try:
                try:
                    v = thunk()
                    out.append(Path(list(ctx.conds), "ok", v))
                except Infeasible:
                    pass
                except ControlFlow as e:
                    out.append(Path(list(ctx.conds), e.kind, e))
            finally:
                self.ctx = saved
                del self.bound[nb:]
                self.undo(mark, amark)
                self.pop()
                facts = self.factlog[fmark:]
            live = self.live(nb if drop is None else drop)
            for f, _, _ in facts:
                if live(f):
                    self._assert(f)
            # what a sum stands for does not depend on the path
            kept = []
            for x in self.sums:
                if x["ctx"] is ctx:
                    if not live(x["t"] == x["t"]) or not live(x["n"] == 0):
                        continue
                    x = dict(x, ctx=saved)
                    if any(y["ctx"] is saved and y["n"].eq(x["n"]) and y["t"].eq(x["t"]) for y in kept):
                        continue
                kept.append(x)
            self.sums = kept
            todo.extend(ctx.alts)
        return out

    def undo(self, mark, amark=None):
        """takes back the writes since mark; objects made since then keep their final state"""
        while len(self.journal) > mark:
            o, a, old = self.journal.pop()
            if amark is None or o.aid <= amark:
                setattr(o, a, old)

    def put(self, o, a, v):
        if getattr(o, "frozen", False):
            raise Unsupported("change of a value that stands for many")
        self.journal.append((o, a, getattr(o, a)))
        setattr(o, a, v)

    # ------------------------------------------------------------ quantifiers
    def forall(self, n, fn, lo=0, name="k"):
        """formula: fn(k) for every lo <= k < n"""
        n, lo = simp(n), simp(lo)
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 6:
            return conj(*[fn(k) for k in range(lo, n)])
        k = z3.Int(self.name(name))

        def at(k):
            b = simp(fn(k))
            if is_sym(b) and z3.is_bool(b) and self.valid(b):
                return True
            return b

        b = self.element(k, lo, n, at)
        if not is_sym(b):
            return disj(b, le(n, lo))
        if not z3.is_bool(b):
            raise Unsupported("quantified value is no truth value")
        g = z3.Implies(z3.And(lift(le(lo, k)), lift(lt(k, n))), b)
        return self.quant(k, g)

    def element(self, k, lo, n, fn, merge=None):
        """fn(k) for an arbitrary lo <= k < n; the cases fn distinguishes are joined"""
        fm = len(self.factlog)
        self.bound.append(k)

        def thunk():
            self.pc(le(lo, k))
            self.pc(lt(k, n))
            pre = len(self.ctx.conds)
            return pre, fn(k)

        self.keep.append(k)
        try:
            paths = self.explore(thunk, drop=len(self.bound) - 1)
        finally:
            self.bound.pop()
        self.generalise(k, fm)
        self.dead.add(k.get_id())
        if not paths:
            return True if merge is None else merge([])
        for p in paths:
            if p.kind != "ok":
                raise Unsupported(f"{p.kind} inside an element: {p.value}")
        alts = [(conj(*p.conds[p.value[0] :]), p.value[1]) for p in paths]
        if merge:
            return merge(alts)
        return joined(alts)

    def quant(self, k, g):
        u = offset(g, k)
        if u is not None:
            g = z3.simplify(z3.substitute(g, (k, k - u)))
        # one name for all: equal formulas are the same term
        q = z3.Int("x?")
        k, g = q, z3.substitute(g, (k, q))
        pats = triggers(g, k)
        try:
            return z3.ForAll([k], g, patterns=pats) if pats else z3.ForAll([k], g)
        except z3.Z3Exception:
            return z3.ForAll([k], g)

    def generalise(self, k, fm):
        """facts made while evaluating at the arbitrary k hold for every k"""
        for f, trig, gen in list(self.factlog[fm:]):
            if mentions(f, k):
                if self.dead & consts(f):
                    continue
                # gen: variables generalised before, and the formula under them
                vs, f = gen or ((), f)
                ts = [t for t in (trig or []) if mentions(t, k)]
                u = offset(f, k)
                c = z3.Int(f"q{len(vs)}?")
                w = (k, c) if u is None else (k, c - u)
                f = z3.simplify(z3.substitute(f, w)) if u is not None else z3.substitute(f, w)
                ts = [z3.simplify(z3.substitute(t, w)) if u is not None else z3.substitute(t, w) for t in ts]
                vs = (c,) + tuple(vs)
                ok = ts and all(any(mentions(t, x) for t in ts) for x in vs)
                try:
                    q = z3.ForAll(vs, f, patterns=[z3.MultiPattern(*ts)] if ok else [])
                except z3.Z3Exception:
                    q = z3.ForAll(vs, f)
                self.factlog.append((q, ts, (vs, f)))
                self._assert(q)

    def exists(self, n, fn, lo=0):
        return nott(self.forall(n, lambda k: nott(fn(k)), lo))

    # ------------------------------------------------------------ integer division
    def posdiv(self, a, b, why="divisor"):
        """(a // b, a mod b) for b > 0"""
        if isinstance(a, int) and isinstance(b, int):
            return a // b, a % b
        a, b = lift(arith(a)), arith(b)
        if isinstance(b, int):
            # linear: the native operations are exact for a positive constant divisor
            return simp(a / b), simp(a % b)
        b = lift(b)
        a, b = z3.simplify(a), z3.simplify(b)
        q, m = DIV(a, b), MOD(a, b)
        if z3.is_app(a) and a.decl().name() == "mod":
            # (x mod (b * y)) // b = (x // b) mod y, (x mod (b * y)) mod b = x mod b: lemma mod_mul_floordiv
            x, w = a.children()
            y = quotient(w, b)
            if y is not None and self.valid(z3.And(b > 0, y > 0)):
                self.trusted.add("lemma mod_mul_floordiv (lemmas/Arith.lean)")
                return self.posdiv(self.posdiv(x, b)[0], y)[1], self.posdiv(x, b)[1]
        for rw in self.rewrites:
            r = rw(a, b)
            if r is not None:
                m = r
        if z3.is_mul(b):
            self.fact(z3.Implies(b > 0, a == b * q + m), [q])
        for h in self.hints:
            h(self, a, b, q, m)
        key = b.get_id()
        if not self.bound:
            for a2, q2, m2 in self.divs.get(key, [])[-6:]:
                # same divisor: quotients differ by t, so the numbers differ by b*t plus remainders
                if a2.get_id() != a.get_id():
                    t = q - q2
                    self.fact(z3.Implies(b > 0, z3.And(z3.Implies(t >= 1, b * t >= b), z3.Implies(t <= -1, b * t <= -b))))
            self.divs.setdefault(key, []).append((a, q, m))
            self.keep.append(b)
        return q, m

    # ------------------------------------------------------------ reals
    def sqrt(self, x):
        x = real(x)
        if isinstance(x, Fraction):
            for r in range(0, 1000):
                if x == r * r:
                    return Fraction(r)
        x = lift(x)
        r = SQRT(x)
        self.fact(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)), [r])
        self.fact(z3.Implies(x > 0, r > 0), [r])
        return r

    def cis(self, y):
        """exp(i*y)"""
        y = real(y)
        if y == 0 and not is_sym(y):
            return CNum(1, 0)
        y = self.turn(z3.simplify(lift(y), som=True))
        for h in self.angles:
            h(self, y)
        return CNum(COS(y), SIN(y))

    def turn(self, y):
        """an angle 2 pi K (a mod d) / d is replaced by 2 pi K a / d (K whole): the same point of the circle"""
        for m in subterms(y, "mod"):
            a, d = m.arg(0), m.arg(1)
            M = z3.Real("M?")
            yM = z3.substitute(y, (z3.ToReal(m), M))
            c = z3.simplify(z3.substitute(yM, (M, M + 1)) - yM, som=True)
            if mentions(c, M) or mentions(c, m) or mentions(yM, m):
                continue
            inv = INVF(z3.simplify(z3.ToReal(d), som=True))
            K = z3.simplify(z3.substitute(c, (PI, z3.RealVal("1/2")), (inv, z3.RealVal(1))), som=True)
            back = z3.simplify(2 * PI * inv * K - c, som=True)
            if not (z3.is_rational_value(back) and back.as_fraction() == 0) or not whole(K) or not self.valid(d > 0):
                continue
            self.trusted.add("lemma cis_mod (lemmas/Fourier.lean)")
            y = z3.simplify(z3.substitute(yM, (M, z3.ToReal(a))), som=True)
        return y

    def abs(self, x):
        if isinstance(x, CNum):
            return self.sqrt(add(mul(x.re, x.re), mul(x.im, x.im)))
        if not is_sym(x):
            return abs(x)
        return ite(le(0, x), x, neg(x))

    # ------------------------------------------------------------ sums and products over sequences
    def inside(self, ctx):
        """the present path goes on from the path ctx"""
        c = self.ctx
        while c is not ctx and c is not None:
            c = c.parent
        return c is ctx

    def sum(self, n, fn):
        """sum of fn(k), 0 <= k < n; sums with provably equal terms are the same symbol"""
        n = simp(n)
        if isinstance(n, int) and n <= 8:
            r = 0
            for k in range(n):
                r = add(r, fn(k))
            return r
        if is_sym(n) and self.valid(le(n, 0)):
            return 0
        k = z3.Int(self.name("s"))
        t = self.element(k, 0, n, fn)
        if isinstance(t, CNum):
            raise Unsupported("sum of complex terms")
        t = arith(t)
        if not is_sym(t) or not mentions(t, k):
            return mul(n, t)
        one = single_term(t, k)
        if one is not None:
            c, a = one
            return ite(conj(le(0, c), lt(c, n)), a, 0)
        # a symbol of its own: a function of the arbitrary indices the terms depend on
        m = max([i + 1 for i, b in enumerate(self.bound) if mentions(t, b) or mentions(n, b)], default=0)
        ps = [(b, z3.Const(f"P{i}!", b.sort())) for i, b in enumerate(self.bound[:m])]
        q = z3.Int("s!")
        tc, nc = z3.substitute(t, (k, q), *ps), z3.substitute(lift(n), *ps)
        for x in self.sums:
            if x["n"].eq(nc) and x["t"].eq(tc) and self.inside(x["ctx"]):
                return x["f"](*self.bound[:m])
        for x in self.sums:
            if x["t"].sort() == t.sort() and x["m"] <= len(self.bound) and self.inside(x["ctx"]):
                back = [(z3.Const(f"P{i}!", b.sort()), b) for i, b in enumerate(self.bound[: x["m"]])]
                if self.valid(eq(n, z3.substitute(x["n"], *back))):
                    u = z3.substitute(x["t"], (q, k), *back)
                    if self.valid(z3.Implies(z3.And(k >= 0, k < n), u == t)):
                        return x["f"](*self.bound[: x["m"]])
        f = z3.Function(self.name("sum"), *[b.sort() for b, _ in ps], t.sort())
        self.sums.append(dict(n=nc, t=tc, f=f, m=m, ctx=self.ctx))
        self.keep.extend([k, t, tc, nc])
        if self.count_facts and not m:
            self.count_lemma(f(), n, t, k)
        return f(*self.bound[:m])

    # lemmas about numbers of elements are of use to few tasks
    count_facts = False

    def count_lemma(self, S, n, t, k):
        """a sum of zeros and ones is how many ones there are"""
        if not (z3.is_int(t) and self.valid(z3.Implies(z3.And(k >= 0, k < n), z3.Or(t == 0, t == 1)))):
            return
        self.trusted.add("lemma count (lemmas/Arith.lean)")
        c = z3.simplify(t == 1)
        j, i = z3.Ints("j_c k_c")
        n = lift(n)
        at = lambda x: z3.substitute(c, (k, x))
        inr = lambda x: z3.And(0 <= x, x < n)
        w = self.fresh_int("one")
        self.fact(z3.And(S >= 0, S <= n))
        self.fact(z3.Implies(S == 0, z3.ForAll([j], z3.Implies(inr(j), z3.Not(at(j))))))
        self.fact(z3.Implies(S >= 1, z3.And(inr(w), at(w))))
        self.fact(z3.Implies(S == 1, z3.ForAll([j], z3.Implies(z3.And(inr(j), at(j)), j == w))))

    def prod_uf(self, d, lo, hi, pairs=True):
        """product of the positive sequence d over [lo, hi)"""
        lo, hi = simp(lo), simp(hi)
        rec = self.prods.setdefault(d.name(), dict(f=z3.Function("P_" + d.name(), z3.IntSort(), z3.IntSort(), z3.IntSort()), seen={}))
        if isinstance(lo, int) and isinstance(hi, int):
            r = 1
            for k in range(lo, hi):
                r = mul(r, d(k))
            return r
        w = simp(sub(hi, lo))
        if isinstance(w, int) and w <= 1:
            return d(lift(lo)) if w == 1 else 1
        l, h = lift(lo), lift(hi)
        p = rec["f"](l, h)
        key = p.get_id()
        if not rec.get("axioms"):
            rec["axioms"] = True
            x, y = z3.Ints("x y")
            t = rec["f"](x, y)
            for f in (t >= 1, z3.Implies(y <= x, t == 1), z3.Implies(y == x + 1, t == d(x))):
                self.fact(z3.ForAll([x, y], f, patterns=[t]))
        for hk in self.on_prod:
            hk(self, d, l, h, p)
        if key in rec["seen"] and not self.bound:
            for f in rec["seen"][key]:
                self.fact(f)
            return p
        if not self.bound and pairs:
            rec["seen"][key] = fl = []
            self.keep.append(p)
            # lemma prod_split with the other products that share an end
            for (l2, h2, p2) in rec.setdefault("terms", [])[-12:]:
                for (x, y, big, small, z) in ((l, l2, p, p2, 0), (l2, l, p2, p, 0)) if h2.eq(h) else ((h2, h, p, p2, 1), (h, h2, p2, p, 1)) if l2.eq(l) else ():
                    # big covers small and the part between x and y
                    rest = lift(self.prod_uf(d, x, y, pairs=False))
                    f = z3.Implies(z3.And(x <= y, l <= h, l2 <= h2), z3.And(big == rest * small, big >= small, big >= rest))
                    self.fact(f)
                    fl.append(f)
                    self.trusted.add("lemma prod_split (lemmas/Arith.lean)")
            rec["terms"].append((l, h, p))
        return p

    def prod_split(self, d, a, b, c):
        """lemma: P(a,c) = P(a,b) * P(b,c) for a <= b <= c"""
        a, b, c = simp(a), simp(b), simp(c)
        x, y, z = self.prod_uf(d, a, c), self.prod_uf(d, a, b), self.prod_uf(d, b, c)
        self.fact(z3.Implies(z3.And(lift(le(a, b)), lift(le(b, c))), lift(eq(x, mul(y, z)))), [t for t in (x,) if is_sym(t)])

    # ------------------------------------------------------------ obligations
    def oblige(self, name, f, info=None):
        """records the obligation `path condition and facts imply f`"""
        f = simp(f)
        t = time.time()
        o = {"name": name, "status": "discharged", "backend": "z3", "time": 0.0}
        if not is_sym(f):
            if f:
                o["backend"] = "simplifier"
            else:
                r = self.check(ms=self.prove_ms)
                if r == z3.sat:
                    o.update(status="refuted", reason="false on a feasible path", model_obj=self.solver.model())
                elif r == z3.unknown:
                    o.update(status="unknown", reason="false on a path whose feasibility is undecided")
        else:
            r = self.check(z3.Not(f), ms=self.prove_ms)
            if r == z3.unknown:
                r2 = self.second(z3.Not(f))
                if r2 is not None:
                    r, o["backend"] = r2
            if r == z3.sat:
                o.update(status="refuted", reason="counter-model", model_obj=self.solver.model() if o["backend"] == "z3" else None)
            elif r == z3.unknown:
                o.update(status="unknown", reason="solver: " + self.solver.reason_unknown())
        o["time"] = round(time.time() - t, 3)
        if o["status"] == "refuted" and self.abstracted:
            o["status"] = "unknown"
            o["reason"] = "counter-model of an abstraction"
        if info:
            o["info"] = info
        self.obligations.append(o)
        return o["status"] == "discharged"

    def second(self, g):
        """fresh non-incremental solver, then cvc5"""
        h = self.linear(lift(g))
        if h is not None:
            for seed in (7, 23):
                t = time.time()
                s = z3.SimpleSolver()
                s.set("smt.mbqi", False)
                s.set("smt.random_seed", seed)
                s.set("rlimit", self.prove_ms * 1500)
                s.set("timeout", self.prove_ms * 4)
                s.add(*self.lins.assertions())
                s.add(h)
                r = s.check()
                self.solver_s += time.time() - t
                if r == z3.unsat:
                    return r, "z3"
        s = z3.Solver()
        s.set("timeout", self.prove_ms)
        s.add(*self.solver.assertions())
        s.add(g)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        if r == z3.unsat:
            return r, "z3 (fresh)"
        try:
            import cvc5

            t = time.time()
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            c = cvc5.Solver(tm) if tm else cvc5.Solver()
            c.setOption("tlimit-per", str(self.prove_ms))
            p = cvc5.InputParser(c)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + s.to_smt2(), "q")
            sm = p.getSymbolManager()
            ans = ""
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                ans += str(cmd.invoke(c, sm))
            self.solver_s += time.time() - t
            if "unsat" in ans:
                return z3.unsat, "cvc5"
        except Exception:  # noqa: BLE001
            pass
        return None


INVF = z3.Function("inv", z3.RealSort(), z3.RealSort())


def quotient(w, b):
    """y with w = b * y, if the factors of b are among those of w"""
    fs = lambda t: [y for x in t.children() for y in fs(x)] if z3.is_mul(t) else [t]
    ws = fs(w)
    if len(ws) < 2:
        return None
    for x in fs(b):
        for k, y in enumerate(ws):
            if x.eq(y):
                del ws[k]
                break
        else:
            return None
    return z3.simplify(z3.Product(*ws)) if ws else z3.IntVal(1)


def whole(K):
    """a polynomial with whole coefficients over integers"""
    if z3.is_rational_value(K):
        return K.denominator_as_long() == 1
    if z3.is_app_of(K, z3.Z3_OP_TO_REAL):
        return True
    if z3.is_add(K) or z3.is_mul(K) or z3.is_sub(K):
        return all(whole(x) for x in K.children())
    return False


def subterms(e, name):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() == name:
            out.append(x)
        st.extend(x.children())
    return out


def joined(alts):
    """one scalar for the cases [(condition, scalar)], which exhaust everything"""
    r = alts[-1][1]
    for c, v in reversed(alts[:-1]):
        if not (is_num(v) and is_num(r)):
            if v is r:
                continue
            raise Unsupported("cases with values that are not scalars")
        r = ite(c, v, r)
    return r


def unquantified(f):
    """the formula with every quantified part, up to the names of its variables, replaced by a propositional variable; None if it has none"""
    memo, names = {}, {}

    def atom(t):
        # the names of bound variables do not matter
        key = (t.is_forall(), tuple(str(t.var_sort(i)) for i in range(t.num_vars())), t.body().get_id())
        if key not in names:
            names[key] = z3.Bool(f"quantified!{len(names)}")
        return names[key]

    def walk(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        if z3.is_quantifier(t):
            r = atom(t)
        elif z3.is_app(t) and t.num_args():
            cs = t.children()
            new = [walk(x) for x in cs]
            if all(a is b for a, b in zip(cs, new)):
                r = t
            elif z3.is_and(t) or z3.is_or(t):
                r = (z3.And if z3.is_and(t) else z3.Or)(*new)
            else:
                r = t.decl()(*new)
        else:
            r = t
        memo[k] = r
        return r

    r = walk(f)
    return r if names else None


def single_term(t, k):
    """(c, a) if the term is a for k = c and 0 for any other k"""
    t = z3.simplify(t)
    if not z3.is_app_of(t, z3.Z3_OP_ITE):
        return None
    f, a, b = t.children()
    zero = z3.is_int_value(b) and b.as_long() == 0 or z3.is_rational_value(b) and b.as_fraction() == 0
    if not (zero and z3.is_eq(f) and z3.is_int(f.arg(0))):
        return None
    d = z3.simplify(f.arg(0) - f.arg(1))
    for c in (z3.simplify(k - d), z3.simplify(k + d)):
        if not mentions(c, k):
            return simp(c), simp(z3.substitute(a, (k, c)))
    return None


def offset(g, k):
    """u, if k occurs in arguments of unknown functions as k + u only"""
    u, seen, st = None, set(), [g]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in x.children():
                    if a.eq(k):
                        return None
                    if z3.is_add(a) and any(c.eq(k) for c in a.children()):
                        w = z3.simplify(a - k)
                        if mentions(w, k) or u is not None and not u.eq(w):
                            return None
                        u = w
            st.extend(x.children())
    return u


def triggers(g, k):
    """pattern for a quantifier over k: uninterpreted applications that have k as a direct argument"""
    best, other = [], []
    seen = set()
    st = [g]
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            if any(a.get_id() == k.get_id() for a in x.children()):
                best.append(x)
            elif mentions(x, k):
                other.append(x)
        st.extend(x.children())
    return best[:4] or other[-3:]


class ControlFlow(Exception):
    kind = "?"


class ReturnEx(ControlFlow):
    kind = "return"

    def __init__(self, value):
        self.value = value


class BreakEx(ControlFlow):
    kind = "break"


class ContinueEx(ControlFlow):
    kind = "continue"


class PyRaise(ControlFlow):
    kind = "raise"

    def __init__(self, exc, msg="", node=None):
        self.exc, self.msg, self.node = exc, msg, node
        super().__init__(f"{exc}: {msg}")


class PoisonRead(ControlFlow):
    kind = "poison"

    def __init__(self, loc):
        self.loc = loc

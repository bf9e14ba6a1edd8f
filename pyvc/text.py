"""Texts with symbolic parts: the contracts of re and of the text methods on them.

A text is a row of parts: literals; ("str", v): the decimal digits of the integer v; ("run", id, class, least): a run of characters of a
class, of which only the class and the least length are known; ("join", sep, seq): any number of texts.  A pattern is matched
by backtracking over the parts; where the outcome depends on characters that are not known, the text is not supported.  What is done to
a joined part is done to an arbitrary text of it, after the characters that follow it are seen to end every match."""
import re._constants as sc
import re._parser as sp

import z3

from .core import *
from .values import *

INF = sc.MAXREPEAT


class CS:
    """set of characters: those of s, or (neg) all others"""

    __slots__ = ("neg", "s")

    def __init__(self, s, neg=False):
        self.s, self.neg = frozenset(s), neg

    def inverse(self):
        return CS(self.s, not self.neg)

    def within(self, o):
        if not self.neg:
            return not (self.s & o.s) if o.neg else self.s <= o.s
        return o.neg and o.s <= self.s

    def apart(self, o):
        return self.within(o.inverse())

    def union(self, o):
        if not self.neg and not o.neg:
            return CS(self.s | o.s)
        a, b = (self, o) if self.neg else (o, self)
        return CS(a.s & b.s, True) if b.neg else CS(a.s - b.s, True)


DIGITS = CS("0123456789")
SPACE = CS(" \t\n\r\f\v")
BLANK = CS(" \t")
WORD = CS("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
NONE = CS("")
CATEGORY = {sc.CATEGORY_DIGIT: DIGITS, sc.CATEGORY_NOT_DIGIT: DIGITS.inverse(), sc.CATEGORY_SPACE: SPACE, sc.CATEGORY_NOT_SPACE: SPACE.inverse(), sc.CATEGORY_WORD: WORD, sc.CATEGORY_NOT_WORD: WORD.inverse()}


def charset(op, av):
    """the set of a single-character item, else None"""
    if op is sc.LITERAL:
        return CS(chr(av))
    if op is sc.NOT_LITERAL:
        return CS(chr(av), True)
    if op is sc.ANY:
        return CS("\n", True)
    if op is sc.IN:
        r, neg = NONE, False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                r = r.union(CS(chr(a)))
            elif o is sc.RANGE:
                r = r.union(CS(map(chr, range(a[0], a[1] + 1))))
            elif o is sc.CATEGORY:
                r = r.union(CATEGORY[a])
            else:
                raise Unsupported("item of a pattern")
        return r.inverse() if neg else r
    return None


def alphabet(items):
    """every character an item of the pattern may match"""
    r = NONE
    for op, av in items:
        c = charset(op, av)
        if c is not None:
            r = r.union(c)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            r = r.union(alphabet(av[2]))
        elif op is sc.SUBPATTERN:
            r = r.union(alphabet(av[3]))
        elif op is sc.BRANCH:
            for x in av[1]:
                r = r.union(alphabet(x))
        elif op is not sc.AT:
            raise Unsupported("item of a pattern")
    return r


class Unknown(Unsupported):
    """the outcome depends on characters that are not known"""


class Match:
    """a match object"""

    def __init__(self, m, start, end, groups):
        self.m, self.start, self.end, self.groups = m, start, end, groups

    def group(self, g):
        if g == 0:
            return self.m.slice(self.start, self.end)
        if isinstance(g, str):
            if g not in self.m.names:
                raise Unsupported("group of a match")
            g = self.m.names[g]
        if g not in self.groups:
            return None
        return self.m.slice(*self.groups[g])

    def substituted(self, sub):
        m = Matcher(self.m.tx, None, list(sub(StrT(self.m.parts)).parts), self.m.first, self.m.after)
        m.names, m.ngroups = self.m.names, self.m.ngroups
        return Match(m, self.start, self.end, self.groups)


class Matcher:
    """matches of a pattern in a row of parts without joins.  first: the row starts the text; after: None if it ends the text, else
    the characters that may follow (and whether the text may end there)"""

    def __init__(self, tx, pattern, parts, first=True, after=None):
        self.tx, self.parts, self.first, self.after = tx, parts, first, after
        if pattern is not None:
            tree = sp.parse(pattern)
            if tree.state.flags & ~(sc.SRE_FLAG_UNICODE | sc.SRE_FLAG_MULTILINE):
                raise Unsupported("flags of a pattern")
            self.items, self.names = list(tree), dict(tree.state.groupdict)
            self.multi = bool(tree.state.flags & sc.SRE_FLAG_MULTILINE)
            self.ngroups = tree.state.groups - 1
        self.n = len(parts)

    # positions: (part, offset); offset in a literal, or 0: its start, 1: anywhere inside a run
    def norm(self, p):
        i, o = p
        while i < self.n and isinstance(self.parts[i], str) and o >= len(self.parts[i]):
            i, o = i + 1, 0
        return i, o

    def cls(self, i):
        p = self.parts[i]
        return DIGITS if p[0] == "str" else p[2]

    def least(self, i):
        p = self.parts[i]
        return 1 if p[0] == "str" else p[3]

    def inside(self, p):
        return p[0] < self.n and not isinstance(self.parts[p[0]], str) and p[1] == 1

    def test(self, p, c):
        """does a character of the set stand here?"""
        i, o = p
        if i >= self.n:
            if self.after is None:
                return False
            cs, _ = self.after
            if cs.apart(c):
                return False
            raise Unknown("a match may go on behind a part of the text")
        if isinstance(self.parts[i], str):
            ch = self.parts[i][o]
            return CS(ch).within(c)
        k = self.cls(i)
        if not o and not self.least(i):
            if k.apart(c):
                # empty or not, it has to fail behind the run as well
                if self.test(self.norm((i + 1, 0)), c):
                    raise Unknown("a run that may be empty")
                return False
            raise Unknown("a character of a run")
        if k.within(c):
            return True
        if k.apart(c):
            return False
        raise Unknown("a character of a run")

    def forward(self, p):
        i, o = p
        return self.norm((i, o + 1))

    def prev(self, p):
        """the characters that may stand before; None at the start of the text"""
        i, o = p
        if i < self.n and isinstance(self.parts[i], str) and o > 0:
            return CS(self.parts[i][o - 1])
        if self.inside(p):
            if not self.least(i):
                raise Unknown("a run that may be empty")
            return self.cls(i)
        if i == 0:
            if self.first:
                return None
            raise Unknown("the character before a part of the text")
        q = self.parts[i - 1]
        if isinstance(q, str):
            return CS(q[-1])
        if not self.least(i - 1):
            raise Unknown("a run that may be empty")
        return self.cls(i - 1)

    def ends(self, p, multi):
        """$"""
        i, o = p
        if i >= self.n:
            if self.after is None:
                return True
            cs, may = self.after
            if not may and cs.apart(CS("\n")):
                return False
            if multi and cs.within(CS("\n")):
                return True
            raise Unknown("the end of a part of the text")
        if not self.test(p, CS("\n")):
            return False
        return True if multi else self.ends_text(self.forward(p))

    def ends_text(self, p):
        if p[0] >= self.n:
            if self.after is None:
                return True
            raise Unknown("the end of a part of the text")
        if not isinstance(self.parts[p[0]], str) and not self.least(p[0]):
            raise Unknown("a run that may be empty")
        return False

    # -- one after the other, the preferred first: (position, groups)
    def seq(self, items, p, g):
        if not items:
            yield p, g
            return
        for q, h in self.item(items[0], p, g):
            yield from self.seq(items[1:], q, h)

    def one(self, p, c):
        """one character of the set: (position behind it, only perhaps?)"""
        i, o = p
        if i >= self.n or isinstance(self.parts[i], str):
            if self.test(p, c):
                yield self.forward(p), False
            return
        end = self.norm((i + 1, 0))
        if not self.cls(i).apart(c):
            yield (i, 1), True
            yield end, True
        if o == 0 and not self.least(i):
            for q, _ in self.one(end, c):
                yield q, True

    def item(self, it, p, g):
        op, av = it
        c = charset(op, av)
        if c is not None:
            for q, maybe in self.one(p, c):
                yield q, ({**g, "?": True} if maybe else g)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            c = charset(*sub[0]) if len(sub) == 1 else None
            if c is not None:
                stops = self.stops(p, c, lo, hi)
                for q, maybe in stops if op is sc.MIN_REPEAT else reversed(stops):
                    yield q, ({**g, "?": True} if maybe else g)
            else:
                yield from self.rep(sub, lo, hi, p, g, 0, op is sc.MAX_REPEAT)
        elif op is sc.SUBPATTERN:
            gid, add_, del_, sub = av
            if add_ or del_:
                raise Unsupported("flags of a pattern")
            for q, h in self.seq(list(sub), p, g):
                yield q, ({**h, gid: (p, q)} if gid else h)
        elif op is sc.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), p, g)
        elif op is sc.AT:
            if self.at(av, p):
                yield p, g
        elif op in (sc.ASSERT, sc.ASSERT_NOT) and av[0] == 1:
            ok = False
            for _, h in self.seq(list(av[1]), p, g):
                if "?" in h:
                    raise Unknown("what follows")
                ok = True
                break
            if ok == (op is sc.ASSERT):
                yield p, g
        else:
            raise Unsupported("item of a pattern")

    def at(self, what, p):
        if what is sc.AT_BEGINNING_STRING or what is sc.AT_BEGINNING and not self.multi:
            # something stands before?
            if any(isinstance(q, str) or self.least(k) for k, q in enumerate(self.parts[: p[0]])):
                return False
            return self.prev(p) is None
        if what is sc.AT_BEGINNING:
            c = self.prev(p)
            if c is None or c.within(CS("\n")):
                return True
            if c.apart(CS("\n")):
                return False
            raise Unknown("the character before")
        if what is sc.AT_END:
            return self.ends(p, self.multi)
        if what is sc.AT_END_STRING:
            return self.ends_text(p)
        if what in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            a = self.prev(p)
            a = False if a is None else self.decided(a, WORD)
            b = self.test(p, WORD)
            return (a != b) == (what is sc.AT_BOUNDARY)
        raise Unsupported("item of a pattern")

    def decided(self, c, w):
        if c.within(w):
            return True
        if c.apart(w):
            return False
        raise Unknown("the character before")

    def stops(self, p, c, lo, hi):
        """where a repeated set may stop, the shortest first: (position, only perhaps?)"""
        out, k, maybe = [(p, 0, False)], 0, False
        while hi is INF or k < hi:
            i, o = p
            if i >= self.n or isinstance(self.parts[i], str):
                if not self.test(p, c):
                    break
                p, k = self.forward(p), k + 1
                out.append((p, k, maybe))
                continue
            cls, end = self.cls(i), self.norm((i + 1, 0))
            may_be_empty = o == 0 and not self.least(i)
            if cls.apart(c):
                if not may_be_empty:
                    break
                p, maybe = end, True
                continue
            if hi is not INF or not cls.within(c):
                maybe = True
            out.append(((i, 1), k + 1, maybe))
            p, k = end, k + (not may_be_empty)
            out.append((p, k, maybe))
            if k < lo:
                # so many characters are not known to be there
                maybe, k = True, lo
        return [(q, m) for q, n, m in out if n >= lo or m]

    def rep(self, sub, lo, hi, p, g, k, greedy):
        def more():
            if hi is INF or k < hi:
                for q, h in self.seq(sub, p, g):
                    if q != p:
                        yield from self.rep(sub, lo, hi, q, h, k + 1, greedy)

        if greedy:
            yield from more()
        if k >= lo:
            yield p, g
        if not greedy:
            yield from more()

    def match_at(self, p):
        for q, g in self.seq(self.items, p, {}):
            if self.inside(p) or self.inside(q) or "?" in g:
                raise Unknown("a match inside a run")
            return Match(self, p, q, g)
        return None

    def starts(self, p):
        """the positions from p on"""
        i, o = self.norm(p)
        while i < self.n:
            if isinstance(self.parts[i], str):
                while o < len(self.parts[i]):
                    yield i, o
                    o += 1
            else:
                # a run that may be empty: at any character of it
                if o == 0 and self.least(i):
                    yield i, 0
                yield i, 1
            i, o = i + 1, 0
        yield self.n, 0

    def search(self, p=(0, 0)):
        for q in self.starts(p):
            if q[0] >= self.n and self.after is not None:
                # behind the row: what follows is looked at with it
                return None
            m = self.match_at(q)
            if m:
                return m
        return None

    def all(self, hidden=None):
        """all matches in order; hidden(i): a match may be hidden inside run i and nowhere else"""
        p, out = (0, 0), []
        while True:
            try:
                m = self.search(p)
            except Unknown:
                i = None if hidden is None else self.hideable(p)
                if i is None:
                    raise
                # what is before the run
                sub = Matcher(self.tx, None, self.parts[: i])
                for x in ("items", "names", "multi", "ngroups"):
                    setattr(sub, x, getattr(self, x))
                q = p
                while True:
                    m = self.before(q, i)
                    if m is None:
                        break
                    out.append(m)
                    q = m.end
                hidden(i)
                p = (i + 1, 0)
                continue
            if m is None:
                return out
            if m.start == m.end:
                raise Unsupported("empty matches")
            out.append(m)
            p = m.end

    def hideable(self, p):
        """the first run behind p whose characters decide; matches that start in it end in it"""
        a = alphabet(self.items)
        for i in range(p[0], self.n):
            if isinstance(self.parts[i], str) or not self.cls(i).neg:
                continue
            q = self.norm((i + 1, 0))
            if self.test(q, a):
                return None
            # no empty match, nothing that looks around
            if any(op is sc.AT for op, _ in self.items):
                return None
            return i
        return None

    def before(self, p, i):
        """the first match from p on that starts before run i; it does not reach the run"""
        for q in self.starts(p):
            if q[0] >= i:
                return None
            m = self.match_at(q)
            if m:
                if m.end[0] > i or m.start == m.end:
                    raise Unknown("a match over a run")
                return m
        return None

    def slice(self, p, q):
        """the text between two positions"""
        p, q = self.norm(p), self.norm(q)
        if self.inside(p) or self.inside(q):
            raise Unknown("a part of a run")
        out = []
        for i in range(p[0], min(q[0] + 1, self.n)):
            a = self.parts[i]
            lo = p[1] if i == p[0] else 0
            if isinstance(a, str):
                hi = q[1] if i == q[0] else len(a)
                out.append(a[lo:hi])
            elif i < q[0]:
                out.append(a)
        return self.tx.make(out)


class Texts:
    def __init__(self, lib):
        self.lib, self.it, self.eng = lib, lib.it, lib.it.eng

    def make(self, parts):
        return self.lib.text(parts)

    # ------------------------------------------------------------ parts
    def norm(self, t):
        """the parts; numbers have their sign written out"""
        t = self.it.force(t)
        if not isinstance(t, (str, StrT)):
            self.it.raise_("TypeError", "expected a text")
        out = []
        for p in self.lib.parts(t):
            if isinstance(p, str):
                out.append(p)
            elif p[0] == "str":
                v = self.it.force(p[1])
                if not isint(v):
                    raise Unsupported("text of a value that is no integer")
                v = arith(v)
                if not self.eng.branch(le(0, v)):
                    out.append("-")
                    v = neg(v)
                out.append(str(v) if isinstance(v, int) else ("str", v))
            elif p[0] == "join":
                c = p[2].concrete()
                if c is None:
                    # known texts at its ends
                    out.append(p)
                else:
                    for k, x in enumerate(c):
                        if k and p[1]:
                            out.append(p[1])
                        out.extend(self.norm(x))
            else:
                out.append(p)
        return list(StrT(out).parts)

    def units(self, j, fn):
        """[fn(parts of it)] over the cases of an arbitrary text of the joined part"""
        sep, seq = j[1], j[2]
        out = []
        for g in seq.segs:
            k = z3.Int(self.eng.name("unit"))

            def at(k, g=g):
                if g.cond is not None and not self.eng.branch(g.cond(k)):
                    return MISSING
                ps = self.norm(g.get(k))
                if any(not isinstance(p, str) and p[0] == "join" for p in ps):
                    raise Unsupported("joined texts of joined texts")
                return fn(ps)

            out += [x for _, x in self.eng.element(k, 0, g.n, at, merge=list) if x is not MISSING]
        return out

    def start(self, parts, i, sep=""):
        """(characters the text may go on with from part i on, may it end here)"""
        if i >= len(parts):
            return NONE, True
        p = parts[i]
        if isinstance(p, str):
            return CS(p[0]), False
        if p[0] == "str":
            return DIGITS, False
        if p[0] == "run":
            if p[3]:
                return p[2], False
            c, e = self.start(parts, i + 1)
            return c.union(p[2]), e
        cs = NONE
        for c, e in self.units(p, lambda ps: self.start(ps, 0)):
            cs = cs.union(c)
            if e:
                # an empty text: what follows is the separator or another one
                cs = cs.union(CS(p[1][0])) if p[1] else cs
        c, e = self.start(parts, i + 1)
        return cs.union(c), e

    def chunks(self, t):
        """[(parts without joins, first?, after) | join, after]"""
        parts = self.norm(t)
        out, cur = [], []
        for i, p in enumerate(parts):
            if not isinstance(p, str) and p[0] == "join":
                if cur:
                    out.append((cur, self.start(parts, i)))
                cur = []
                out.append((p, self.start(parts, i + 1)))
            else:
                cur.append(p)
        if cur or not out:
            out.append((cur, None))
        return out

    def unit_after(self, j, after):
        """what may follow a text of the joined part"""
        sep = j[1]
        cs, e = after
        if sep:
            return cs.union(CS(sep[0])), e
        for c, e2 in self.units(j, lambda ps: self.start(ps, 0)):
            if e2:
                raise Unsupported("empty texts joined")
            cs = cs.union(c)
        return cs, e

    def walk(self, pattern, t, chunk, unit):
        """chunk(matcher) for the parts without joins, unit(join, after, matcher maker) for the others"""
        t = self.it.force(t)
        cs = self.chunks(t)
        for k, (p, after) in enumerate(cs):
            first = k == 0
            if isinstance(p, list):
                chunk(Matcher(self, pattern, p, first, after))
            else:
                u = self.unit_after(p, after)
                # a text of the joined part is not the first one of the text, unless it is the very first
                unit(p, lambda ps: Matcher(self, pattern, ps, False, u))

    # ------------------------------------------------------------ re
    def pattern(self, p, flags=0):
        p = self.it.force(p)
        if isinstance(p, Opaque) and p.tag == "pattern":
            if flags:
                raise Unsupported("flags")
            return p.key[0]
        flags = self.it.force(flags)
        if isinstance(flags, LibV):
            flags = {"re.M": 8, "re.MULTILINE": 8}.get(flags.name, -1)
        if not isinstance(p, str) or flags not in (0, 8):
            raise Unsupported("this pattern")
        try:
            sp.parse(p)
        except Exception as e:  # noqa: BLE001
            self.it.raise_("ValueError", f"re.error {e}")
        return "(?m)" + p if flags else p

    def call(self, name, args, kw):
        f = getattr(self, "re_" + name, None)
        if f is None:
            raise Unsupported(f"call of re.{name}")
        self.eng.trusted.add("re." + name)
        try:
            return f(*args, **kw)
        except TypeError as e:
            if "re_" in str(e):
                raise Unsupported(f"arguments of re.{name}")
            raise

    def re_compile(self, pattern, flags=0):
        return Opaque("pattern", [self.pattern(pattern, flags)])

    def re_escape(self, t):
        import re

        t = self.it.force(t)
        if not isinstance(t, str):
            raise Unsupported("re.escape of this text")
        return re.escape(t)

    def whole(self, pattern, string, flags):
        """the matcher of a text, up to its first joined part"""
        cs = self.chunks(string)
        return Matcher(self, self.pattern(pattern, flags), cs[0][0] if isinstance(cs[0][0], list) else [], True, cs[0][1] if isinstance(cs[0][0], list) else self.start(self.norm(string), 0)), len(cs) == 1 and isinstance(cs[0][0], list)

    def re_match(self, pattern, string, flags=0):
        m, _ = self.whole(pattern, string, flags)
        return m.match_at(m.norm((0, 0)))

    def re_fullmatch(self, pattern, string, flags=0):
        return self.re_match("(?:" + self.pattern(pattern, flags) + r")\Z", string)

    def re_search(self, pattern, string, flags=0):
        m, all_ = self.whole(pattern, string, flags)
        r = m.search()
        if r is None and not all_:
            if any(op is sc.AT and av in (sc.AT_BEGINNING_STRING, sc.AT_BEGINNING) for op, av in m.items[:1]) and not m.multi:
                return None
            raise Unsupported("search in joined texts")
        return r

    def template(self, repl, m):
        """the text a match is replaced by"""
        repl = self.it.force(repl)
        if isinstance(repl, (FnV, BoundV)):
            r = self.it.force(self.it.call(repl, [m], {}))
            return self.lib.parts(r)
        if not isinstance(repl, str):
            raise Unsupported("replacement")
        out, i = [], 0
        while i < len(repl):
            c = repl[i]
            if c != "\\":
                out.append(c)
                i += 1
                continue
            n = repl[i + 1 : i + 2]
            if n.isdigit() and n != "0":
                j = i + 2
                if repl[j : j + 1].isdigit():
                    raise Unsupported("replacement")
                out.append(int(n))
                i = j
            elif n == "g" and repl[i + 2 : i + 3] == "<":
                j = repl.index(">", i)
                x = repl[i + 3 : j]
                out.append(int(x) if x.isdigit() else (x,))
                i = j + 1
            elif n in ("n", "t", "\\"):
                out.append({"n": "\n", "t": "\t", "\\": "\\"}[n])
                i += 2
            else:
                raise Unsupported("replacement")
        r = []
        for x in out:
            if isinstance(x, str):
                r.append(x)
            else:
                g = m.group(x if isinstance(x, int) else x[0])
                r.extend(self.lib.parts("" if g is None else g))
        return r

    def replaced(self, m, repl):
        """the row with its matches replaced"""
        spots = []
        r = self.it.force(repl)

        def hide(i):
            p = m.parts[i]
            if not isinstance(r, str) or "\\" in r.replace("\\1", "") or not all(CS(c).within(p[2]) for c in r.replace("\\1", "")):
                raise Unsupported("replacement inside a run")
            spots.append((i, ("run", Opaque("re:" + m.source, [p[1]]), p[2], 0)))

        ms = m.all(hide)
        parts, p = [], (0, 0)
        new = list(m.parts)
        for i, x in spots:
            new[i] = x
        keep = Matcher(self, None, new, m.first, m.after)
        for x in ms:
            parts += self.lib.parts(keep.slice(p, x.start))
            parts += self.template(repl, x)
            p = x.end
        parts += self.lib.parts(keep.slice(p, (m.n, 0)))
        return self.make(parts)

    def re_sub(self, pattern, repl, string, count=0, flags=0):
        if count != 0:
            raise Unsupported("re.sub with a count")
        pat = self.pattern(pattern, flags)
        out = []

        def chunk(m):
            m.source = pat
            out.extend(self.lib.parts(self.replaced(m, repl)))

        def unit(j, maker):
            def one(ps):
                m = maker(ps)
                m.source = pat
                return self.replaced(m, repl)

            self.units(j, one)
            segs = [Seg(g.n, (lambda g: lambda k: Lazy(lambda: one(self.norm(g.get(k)))))(g), False, g.cond) for g in j[2].segs]
            out.append(("join", j[1], Seq(segs)))

        self.walk(pat, string, chunk, unit)
        return self.make(out)

    def found(self, m, x):
        """what findall and split give of a match"""
        if m.ngroups == 0:
            return x.group(0)
        gs = [x.group(k + 1) for k in range(m.ngroups)]
        gs = ["" if g is None else g for g in gs]
        return gs[0] if len(gs) == 1 else TupleV(gs)

    def re_findall(self, pattern, string, flags=0, what=None):
        pat = self.pattern(pattern, flags)
        what = what or self.found
        segs = []

        def chunk(m):
            segs.extend(Seq.of([what(m, x) for x in m.all()]).segs)

        def unit(j, maker):
            def one(ps):
                m = maker(ps)
                return [what(m, x) for x in m.all()]

            ns = {len(x) for x in self.units(j, one)}
            if ns <= {0}:
                return
            if not ns <= {0, 1}:
                raise Unsupported("several matches in each of the texts")
            for g in j[2].segs:
                get = (lambda g: lambda k: Lazy(lambda: one(self.norm(g.get(k)))[0]))(g)
                if ns == {1}:
                    segs.append(Seg(g.n, get, False, g.cond))
                else:
                    has = (lambda g: lambda k: self.eng.element(k, k, add(k, 1), lambda k: len(one(self.norm(g.get(k)))) == 1))(g)
                    segs.append(Seg(g.n, get, False, (lambda g, has: lambda k: conj(True if g.cond is None else g.cond(k), has(k)))(g, has)))

        self.walk(pat, string, chunk, unit)
        return ListV(Seq(segs))

    def re_finditer(self, pattern, string, flags=0):
        return IterV(self.re_findall(pattern, string, flags, lambda m, x: x).seq)

    def re_split(self, pattern, string, maxsplit=0, flags=0):
        if maxsplit != 0:
            raise Unsupported("re.split with a count")
        pat = self.pattern(pattern, flags)
        items, cur = [], []

        def chunk(m):
            p = (0, 0)
            for x in m.all():
                cur.extend(self.lib.parts(m.slice(p, x.start)))
                items.append(self.make(list(cur)))
                cur.clear()
                for k in range(m.ngroups):
                    items.append(x.group(k + 1))
                p = x.end
            cur.extend(self.lib.parts(m.slice(p, (m.n, 0))))

        def unit(j, maker):
            if any(self.units(j, lambda ps: len(maker(ps).all()))):
                raise Unsupported("split inside joined texts")
            cur.append(j)

        self.walk(pat, string, chunk, unit)
        items.append(self.make(cur))
        return ListV(Seq.of(items))

    # ------------------------------------------------------------ methods
    def length(self, t):
        n = 0
        for p in self.norm(t):
            if isinstance(p, str):
                n += len(p)
            elif p[0] == "str" and is_num(p[1]) and self.eng.branch(conj(le(0, p[1]), le(p[1], 9))):
                n += 1
            else:
                raise Unsupported("length of this text")
        return n

    def words(self, t):
        """t.split()"""
        parts = self.norm(t)
        out, cur = [], []

        def end():
            if cur:
                out.append(self.make(list(cur)))
                cur.clear()

        for p in parts:
            if isinstance(p, str):
                for c in p:
                    if c.isspace():
                        end()
                    else:
                        cur.append(c)
            elif p[0] == "join":
                raise Unsupported("split of joined texts")
            else:
                c = DIGITS if p[0] == "str" else p[2]
                if c.within(SPACE):
                    end()
                elif c.apart(SPACE) and (p[0] == "str" or p[3]):
                    cur.append(p)
                else:
                    return self.some_words(parts, parts.index(p), out, cur)
        end()
        return ListV(Seq.of(out))

    def some_words(self, parts, i, out, cur):
        """the words `out`, then a number of words of which nothing is known: part i may hold blanks"""
        args, shape, head = [], [], list(cur)

        def name(x):
            x = self.it.force(x)
            if isinstance(x, str):
                shape.append(x)
            elif isinstance(x, Opaque):
                shape.append(f"<{x.tag}>")
                for y in x.key:
                    name(y)
            elif is_num(x):
                shape.append("#")
                args.append(lift(x))
            else:
                raise Unsupported("split of this text")

        for p in parts:
            if isinstance(p, str):
                name(p)
            elif p[0] == "str":
                name(p[1])
            else:
                name(p[1])
                shape.append(f"{p[2].neg}{sorted(p[2].s)}{p[3]}")
        n = z3.Function("words of " + "".join(shape), *[z3.IntSort()] * (len(args) + 1))(*args)
        rest = 1 if cur or any(isinstance(p, str) and p.strip() or not isinstance(p, str) and p[0] == "str" for p in parts[i:]) else 0
        self.eng.fact(le(rest, n))

        p = parts[i]

        def word(k):
            if rest and i == len(parts) - 1 and p[0] == "run" and self.it.lib.eng.valid(eq(k, 0)):
                # the first one ends in the run, or with it
                return self.make([*head, ("run", Opaque("word", (p[1],)), p[2].inverse().union(SPACE).inverse(), 0)])
            raise Unsupported("word of this text")

        return ListV(Seq([*Seq.of(out).segs, Seg(n, lambda k: Lazy(lambda: word(k)))]))

    def split(self, t, sep):
        """t.split(sep)"""
        import re

        if not isinstance(sep, str) or not sep:
            raise Unsupported("separator")
        parts = self.norm(t)
        pat = re.escape(sep)
        if len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == "join" and parts[0][1] == sep:
            j = parts[0]
            if not any(self.units(j, lambda ps: len(Matcher(self, pat, ps, False, (CS(sep[0]), True)).all()))):
                if not self.eng.branch(self.it.nonempty(j[2])):
                    return ListV(Seq.of([""]))
                return ListV(j[2])
        segs, cur = [], []
        open_ = [None]

        def close():
            segs.extend(Seq.of([self.make(list(cur))]).segs)
            cur.clear()

        def chunk(m):
            p = (0, 0)
            for x in m.all():
                if open_[0] is not None and m.norm(p) != m.norm(x.start):
                    raise Unsupported("text behind joined texts")
                if open_[0] is None:
                    cur.extend(self.lib.parts(m.slice(p, x.start)))
                    close()
                open_[0] = None
                p = x.end
            rest = self.lib.parts(m.slice(p, (m.n, 0)))
            if open_[0] is not None and any(rest):
                raise Unsupported("text behind joined texts")
            cur.extend(rest)

        def unit(j, maker):
            # every text: the separator, and no other one behind it
            def one(ps):
                m = maker(ps)
                ms = m.all()
                if len(ms) != 1 or m.norm(ms[0].start) != m.norm((0, 0)):
                    raise Unsupported("split inside joined texts")
                return m.slice(ms[0].end, (m.n, 0))

            if j[1]:
                raise Unsupported("split of texts joined otherwise")
            self.units(j, one)
            if open_[0] is None:
                close()
            for g in j[2].segs:
                segs.append(Seg(g.n, (lambda g: lambda k: Lazy(lambda: one(self.norm(g.get(k)))))(g), False, g.cond))
            # the last of them is open, or (none) the one before
            open_[0] = True

        self.walk(pat, t, chunk, unit)
        if open_[0] is None:
            close()
        return ListV(Seq(segs))

    def strip(self, t, left=True, right=True, chars=None):
        if chars is None:
            ws = SPACE
        elif isinstance(chars, str):
            ws = CS(chars)
        else:
            raise Unsupported("strip")
        parts = self.norm(t)
        for side, k in ((left, 0), (right, -1)):
            while side and parts:
                p = parts[k]
                if isinstance(p, str):
                    cs = "".join(ws.s)
                    q = p.lstrip(cs) if k == 0 else p.rstrip(cs)
                    parts[k] = q
                    if q:
                        break
                    parts.pop(k)
                elif p[0] == "join":
                    raise Unsupported("strip of joined texts")
                else:
                    c = DIGITS if p[0] == "str" else p[2]
                    if c.within(ws):
                        parts.pop(k)
                    elif c.apart(ws) and (p[0] == "str" or p[3]):
                        break
                    elif p[0] == "run" and len(parts) > 1 and self.fixed(parts[1 if k == 0 else -2], 0 if k == 0 else -1, ws):
                        # some of it goes, nothing behind it
                        parts[k] = ("run", Opaque(f"stripped {k} {sorted(ws.s)}", (p[1],)), c, 0)
                        break
                    else:
                        raise Unsupported("strip of this text")
        return self.make(parts)

    def fixed(self, p, k, ws):
        """no character of ws at this end of the part"""
        if isinstance(p, str):
            return p[k] not in ws.s
        if p[0] == "join":
            return False
        c = DIGITS if p[0] == "str" else p[2]
        return c.apart(ws) and (p[0] == "str" or bool(p[3]))

    def method(self, o, name, args, kw):
        import re

        args = [self.it.force(a) for a in args]
        if kw:
            raise Unsupported(f"text method {name}")
        if name == "split":
            if not args or args[0] is None:
                return self.words(o)
            if len(args) == 1:
                return self.split(o, args[0])
        if name == "splitlines" and not args:
            # the texts here have no other line ends
            ends = CS("\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029")
            ps = self.norm(o)
            if any(not isinstance(p, str) and p[0] == "run" and not p[2].apart(ends) or isinstance(p, str) and any(c in ends.s and c != "\n" for c in p) for p in ps):
                raise Unsupported("line ends")
            # families of texts: their line ends are found by split, which accepts the newline only
            r = self.split(o, "\n")
            last = r.seq.segs[-1]
            if not isinstance(last.n, int) or last.n != 1 or last.cond is not None:
                raise Unsupported("the last line")
            x = self.it.force(last.get(0))
            if x == "":
                r = ListV(Seq(r.seq.segs[:-1]))
            elif not isinstance(x, str) and not any(p if isinstance(p, str) else p[0] == "str" or p[0] == "run" and p[3] for p in self.norm(x)):
                raise Unsupported("the last line")
            return r
        if name in ("strip", "lstrip", "rstrip"):
            return self.strip(o, name != "rstrip", name != "lstrip", *args)
        if name == "replace" and len(args) == 2 and isinstance(args[0], str) and args[0]:
            lit = args[1]
            if isinstance(lit, str):
                return self.re_sub(re.escape(args[0]), lit.replace("\\", "\\\\"), o)
        if name in ("startswith", "endswith") and len(args) == 1:
            xs = args[0].seq.concrete() if isinstance(args[0], TupleV) else [args[0]]
            if xs is not None and all(isinstance(x, str) for x in xs):
                for x in xs:
                    m, _ = self.whole((r"\A" if name == "startswith" else "") + re.escape(x) + ("" if name == "startswith" else r"\Z"), o, 0)
                    if not x or (m.match_at(m.norm((0, 0))) if name == "startswith" else m.search()):
                        return True
                return False
        if name in ("lower", "upper", "swapcase", "casefold"):
            parts = self.norm(o)
            if all(isinstance(p, str) or p[0] == "str" or p[0] == "run" and not p[2].neg and all(getattr(c, name)() == c for c in p[2].s) for p in parts):
                return self.make([getattr(p, name)() if isinstance(p, str) else p for p in parts])
        if name in ("isdigit", "isdecimal", "isnumeric"):
            return self.re_fullmatch(r"\d+", o) is not None
        if name == "isspace":
            return self.re_fullmatch(r"\s+", o) is not None
        if name == "partition" and len(args) == 1 and isinstance(args[0], str):
            m = self.re_search(re.escape(args[0]), o)
            if m is None:
                return TupleV([o, "", ""])
            return TupleV([m.m.slice((0, 0), m.start), args[0], m.m.slice(m.end, (m.m.n, 0))])
        if name in ("removeprefix", "removesuffix") and len(args) == 1 and isinstance(args[0], str):
            if not self.method(o, "startswith" if name == "removeprefix" else "endswith", args, {}):
                return o
            n = len(args[0])
            return self.part(o, n, None) if name == "removeprefix" else self.part(o, None, -n)
        if name == "count" and len(args) == 1 and isinstance(args[0], str) and args[0]:
            m, ok = self.whole(re.escape(args[0]), o, 0)
            if ok:
                return len(m.all())
        raise Unsupported(f"text method {name}")

    def contains(self, t, x):
        import re

        x = self.it.force(x)
        if not isinstance(x, str):
            raise Unsupported("search for this text")
        return self.re_search(re.escape(x), t) is not None

    def part(self, t, lo, hi):
        """t[lo:hi] where both fall into literals at the ends"""
        parts = self.norm(t)
        for k, v, left in ((0, lo, True), (-1, hi, False)):
            if v is None or v == 0 and left:
                continue
            if not parts or not isinstance(parts[k], str) or (v < 0) == left or len(parts[k]) < abs(v):
                raise Unsupported("part of a text")
            parts[k] = parts[k][v:] if left else parts[k][:v]
        return self.make(parts)

    def char(self, t, i):
        parts = self.norm(t)
        if isinstance(i, int) and parts:
            p = parts[0 if i >= 0 else -1]
            if isinstance(p, str) and (i < len(p) if i >= 0 else -i <= len(p)):
                return p[i]
        raise Unsupported("character of a text")

    def number(self, t):
        """int(t)"""
        parts = self.lib.parts(self.strip(t))
        if len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == "str":
            return parts[0][1]
        if len(parts) == 2 and parts[0] in ("-", "+") and not isinstance(parts[1], str) and parts[1][0] == "str":
            return neg(parts[1][1]) if parts[0] == "-" else parts[1][1]
        if len(parts) == 1 and isinstance(parts[0], str):
            try:
                return int(parts[0])
            except ValueError:
                self.it.raise_("ValueError", "int()")
        bad = CS("0123456789+-_ \t\n\r\f\v", True)
        for p in parts:
            if isinstance(p, str):
                if any(CS(c).within(bad) for c in p):
                    self.it.raise_("ValueError", "int()")
        raise Unsupported("int() of this text")

    def true(self, t):
        """is it not empty?"""
        r = False
        for p in self.lib.parts(t):
            if isinstance(p, str):
                if p:
                    return True
            elif p[0] == "str":
                return True
            elif p[0] == "run":
                if p[3]:
                    return True
                raise Unsupported("truth of a run")
            else:
                if p[1] or any(e for _, e in self.units(p, lambda ps: self.start(ps, 0))):
                    raise Unsupported("truth of joined texts")
                r = disj(r, self.it.nonempty(p[2]))
        return r

    # ------------------------------------------------------------ match objects
    def match_attr(self, m, name):
        def group(it, args, kw):
            gs = [m.group(it.force(a)) for a in (args or [0])]
            return gs[0] if len(gs) == 1 else TupleV(gs)

        def groups(it, args, kw):
            return TupleV([m.group(k + 1) for k in range(m.m.ngroups)])

        if name in ("group", "groups", "__getitem__"):
            return PyCall(groups if name == "groups" else group)
        raise Unsupported(f"{name} of a match")

    def pattern_attr(self, p, name):
        if name == "pattern":
            return p.key[0]
        return PyCall(lambda it, args, kw: self.call(name, [p, *args], kw))


class PyCall:
    def __init__(self, f):
        self.f = f

    def pycall(self, it, args, kw):
        return self.f(it, args, kw)

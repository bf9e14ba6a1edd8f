"""C15: every operation of a backend is the mathematical operation of its name, entry by entry."""
from .common import *

FNS = lambda be, *ms: [f"{be}.{m}" for m in ms]


def mat(v, name, kind="c", sparse=False):
    """matrix of unknown shape and unknown complex entries"""
    p, q = z3.Ints(f"rows_{name} cols_{name}")
    v.assume(conj(le(1, p), le(1, q)))
    re, im = (z3.Function(f"{part}_{name}", z3.IntSort(), z3.IntSort(), z3.RealSort()) for part in ("re", "im"))
    e = lambda i, j: CNum(re(lift(i), lift(j)), im(lift(i), lift(j)))
    return ArrV((p, q), e, "c", sparse), e, p, q


def same(v, what, a, b):
    a, b = cplx(a), cplx(b)
    v.ob(what, conj(eq(a.re, b.re), eq(a.im, b.im)))


def at(v, p, q):
    i, j = z3.Ints("i j")
    v.assume(conj(le(0, i), lt(i, p), le(0, j), lt(j, q)))
    return i, j


def kron(be, sp):
    def run(v):
        a, ea, p, q = mat(v, "a", sparse=sp)
        b, eb, r, s = mat(v, "b", sparse=sp)
        e = matrix_view(v, v.call(v.fn(be + ".kron"), a, b), mul(p, r), mul(q, s))
        i, j = at(v, mul(p, r), mul(q, s))
        (i1, i2), (j1, j2) = v.eng.posdiv(i, r), v.eng.posdiv(j, s)
        same(v, "entry (i, j) is a[i // rows, j // columns] * b[i mod rows, j mod columns]", e(i, j), mul(ea(i1, j1), eb(i2, j2)))

    return run


def dot(be, sp):
    def run(v):
        a, ea, p, q = mat(v, "a", sparse=sp)
        b, eb, r, s = mat(v, "b", sparse=sp)
        v.assume(q == r)
        e = matrix_view(v, v.call(v.fn(be + ".dot"), a, b), p, s)
        i, j = at(v, p, s)
        t = lambda k: cplx(mul(ea(i, k), eb(k, j)))
        same(v, "entry (i, j) is the sum of a[i, k] * b[k, j]", e(i, j), CNum(v.eng.sum(q, lambda k: t(k).re), v.eng.sum(q, lambda k: t(k).im)))

    return run


def eye(be, sp):
    def run(v):
        n = z3.Int("n")
        v.assume(le(1, n))
        r = v.call(v.fn(be + ".eye"), n=n, m=n)
        e = matrix_view(v, r, n)
        v.ob("of the backend's kind", r.sparse == sp)
        i, j = at(v, n, n)
        same(v, "1 on the diagonal, 0 elsewhere", e(i, j), ite(eq(i, j), 1, 0))

    return run


def matrix(be, sp, given):
    def run(v):
        a, ea, p, q = mat(v, "a", sparse=given)
        r = v.call(v.fn(be + ".matrix"), a)
        e = matrix_view(v, r, p, q)
        v.ob("of the backend's kind", r.sparse == sp)
        i, j = at(v, p, q)
        same(v, "the same entries", e(i, j), ea(i, j))

    return run


def nonzero(be, sp):
    def run(v):
        n = z3.Int("n")
        v.assume(le(1, n))
        re, im = (z3.Function(x, z3.IntSort(), z3.RealSort()) for x in ("re_a", "im_a"))
        a = ArrV((n, 1), lambda i, j: CNum(re(lift(i)), im(lift(i))), "c", sp)
        rows = v.it.at(v.it.force(v.call(v.fn(be + ".nonzero"), a)).seq, 0)
        v.ob("positions of some entries", isinstance(rows, FArr))
        v.ob("out of all of them", eq(rows.n, n))
        i, j = at(v, n, 1)
        v.ob("entry i is listed exactly if it is not 0", eq(rows.cond(i), nott(conj(eq(re(i), 0), eq(im(i), 0)))))
        v.ob("by its row", eq(rows.get(i), i))

    return run


def is_unitary(be):
    def run(v):
        eng = v.eng
        a, ea, p, q = mat(v, "a")
        v.assume(p == q)
        seen = []

        def allclose(lib, x, y):
            seen.append((lib.to_array(x), lib.to_array(y)))
            return z3.Bool(f"close{len(seen)}")

        eng.on_allclose = allclose
        r = v.call(v.fn(be + ".is_unitary"), a)
        v.ob("one comparison", len(seen) == 1)
        v.ob("decides", v.same(r, z3.Bool("close1")))
        x, y = seen[0]
        i, j = at(v, p, p)
        g = lambda f: CNum(eng.sum(p, lambda k: cplx(f(k)).re), eng.sum(p, lambda k: cplx(f(k)).im))
        cj = lambda z: CNum(z.re, neg(z.im))
        rows = g(lambda k: mul(ea(i, k), cj(ea(j, k))))
        cols = g(lambda k: mul(cj(ea(k, i)), ea(k, j)))
        one = ite(eq(i, j), 1, 0)
        eqc = lambda s, t: conj(eq(cplx(s).re, cplx(t).re), eq(cplx(s).im, cplx(t).im))
        ok = []
        for s, t in ((x, y), (y, x)):
            f, h = matrix_view(v, s, p), matrix_view(v, t, p)
            ok += [conj(eqc(f(i, j), one), eqc(h(i, j), w)) for w in (rows, cols)]
        good = next((o for o in ok if eng.valid(o) is True), ok[0])
        v.ob("the identity is compared with a a* or with a* a", good)

    return run


def tasks():
    out = []
    for name, be in BACKENDS.items():
        sp = name == "sparse"
        for what, body in (("kron", kron(be, sp)), ("dot", dot(be, sp)), ("eye", eye(be, sp)), ("nonzero", nonzero(be, sp)), ("is_unitary", is_unitary(be))):
            out.append(Task(f"{what}[{name}]", body, [f"{be}.{what}"], assume=[EXACT]))
        for given in (False, True):
            if given and not sp:
                continue
            out.append(Task(f"matrix[{name}, of a {'sparse' if given else 'dense'} one]", matrix(be, sp, given), [be + ".matrix"], assume=[EXACT]))
    return out

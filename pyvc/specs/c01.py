"""C01: contracts of Nbase_to_bin and bin_to_Nbase.  That they are inverse to each other is the theorem
digits_number / number_digits of lemmas/MixedRadix.lean about exactly these two closed forms."""
from .common import *

TO = "qudiet.utils.numpy.Nbase_to_bin"
FROM = "qudiet.utils.numpy.bin_to_Nbase"


def to_digits(v):
    eng = v.eng
    n, r = z3.Ints("n r")
    v.assume(n >= 1)
    D = Dims(v, n)
    v.assume(conj(le(0, r), lt(r, D.total())))
    eng.bounds = [n]
    i = z3.Int("i")
    v.assume(conj(le(0, i), lt(i, n)))
    out = seq_of(v, v.call(v.fn(TO), r, D.list()))
    v.ob("one digit per register", eq(out.length(), n))
    v.ob("digit i is (r // weight of register i) mod d(i)", eq(v.it.at(out, i), D.digit(i, r)))


def from_digits(v):
    eng = v.eng
    n = z3.Int("n")
    v.assume(n >= 1)
    D = Dims(v, n)
    t = uf("t", z3.IntSort(), z3.IntSort())
    r = v.call(v.fn(FROM), ListV(Seq([Seg(n, lambda j: t(lift(j)), True)])), D.list())
    if not isint(r):
        v.ob("the result is a number", False)
        return
    v.ob("the number is the sum of digit times weight", eq(r, eng.sum(n, lambda i: mul(t(lift(i)), D.W(i)))))


def tasks():
    return [
        Task("Nbase_to_bin", to_digits, [TO], assume=[EXACT]),
        Task("bin_to_Nbase", from_digits, [FROM], assume=[EXACT]),
    ]

"""One run-time oracle per property: gen(rng, deep) yields JSON-able cases, check(case) raises Fail."""
import io
import itertools
import json
import os
import tempfile

from common import *

BES = ("sparse", "numpy")
PROPS = {}


def prop(pid):
    def d(cls):
        PROPS[pid] = cls
        return cls

    return d


def expect(v, w, what):
    v, w = np.asarray(v), np.asarray(w)
    if v.shape != w.shape or not np.allclose(v, w, atol=TOL, rtol=1e-6):
        raise Fail(f"{what}: got {short(v)}, expected {short(w)}")


def short(v):
    s = repr(v.tolist() if hasattr(v, "tolist") else v)
    return s if len(s) < 400 else s[:400] + "..."


# ------------------------------------------------------------------ C01
@prop("C01")
class C01:
    rule = "a dimension list with a number below its product (systematic for products <= 48, then random up to 61 registers and 2**62 states, dimensions near the literals of the sources included); non-trivial: at least two registers and a number above 0"

    @staticmethod
    def gen(rng, deep):
        for n in range(1, 5):
            for ds in itertools.product(range(2, 6), repeat=n):
                if prod(ds) <= (48 if not deep else 130):
                    for v in range(prod(ds)):
                        yield ["v", list(ds), v, v % 3 == 0]
        while True:
            n = rng.choice([rng.randint(1, 16), rng.randint(1, 61)])
            pool = [2, 3, 4, 5, 7, 10, 11, 16] + near(2, 10**4)
            ds = [rng.choice(pool) if rng.random() < 0.5 else rng.randint(2, 6) for _ in range(n)]
            while prod(ds) >= 2**62:
                ds.pop()
            p = prod(ds)
            if rng.random() < 0.5:
                v = number([rng.choice([0, 0, d - 1, rng.randrange(d)]) for d in ds], ds)
            else:
                v = rng.choice([rng.randrange(p), p - 1, 0, min(p - 1, 2 ** rng.randint(1, 61) + rng.randint(-2, 2)), min(p - 1, rng.choice(near(0, 10**7)))])
            yield ["v", ds, v, rng.random() < 0.3]
            if rng.random() < 0.2:
                b = rng.choice([2, 3, 5, 10])
                t = [rng.randrange(b) for _ in range(rng.randint(1, 12))]
                yield ["int", b, t]

    @staticmethod
    def trivial(c):
        return c[0] == "v" and (len(c[1]) < 2 or c[2] == 0)

    @staticmethod
    def check(c):
        from qudiet.utils.numpy import Nbase_to_bin, bin_to_Nbase

        if c[0] == "int":
            got = bin_to_Nbase(list(c[2]), c[1])
            need(int(got) == number(c[2], [c[1]] * len(c[2])), f"bin_to_Nbase({c[2]}, {c[1]}) = {got}")
            return
        _, ds, v, npint = c
        base = list(ds)
        got = Nbase_to_bin(np.int64(v) if npint else v, base)
        need(base == ds, f"Nbase_to_bin changed the dimension list {ds} to {base}")
        want = digits(v, ds)
        need([int(x) for x in got] == want and len(got) == len(ds), f"Nbase_to_bin({v}, {ds}) = {got}, expected {want}")
        back = bin_to_Nbase(want, base)
        need(base == ds, f"bin_to_Nbase changed the dimension list {ds} to {base}")
        need(int(back) == v, f"bin_to_Nbase({want}, {ds}) = {back}, expected {v}")


# ------------------------------------------------------------------ one-register gates
def gate_dims(rng, deep, top):
    for d in range(2, 12):
        yield d
    for d in near(2, top):
        yield d
    while True:
        yield rng.randint(2, top)


class Single:
    name = None
    top = 40

    @classmethod
    def gen(cls, rng, deep):
        for d in gate_dims(rng, deep, cls.top if not deep else cls.top * 3):
            for ks in cls.args(rng, d):
                for be in BES:
                    yield [be, d, ks, rng.randrange(d), rng.choice([[], [2], [3]]), rng.choice([[], [2]])]

    @classmethod
    def args(cls, rng, d):
        yield None

    @staticmethod
    def trivial(c):
        return c[1] == 2

    @classmethod
    def check(cls, c):
        be, d, k, lvl, pre, post = c
        op = [cls.name, len(pre)] + ([k] if cls.name == "x" else [])
        dims = pre + [d] + post
        want = op_matrix(op, dims)
        qc = build(dims, [0] * len(dims), [op], be, measure=False)
        gates = [g for l in layers(qc) for g in l if kind(g) == OPKIND[cls.name]]
        need(len(gates) == 1, f"{len(gates)} gates of kind {OPKIND[cls.name]} in the circuit after one call")
        need(close(gates[0].unitary, want), f"{OPKIND[cls.name]} of dimension {d}, increment {k}: matrix {short(dense(gates[0].unitary))}")
        init = [0] * len(pre) + [lvl] + [0] * len(post)
        qc = build(dims, init, [op], be)
        expect(vector(qc.run(), dims), ideal(dims, init, [op]), f"{op} on {init} of {dims}")


@prop("C02")
class C02(Single):
    name = "x"
    rule = "dimension x increment x initial level x backend x position in the circuit; non-trivial: dimension above 2"

    @classmethod
    def args(cls, rng, d):
        yield None
        for k in {0, 1, d - 1, d, d + 1, -1, -d, -d - 1, 2 * d, rng.randint(-3 * d, 3 * d), 180}:
            yield k
        if d < 4:
            for k in near(-500, 500):
                yield k


@prop("C03")
class C03(Single):
    name = "z"
    rule = "dimension x initial level x backend x position in the circuit; non-trivial: dimension above 2"

    @classmethod
    def args(cls, rng, d):
        for _ in range(min(d, 6)):
            yield None


@prop("C04")
class C04(Single):
    name = "h"
    rule = C03.rule

    @classmethod
    def args(cls, rng, d):
        for _ in range(min(d, 6)):
            yield None


# ------------------------------------------------------------------ controlled gates
def check_controlled(be, dims, init, op):
    sp = span(op)
    qc = build(dims, init, [op], be, measure=False)
    gates = [g for l in layers(qc) for g in l if kind(g) == OPKIND[op[0]]]
    need(len(gates) == 1, f"{len(gates)} gates of kind {OPKIND[op[0]]} in the circuit after one call")
    want = op_matrix(op, dims)
    got = dense(gates[0].unitary)
    if not close(got, want):
        if got.shape == want.shape:
            col = int(np.argmax(np.abs(got - want).sum(axis=0)))
            sd = [dims[i] for i in sp]
            ex = f"basis state {digits(col, sd)} goes to {[(digits(int(r), sd), complex(got[r, col])) for r in np.nonzero(got[:, col])[0]]}"
        else:
            ex = f"shape {got.shape}"
        raise Fail(f"{op} on registers of dimensions {dims}: {ex}")
    qc = build(dims, init, [op], be)
    expect(vector(qc.run(), dims), ideal(dims, init, [op]), f"{op} on {init} of {dims}")


@prop("C05")
class C05:
    rule = "dimension list, ordered pair of registers, increment, initial levels, backend (every pair for up to 4 registers, then random); non-trivial: registers between the two or control above target"

    @staticmethod
    def gen(rng, deep):
        for n, c, t in two_regs(4):
            for _ in range(2):
                dims = rdims(rng, n, 72, 6)
                for k in {1, rplus(rng, dims[t]), -1}:
                    init = rlevels(rng, dims)
                    if rng.random() < 0.8:
                        init[c] = dims[c] - 1
                    yield [rng.choice(BES), dims, init, ["cx", c, t, k]]
        sp = near(2, 64)
        while True:
            n = rng.randint(2, 6)
            if rng.random() < 0.3:
                dims = [rng.choice(sp), rng.randint(2, 3)]
                rng.shuffle(dims)
            else:
                dims = rdims(rng, n, 128 if not deep else 400, 9)
            if len(dims) < 2:
                continue
            c, t = rng.sample(range(len(dims)), 2)
            init = rlevels(rng, dims)
            if rng.random() < 0.7:
                init[c] = dims[c] - 1
            yield [rng.choice(BES), dims, init, ["cx", c, t, rplus(rng, dims[t])]]

    @staticmethod
    def trivial(c):
        return c[3][2] - c[3][1] == 1

    @staticmethod
    def check(c):
        check_controlled(*c)


@prop("C06")
class C06:
    rule = "dimension list, controls in any order, target, increment, initial levels, backend; non-trivial: at least two controls"

    @staticmethod
    def gen(rng, deep):
        for n in (2, 3, 4):
            for t in range(n):
                others = [x for x in range(n) if x != t]
                for m in range(0, n):
                    for cs in itertools.permutations(others, m):
                        if m == 3 and rng.random() < 0.5:
                            continue
                        dims = rdims(rng, n, 72, 5)
                        init = rlevels(rng, dims)
                        if rng.random() < 0.8:
                            for x in cs:
                                init[x] = dims[x] - 1
                        yield [rng.choice(BES), dims, init, ["tof", list(cs), t, rng.choice([None, rplus(rng, dims[t])])]]
        while True:
            n = rng.randint(2, 7)
            dims = rdims(rng, n, 160 if not deep else 500, 8)
            n = len(dims)
            if n < 2:
                continue
            m = rng.randint(rng.choice([0, 1, 1, 1]), n - 1)
            rs = rng.sample(range(n), m + 1)
            if m and rng.random() < 0.1:
                rs.insert(0, rs[0])
            init = rlevels(rng, dims)
            if rng.random() < 0.7:
                for x in rs[:-1]:
                    init[x] = dims[x] - 1
            yield [rng.choice(BES), dims, init, ["tof", rs[:-1], rs[-1], rng.choice([None, rplus(rng, dims[rs[-1]])])]]

    @staticmethod
    def trivial(c):
        return len(c[3][1]) < 2

    @staticmethod
    def check(c):
        check_controlled(*c)


# ------------------------------------------------------------------ C07
@prop("C07")
class C07:
    rule = "a matrix (random unitary, permutation, diagonal; or spoiled: scaled, one entry changed, complex orthogonal, wrong size, isometry) on one or two registers, backend; non-trivial: not the identity"

    @staticmethod
    def gen(rng, deep):
        while True:
            dims = rdims(rng, rng.randint(1, 4), 48, 5)
            n = len(dims)
            two = n > 1 and rng.random() < 0.45
            q = rng.randrange(n - 1) if two else rng.randrange(n)
            rs = [q, q + 1] if two else [q]
            d = prod(dims[x] for x in rs)
            if d > 20:
                continue
            kind_ = rng.choice(["u", "u", "u", "perm", "diag", "id", "spoiled", "spoiled", "spoiled", "size", "iso"])
            u = runitary(rng, d)
            ok = True
            if kind_ == "perm":
                p = list(range(d))
                rng.shuffle(p)
                u = m_perm(np.array(p))
            elif kind_ == "diag":
                u = np.diag(np.exp(2j * np.pi * np.random.RandomState(rng.randrange(2**31)).rand(d)))
            elif kind_ == "id":
                u = np.eye(d)
            elif kind_ == "spoiled":
                u, kind_ = rspoiled(rng, d)
                ok = False
            elif kind_ == "size":
                e = rng.choice([x for x in (d - 1, d + 1, d * 2, dims[q]) if x > 0 and x != d])
                u, ok = runitary(rng, e), False
            elif kind_ == "iso":
                u, ok = np.eye(d, d + 1), False
            yield [rng.choice(BES), dims, rlevels(rng, dims), rs, jmat(u), ok, kind_]

    @staticmethod
    def trivial(c):
        return c[6] == "id"

    @staticmethod
    def check(c):
        be, dims, init, rs, mat, ok, _ = c
        op = ["g", rs, mat]
        if ok:
            qc = build(dims, init, [op], be)
            got = [g for l in layers(qc) for g in l if kind(g) == "ArbitaryGate"]
            need(len(got) == 1, f"{len(got)} custom gates in the circuit after one call")
            need(close(got[0].unitary, cmat(mat)), f"custom gate on {rs} of {dims} has the matrix {short(dense(got[0].unitary))} instead of {short(cmat(mat))}")
            expect(vector(qc.run(), dims), ideal(dims, init, [op]), f"custom gate on {rs} of {dims}, initial {init}")
        else:
            try:
                r = build(dims, init, [op], be).run()
            except Exception:  # noqa: BLE001
                return
            raise Fail(f"a custom gate that is not unitary or does not fit ({c[6]}, {len(mat)}x{len(mat[0])} on {rs} of {dims}) ran and returned {short(r)}")


# ------------------------------------------------------------------ C08
class Plain:
    pass


@prop("C08")
class C08:
    rule = "a layer of 1 to 6 gates (random complex matrices of several sizes, identities, standard gates), backend; non-trivial: at least two gates that are not all identities"

    @staticmethod
    def gen(rng, deep):
        while True:
            n = rng.randint(1, 6)
            items, p = [], 1
            for i in range(n):
                d = rng.choice([2, 2, 3, 4])
                if p * d > 96:
                    break
                p *= d
                items.append(rng.choice([["i", d], ["x", d, rplus(rng, d)], ["z", d], ["h", d], ["u", d, rng.randrange(10**6)], ["u", d, rng.randrange(10**6)]]))
            yield [rng.choice(BES), items]

    @staticmethod
    def trivial(c):
        return len(c[1]) < 2 or all(x[0] == "i" for x in c[1])

    @staticmethod
    def check(c):
        from qudiet.circuit_library.standard_gates.i import IGate
        from qudiet.core.moment import Moment

        be, items = c
        B = backend(be)
        gates, want = [], np.eye(1)
        dims = [x[1] for x in items]
        qc = Q().QuantumCircuit(qregs=list(dims), backend=B)
        for q, it in enumerate(items):
            if it[0] == "i":
                g, m = IGate(qreg=q, dims=it[1], backend=B), np.eye(it[1])
                need(close(g.unitary, m), f"identity gate of dimension {it[1]}: {short(dense(g.unitary))}")
            elif it[0] == "u":
                m = runitary(random.Random(it[2]), it[1])
                g = custom(jmat(m))(qreg=q, dims=it[1], backend=B)
            else:
                op = [it[0], 0] + it[2:]
                tmp = Q().QuantumCircuit(qregs=[it[1]], backend=B)
                call(tmp, op)
                g, m = layers(tmp)[0][0], op_matrix(op, [it[1]])
            gates.append(g)
            want = np.kron(want, m)
        got = Moment("layer", *gates).exec(B)
        expect(dense(got), want, f"operator of the layer {items}")
        # idle registers
        busy = [q for q, it in enumerate(items) if it[0] in "xzh"]
        if busy and prod(dims) <= 64:
            q = busy[0]
            op = [items[q][0], q] + items[q][2:]
            call(qc, op)
            expect(dense(qc.op_flow.peek()[1].exec(B)), op_full(op, dims), f"layer of the single gate {op} on {dims}")


# ------------------------------------------------------------------ C09
def match_layers(qc, ops, what):
    """every op in exactly one layer; per-register order kept. Returns layer index of every op."""
    ls = layers(qc)
    per = {}
    for i, op in enumerate(ops):
        key = (OPKIND[op[0]], op_target(op))
        per.setdefault(key, []).append(i)
    where = {}
    for li, l in enumerate(ls):
        used = set()
        for g in l:
            if kind(g) == "IGate":
                continue
            need(kind(g) in OPKIND.values(), f"{what}: layer {li} holds a {kind(g)}")
            key = (kind(g), target_regs(g))
            need(per.get(key), f"{what}: layer {li} holds a {key[0]} on {key[1]} that was not added (or once too often)")
            cand = per[key]
            i = cand[0]
            if kind(g) == "XGate":
                p = getattr(g, "plus", None)
                want = 1 if ops[i][2] is None else ops[i][2]
                if p is not None:
                    need((p - want) % g.dims == 0, f"{what}: layer {li} holds X with increment {p} on {key[1]} where {want} comes next")
            cand.pop(0)
            where[i] = li
            need(not used & set(regs(g)), f"{what}: layer {li} uses a register twice")
            used |= set(regs(g))
    missing = [ops[i] for i in range(len(ops)) if i not in where]
    need(not missing, f"{what}: lost the gates {missing[:3]}")
    last = {}
    for i, op in enumerate(ops):
        for r in span(op):
            need(r not in last or last[r][0] < where[i], f"{what}: {op} is in layer {where[i]}, not after {last.get(r, (0, 0))[1]} in layer {last.get(r, (0, 0))[0]} with which it shares register {r}")
            last[r] = (where[i], op)
    return where


@prop("C09")
class C09:
    rule = "a sequence of 1 to 40 gate calls on 1 to 7 registers (dimension 97 to tag the X gates by their increment, or small dimensions with the layer operators multiplied out), or a list of layers handed over at once; non-trivial: at least three gates"

    @staticmethod
    def gen(rng, deep):
        for n in (1, 2, 3):
            kinds = [["h", q] for q in range(n)] + [["cx", a, b, 1] for a in range(n) for b in range(n) if a != b]
            for ln in (1, 2, 3):
                for seq in itertools.product(kinds, repeat=ln):
                    if ln < 3 or rng.random() < 0.15:
                        yield ["tags", [97] * n, [list(x) for x in seq]]
        lens = [x for x in near(1, 60)]
        while True:
            r = rng.random()
            if r < 0.5:
                n = rng.randint(1, 7)
                if rng.random() < 0.1:
                    n = rng.choice([x for x in near(1, 20)] or [7])
                dims = [97] * n
                ln = rng.choice([rng.randint(1, 12), rng.randint(5, 40), rng.choice(lens)])
                ops = []
                for _ in range(ln):
                    k = rng.random()
                    q = rng.randrange(n)
                    if k < 0.45:
                        ops.append(["x", q, rng.randrange(1, 97)])
                    elif k < 0.6:
                        ops.append([rng.choice(["h", "z"]), q])
                    elif k < 0.7:
                        ops.append(["g", [q], [[1.0]]])
                    elif n > 1:
                        a, b = rng.sample(range(n), 2)
                        ops.append(["cx", a, b, 1])
                yield ["tags", dims, ops]
            elif r < 0.8:
                dims = rdims(rng, rng.randint(1, 4), 24, 4)
                yield ["sem", dims, [rop(rng, dims) for _ in range(rng.randint(1, 9))], rng.choice(BES)]
            else:
                dims = rdims(rng, rng.randint(1, 3), 18, 4)
                ls = []
                for _ in range(rng.randint(1, 6)):
                    row = []
                    for q, d in enumerate(dims):
                        if rng.random() < 0.55:
                            row.append(["i", q])
                        else:
                            row.append(rop(rng, [2] * q + [d], ("x",)) if False else ["x", q, rng.randint(0, d - 1)] if rng.random() < 0.7 else ["h", q])
                    ls.append(row)
                yield ["layers", dims, ls, rng.randrange(3), rng.choice(BES)]

    @staticmethod
    def trivial(c):
        return c[0] != "layers" and len(c[2]) < 3

    @staticmethod
    def check(c):
        if c[0] == "tags":
            _, dims, ops = c
            qc = Q().QuantumCircuit(qregs=list(dims))
            for op in ops:
                call(qc, op)
            match_layers(qc, ops, f"after {short(ops)}")
        elif c[0] == "sem":
            _, dims, ops, be = c
            B = backend(be)
            qc = Q().QuantumCircuit(qregs=list(dims), backend=B)
            for op in ops:
                call(qc, op)
            match_layers(qc, ops, f"after {short(ops)}")
            m = np.eye(prod(dims))
            for mo in qc.op_flow.peek()[1:]:
                m = dense(mo.exec(B)) @ m
            w = np.eye(prod(dims))
            for op in ops:
                w = op_full(op, dims) @ w
            expect(m, w, f"operators of the layers after {short(ops)} on {dims}")
        else:
            from qudiet.circuit_library.standard_gates.h import HGate
            from qudiet.circuit_library.standard_gates.i import IGate
            from qudiet.circuit_library.standard_gates.x import XGate
            from qudiet.core.init_states import InitState
            from qudiet.core.moment import Moment
            from qudiet.core.operator_flow import OperatorFlow

            _, dims, ls, chunk, be = c
            B = backend(be)
            moms, w = [], np.eye(prod(dims))
            for i, row in enumerate(ls):
                gs = []
                for it in row:
                    q = it[1]
                    if it[0] == "i":
                        gs.append(IGate(qreg=q, dims=dims[q], backend=B))
                    elif it[0] == "h":
                        gs.append(HGate(qreg=q, dims=dims[q], backend=B))
                    else:
                        gs.append(XGate(qreg=q, dims=dims[q], plus=it[2], backend=B))
                    if it[0] != "i":
                        w = op_full(it, dims) @ w
                moms.append(Moment(f"m{i}", *gs))
            of = OperatorFlow()
            init = Moment("init", *[InitState(dim=d, state=0, qreg=q, backend=B) for q, d in enumerate(dims)])
            if chunk == 0:
                of.populate_opflow(init, *moms)
            elif chunk == 1:
                of.populate_opflow(init)
                of.populate_opflow(*moms)
            else:
                for mo in [init] + moms:
                    of.populate_opflow(mo)
            m = np.eye(prod(dims))
            n = 0
            for mo in of.peek()[1:]:
                m = dense(mo.exec(B)) @ m
                n += sum(kind(g) != "IGate" for g in mo.peek_list())
            given = sum(it[0] != "i" for row in ls for it in row)
            need(n == given, f"{given} gates in the layers {ls}, {n} gates in the flow")
            expect(m, w, f"operators of the flow of the layers {ls} on {dims}")


# ------------------------------------------------------------------ C10
def rcircuit(rng, maxprod=48, maxops=10, kinds=("x", "h", "z", "cx", "tof", "g"), maxn=5):
    dims = rdims(rng, rng.randint(1, maxn), maxprod, 5)
    ops = [rop(rng, dims, kinds) for _ in range(rng.choice([rng.randint(0, 4), rng.randint(0, maxops)]))]
    return dims, rlevels(rng, dims), ops


@prop("C10")
class C10:
    rule = "a random circuit (up to 14 gates on up to 5 registers), backend, two to four runs; non-trivial: at least two layers"

    @staticmethod
    def gen(rng, deep):
        for be in BES:
            for r in (2, 3):
                yield [be, [2, 3], [1, 2], [], r]
                yield [be, [4], [3], [], r]
        while True:
            dims, init, ops = rcircuit(rng, 36, 14)
            yield [rng.choice(BES), dims, init, ops, rng.choice([2, 2, 3, 4])]

    @staticmethod
    def trivial(c):
        return len(c[3]) < 2

    @staticmethod
    def check(c):
        be, dims, init, ops, runs = c
        B = backend(be)
        qc = build(dims, init, ops, be)
        sig = signature(qc)
        v = np.zeros(prod(dims), dtype=complex)
        v[number(init, dims)] = 1
        for mo in qc.op_flow.peek()[1:-1]:
            v = dense(mo.exec(B)) @ v
        for i in range(runs):
            expect(vector(qc.run(), dims), v, f"run {i + 1} of {short(ops)} on {init} of {dims} against its own layers in time order")
            need(signature(qc) == sig, f"run {i + 1} of {short(ops)} on {dims} changed the circuit")


# ------------------------------------------------------------------ C11
@prop("C11")
class C11:
    rule = "one gate call on a fresh circuit, or after a few others; every kind, register and span for up to 4 registers, then random up to 9 registers; non-trivial: at least three registers"

    @staticmethod
    def gen(rng, deep):
        for n in (1, 2, 3, 4):
            for q in range(n):
                dims = rdims(rng, n, 120, 5)
                yield ["sparse", dims, [], ["x", q, rplus(rng, dims[q])]]
                yield ["numpy", dims, [], ["x", q, None]]
                yield ["sparse", dims, [], ["h", q]]
                yield ["sparse", dims, [], ["z", q]]
                yield ["sparse", dims, [], ["g", [q], jmat(runitary(rng, dims[q]))]]
                if q + 1 < n:
                    yield ["numpy", dims, [], ["g", [q, q + 1], jmat(runitary(rng, dims[q] * dims[q + 1]))]]
        for n, c, t in two_regs(5):
            dims = rdims(rng, n, 100, 4)
            yield [rng.choice(BES), dims, [], ["cx", c, t, rplus(rng, dims[t])]]
        while True:
            n = rng.choice([rng.randint(1, 6), rng.randint(5, 9), min(rng.choice(near(1, 12)), 12)])
            dims = rdims(rng, n, 6000, 4) if n > 6 else rdims(rng, n, 200, 5)
            pre = [rop(rng, dims, maxblock=40) for _ in range(rng.choice([0, 0, 1, 3]))]
            yield [rng.choice(BES) if n < 6 else "sparse", dims, pre, rop(rng, dims, maxblock=60)]

    @staticmethod
    def trivial(c):
        return len(c[1]) < 3

    @staticmethod
    def check(c):
        be, dims, pre, op = c
        n = len(dims)
        B = backend(be)
        qc = Q().QuantumCircuit(qregs=list(dims), backend=B)
        for o in pre:
            call(qc, o)
        before = sum(kind(g) != "IGate" for l in layers(qc) for g in l)
        ret = call(qc, op)
        need(ret is True, f"{op} on {dims} returned {ret!r}")
        check_tiling(qc, n)
        if pre:
            match_layers(qc, pre + [op], f"after {short(pre + [op])}")
            return
        ls = layers(qc)
        need(len(ls) == 1, f"one call {op} made {len(ls)} layers")
        gs = [g for g in ls[0] if kind(g) != "IGate"]
        need(len(gs) == 1 and kind(gs[0]) == OPKIND[op[0]] and target_regs(gs[0]) == op_target(op), f"{op} on {dims} placed {[(kind(g), target_regs(g)) for g in gs]}")
        for g in ls[0]:
            if kind(g) == "IGate":
                need(g.dims == dims[g.qreg], f"{op} on {dims}: idle register {g.qreg} has dimension {g.dims}")
        need(close(gs[0].unitary, op_matrix(op, dims)), f"{op} on {dims} placed a gate with another matrix: {short(dense(gs[0].unitary))}")
        if prod(dims) <= 200:
            expect(dense(qc.op_flow.peek()[1].exec(B)), op_full(op, dims), f"layer of {op} on {dims}")


# ------------------------------------------------------------------ C12
def bad_calls(rng, dims):
    n = len(dims)
    bads = [-1, -n, n, n + 1, n + 7] + [x for x in near(-50, 50) if not 0 <= x < n]
    b = rng.choice(bads)
    q = rng.randrange(n)
    for k in ("x", "h", "z", "g"):
        yield [k, rng.choice(bads)]
        yield [k + "dims", q, dims[q] + rng.choice([1, 2, 10])]
    yield ["cx", q, q]
    yield ["cx", q, b]
    yield ["cx", b, q]
    yield ["cx", b, b]
    yield ["tof", [q], b]
    yield ["tof", [b], q]
    if n > 1:
        a, c = rng.sample(range(n), 2)
        yield ["tof", [a, c], b]
        yield ["tof", [a, b], c]
        yield ["tof", [b, a], c]
    yield ["glist", [q, b]]
    yield ["glist", [b, q]]


@prop("C12")
class C12:
    rule = "a circuit with a few gates and one illegal call: kind x position of the bad register x how far out (both sides), CX on one register, dimension above the register's; non-trivial: the circuit holds gates already"

    @staticmethod
    def gen(rng, deep):
        while True:
            dims = rdims(rng, rng.randint(1, 5), 40, 5)
            pre = [rop(rng, dims, ("x", "h", "z", "cx")) if len(dims) > 1 else rop(rng, dims, ("x", "h", "z")) for _ in range(rng.randint(0, 3))]
            for bad in bad_calls(rng, dims):
                yield [rng.choice(BES), dims, rlevels(rng, dims), pre, bad]

    @staticmethod
    def trivial(c):
        return not c[3]

    @staticmethod
    def check(c):
        be, dims, init, pre, bad = c
        qc = build(dims, init, pre, be, measure=False)
        sig = light_signature(qc)
        k = bad[0]
        try:
            if k in ("x", "h", "z"):
                r = getattr(qc, k)(bad[1])
            elif k == "g":
                r = qc.gate(custom(jmat(np.eye(2))), bad[1])
            elif k == "gdims":
                r = qc.gate(custom(jmat(np.eye(bad[2]))), bad[1], dims=bad[2])
            elif k == "glist":
                r = qc.gate(custom(jmat(np.eye(4))), list(bad[1]))
            elif k.endswith("dims"):
                r = getattr(qc, k[0])(bad[1], dims=bad[2])
            elif k == "cx":
                r = qc.cx((bad[1], bad[2]), 1)
            else:
                r = qc.toffoli((list(bad[1]), bad[2]))
        except ValueError:
            pass
        except Exception as e:  # noqa: BLE001
            raise Fail(f"the illegal call {bad} on {dims} raised {type(e).__name__}: {e} instead of a ValueError")
        else:
            raise Fail(f"the illegal call {bad} on {dims} was accepted (returned {r!r})")
        need(light_signature(qc) == sig, f"the refused call {bad} on {dims} changed the circuit")
        qc.measure_all()
        expect(vector(qc.run(), dims), ideal(dims, init, pre), f"result after the refused call {bad} on {dims}")


# ------------------------------------------------------------------ C13
@prop("C13")
class C13:
    rule = "a dimension list or a (number, dimension) pair with none, some or all initial levels, backend; or a list to be refused; non-trivial: at least two registers and a level above 0"

    @staticmethod
    def gen(rng, deep):
        for be in BES + (None,):
            for n in (1, 2, 3):
                for d in (2, 3, 5):
                    if d**n <= 130:
                        yield ["ok", be, ["pair", n, d], [rng.randrange(d) for _ in range(rng.randint(0, n))]]
        for bad in (["bad", [3], [3]], ["bad", [3], [-1]], ["bad", [2, 3], [1, 3]], ["bad", [2, 3], [2, 0]], ["bad", [1], [0]], ["bad", [2, 1], []], ["bad", [0], [0]], ["bad", [3, 2], [0, -2]], ["type", "str"], ["type", "int"], ["type", "set"], ["type", "none"], ["bad", [5], [7]]):
            yield bad
        big = near(2, 60)
        while True:
            r = rng.random()
            dims = rdims(rng, rng.randint(1, 6), 600, 6)
            if r < 0.15:
                dims = [rng.choice(big)] + rng.choice([[], [2], [3]])
                rng.shuffle(dims)
            if r < 0.75:
                yield ["ok", rng.choice(BES + (None,)), ["list", dims], rlevels(rng, dims)[: rng.choice([0, len(dims), rng.randint(0, len(dims))])]]
            elif r < 0.9:
                n, d = rng.randint(1, 5), rng.choice([2, 3, 4, rng.choice(big)])
                if d**n < 5000:
                    yield ["ok", rng.choice(BES), ["pair", n, d], [rng.randrange(d) for _ in range(rng.randint(0, n))]]
            else:
                lv = rlevels(rng, dims)
                q = rng.randrange(len(dims))
                lv[q] = rng.choice([dims[q], dims[q] + 1, -1, -dims[q]])
                yield ["bad", dims, lv]

    @staticmethod
    def trivial(c):
        return c[0] == "ok" and not (len(c[2]) > 2 and any(c[3]))

    @staticmethod
    def check(c):
        C = Q().QuantumCircuit
        if c[0] == "type":
            arg = {"str": "23", "int": 3, "set": {2, 3}, "none": None}[c[1]]
            try:
                C(qregs=arg)
            except ValueError:
                return
            except Exception as e:  # noqa: BLE001
                raise Fail(f"QuantumCircuit({arg!r}) raised {type(e).__name__}: {e} instead of a ValueError")
            raise Fail(f"QuantumCircuit({arg!r}) was accepted")
        if c[0] == "bad":
            try:
                C(qregs=list(c[1]), init_states=list(c[2]))
            except ValueError:
                return
            except Exception as e:  # noqa: BLE001
                raise Fail(f"QuantumCircuit({c[1]}, init_states={c[2]}) raised {type(e).__name__}: {e} instead of a ValueError")
            raise Fail(f"QuantumCircuit({c[1]}, init_states={c[2]}) was accepted")
        _, be, regs_, init = c
        dims = list(regs_[1]) if regs_[0] == "list" else [regs_[2]] * regs_[1]
        arg = list(dims) if regs_[0] == "list" else (regs_[1], regs_[2])
        kw = {}
        if init or len(dims) % 2:
            kw["init_states"] = list(init)
        if be is not None:
            kw["backend"] = backend(be)
        qc = C(arg, **kw)
        row = qc.op_flow.peek()[0].peek_list()
        full = list(init) + [0] * (len(dims) - len(init))
        need([(g.qreg, g.dim, g.state) for g in row] == list(zip(range(len(dims)), dims, full)), f"initial layer of {arg}, {init}: {[(g.qreg, g.dim, g.state) for g in row]}")
        for g in row:
            e = np.zeros((g.dim, 1))
            e[g.state] = 1
            expect(dense(g.unitary), e, f"initial state of register {g.qreg} of {arg}, {init}")
        qc.measure_all()
        res = qc.run()
        lab = "|" + "".join(map(str, full)) + ">"
        need(len(res) == 1 and list(res[0]) == [lab] and abs(list(res[0].values())[0] - 1) < TOL, f"QuantumCircuit({arg}, init_states={init}) without gates gives {short(res)}, expected {lab}")


# ------------------------------------------------------------------ C14
@prop("C14")
class C14:
    rule = "a state vector with some zero entries (real, complex, very small entries; dense or one of four sparse formats), dimension list, label kind, value kind; non-trivial: at least one complex entry"

    @staticmethod
    def gen(rng, deep):
        for t in ("print", "state"):
            for m in ("probability", "amplitude"):
                yield [[2, 3], [0, 0.5, 0, [0.5, 0.5], [0, -0.5], 0], "dense", t, m]
                yield [[3], [1, 0, 0], "csr", t, m]
                yield [[2], [0, 1], "dense", None, None]
        big = near(2, 300)
        while True:
            dims = rdims(rng, rng.randint(1, 6), 150, 12) if rng.random() < 0.8 else [rng.choice(big)] + rng.choice([[], [2]])
            v = []
            dens = rng.choice([0.1, 0.5, 0.9, 1.0])
            for _ in range(prod(dims)):
                if rng.random() > dens:
                    v.append(0)
                else:
                    v.append(rng.choice([rng.uniform(-1, 1), [rng.uniform(-1, 1), rng.uniform(-1, 1)], [0, rng.uniform(-1, 1)], 1, -1, 1e-9, [0, 1e-12], 1e-30, [0.5, -0.5], [-0.5, -0.5], [0.5, 1e-9], -1e-300]))
            yield [dims, v, rng.choice(["dense", "dense", "csr", "csc", "coo", "bsr"]), rng.choice(["print", "state"]), rng.choice(["probability", "amplitude"])]

    @staticmethod
    def trivial(c):
        return not any(isinstance(x, list) for x in c[1])

    @staticmethod
    def check(c):
        from scipy import sparse as sp
        from qudiet.core.output import Output, OutputMethod, OutputType

        dims, v, fmt, t, m = c
        arr = np.array([[complex(*x) if isinstance(x, list) else x] for x in v])
        r = arr if fmt == "dense" else getattr(sp, fmt + "_matrix")(arr)
        kw = {}
        if t:
            kw = dict(type=getattr(OutputType, t), method=getattr(OutputMethod, m))
        out = Output(list(dims), **kw)(r)
        want = []
        for i in range(len(v)):
            a = arr[i, 0]
            if a != 0:
                ds = digits(i, dims)
                lab = tuple(ds) if t == "state" else "|" + "".join(map(str, ds)) + ">"
                want.append((lab, a if m == "amplitude" else abs(a) ** 2))
        need(len(out) == len(want), f"{len(out)} entries for {len(want)} nonzero amplitudes of {short(arr[:, 0])} on {dims}")
        for e, (lab, val) in zip(out, want):
            ((l, x),) = e.items()
            if isinstance(l, tuple):
                l = tuple(int(y) for y in l)
            need(l == lab, f"label {l!r} where {lab!r} is expected ({dims})")
            need(abs(x - val) <= 1e-9 * max(1e-300, abs(val)) or abs(x - val) <= 1e-9 * abs(val), f"value {x!r} at {lab!r}, expected {val!r} ({m})")


# ------------------------------------------------------------------ C15
@prop("C15")
class C15:
    rule = "one backend operation on random real or complex (partly zero, partly rectangular) matrices, dense or sparse, or one circuit run on both backends; non-trivial: not 1x1"

    @staticmethod
    def gen(rng, deep):
        while True:
            r = rng.random()
            s = rng.randrange(2**31)
            sh = [rng.randint(1, 5) for _ in range(4)]
            for be in BES:
                op = rng.choice(["kron", "dot", "eye", "matrix", "nonzero", "unitary"])
                yield [be, op, sh, s]
            if r < 0.4:
                dims, init, ops = rcircuit(rng, 36, 6)
                yield ["both", dims, init, ops]

    @staticmethod
    def trivial(c):
        return c[0] != "both" and max(c[2]) < 2

    @staticmethod
    def check(c):
        if c[0] == "both":
            _, dims, init, ops = c
            a = vector(build(dims, init, ops, "sparse").run(), dims)
            b = vector(build(dims, init, ops, "numpy").run(), dims)
            expect(a, b, f"sparse against dense backend: {short(ops)} on {init} of {dims}")
            return
        be, op, sh, s = c
        B = backend(be)
        rs = np.random.RandomState(s)

        def mat(n, m):
            a = rs.randn(n, m)
            if s % 7 == 0:
                a = rs.randint(-2, 3, (n, m)) + 1j * rs.randint(-2, 3, (n, m)) * (s % 2)
            elif s % 7 == 1:
                a = a + 1j * rs.randn(n, m) * 10.0 ** -rs.randint(1, 13)
            elif s % 7 == 2:
                a = a * 10.0 ** -rs.randint(0, 13, (n, m)).astype(float)
            elif s % 3:
                a = a + 1j * rs.randn(n, m)
            a = a * (rs.rand(n, m) < 0.6)
            return a

        if op == "kron":
            a, b = mat(sh[0], sh[1]), mat(sh[2], sh[3])
            want = np.einsum("ij,kl->ikjl", a, b).reshape(sh[0] * sh[2], sh[1] * sh[3])
            expect(dense(B.kron(B.matrix(a), B.matrix(b))), want, f"kron of {short(a)} and {short(b)}")
        elif op == "dot":
            a, b = mat(sh[0], sh[1]), mat(sh[1], sh[2])
            expect(dense(B.dot(B.matrix(a), B.matrix(b))), np.einsum("ij,jk->ik", a, b), f"dot of {short(a)} and {short(b)}")
        elif op == "eye":
            expect(dense(B.eye(sh[0], sh[0])), np.diag([1.0] * sh[0]), f"eye({sh[0]})")
        elif op == "matrix":
            a = mat(sh[0], sh[1])
            keep = a.copy()
            got = B.matrix(a)
            expect(dense(got), keep, f"matrix of {short(a)}")
            a[0, 0] += 1
            if be == "numpy":
                expect(dense(got), keep, "matrix() shares its entries with its argument")
        elif op == "nonzero":
            a = mat(sh[0], sh[1])
            r, k = B.nonzero(B.matrix(a))
            got = sorted(zip([int(x) for x in r], [int(x) for x in k]))
            need(got == [(i, j) for i in range(sh[0]) for j in range(sh[1]) if a[i, j] != 0], f"nonzero of {short(a)}: {got}")
        else:
            d = sh[0]
            u = runitary(random.Random(s), d)
            need(bool(B.is_unitary(u)), f"{short(u)} is unitary, and refused")
            rng = random.Random(s + 1)
            for _ in range(3):
                w, k = rspoiled(rng, d)
                need(not bool(B.is_unitary(w)), f"{short(w)} is not unitary ({k}), and accepted")


# ------------------------------------------------------------------ C16
@prop("C16")
class C16:
    rule = "a random sequence of gate, measure and run calls over one circuit; non-trivial: a call after the measurement"

    @staticmethod
    def gen(rng, deep):
        while True:
            dims, init, ops = rcircuit(rng, 24, 5, maxn=4)
            acts = []
            for op in ops:
                acts.append(op)
                if rng.random() < 0.15:
                    acts.append("run")
            if rng.random() < 0.3:
                acts.append("run")
            acts.append("measure")
            for _ in range(rng.randint(0, 5)):
                acts.append(rng.choice(["run", "measure", rop(rng, dims), rop(rng, dims)]))
            acts.append("run")
            yield [rng.choice(BES), dims, init, acts]

    @staticmethod
    def trivial(c):
        return c[3].index("measure") > len(c[3]) - 3

    @staticmethod
    def check(c):
        be, dims, init, acts = c
        qc = build(dims, init, [], be, measure=False)
        measured, sig, ops = False, None, []
        for a in acts:
            if a == "measure":
                qc.measure_all()
                if measured:
                    need(light_signature(qc) == sig, "a second measurement changed the circuit")
                measured = True
                sig = light_signature(qc)
            elif a == "run":
                if measured:
                    expect(vector(qc.run(), dims), ideal(dims, init, ops), f"{short(acts)} on {init} of {dims}")
                    need(light_signature(qc) == sig, "a run changed the circuit")
                else:
                    try:
                        r = qc.run()
                    except Exception:  # noqa: BLE001
                        continue
                    raise Fail(f"a circuit without measurement ran ({short(acts)}) and returned {short(r)}")
            else:
                ret = call(qc, a)
                if measured:
                    need(ret is False, f"{a} after the measurement returned {ret!r}")
                    need(light_signature(qc) == sig, f"{a} after the measurement changed the circuit")
                else:
                    need(ret is True, f"{a} before the measurement returned {ret!r}")
                    ops.append(a)


# ------------------------------------------------------------------ C17 / C18
def qasm_text(c):
    """c: dict(head, decl, dims, lines, indent, unit)"""
    ind = c.get("indent", "")
    dl = []
    for q, (d, how) in enumerate(zip(c["dims"], c["decl"])):
        dl.append({"qudit": f"qudit x{q} ({d})", "qubit": f"qubit x{q}", "qutrit": f"qutrit x{q}"}[how])
    head = c.get("head") or "# header"
    rows = [head, "", f".{c.get('unit', 'qudit')} {len(c['dims'])}", ""] + dl + ["", ".begin"] + c["lines"] + [".end", ""]
    return "\n".join((ind + r) if r else r for r in rows)


def line_of(op, style):
    sep = [" ", ", ", " ", ","][style % 4] if op[0] == "tof" else " "
    if op[0] == "x":
        return f"X x{op[1]}" if op[2] is None else f"X x{op[1]} {op[2]}"
    if op[0] == "rx":
        return f"RX x{op[1]} 180"
    if op[0] in "hz":
        return f"{op[0].upper()} x{op[1]}"
    if op[0] == "cx":
        nm = ["CX", "CNOT"][style % 2]
        comma = ["", ",", ""][style % 3]
        return f"{nm} x{op[1]}{comma} x{op[2]}" + ("" if op[3] is None else f" {op[3]}")
    return "Toffoli " + sep.join(f"x{r}" for r in list(op[1]) + [op[2]])


def near_registers(rng, n):
    """of a large circuit, only registers close to each other: the operators stay small"""
    if n <= 20:
        return range(n)
    lo = rng.choice([0, n - 4, n - 4, rng.randint(0, n - 4)])
    return range(lo, lo + 4)


def qasm_case(rng, tof=True, n=None, nl=None):
    n = n or rng.randint(1, 6)
    how = [rng.choice(["qudit", "qudit", "qubit", "qutrit"]) for _ in range(n)]
    dims = [{"qubit": 2, "qutrit": 3}.get(h) or rng.choice([2, 3, 4, rng.randint(2, 12)]) for h in how]
    ops, lines = [], []
    for _ in range(nl if nl is not None else rng.choice([0, 1, 2, 4, 8, 12])):
        if rng.random() < 0.2:
            lines.append(rng.choice(["", "# a comment", "# X x0", "#CX x0 x1", "  "]))
        k = rng.choice(["x", "x", "rx", "h", "z", "cx", "cx", "tof"])
        q = rng.randrange(n)
        if k == "x":
            op = ["x", q, rng.choice([None, rplus(rng, dims[q])])]
        elif k in ("h", "z", "rx"):
            op = [k, q]
        elif k == "cx" and n > 1:
            a, b = rng.sample(near_registers(rng, n), 2)
            if prod(dims[min(a, b) : max(a, b) + 1]) > 200:
                continue
            op = ["cx", a, b, rng.choice([None, rplus(rng, dims[b])])]
        elif k == "tof" and n > 2 and tof:
            a, b, t = rng.sample(near_registers(rng, n), 3)
            if prod(x + 1 for x in dims[min(a, b, t) : max(a, b, t) + 1]) > 300:
                continue
            op = ["tof", [a, b], t, None]
        else:
            continue
        st = rng.randrange(12)
        ops.append(op)
        line = line_of(op, st)
        if op[0] != "tof" and rng.random() < 0.2:
            line = line.replace(" ", rng.choice(["\t", "  ", " \t "]))
        lines.append(line)
    return dict(dims=dims, decl=how, lines=lines, ops=ops, indent=rng.choice(["", "", "", "    ", "\t"]), unit=rng.choice(["qudit", "qubit", "qutrit"]), head=rng.choice(["# header", "# made (2) by hand", "# first\n# second", ""]) or "#")


def final_dims(c):
    d = list(c["dims"])
    for m in {op[1][1] for op in c["ops"] if op[0] == "tof"}:
        d[m] += 1
    return d


def api_ops(c):
    out = []
    for op in c["ops"]:
        if op[0] == "rx":
            out.append(["x", op[1], 1])
        elif op[0] == "cx":
            out.append(["cx", op[1], op[2], 1 if op[3] is None else op[3]])
        else:
            out.append(op)
    return out


@prop("C17")
class C17:
    rule = "a QASM text with a gate section of 0 to 12 lines of every supported form, comments and blank lines between, indented or not; the circuit is compared with the same calls made through the API (layer structure and gate matrices) and, if small, with the ideal amplitudes; non-trivial: at least three gate lines"

    @staticmethod
    def gen(rng, deep):
        for op in (["x", 1, None], ["x", 0, 2], ["x", 1, -1], ["x", 0, 10], ["rx", 1], ["h", 0], ["z", 1], ["cx", 0, 1, None], ["cx", 1, 0, 2], ["cx", 0, 1, -1], ["tof", [0, 1], 2, None], ["tof", [2, 0], 1, None]):
            for st in range(12):
                yield dict(dims=[2, 3, 2], decl=["qubit", "qutrit", "qudit"], lines=[line_of(op, st)], ops=[op])
        big = near(1, 25)
        while True:
            r = rng.random()
            c = qasm_case(rng) if r < 0.8 else qasm_case(rng, n=rng.choice([100, 103, 120]), nl=6) if r < 0.84 else qasm_case(rng, n=min(rng.choice([10, 11, 12] + big), 14), nl=4)
            yield c

    @staticmethod
    def trivial(c):
        return len(c["ops"]) < 3

    @staticmethod
    def check(c):
        from qudiet.qasm.qasm_parser import circuit_from_qasm

        text = qasm_text(c)
        qc = circuit_from_qasm(text)
        dims = final_dims(c)
        ops = api_ops(c)
        ref = Q().QuantumCircuit(qregs=list(dims))
        small = True
        for op in ops:
            call(ref, op)
            small = small and prod(dims[r] for r in span(op)) <= 60
        ref.measure_all()
        need(light_signature(qc) == light_signature(ref), f"{text!r} gives the layers {short(light_signature(qc))}, the lines say {short(light_signature(ref))}")
        for a, b in zip(qc.op_flow.peek(), ref.op_flow.peek()):
            for g, h in zip(a.peek_list(), b.peek_list()):
                k = kind(g)
                if k in ("Measurement", "InitState", "IGate"):
                    continue
                if prod(dims[r] for r in regs(g)) <= 60:
                    need(close(g.unitary, h.unitary), f"{text!r}: the {k} on {target_regs(g)} has another matrix than its line says")
        if prod(dims) <= 40 and small:
            from qudiet.core.output import Output

            qc.output_processor = out_raw(dims)
            expect(vector(qc.run(), dims), ideal(dims, [], ops), f"amplitudes of {text!r}")
        # idempotence: measured, so closed
        need(qc.x(0) is False, f"{text!r}: the parsed circuit is not closed by a measurement")


@prop("C18")
class C18:
    rule = "a QASM text with 1 to 12 declarations of mixed kinds (dimensions up to the literals of the sources), any gate section, from text or file, three backend choices; non-trivial: a Toffoli line or two kinds of declarations"

    @staticmethod
    def gen(rng, deep):
        big = near(2, 200)
        i = 0
        while True:
            i += 1
            c = qasm_case(rng, nl=rng.choice([0, 1, 3, 6]), n=rng.choice([1, 2, 3, 4, 5, 11] * 4 + [104]))
            if rng.random() < 0.3:
                q = rng.randrange(len(c["dims"]))
                c["dims"][q] = rng.choice(big + [10, 12, 100])
                c["decl"][q] = "qudit"
            if rng.random() < 0.4 and len(c["dims"]) > 2:
                for _ in range(rng.randint(1, 3)):
                    a, b, t = rng.sample(near_registers(rng, len(c["dims"])), 3)
                    if prod([c["dims"][x] + 1 for x in range(min(a, b, t), max(a, b, t) + 1)]) > 400:
                        continue
                    op = ["tof", [a, b], t, None]
                    c["ops"].append(op)
                    c["lines"].append(line_of(op, rng.randrange(12)))
            if any(op[0] == "tof" and prod([c["dims"][x] + 1 for x in span(op)]) > 400 for op in c["ops"]):
                continue
            c["file"] = i % 5 == 0
            c["be"] = rng.choice([None, "sparse", "numpy"])
            yield c

    @staticmethod
    def trivial(c):
        return len(set(c["decl"])) < 2 and not any(op[0] == "tof" for op in c["ops"])

    @staticmethod
    def check(c):
        from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

        text = qasm_text(c)
        B = backend(c["be"])
        kw = {} if B is None else {"backend": B}
        if c["file"]:
            fd, path = tempfile.mkstemp(suffix=".qasm")
            try:
                with os.fdopen(fd, "w") as f:
                    f.write(text)
                qc = parse_qasm(path, **kw)
            finally:
                os.unlink(path)
        else:
            qc = circuit_from_qasm(text, **kw)
        dims = final_dims(c)
        row = qc.op_flow.peek()[0].peek_list()
        got = [(g.qreg, g.dim, g.state) for g in row]
        need(got == [(q, d, 0) for q, d in enumerate(dims)], f"{text!r} gives the registers {got}, declared are {dims}")
        need(list(qc.qregs) == dims, f"{text!r}: qregs is {qc.qregs}")
        from qudiet.core.backend import DefaultBackend

        need(qc.backend is (B or DefaultBackend), f"{text!r}: backend is {qc.backend}")
        for g in row:
            e = np.zeros((g.dim, 1))
            e[0] = 1
            expect(dense(g.unitary), e, f"initial state of {text!r}")


# ------------------------------------------------------------------ C19
INFO = {"XGate": "x", "HGate": "h", "ZGate": "z", "CXGate": "cx", "Toffoli": "toffoli", "ArbitaryGate": "arbitary"}


@prop("C19")
class C19:
    rule = "a random circuit of up to 25 gates on up to 6 registers, list or pair form, measured or not; non-trivial: at least two kinds of gates"

    @staticmethod
    def gen(rng, deep):
        yield ["list", [2, 3], [], False]
        yield ["list", [2, 3], [], True]
        while True:
            if rng.random() < 0.8:
                dims = rdims(rng, rng.randint(1, 6), 200, 4)
                form = "list"
            else:
                dims = [rng.choice([2, 3])] * rng.randint(1, 5)
                form = "pair"
            ops = [rop(rng, dims, maxblock=80) for _ in range(rng.choice([rng.randint(0, 6), rng.randint(0, 25), min(60, rng.choice(near(0, 60)))]))]
            yield [form, dims, ops, rng.random() < 0.7]

    @staticmethod
    def trivial(c):
        return len({o[0] for o in c[2]}) < 2

    @staticmethod
    def check(c):
        form, dims, ops, measured = c
        qc = Q().QuantumCircuit(list(dims) if form == "list" else (len(dims), dims[0]))
        for op in ops:
            call(qc, op)
        if measured:
            qc.measure_all()
        depth = len(layers(qc))
        for rep in range(2):
            cfg = qc.get_circuit_config()
            need(cfg["width"] == len(dims) and cfg["depth"] == depth, f"config {cfg} of a circuit of {len(dims)} registers and {depth} layers ({short(ops)})")
            info = qc.get_circuit_info()
            want = {}
            for op in ops:
                k = INFO[OPKIND[op[0]]]
                want[k] = want.get(k, 0) + 1
            need(info["details"] == want and info["gate_count"] == len(ops) and info["depth"] == depth and info["qudit"] == len(dims), f"info {info}, expected {want}, {len(ops)} gates, depth {depth}, {len(dims)} registers")


# ------------------------------------------------------------------ C20
@prop("C20")
class C20:
    rule = "a random circuit of up to 10 H, X, Z, CX and Toffoli gates on up to 7 registers, measured or not, list or pair form; non-trivial: a controlled gate"

    @staticmethod
    def gen(rng, deep):
        for n, a, b in two_regs(4):
            yield ["list", [2] * n, [0] * n, [["cx", a, b, 1]], True]
        while True:
            dims = rdims(rng, rng.randint(1, 7), 700, 9)
            form = "list"
            if rng.random() < 0.2:
                dims, form = [rng.choice([2, 3, 4])] * rng.randint(1, 5), "pair"
            ops = []
            for _ in range(rng.choice([0, 1, 2, rng.randint(0, 10), rng.randint(0, 25)])):
                op = rop(rng, dims, ("x", "h", "z", "cx", "tof"), 120)
                if op[0] in ("x", "cx") and op[-1] is not None:
                    op[-1] = rng.randint(-9, 20)
                if op[0] == "tof" and op[-1] is not None:
                    op[-1] = rng.randint(-9, 20)
                ops.append(op)
            yield [form, dims, rlevels(rng, dims), ops, rng.random() < 0.75]

    @staticmethod
    def trivial(c):
        return not any(o[0] in ("cx", "tof") for o in c[3])

    @staticmethod
    def check(c):
        form, dims, init, ops, measured = c
        n = len(dims)
        qc = Q().QuantumCircuit(list(dims) if form == "list" else (n, dims[0]), init_states=list(init))
        for op in ops:
            call(qc, op)
        if measured:
            qc.measure_all()
        where = match_layers(qc, ops, "circuit to draw")
        depth = len(layers(qc))
        grid = [["" for _ in range(depth)] for _ in range(n)]
        for i, op in enumerate(ops):
            li = where[i]
            if op[0] in "hz":
                grid[op[1]][li] = op[0].upper()
            elif op[0] == "x":
                grid[op[1]][li] = f"X({1 if op[2] is None else op[2]})"
            else:
                cs = [op[1]] if op[0] == "cx" else list(op[1])
                k = 1 if op[3] is None else op[3]
                for r in span(op):
                    grid[r][li] = "|"
                for r in cs:
                    grid[r][li] = "*"
                grid[op[2]][li] = f"X({k})"
        text = str(qc)
        rows = text.split("\n")
        need(len(rows) >= n + 1, f"{len(rows)} lines for {n} registers:\n{text}")
        for q in range(n):
            head = f"({dims[q]})|{init[q]}>"
            need(rows[q].startswith(head), f"line {q} does not start with {head}:\n{text}")
            rest = rows[q][len(head):]
            for li in range(depth):
                cell = rest[5 * li : 5 * li + 5]
                body = cell.strip("-") if "(-" not in cell else cell[cell.index("X"):].rstrip("-")
                need(len(cell) == 5 and body == grid[q][li], f"register {q}, layer {li}: {cell!r} instead of {grid[q][li]!r} ({short(ops)}):\n{text}")
            tail = rest[5 * depth :].strip("-")
            need(tail == ("M" if measured else ""), f"register {q}: {tail!r} after the layers:\n{text}")
        last = [r for r in rows[n:] if r.strip()]
        need("".join(last).replace(" ", "") == f"depth:{depth},width:{n}", f"final line {last}, expected depth {depth}, width {n}")


# ------------------------------------------------------------------ C21
@prop("C21")
class C21:
    rule = "a measured circuit of 1 to 6 gates of every kind on up to 5 registers, drawn with the Agg backend while the calls that put text and lines on the axes are recorded; non-trivial: a controlled gate that does not start at register 0"

    @staticmethod
    def gen(rng, deep):
        for n, a, b in two_regs(3):
            for d in ([2] * n, [3, 2, 4][:n], [2, 4, 2][:n]):
                yield [list(d), [["cx", a, b, 1]]]
        yield [[2, 3, 4, 2], [["tof", [1, 2], 3, 2]]]
        yield [[2, 3, 4, 2], [["tof", [3, 1], 2, None]]]
        yield [[2, 3], [["g", [0, 1], jmat(np.eye(6))]]]
        yield [[2, 3, 2], [["tof", [], 1, 1], ["x", 0, 1]]]
        while True:
            dims = rdims(rng, rng.randint(1, 5), 200, 5)
            yield [dims, [rop(rng, dims, maxblock=60) for _ in range(rng.choice([1, 2, 3, 6]))]]

    @staticmethod
    def trivial(c):
        return not any(o[0] in ("cx", "tof") and span(o)[0] > 0 for o in c[1])

    @staticmethod
    def check(c):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes

        dims, ops = c
        qc = Q().QuantumCircuit(list(dims))
        for op in ops:
            call(qc, op)
        qc.measure_all()
        where = match_layers(qc, ops, "circuit to draw")
        texts, plots = [], []
        ot, op_ = Axes.text, Axes.plot

        def text(self, x, y, s, *a, **k):
            texts.append((float(x), float(y), str(s)))
            return ot(self, x, y, s, *a, **k)

        def plot(self, x, y, *a, **k):
            plots.append((x, y, k))
            return op_(self, x, y, *a, **k)

        Axes.text, Axes.plot = text, plot
        try:
            qc.draw(style="mpl")
        except Exception as e:  # noqa: BLE001
            raise Fail(f"drawing {short(ops)} on {dims} raised {type(e).__name__}: {e}")
        finally:
            Axes.text, Axes.plot = ot, op_
            plt.close("all")
        import re

        norm = [(x, y, re.sub(r"[\s${}]", "", s)) for x, y, s in texts]
        dots = []  # (marked ys, target y)
        cnots = []
        for x, y, k in plots:
            me = k.get("markevery")
            if k.get("marker") == "o" and isinstance(me, list) and any(me) and k.get("color") == "black":
                dots.append(tuple(sorted(set(int(round(v)) - 1 for v, f in zip(y, me) if f))))
            elif k.get("marker") == "+":
                cnots.append(int(round(float(np.atleast_1d(y)[0]))) - 1)
        wtext, wdots, wcnot = [], [], []
        for op in ops:
            if op[0] in "hz":
                wtext.append((op[1], op[0].upper()))
            elif op[0] == "x":
                wtext.append((op[1], f"X^+{1 if op[2] is None else op[2]}_{dims[op[1]]}"))
            elif op[0] == "g":
                if len(op[1]) == 1:
                    wtext.append((op[1][0], "G"))
            else:
                cs = [op[1]] if op[0] == "cx" else sorted(set(op[1]))
                k = 1 if op[3] is None else op[3]
                if cs:
                    wdots.append(tuple(cs))
                if op[0] == "cx" and dims[op[1]] == dims[op[2]] == 2:
                    wcnot.append(op[2])
                else:
                    wtext.append((op[2], f"X^+{k}_{dims[op[2]]}"))
        wtext += [(q, "M") for q in range(len(dims))]
        got = sorted((int(round(y)) - 1, s) for x, y, s in norm if re.match(r"(X\^|H$|Z$|M$|G$)", s) and abs(y - round(y)) < 1e-6)
        need(got == sorted(wtext), f"labels drawn for {short(ops)} on {dims}: {got}, expected {sorted(wtext)}")
        need(sorted(dots) == sorted(wdots), f"controls drawn for {short(ops)} on {dims}: {sorted(dots)}, expected {sorted(wdots)}")
        need(sorted(cnots) == sorted(wcnot), f"CNOT targets drawn for {short(ops)} on {dims}: {sorted(cnots)}, expected {sorted(wcnot)}")


# ------------------------------------------------------------------ C22
@prop("C22")
class C22:
    rule = "two or three circuits built from shared caller lists, with gate calls, runs, drawings and changes of the lists interleaved at random; every circuit is compared with its own ideal; non-trivial: a shared list or a changed list"

    @staticmethod
    def gen(rng, deep):
        while True:
            dims = rdims(rng, rng.randint(1, 3), 18, 4)
            init = rlevels(rng, dims)[: rng.randint(0, len(dims))]
            acts = []
            n = rng.randint(2, 3)
            for i in range(n):
                acts.append(["new", i])
            for _ in range(rng.randint(2, 10)):
                i = rng.randrange(n)
                acts.append(rng.choice([["op", i, rop(rng, dims, ("x", "h", "cx", "z", "g"))], ["op", i, rop(rng, dims)], ["draw", i], ["info", i], ["mut", rng.choice(["dims", "init"])], ["run", i], ["twin", i], ["new", i]]))
            yield [rng.choice(BES), dims, init, acts]

    @staticmethod
    def trivial(c):
        return False

    @staticmethod
    def check(c):
        be, dims, init, acts = c
        B = backend(be)
        d0, i0 = list(dims), list(init)
        cd, ci = list(d0), list(i0)
        qcs, ops, closed, par = {}, {}, {}, {}
        for a in acts:
            if a[0] == "new":
                i = a[1]
                par[i] = (list(cd), list(ci) + [0] * (len(cd) - len(ci)))
                k, l = list(cd), list(ci)
                qcs[i] = Q().QuantumCircuit(cd, init_states=ci, backend=B, output=out_raw(cd))
                need(cd == k and ci == l, f"building a circuit changed the caller's lists to {cd}, {ci} (were {k}, {l})")
                ops[i], closed[i] = [], False
            elif a[0] == "twin":
                q = Q().QuantumCircuit(cd, init_states=ci, backend=B)
                q.measure_all()
                q.run()
                need(cd == (cd if cd else []) and len(ci) <= len(cd), "lists changed")
            elif a[0] == "op":
                if not closed[a[1]] and all(r < len(par[a[1]][0]) and par[a[1]][0][r] == d0[r] for r in span(a[2])):
                    k, l = list(cd), list(ci)
                    arg = json.loads(json.dumps(a[2]))
                    call(qcs[a[1]], arg, scramble=True)
                    need(arg == a[2] and cd == k and ci == l, f"{a[2]} changed a list of the caller")
                    ops[a[1]].append(a[2])
            elif a[0] == "draw":
                str(qcs[a[1]])
            elif a[0] == "info":
                qcs[a[1]].get_circuit_info()
                qcs[a[1]].get_circuit_config()
            elif a[0] == "mut":
                if a[1] == "dims":
                    cd[0] = 2 if cd[0] != 2 else 3
                    ci[:] = [min(x, d - 1) for x, d in zip(ci, cd)]
                elif ci:
                    ci[0] = (ci[0] + 1) % cd[0]
            elif a[0] == "run":
                i = a[1]
                if not closed[i]:
                    qcs[i].measure_all()
                    closed[i] = True
                k, l = list(cd), list(ci)
                expect(vector(qcs[i].run(), par[i][0]), ideal(par[i][0], par[i][1], ops[i]), f"circuit {i} of {short(acts)}")
                need(cd == k and ci == l, "a run changed a list of the caller")
        for i in qcs:
            if not closed[i]:
                qcs[i].measure_all()
            need([(g.dim, g.state) for g in qcs[i].op_flow.peek()[0].peek_list()] == list(zip(*par[i])), f"initial layer of circuit {i} of {short(acts)}")
            match_layers(qcs[i], ops[i], f"circuit {i} of {short(acts)}")
            twin = build(par[i][0], par[i][1], ops[i], be)
            need(str(twin) == str(qcs[i]), f"drawing of circuit {i} of {short(acts)}: {str(qcs[i])!r}, that of a circuit of its own: {str(twin)!r}")
            expect(vector(qcs[i].run(), par[i][0]), ideal(par[i][0], par[i][1], ops[i]), f"circuit {i} of {short(acts)}")


# ------------------------------------------------------------------ C23
@prop("C23")
class C23:
    rule = "a random circuit (up to 16 gates of every kind on up to 6 registers), initial state, backend and value kind, compared with an independent state-vector simulation; non-trivial: at least three gates, one of them on two registers or more"

    @staticmethod
    def gen(rng, deep):
        while True:
            dims, init, ops = rcircuit(rng, rng.choice([12, 48, 100 if not deep else 250]), 16, maxn=6)
            yield [rng.choice(BES), dims, init[: rng.choice([len(init), len(init), rng.randint(0, len(init))])], ops, rng.choice(["amplitude", "amplitude", "probability"]), rng.random() < 0.2]

    @staticmethod
    def trivial(c):
        return len(c[3]) < 3 or all(len(span(o)) < 2 for o in c[3])

    @staticmethod
    def check(c):
        be, dims, init, ops, method, default = c
        want = ideal(dims, init, ops)
        if default:
            res = build(dims, init, ops, be, raw=False).run()
            got = np.zeros(prod(dims), dtype=complex)
            for e in res:
                ((l, x),) = e.items()
                need(l[0] == "|" and l[-1] == ">" and len(l) == len(dims) + 2, f"label {l!r}")
                got[number([int(y) for y in l[1:-1]], dims)] = x
        else:
            got = vector(build(dims, init, ops, be, method=method).run(), dims)
            if method == "probability":
                want = abs(want) ** 2
                need(abs(got.sum() - 1) < 1e-6, f"probabilities sum to {got.sum()} ({short(ops)} on {init} of {dims})")
        expect(got, want, f"{method} of {short(ops)} on {init} of {dims}, {be} backend")

"""Shared parts of the run-time contract oracles (run under /opt/venv, against the real /repo code).

Everything here is independent of the code under test: mixed-radix digits, ideal gate
matrices and an ideal state-vector simulator written from the property statements."""
import ast
import cmath
import itertools
import math
import os
import random
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
import warnings

warnings.simplefilter("ignore")
import numpy as np

TOL = 1e-7


class Fail(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Fail(msg)


# ---------------------------------------------------------------- numbers
def prod(xs):
    r = 1
    for x in xs:
        r *= int(x)
    return r


def digits(v, dims):
    out = []
    for d in reversed(dims):
        out.append(v % d)
        v //= d
    return out[::-1]


def number(ds, dims):
    v = 0
    for x, d in zip(ds, dims):
        v = v * d + x
    return v


# ---------------------------------------------------------------- ideal gates
def m_x(d, k):
    m = np.zeros((d, d))
    for j in range(d):
        m[(j + k) % d, j] = 1
    return m


def m_z(d):
    return np.diag([cmath.exp(2j * math.pi * j / d) for j in range(d)])


def m_h(d):
    return np.array([[cmath.exp(2j * math.pi * ((j * k) % d) / d) / math.sqrt(d) for k in range(d)] for j in range(d)])


def perm_controlled(dims, controls, target, k):
    """image of every basis number of the block `dims`"""
    n = prod(dims)
    out = np.arange(n)
    for v in range(n):
        ds = digits(v, dims)
        if all(ds[c] == dims[c] - 1 for c in controls):
            ds[target] = (ds[target] + k) % dims[target]
            out[v] = number(ds, dims)
    return out


def m_perm(p):
    m = np.zeros((len(p), len(p)))
    m[p, np.arange(len(p))] = 1
    return m


def cmat(rows):
    """JSON form of a matrix -> ndarray; entries are numbers or [re, im]"""
    m = np.array([[complex(*x) if isinstance(x, list) else x for x in r] for r in rows])
    return m


def jmat(m):
    m = np.asarray(m)
    if np.iscomplexobj(m):
        return [[[float(x.real), float(x.imag)] for x in r] for r in m]
    return [[float(x) for x in r] for r in m]


def span(op):
    if op[0] in ("x", "h", "z"):
        return [op[1]]
    if op[0] == "cx":
        return list(range(min(op[1], op[2]), max(op[1], op[2]) + 1))
    if op[0] == "tof":
        r = list(op[1]) + [op[2]]
        return list(range(min(r), max(r) + 1))
    if op[0] == "g":
        return list(op[1])
    raise ValueError(op)


def op_matrix(op, dims):
    """matrix on the span of op"""
    sp = span(op)
    lo = sp[0]
    sd = [dims[i] for i in sp]
    if op[0] == "x":
        return m_x(sd[0], 1 if op[2] is None else op[2])
    if op[0] == "z":
        return m_z(sd[0])
    if op[0] == "h":
        return m_h(sd[0])
    if op[0] == "cx":
        return m_perm(perm_controlled(sd, [op[1] - lo], op[2] - lo, op[3]))
    if op[0] == "tof":
        k = 1 if op[3] is None else op[3]
        return m_perm(perm_controlled(sd, [c - lo for c in op[1]], op[2] - lo, k))
    if op[0] == "g":
        return cmat(op[2])
    raise ValueError(op)


def apply(state, op, dims):
    sp = span(op)
    lo, hi = sp[0], sp[-1]
    a, b, c = prod(dims[:lo]), prod(dims[lo : hi + 1]), prod(dims[hi + 1 :])
    t = state.reshape(a, b, c)
    return np.einsum("ij,ajc->aic", op_matrix(op, dims), t).reshape(-1)


def ideal(dims, init, ops):
    init = list(init) + [0] * (len(dims) - len(init))
    s = np.zeros(prod(dims), dtype=complex)
    s[number(init, dims)] = 1
    for op in ops:
        s = apply(s, op, dims)
    return s


def op_full(op, dims):
    sp = span(op)
    return np.kron(np.kron(np.eye(prod(dims[: sp[0]])), op_matrix(op, dims)), np.eye(prod(dims[sp[-1] + 1 :])))


def dense(m):
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m)


def close(a, b):
    a, b = dense(a), dense(b)
    return a.shape == b.shape and bool(np.allclose(a, b, atol=TOL, rtol=1e-6))


# ---------------------------------------------------------------- the code under test
def Q():
    from qudiet.core import quantum_circuit

    return quantum_circuit


def backend(name):
    if name == "numpy":
        from qudiet.core.backend.NumpyBackend import NumpyBackend as B
    elif name == "sparse":
        from qudiet.core.backend.SparseBackend import SparseBackend as B
    else:
        return None
    return B


def custom(mat):
    from qudiet.circuit_library import ArbitaryGate

    m = cmat(mat)

    class Custom(ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = m

    return Custom


def call(qc, op, scramble=False):
    """the gate call of op; with scramble the caller's lists are changed right after the call"""
    if op[0] == "x":
        return qc.x(op[1]) if op[2] is None else qc.x(op[1], plus=op[2])
    if op[0] == "h":
        return qc.h(op[1])
    if op[0] == "z":
        return qc.z(op[1])
    if op[0] == "cx":
        arg = [op[1], op[2]]
        res = qc.cx(arg, op[3]) if (op[1] + op[2]) % 2 or scramble else qc.cx(acting_on=tuple(arg), plus=op[3])
        need(arg == [op[1], op[2]], "cx changed the list of its caller")
        if scramble:
            arg.reverse()
        return res
    if op[0] == "tof":
        arg = list(op[1])
        res = qc.toffoli((arg, op[2])) if op[3] is None else qc.toffoli((arg, op[2]), op[3])
        need(arg == op[1], "toffoli changed the list of its caller")
        if scramble:
            arg[0] = op[2]
        return res
    if op[0] == "g":
        r = op[1]
        arg = list(r)
        res = qc.gate(custom(op[2]), r[0] if len(r) == 1 else arg)
        need(arg == r, "gate changed the list of its caller")
        if scramble:
            arg.reverse()
        return res
    raise ValueError(op)


def out_raw(dims, method="amplitude"):
    from qudiet.core.output import Output, OutputMethod, OutputType

    return Output(list(dims), OutputType.state, getattr(OutputMethod, method))


def build(dims, init, ops, be="sparse", measure=True, raw=True, method="amplitude"):
    kw = dict(qregs=list(dims), init_states=list(init), backend=backend(be))
    if raw:
        kw["output"] = out_raw(dims, method)
    qc = Q().QuantumCircuit(**kw)
    for op in ops:
        call(qc, op)
    if measure:
        qc.measure_all()
    return qc


def vector(result, dims):
    """list of one-entry dicts {digits: value} -> dense vector (checks the shape of the result)"""
    v = np.zeros(prod(dims), dtype=complex)
    seen = set()
    for e in result:
        need(isinstance(e, dict) and len(e) == 1, f"entry {e!r} of the result is not a one-entry mapping")
        ((lab, val),) = e.items()
        need(isinstance(lab, tuple) and len(lab) == len(dims), f"label {lab!r} does not have one digit per register of {dims}")
        need(all(0 <= int(x) < d for x, d in zip(lab, dims)), f"label {lab!r} has a digit outside {dims}")
        need(lab not in seen, f"label {lab!r} listed twice")
        seen.add(lab)
        v[number([int(x) for x in lab], dims)] = val
    return v


KINDS = ("HGate", "XGate", "ZGate", "CXGate", "Toffoli")


def kind(g):
    names = [c.__name__ for c in type(g).__mro__]
    for k in KINDS + ("IGate", "Measurement", "InitState"):
        if k in names:
            return k
    if "ArbitaryGate" in names:
        return "ArbitaryGate"
    return type(g).__name__


OPKIND = {"x": "XGate", "h": "HGate", "z": "ZGate", "cx": "CXGate", "tof": "Toffoli", "g": "ArbitaryGate"}


def regs(g):
    """registers a layer entry covers, from its public acting_on (InitState: its register)"""
    k = kind(g)
    if k == "InitState":
        return [g.qreg]
    a = g.acting_on
    if k == "Toffoli":
        a = list(a[0]) + [a[1]]
    if isinstance(a, (int, np.integer)):
        return [int(a)]
    a = [int(x) for x in a]
    return list(range(min(a), max(a) + 1))


def target_regs(g):
    """(controls, target) / registers, order-sensitive"""
    k = kind(g)
    a = g.acting_on
    if k == "Toffoli":
        return (tuple(sorted(set(int(x) for x in a[0]))), int(a[1]))
    if isinstance(a, (int, np.integer)):
        return (int(a),)
    return tuple(int(x) for x in a)


def op_target(op):
    if op[0] == "tof":
        return (tuple(sorted(set(op[1]))), op[2])
    if op[0] == "cx":
        return (op[1], op[2])
    if op[0] == "g":
        return tuple(op[1])
    return (op[1],)


def layers(qc):
    """gate layers: without the initial one and without the measurement"""
    ls = [m.peek_list() for m in qc.op_flow.peek()]
    out = ls[1:]
    if out and any(kind(g) == "Measurement" for g in out[-1]):
        out = out[:-1]
    return out


def signature(qc):
    sig = []
    for m in qc.op_flow.peek():
        row = []
        for g in m.peek_list():
            k = kind(g)
            u = None
            if k not in ("Measurement",):
                try:
                    d = dense(g.unitary)
                    u = (d.shape, np.round(d, 6).tobytes()) if d.size < 70000 else d.shape
                except Exception as e:  # noqa: BLE001
                    u = type(e).__name__
            row.append((k, tuple(regs(g)), target_regs(g) if k != "InitState" else g.qreg, u))
        sig.append(tuple(row))
    return sig


def light_signature(qc):
    return [tuple((kind(g), target_regs(g) if kind(g) != "InitState" else g.qreg) for g in m.peek_list()) for m in qc.op_flow.peek()]


def check_tiling(qc, n):
    for i, m in enumerate(qc.op_flow.peek()):
        cov = [r for g in m.peek_list() for r in regs(g)]
        need(cov == list(range(n)), f"layer {i} covers the registers {cov} instead of 0..{n - 1} once each in order")


# ---------------------------------------------------------------- generators
_consts = None


def consts():
    """integer literals of the current sources: values a special case may be keyed on"""
    global _consts
    if _consts is None:
        s = set()
        for root, _, names in os.walk(os.path.join(REPO, "src", "qudiet")):
            for n in names:
                if n.endswith(".py"):
                    try:
                        with open(os.path.join(root, n)) as f:
                            t = ast.parse(f.read())
                    except Exception:
                        continue
                    for x in ast.walk(t):
                        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                            v = x.value
                            if v == int(v) and abs(v) < 10**7:
                                s.add(int(v))
        _consts = sorted(s)
    return _consts


def near(lo, hi):
    """literals and neighbours in [lo, hi]"""
    return sorted({v for c in consts() for v in (c - 1, c, c + 1, 2 * c) if lo <= v <= hi})


def rdims(rng, n=None, maxprod=64, maxd=5, maxn=5):
    """n dimensions (a fresh length if None), their product at most maxprod where n allows it"""
    if n is None:
        n = rng.randint(1, maxn)
        while 2**n > maxprod:
            n -= 1
    ds = [rng.choice([2, 2, 3, 3, 4, rng.randint(2, maxd)]) for _ in range(n)]
    while prod(ds) > maxprod and max(ds) > 2:
        i = rng.choice([i for i, d in enumerate(ds) if d > 2])
        ds[i] = rng.randint(2, ds[i] - 1)
    return ds


def rplus(rng, d):
    r = rng.random()
    if r < 0.45:
        return 1
    if r < 0.75:
        return rng.randint(0, d - 1)
    if r < 0.9:
        return rng.randint(-2 * d, 2 * d + 1)
    return rng.choice(near(-400, 400) + [-1, d, 2 * d])


def runitary(rng, d):
    """Haar-random, real, near the identity (angles down to 1e-6), permutation with phases, or with entries of equal modulus"""
    r = np.random.RandomState(rng.randrange(2**31))
    a = r.randn(d, d) + 1j * r.randn(d, d)
    k = rng.randrange(8)
    if k == 3:
        a = a.real + 0j
    if k in (4, 5):
        h = (a + a.conj().T) / 2
        if k == 5:
            h = 1j * (a.real - a.real.T)
        w, v = np.linalg.eigh(h)
        u = v @ np.diag(np.exp(1j * rng.choice([1e-2, 1e-4, 1e-5, 1e-6]) * w)) @ v.conj().T
        return u.real + 0j if k == 5 else u
    if k == 6:
        u = np.zeros((d, d), dtype=complex)
        p = list(range(d))
        rng.shuffle(p)
        for i in range(d):
            u[p[i], i] = 1j ** rng.randrange(4)
        return u
    if k == 7:
        j = np.arange(d)
        u = np.exp(2j * np.pi * np.outer(j, j) / d) / np.sqrt(d)
        return np.diag(np.exp(0.25j * np.pi * r.randint(0, 8, d))) @ u
    q, t = np.linalg.qr(a)
    return q * (np.diag(t) / abs(np.diag(t)))


def rspoiled(rng, d):
    """a d x d matrix that is not unitary: (matrix, kind)"""
    u = runitary(rng, d).astype(complex)
    kinds = ["scaled", "entry", "tiny", "zero"] + (["orth", "rows", "cols", "swap", "phase"] if d > 1 else [])
    k = rng.choice(kinds)
    if k == "scaled":
        u = u * rng.choice([0.5, 2, 1.01, 0.99])
    elif k == "entry":
        i, j = rng.randrange(d), rng.randrange(d)
        u[i, j] += rng.choice([1, 0.1, 0.02j, -0.5])
    elif k == "tiny":
        u[:, rng.randrange(d)] *= 1.004
    elif k == "zero":
        u = np.zeros((d, d), dtype=complex)
        u[0, :] = 1 / np.sqrt(d)
        if d == 1:
            u[0, 0] = 0.5
    elif k == "orth":
        t = rng.choice([0.3, 1.0, 2.0])
        u = np.eye(d, dtype=complex)
        u[0, 0] = u[1, 1] = np.cosh(t)
        u[0, 1], u[1, 0] = 1j * np.sinh(t), -1j * np.sinh(t)
    elif k in ("rows", "cols"):
        r = np.random.RandomState(rng.randrange(2**31))
        u = r.randn(d, d) + 1j * r.randn(d, d)
        u = u / np.linalg.norm(u, axis=1 if k == "rows" else 0, keepdims=True)
    elif k == "swap":
        u[0] = u[1]
    elif k == "phase":
        u = np.exp(2j * np.pi * np.random.RandomState(rng.randrange(2**31)).rand(d, d)) / np.sqrt(d)
    if np.allclose(u @ u.conj().T, np.eye(d), atol=1e-4):
        return u * 1.5, "scaled"
    return u, k


def rop(rng, dims, kinds=("x", "h", "z", "cx", "tof", "g"), maxblock=200):
    n = len(dims)
    while True:
        k = rng.choice(kinds)
        q = rng.randrange(n)
        if k == "x":
            return ["x", q, rng.choice([None, rplus(rng, dims[q])])]
        if k in ("h", "z"):
            return [k, q]
        if k == "cx" and n >= 2:
            c, t = rng.sample(range(n), 2)
            if prod(dims[min(c, t) : max(c, t) + 1]) <= maxblock:
                return ["cx", c, t, rplus(rng, dims[t])]
        if k == "tof" and n >= 2:
            rs = rng.sample(range(n), rng.randint(2, min(n, 4)))
            if prod(dims[min(rs) : max(rs) + 1]) <= maxblock:
                return ["tof", rs[:-1], rs[-1], rng.choice([None, rplus(rng, dims[rs[-1]])])]
        if k == "g":
            if n >= 2 and rng.random() < 0.4:
                q = rng.randrange(n - 1)
                if dims[q] * dims[q + 1] <= 16:
                    return ["g", [q, q + 1], jmat(runitary(rng, dims[q] * dims[q + 1]))]
            return ["g", [q], jmat(runitary(rng, dims[q]))]


def rlevels(rng, dims):
    return [rng.choice([0, d - 1, rng.randrange(d)]) for d in dims]


def two_regs(maxn):
    for n in range(2, maxn + 1):
        for c in range(n):
            for t in range(n):
                if c != t:
                    yield n, c, t

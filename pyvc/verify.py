"""python -m pyvc.verify C05 [--seed N] [--thorough] [--task name] [--trace]

Generates the obligations of one property from the current source of the repository and discharges them.
The last line of the output is a JSON object."""
import argparse
import ctypes
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import textwrap
import time
import traceback

import z3

from .core import *
from .values import *
from .interp import Interp, Module, Program

ROOT = os.environ.get("VERIF_REPO", "/repo")


class Task:
    """one run of real code under its contract.  body(v) builds the inputs, calls the code and states the obligations"""

    def __init__(self, name, body, functions=(), contracts=None, budget=150.0, assume=(), prove_ms=8000, branch_ms=900):
        self.name, self.body, self.functions, self.contracts = name, body, list(functions), contracts or {}
        self.budget, self.assume = budget, list(assume)
        self.prove_ms, self.branch_ms = prove_ms, branch_ms


class View:
    """what a task body works with"""

    gate_only = False

    def __init__(self, task, thorough=False, seed=1):
        self.task = task
        self.eng = Eng(budget=task.budget * (4 if thorough else 1), prove_ms=task.prove_ms * (3 if thorough else 1), branch_ms=task.branch_ms)
        self.prog = Program(ROOT)
        self.it = Interp(self.prog, self.eng, task.contracts)
        self.seed = seed
        self.cases = None

    def cls(self, dotted):
        v = self.prog.find(dotted)
        if v is None:
            raise Missing(dotted)
        return v

    fn = cls

    def int(self, name):
        return z3.Int(name)

    def assume(self, f):
        self.eng.pc(f)

    def ob(self, name, f):
        """obligation; its case function turns a counter-model into an input for the real code"""
        ok = self.eng.oblige(f"{self.task.name}: {name}", f)
        o = self.eng.obligations[-1]
        m = o.pop("model_obj", None)
        if m is not None:
            o["model"] = model_text(m)
            if self.cases:
                try:
                    o["cases"] = [c for c in self.cases(m) if c is not None]
                except Exception:  # noqa: BLE001
                    pass
        return ok

    def client(self, text, name="client"):
        """the function `name` of a small program that uses the code under contract"""
        m = Module(self.prog, "client", "client.py", textwrap.dedent(text))
        return m.get(name)

    def call(self, f, *args, **kw):
        return self.it.call(f, list(args), kw)

    def get(self, o, name):
        return self.it.getattr(o, name)

    def same(self, a, b):
        return self.it.lib.same(self.it.force(a), self.it.force(b))

    def items(self, x, n):
        x = self.it.force(x)
        if not isinstance(x, (TupleV, ListV)):
            self.ob(f"a sequence of {n}", False)
            raise Infeasible()
        r = x.seq.concrete()
        if r is None or len(r) != n:
            self.ob(f"a sequence of {n}", eq(x.seq.length(), n))
            return [self.it.at(x.seq, k) for k in range(n)]
        return [self.it.force(y) for y in r]

    def raises(self, thunk):
        """(exception name or None, result)"""
        try:
            return None, thunk()
        except PyRaise as e:
            return e.exc, None


class Missing(Exception):
    pass


def model_text(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0 and "!" not in d.name():
            out[d.name()] = str(m[d])
    return json.dumps(out)[:600]


def run_task(task, thorough, seed):
    t = time.time()
    try:
        v = View(task, thorough, seed)
    except Exception as e:  # noqa: BLE001
        return dict(obligations=[dict(name=f"{task.name}: reading the source", status="unknown", reason=repr(e), backend="-", time=0)], inlined=[], used=[], trusted=[], solver_s=0, ends=0)
    eng = v.eng
    ends = [0]
    out = [None]
    errs = []

    def fork():
        """True in a new process; False here, once the new one has ended and its results are in"""
        sys.stdout.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            with_parent()
            os.close(r)
            out[0] = w
            eng.obligations, eng.solver_s, ends[0], errs[:] = [], 0, 0, []
            return True
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            d = pickle.loads(data)
        except Exception:  # noqa: BLE001
            errs.append("internal: the process of one path ended early")
            return False
        eng.obligations.extend(d["obligations"])
        eng.trusted |= d["trusted"]
        v.it.inlined |= d["inlined"]
        v.it.used |= d["used"]
        eng.solver_s += d["solver_s"]
        ends[0] += d["ends"]
        errs.extend(d["errs"])
        if time.time() > eng.deadline:
            raise Giveup("time budget of the function used up")
        return False

    if hasattr(os, "fork"):
        eng.fork = fork

    def thunk():
        # each path starts afresh
        v.it.contracts = dict(task.contracts)
        eng.split_points, eng.points, eng.on_first = [], [], []
        eng.on_allclose = None
        v.cases = None
        try:
            r = task.body(v)
        except PyRaise as e:
            # an exception the contract does not allow
            if not eng.oblige(f"{task.name}: no exception ({e.exc} {e.msg[:80]})", False):
                o = eng.obligations[-1]
                m = o.pop("model_obj", None)
                if m is not None:
                    o["model"] = model_text(m)
                    if v.cases:
                        try:
                            o["cases"] = [c for c in v.cases(m) if c is not None]
                        except Exception:  # noqa: BLE001
                            pass
            return None
        if eng.check(quick=True) != z3.unsat:
            ends[0] += 1
        return r

    err = None
    try:
        paths = eng.explore(thunk)
        bad = [p for p in paths if p.kind not in ("ok",)]
        if bad:
            err = f"{bad[0].kind}: {bad[0].value}"
    except Unsupported as e:
        err = f"outside the verified subset: {e}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except Giveup as e:
        err = f"gave up: {e}"
    except Missing as e:
        err = f"not found in the source: {e}"
    except z3.Z3Exception as e:
        err = f"z3: {e}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except RecursionError:
        err = "recursion"
    except Exception as e:  # noqa: BLE001
        err = f"internal: {type(e).__name__}: {e}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    if err:
        errs.append(err)
    if out[0] is not None:
        for o in eng.obligations:
            o.pop("model_obj", None)
        try:
            with os.fdopen(out[0], "wb") as f:
                f.write(pickle.dumps(dict(obligations=eng.obligations, trusted=set(eng.trusted), inlined=set(v.it.inlined), used=set(v.it.used), solver_s=eng.solver_s, ends=ends[0], errs=errs)))
        finally:
            os._exit(0)
    obs = merge(eng.obligations)
    errs = [e for e in errs if e]
    if not errs and not ends[0]:
        errs = ["vacuous: no path reaches the end"]
    if errs:
        err = errs[0]
        obs.append(dict(name=f"{task.name}: every path", status="unknown", reason=err, backend="-", time=0))
    return dict(obligations=obs, inlined=sorted(v.it.inlined), used=sorted(v.it.used), trusted=sorted(eng.trusted), solver_s=round(eng.solver_s, 2), ends=ends[0], wall=round(time.time() - t, 2))


def with_parent():
    """ends with the process that started this one"""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:  # noqa: BLE001
        pass


def merge(obs):
    """one entry per obligation name: the worst result over the paths"""
    rank = {"discharged": 0, "unknown": 1, "refuted": 2}
    out = {}
    for o in obs:
        o.pop("model_obj", None)
        q = out.get(o["name"])
        if q is None:
            o["paths"] = 1
            out[o["name"]] = o
        else:
            n, t, cs = q["paths"] + 1, q["time"] + o["time"], q.get("cases", []) + o.get("cases", [])
            w = o if rank[o["status"]] > rank[q["status"]] else q
            w["paths"], w["time"] = n, round(t, 3)
            if cs:
                w["cases"] = cs[:6]
            out[o["name"]] = w
    return list(out.values())


def worker(args):
    pid, name, thorough, seed = args
    sys.setrecursionlimit(20000)
    z3.set_param("smt.random_seed", seed)
    task = next(t for t in load(pid) if t.name == name)
    r = run_task(task, thorough, seed)
    r["name"] = name
    return r


def load(pid):
    return importlib.import_module(f"pyvc.specs.{pid.lower()}").tasks()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--task")
    ap.add_argument("--only", help="file with a JSON list of names of tasks")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    only = json.load(open(a.only)) if a.only else None
    tasks = [t for t in load(a.pid) if (not a.task or a.task in t.name) and (only is None or t.name in only)]
    t0 = time.time()
    jobs = [(a.pid, t.name, a.thorough, a.seed) for t in tasks]
    res = []
    if len(jobs) == 1 or os.environ.get("PYVC_TRACE"):
        res = [worker(j) for j in jobs]
    else:
        with mp.get_context("spawn").Pool(min(7, len(jobs)), maxtasksperchild=1) as pool:
            hs = [pool.apply_async(worker, (j,)) for j in jobs]
            for j, h in zip(jobs, hs):
                try:
                    t = next(t for t in tasks if t.name == j[1])
                    res.append(h.get(t.budget * (4 if a.thorough else 1) + 60))
                except mp.TimeoutError:
                    res.append(dict(name=j[1], obligations=[dict(name=f"{j[1]}: every path", status="unknown", reason="no answer in time", backend="-", time=0)], inlined=[], used=[], trusted=[], solver_s=0, ends=0))
            pool.terminate()
    obs = [o for r in res for o in r["obligations"]]
    backends = {}
    for r in res:
        for o in r["obligations"]:
            o["task"] = r["name"]
    for o in obs:
        if o["status"] == "discharged":
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    fns = sorted({f for t in tasks for f in t.functions})
    out = dict(
        obligations=obs,
        functions=fns,
        inlined=sorted({f for r in res for f in r["inlined"]} - set(fns)),
        trusted=sorted({f for r in res for f in r["trusted"]}),
        assumptions=sorted({x for t in tasks for x in t.assume}),
        backends=backends,
        solver_s=round(sum(r["solver_s"] for r in res), 2),
        vacuity=dict(tasks=len(tasks), paths_to_the_end=sum(r["ends"] for r in res), every_task_reaches_its_end=all(r["ends"] > 0 for r in res)),
        status="complete" if all(o["status"] == "discharged" for o in obs) else "incomplete",
        wall_s=round(time.time() - t0, 2),
    )
    if a.verbose:
        for r in res:
            print(r["name"], "paths", r["ends"], "solver", r["solver_s"], "wall", r.get("wall"))
        for o in obs:
            print(f"  {o['status']:10} {o['backend']:10} {o['time']:7} {o['name']}", o.get("reason", "")[:300] if o["status"] != "discharged" else "", (o.get("model") or "")[:200], o.get("cases", ""))
    print(json.dumps(out))


if __name__ == "__main__":
    main()

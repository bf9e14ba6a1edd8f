#!/usr/bin/env python3
"""Decides one property of /repo's current source:  python3 run_check.py C05

1. pyvc (contracts + VC generator over the parsed /repo source) generates and discharges the obligations
   of the property.
2. The real code is run against the run-time form of the same contracts: on the solver's counter-models, on
   the recorded corner cases and on a bounded sample.  An obligation that is not discharged gets a longer one.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the checker itself failed."""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/bin/python"
RT = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(tempfile.gettempdir(), "verif-mpl"))
ENV.pop("PYTHONPATH", None)
for k in ("CUDA_HOME", "CUDA_PATH", "CUDA_VERSION", "CUDNN_VERSION", "COLAB_GPU"):
    ENV.pop(k, None)

sys.path.insert(0, HERE)
import registry


def start(cmd, limit):
    """command in its own process group, output to a temporary file"""
    f = tempfile.TemporaryFile()
    e = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=f, stderr=e, env=ENV, cwd=HERE, start_new_session=True)
    return p, f, e, time.time() + limit


def finish(h):
    p, f, e, end = h
    try:
        p.wait(max(0.1, end - time.time()))
        ok = True
    except subprocess.TimeoutExpired:
        ok = False
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    f.seek(0)
    e.seek(0)
    out, err = f.read().decode(errors="replace"), e.read().decode(errors="replace")
    try:
        d = json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        d = None
    return ok, d, err


def search(pid, budget, seed, deep=False, cases=None):
    cmd = [RT, "replay/worker.py", "search", pid, "--budget", str(budget), "--seed", str(seed)]
    if deep:
        cmd.append("--deep")
    if cases:
        cmd += ["--cases", cases]
    return start(cmd, budget + 200)


def timed_out(o):
    """no verdict for want of time: says nothing about the code"""
    r = str(o.get("reason"))
    return o["status"] != "refuted" and (r.startswith(("gave up", "no answer in time", "the verifier gave no answer")) or o.get("backend") == "lean")


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    spec = registry.PROPERTIES[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    errors, assumptions = [], list(registry.ASSUMPTIONS)

    # -- the verifier and, beside it, the bounded run of the real code
    ver = start([VT, "-m", "pyvc.verify", pid, "--seed", str(seed)] + (["--thorough"] if thorough else []), 600 if thorough else 300) if spec["tasks"] else None
    s1 = search(pid, 150 if thorough else spec.get("budget", 12), seed, thorough)
    lemmas = None
    if spec.get("lean"):
        lemmas = [(name, start(["lean", f"lemmas/{name}.lean"], 400)) for name in spec["lean"]]
    obligations, failed = [], []
    vinfo = {}
    if ver:
        ok, d, err = finish(ver)
        if d is None:
            vinfo = {"status": "the verifier gave no answer" + ("" if ok else " in time"), "stderr": err[-2000:]}
            print("verifier: " + vinfo["status"], err[-600:], file=sys.stderr)
            failed.append({"name": f"{pid}:verifier", "status": "unknown", "reason": vinfo["status"]})
        else:
            vinfo = d
            obligations = d["obligations"]
            failed = [o for o in obligations if o["status"] != "discharged"]
    if lemmas:
        for name, h in lemmas:
            ok, d, err = finish(h)
            h[1].seek(0)
            txt = h[1].read().decode(errors="replace")
            good = ok and h[0].returncode == 0 and "error" not in txt and "sorry" not in txt
            obligations.append({"name": f"lemma file {name}.lean", "status": "discharged" if good else "unknown", "backend": "lean", "time": 0, "reason": txt[-500:]})
            if not good:
                failed.append(obligations[-1])
    runs = []
    ok, d, err = finish(s1)
    if d is None:
        print(f"bounded run crashed: {err[-2000:]}", file=sys.stderr)
        return 2
    runs.append(d)
    # -- undischarged obligations: the same with more time, and beside it a longer search, counter-models first
    if failed and not d.get("violation"):
        again = sorted({o["task"] for o in failed if o.get("task") and not timed_out(o)})
        h2 = names = None
        if again:
            names = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
            json.dump(again, names)
            names.close()
            h2 = start([VT, "-m", "pyvc.verify", pid, "--seed", str(seed + 1), "--only", names.name, "--thorough"], 420)
        cases = [c for o in failed for c in o.get("cases", [])]
        cf = None
        if cases:
            cf = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
            json.dump(cases, cf)
            cf.close()
        hs = [search(pid, 150 if thorough else 60, seed * 100 + k, k % 2 == 1, cf.name if cf and k == 0 else None) for k in range(4)]
        for h in hs:
            ok, d, err = finish(h)
            if d is not None:
                runs.append(d)
        if cf:
            os.unlink(cf.name)
        if h2:
            if any(r.get("violation") for r in runs):
                h2 = (*h2[:3], 0)
            ok, d, err = finish(h2)
            os.unlink(names.name)
            if d is not None:
                obligations = [o for o in obligations if o.get("task") not in again] + d["obligations"]
            elif not any(r.get("violation") for r in runs):
                for o in failed:
                    o["reason"] = "gave up: no answer in time; before: " + str(o.get("reason"))
            failed = [o for o in obligations if o["status"] != "discharged"]
    viol = next((r["violation"] for r in runs if r.get("violation")), None)
    for r in runs:
        if r.get("error"):
            errors.append(r["error"])
    # -- verdict
    known = registry.known_findings(pid)
    lines, status = [], 0
    rp = os.path.join(HERE, "replays", f"{pid}.json")
    open_ = [o for o in failed if not timed_out(o)]
    open_.sort(key=lambda o: o["status"] != "refuted")
    if viol:
        names = [o["name"] for o in failed]
        json.dump({"property": pid, "case": viol["case"], "message": viol["message"], "obligations": names, "how": f"{RT} /verif/replay/worker.py replay {rp}"}, open(rp, "w"), indent=1)
        hit = next((k for k in known if k["case"] == viol["case"]), None)
        if hit:
            lines.append(f"KNOWN-FINDING: property={pid} {hit['what']}")
        else:
            status = 1
            if names:
                print(f"obligation that fails: {names[0]}")
            print(f"failing input: {json.dumps(viol['case'])[:600]}\n  {viol['message'][:600]}")
            lines.append(f"VIOLATION property={pid} replay={rp}")
    elif open_:
        o = open_[0]
        out = [{k: x.get(k) for k in ("name", "status", "reason", "model", "backend")} for x in open_[:40]]
        json.dump({"property": pid, "case": None, "obligation": o["name"], "model": o.get("model"), "verifier_output": out}, open(rp, "w"), indent=1)
        print(f"obligation {o['name']} fails ({o['status']}: {str(o.get('reason'))[:300]}) {str(o.get('model') or '')[:600]}")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        status = 1
    # -- evidence
    dis = [o for o in obligations if o["status"] == "discharged"]
    ev = sum(r["evaluations"] for r in runs)
    cov = {
        "evaluations": ev,
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
        "rule": runs[0]["rule"],
        "samples": [s for r in runs for s in r["samples"]][:4],
    }
    if spec["tasks"]:
        cov.update(
            obligations=len(obligations),
            discharged=len(dis),
            checker_cmd=f"cd /verif && {VT} -m pyvc.verify {pid}",
            trusted_base=registry.TRUSTED + vinfo.get("trusted", []),
            functions_under_contract=vinfo.get("functions", []),
            inlined_functions=vinfo.get("inlined", []),
            undischarged=[{k: o.get(k) for k in ("name", "status", "reason")} for o in failed][:20],
            obligation_list=[{k: o.get(k) for k in ("name", "status", "backend", "time")} for o in obligations],
            backends=vinfo.get("backends", {}),
            solver_seconds=vinfo.get("solver_s"),
            vacuity=vinfo.get("vacuity"),
            verifier_note=vinfo.get("status"),
        )
        if spec.get("bounded_parts"):
            cov["bounded_parts"] = spec["bounded_parts"]
    if spec["level"] == "other":
        cov["explanation"] = spec["note"]
    if errors:
        cov["harness_errors"] = errors
    json.dump(
        {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec["level"], "coverage": cov, "assumptions": assumptions + vinfo.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": status},
        open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"),
        indent=1,
    )
    if errors and status == 0:
        print(errors[0], file=sys.stderr)
        return 2
    print(f"{pid}: {len(dis)}/{len(obligations)} obligations discharged, {ev} runs of the real code, {time.time() - t0:.1f} s")
    for o in failed[:5]:
        print(f"  not discharged: {o['name']} ({o['status']}: {str(o.get('reason'))[:200]})")
    for l in lines:
        print(l)
    return status


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        code = 2
    sys.exit(code)

"""Runs the real code of /repo against the run-time form of the contracts.

  worker.py search PROP --budget S --seed N [--deep] [--cases FILE]   -> JSON on stdout
  worker.py replay FILE                                              -> exit 1 if the case still fails
"""
import argparse
import contextlib
import io
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Fail
import random


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


def run_case(P, case, limit=90):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            P.check(case)
        return None
    except Fail as e:
        return str(e)
    except Hang:
        return f"no answer within {limit} s"
    except RecursionError as e:
        return f"RecursionError: {e}"
    except MemoryError:
        return None
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, common.REPO)}:{f.lineno} in {f.name}" for f in tb if f.filename.startswith(common.REPO + "/")]
        return f"raised {type(e).__name__}: {e}" + (f" at {where[-1]}" if where else " (in the oracle)")
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["search", "replay"])
    ap.add_argument("what")
    ap.add_argument("--budget", type=float, default=5)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--deep", action="store_true")
    ap.add_argument("--cases")
    a = ap.parse_args()
    import props

    if a.mode == "replay":
        d = json.load(open(a.what))
        if "case" not in d or d["case"] is None:
            print("no failing input recorded; obligation:", d.get("obligation"))
            return 2
        r = run_case(props.PROPS[d["property"]], d["case"])
        print("property", d["property"], "case", json.dumps(d["case"])[:2000])
        print("FAILS: " + r if r else "passes")
        return 1 if r else 0
    P = props.PROPS[a.what]
    rng = random.Random(a.seed * 7919 + 13)
    import numpy as np

    np.random.seed(a.seed % 2**31)
    out = dict(evaluations=0, distinct_nontrivial=0, rule=P.rule, samples=[], violation=None)
    seen = set()
    t0 = time.time()

    def one(case):
        msg = run_case(P, case)
        out["evaluations"] += 1
        key = json.dumps(case, sort_keys=True)
        if len(key) < 5000 and not P.trivial(case):
            seen.add(hash(key))
        if len(out["samples"]) < 3 and not P.trivial(case) and len(key) < 600:
            out["samples"].append(case)
        if msg:
            out["violation"] = dict(case=case, message=msg)
        return msg

    try:
        if a.cases:
            for case in json.load(open(a.cases)):
                if one(case):
                    break
        if not out["violation"]:
            for case in P.gen(rng, a.deep):
                if one(case):
                    break
                if time.time() - t0 > a.budget:
                    break
    except Exception:  # noqa: BLE001
        out["error"] = traceback.format_exc()
    out["distinct_nontrivial"] = len(seen)
    out["wall_s"] = round(time.time() - t0, 2)
    print(json.dumps(out))
    return 0


if __name__ == "__main__":
    sys.exit(main())

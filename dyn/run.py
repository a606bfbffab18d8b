"""Cross-check of one property on the real code (run under /opt/venv/bin/python).

usage: run.py PROP --seed N --tier quick|thorough --budget SECONDS --out FILE
       run.py --replay FILE
Each scenario is a function of a seeded random generator and a log mapping; it
raises when the real code breaks the property.
"""
import argparse
import faulthandler
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
import zlib

os.environ.setdefault("TQDM_DISABLE", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

CASE_TIMEOUT = 90


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def scenarios(prop):
    mod = importlib.import_module(prop.lower())
    return {n[3:]: f for n, f in vars(mod).items() if n.startswith("sc_")}, mod


def run_case(prop, name, seed, fns):
    import numpy as np
    r = random.Random(f"{prop}/{name}/{seed}")
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    log = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        fns[name](r, log)
        return log, None
    except CaseTimeout:
        return log, "no answer within %d s" % CASE_TIMEOUT
    except BaseException as e:  # noqa
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        if type(e).__name__ == "Violation":
            return log, str(e)
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-4:]))
        return log, f"raised {type(e).__name__}: {e} at {where}"
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=25)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        fns, _ = scenarios(d["property"])
        log, err = run_case(d["property"], d["scenario"], d["case_seed"], fns)
        print(json.dumps(log, indent=1, default=repr)[:6000])
        print("VIOLATES" if err else "HOLDS", err or "")
        sys.exit(1 if err else 0)
    t0 = time.time()
    fns, mod = scenarios(a.prop)
    weights = getattr(mod, "COUNTS", {})
    mult = 3 if a.tier == "quick" else 60
    todo = {n: weights.get(n, 150) * mult for n in fns if not a.only or n == a.only}
    done = dict.fromkeys(todo, 0)
    hashes, samples, failures = set(), [], []
    nontrivial = 0
    times = dict.fromkeys(todo, 0.0)
    while any(done[n] < todo[n] for n in todo) and len(failures) < 3:
        if time.time() - t0 > a.budget and all(done[n] > 0 for n in todo):
            break
        # fairness: the scenario that is proportionally furthest behind
        n = min((n for n in todo if done[n] < todo[n]), key=lambda n: done[n] / todo[n])
        seed = a.seed * 1000003 + done[n]
        s = time.time()
        log, err = run_case(a.prop, n, seed, fns)
        times[n] += time.time() - s
        done[n] += 1
        text = json.dumps([n, log], default=repr, sort_keys=True)
        h = zlib.crc32(text.encode())
        if h not in hashes and not log.get("trivial"):
            hashes.add(h)
            nontrivial += 1
        if len(samples) < 2 * len(todo) and done[n] <= 2:
            samples.append({"scenario": n, "case": json.loads(json.dumps(log, default=repr))})
        if err:
            failures.append({"property": a.prop, "scenario": n, "case_seed": seed, "message": err,
                             "input": json.loads(json.dumps(log, default=repr))})
    known = []
    for fn in getattr(mod, "KNOWN", []):
        # each returns (id, still_fails: bool, text)
        known.append(fn())
    res = {"evaluations": sum(done.values()), "distinct_nontrivial": nontrivial, "per_scenario": done,
           "seconds": {k: round(v, 2) for k, v in times.items()},
           "samples": samples[:12], "failures": failures, "known": known,
           "rule": getattr(mod, "RULE", ""), "wall_s": round(time.time() - t0, 2)}
    if a.out:
        json.dump(res, open(a.out, "w"), default=repr)
    else:
        print(json.dumps({k: v for k, v in res.items() if k != "samples"}, indent=1, default=repr))
    sys.exit(1 if failures else 0)


if __name__ == "__main__":
    faulthandler.enable()
    main()

"""Verify the units of one property against the current source of /repo.

usage: verify.py PROP --out FILE [--budget S] [--jobs N] [--cross]
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def job(a):
    k, budget, cross = a
    import speclib
    un = dict(speclib.UNITS[k])
    un["budget"] = min(un["budget"], budget) if budget else un["budget"]
    return k, speclib.run_unit(un, cross=cross)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--total", type=float, default=400)
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--cross", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    import speclib
    try:
        importlib.import_module("specs." + a.prop.lower())
    except ModuleNotFoundError as e:
        if "specs." not in str(e):
            raise
    todo = [k for k, u in enumerate(speclib.UNITS) if u["prop"] == a.prop and (not a.only or a.only in u["title"])]
    out = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(min(a.jobs, max(1, len(todo))), maxtasksperchild=1) as pool:
        rs = {k: pool.apply_async(job, ((k, a.budget, a.cross),)) for k in todo}
        for k, r in rs.items():
            left = max(1.0, a.total - (time.time() - t0))
            try:
                out[k] = r.get(left)[1]
            except mp.TimeoutError:
                out[k] = {"property": a.prop, "unit": speclib.UNITS[k]["title"], "functions": speclib.UNITS[k]["functions"], "status": "unsupported",
                          "note": "no answer within the time limit", "obligations": [], "wall_s": left}
            except Exception as e:
                out[k] = {"property": a.prop, "unit": speclib.UNITS[k]["title"], "functions": speclib.UNITS[k]["functions"], "status": "unsupported",
                          "note": "verifier error: " + repr(e)[:300], "obligations": [], "wall_s": 0}
        pool.terminate()
    import z3
    res = {"units": [out[k] for k in todo], "wall_s": round(time.time() - t0, 2), "z3": z3.get_version_string()}
    if a.out:
        json.dump(res, open(a.out, "w"))
    else:
        for u in res["units"]:
            c = {}
            for o in u["obligations"]:
                c[o["status"]] = c.get(o["status"], 0) + 1
            print(u["status"], u["unit"], c, u["wall_s"], u["note"][-600:])
            for o in u["obligations"]:
                if o["status"] != "proved":
                    print("     ", o["status"], o["name"], o["detail"][:700])


if __name__ == "__main__":
    main()

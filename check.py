#!/usr/bin/env python3
"""Decide one property on /repo's current source (run with python3-vt).

usage: python3-vt check.py PROP        (VERIF_TIER, VERIF_SEED from the environment)

1. The deductive verifier (vc/) generates and discharges the obligations of the
   property's units from /repo's current source.
2. The same property is exercised on the real code (dyn/): this replays failed
   obligations, supplies the failing input, and is the bounded stand-in for
   functions outside the verifier's reach (never counted as proved).
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = sys.executable


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=os.path.join(REPO, "src"), TQDM_DISABLE="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", VC_REPO=REPO)
    return e


def start(cmd, log):
    return subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, env=env(), cwd=HERE)


def finish(ps, limit):
    end = time.time() + limit
    for p in ps:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()


def load(f):
    try:
        return json.load(open(f))
    except Exception:
        return None


def dyn_shards(prop, seeds, tier, budget, work, tag, only=None):
    ps, outs = [], []
    for s in seeds:
        out = os.path.join(work, f"{prop}-{tag}-{s}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [PY, os.path.join(HERE, "dyn", "run.py"), prop, "--seed", str(s), "--tier", tier, "--budget", str(budget), "--out", out]
        ps.append(start(cmd, out[:-5] + ".log"))
        outs.append(out)
    return ps, outs


def known_findings(prop):
    """ids listed in the committed file: KNOWN-FINDING: property=<id> id=<slug> <text>"""
    ids = {}
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            if line.startswith("KNOWN-FINDING:"):
                w = line.split()
                if w[1] == "property=" + prop:
                    ids[w[2].split("=", 1)[1]] = line.strip()
    except FileNotFoundError:
        pass
    return ids


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    work = os.path.join(HERE, "evidence", "work")
    os.makedirs(work, exist_ok=True)
    thorough = tier == "thorough"
    vout = os.path.join(work, f"{prop}-verify.json")
    if os.path.exists(vout):
        os.remove(vout)
    vcmd = [VT, os.path.join(HERE, "vc", "verify.py"), prop, "--out", vout, "--total", "1800" if thorough else "360",
            "--jobs", "5"] + (["--cross"] if thorough else [])
    pv = start(vcmd, os.path.join(work, f"{prop}-verify.log"))
    nshard = 4
    seeds = [seed * 100 + k for k in range(nshard)]
    ps, outs = dyn_shards(prop, seeds, tier, 900 if thorough else 45, work, "dyn")
    finish(ps, 2400 if thorough else 300)
    finish([pv], 2000 if thorough else 380)
    ver = load(vout)
    units = ver["units"] if ver else []
    runs = [r for r in (load(o) for o in outs) if r]
    failures = [f for r in runs for f in r["failures"]]
    failed_units = [u for u in units if u["status"] == "failed"]
    open_units = [u for u in units if u["status"] != "proved"]
    if not failures and (open_units or not units or not runs):
        # an obligation that is not discharged: look harder for an input that shows a violation on the real code
        more = [seed * 100 + 50 + k for k in range(8)]
        ps, o2 = dyn_shards(prop, more, "thorough", 150, work, "deep")
        finish(ps, 320)
        r2 = [r for r in (load(o) for o in o2) if r]
        runs += r2
        failures = [f for r in r2 for f in r["failures"]]
    broken_run = None
    if not runs:
        # the cross-check could not even start on the real code (import error or crash)
        broken_run = open(outs[0][:-5] + ".log").read()[-3000:]

    listed = known_findings(prop)
    unlisted_known = []
    if runs:
        for k in runs[0]["known"]:
            kid, still, text = k[0], k[1], k[2]
            if still and kid in listed:
                print("KNOWN-FINDING: property=%s id=%s %s" % (prop, kid, text))
            elif still:
                unlisted_known.append({"property": prop, "scenario": "known:" + kid, "case_seed": 0, "message": text, "input": None})
    failures += unlisted_known

    obs = [o for u in units for o in u["obligations"]]
    proved = [o for o in obs if o["status"] == "proved"]
    replay = None
    if failures or failed_units or broken_run:
        replay = os.path.join(HERE, "evidence", f"replay-{prop}.json")
        doc = {"property": prop}
        if failures:
            doc.update(failures[0])
            doc["how_to_replay"] = f"PYTHONPATH={REPO}/src {PY} {HERE}/dyn/run.py --replay {replay}"
            doc["all_failures"] = failures[:5]
        doc["failed_obligations"] = [{"unit": u["unit"], "functions": u["functions"], "obligation": o["name"], "verifier_output": o["detail"]}
                                     for u in failed_units for o in u["obligations"] if o["status"] == "failed"]
        if broken_run:
            doc["message"] = "the real code could not be exercised"
            doc["output"] = broken_run
        json.dump(doc, open(replay, "w"), indent=1, default=repr)

    level = "proof" if units else "exploration"
    bounded = [u for u in units if u["status"] in ("undecided", "unsupported")]
    trusted = sorted({a for u in units for a in u.get("assumed", [])} | {"contract: " + c for u in units for c in u.get("contracts_used", [])})
    base = ["the verifier itself (/verif/vc: symbolic execution of the Python AST read from /repo on this run, loop summaries, contracts of builtins, numpy and library calls in vc/models.py)",
            "z3 " + (ver or {}).get("z3", "?"),
            "Python float and int arithmetic treated as exact real and integer arithmetic"]
    cov = {
        "obligations": len(obs), "discharged": len(proved),
        "checker_cmd": " ".join(vcmd), "trusted_base": base + trusted,
        "units": [{"unit": u["unit"], "status": u["status"], "functions": u["functions"], "inlined_from_repo": u.get("inlined", []),
                   "contracts_used": u.get("contracts_used", []), "obligations": len(u["obligations"]),
                   "discharged": sum(1 for o in u["obligations"] if o["status"] == "proved"),
                   "backends": sorted({o.get("backend") or "z3" for o in u["obligations"]}),
                   "solver_queries": u.get("queries"), "solver_s": u.get("solver_s"), "loops_summarised": u.get("loops"),
                   "cvc5_agrees": u.get("cvc5_agrees"), "cvc5_asked": u.get("cvc5_asked"), "note": (u.get("note") or "")[-400:]} for u in units],
        "functions_under_contract": sorted({f for u in units if u["status"] == "proved" for f in u["functions"]}),
        "solver_s": round(sum(u.get("solver_s") or 0 for u in units), 3),
        "not_discharged_bounded_only": [{"unit": u["unit"], "status": u["status"], "functions": u["functions"], "note": (u.get("note") or "")[-400:]} for u in bounded],
        "bounded_stand_in": "real-code runs with generated inputs; supports replay and covers the functions outside the verifier's reach; not counted as proved",
        "evaluations": sum(r["evaluations"] for r in runs),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
        "per_scenario": {k: sum(r["per_scenario"].get(k, 0) for r in runs) for k in (runs[0]["per_scenario"] if runs else {})},
        "rule": runs[0]["rule"] if runs else "",
        "samples": runs[0]["samples"] if runs else [],
    }
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": base[2:] + trusted, "wall_s": round(time.time() - t0, 2), "violations": len(failures) + len(failed_units)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=repr)
    print(f"{prop}: {len(proved)}/{len(obs)} obligations discharged in {len(units)} units "
          f"({len(bounded)} units bounded only), {cov['evaluations']} real-code cases, {ev['wall_s']} s")
    for u in units:
        if u["status"] != "proved":
            print("  ", u["status"], u["unit"], (u.get("note") or "")[:200])
            for o in u["obligations"]:
                if o["status"] == "failed":
                    print("      failed obligation:", o["name"])
    if failures:
        print("  failing input:", failures[0]["scenario"], failures[0]["case_seed"], str(failures[0]["message"])[:300])
        print(f"VIOLATION property={prop} replay={replay}")
        sys.exit(1)
    if failed_units or broken_run:
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise

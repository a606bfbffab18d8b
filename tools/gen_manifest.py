#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has verified units (vc/specs/cNN.py)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
import speclib
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "vc", "specs", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"VERIF_TIER=quick python3-vt check.py {p}",
                           thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {p}",
                           technique=NOTES[p].get("technique", "contract-based deductive verification of the real Python source (symbolic execution against contracts, z3; cvc5 cross-check in thorough), failing inputs replayed on the real code"),
                           level=NOTES[p].get("level", "proof"), level_note=NOTES[p]["note"]))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, {}).get("na", "not yet under contract")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Deductive verifier in vc/, real-code replay and bounded stand-ins in dyn/; see DESIGN.md. No hooks in /repo."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

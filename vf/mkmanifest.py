"""Regenerate MANIFEST.json from registry.NOTES:  /opt/venv/bin/python -m vf.mkmanifest"""
import json
import os

from . import registry
from .core import ROOT

COMMON = ("TLC explores the specification exhaustively within small constants, then every execution of the real code "
          "(TLC-enumerated plus seeded scenarios) is validated event by event against the same specification operators. "
          "Assurance is bounded by the scenarios executed; the drivers (projection of public API events) and TLC are trusted.")


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in registry.CHECKS:
            mods = registry.SPECS[i]
            checks.append({
                "property": i, "quick_cmd": "bash check.sh %s quick" % i,
                "thorough_cmd": "bash check.sh %s thorough" % i,
                "technique": "TLA+ spec (%s) model checked with TLC; trace validation of the real code" % mods,
                "level": "model_checking", "level_note": COMMON})
        else:
            na.append({"property": i, "reason": registry.NA.get(i, "machinery for this property is still being built")})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: everything is driven through public APIs. VF_REPO overrides the tree under test."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed;", len(na), "not claimed")


main()

"""Entry point: python -m vf.check <property> [quick|thorough] | --replay FILE"""
import json
import os
import sys
import traceback

from . import core


def main(argv):
    core.setup_paths()
    if argv[0] == "--replay":
        r = json.load(open(argv[1]))
        mod = core._load(r["driver"])
        t = mod.run(r["scenario"])
        t["id"] = "replay"
        sc = core.Scratch()
        try:
            v, _ = core.validate(r["trace_module"], [t], sc)
        finally:
            sc.close()
        bad = dict(v["replay"])
        for i, e in enumerate(t["events"], 1):
            print("%3d %s%s" % (i, json.dumps(core._compact(e)), "   <-- " + ", ".join(
                c for l, c in v["replay"] if l == i) if i in bad else ""))
        print("verdict:", v["replay"] or "accepted")
        return 1 if v["replay"] else 0
    from .registry import CHECKS
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return core.check(pid, CHECKS[pid], tier, seed)
    except core.Machinery as e:
        print("MACHINERY:", e)
        return 4
    except Exception:
        traceback.print_exc()
        return 5


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python
"""check.py PROP [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, here)
ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--replay")
a = ap.parse_args()
from mc import common  # noqa: E402

try:
    mod = importlib.import_module("mc." + a.prop.lower())
except Exception:
    if not os.path.exists(os.path.join(here, "mc", a.prop.lower() + ".py")):
        raise
    # The package under test could not even be imported.
    import traceback

    tb = traceback.format_exc()
    print(tb)
    if os.path.join(common.REPO, "src") in tb:
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        rp = os.path.join(here, "replays", a.prop + "-import.txt")
        with open(rp, "w") as f:
            f.write(tb)
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.exit(1)
    sys.exit(2)
sys.exit(common.main(mod, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1), a.replay))

"""Development tool: make and confirm a planted bug under seeded/.

plant(id, property, needs, breaks, edits, demo): edits are (file, old, new)
applied to a scratch copy of /repo; the demo is a Python program that must
exit 0 on /repo and nonzero on the copy; the stable tests must pass on it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = '''#!/bin/bash
# Exit 0 when the property holds for this scenario.
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
PY=/opt/venv/bin/python
[ -x $PY ] || PY=python3
SCRATCH="$D" PYTHONPATH="$PWD/src:$PYTHONPATH" timeout 250 $PY -W ignore -B "$(dirname "$0")/demo.py"
'''


def env(repo):
    e = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
    e["PYTHONPATH"] = "%s/src:/opt/vp/plugins" % repo
    return e


def tests(repo):
    d = tempfile.mkdtemp()
    try:
        x = os.path.join(d, "j.xml")
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "vp_fixed_seed", "-p", "no:cacheprovider", "--timeout=60",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x],
                       cwd=repo, env=env(repo), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        o = os.path.join(d, "o.json")
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], stdout=subprocess.DEVNULL)
        r = json.load(open(o))
        b = json.load(open("/opt/vp/BASELINE.json"))
        want = b if isinstance(b, list) else b.get("tests") or b.get("stable") or b.get("passed")
        return sorted(set(want) - set(r["passed"]))
    finally:
        shutil.rmtree(d)


def demo(dir_, repo):
    r = subprocess.run(["bash", os.path.join(dir_, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def plant(id_, prop, needs, breaks, edits, code):
    sc = "/tmp/sc-" + id_
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", sc])
    out = os.path.join(SEEDED, id_)
    ok = False
    try:
        for fn, old, new in edits:
            p = os.path.join(sc, "src/hdf5storage", fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(id_, "edit matches", s.count(old), "times:", old[:60])
                return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", sc, "diff"], text=True)
        # Changed lines must be original ones.
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
        orig = ""
        for fn, _, _ in edits:
            orig += subprocess.check_output(["git", "-C", "/repo", "show", "663fa6f:src/hdf5storage/" + fn], text=True)
        lines = set(orig.splitlines())
        mine = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] not in lines]
        if mine:
            print(id_, "removes lines of my own:", mine)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(code)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = demo(out, "/repo")
        b = demo(out, sc)
        t = tests(sc)
        print(id_, prop, "demo clean", a[0], "demo bug", b[0], "tests broken", len(t), t[:3])
        if a[0]:
            print(a[1])
        print("   ", b[1].strip().splitlines()[-1:] if b[0] else b[1])
        ok = a[0] == 0 and b[0] != 0 and not t
        return ok
    finally:
        if not ok:
            shutil.rmtree(out, ignore_errors=True)
        shutil.rmtree(sc, ignore_errors=True)

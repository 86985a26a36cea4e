#!/usr/bin/env python3
"""Builds /verif/seeded from tools/seed_data.py, confirming each planted bug in a scratch copy of /repo:
the patch applies, the tests pass, the demonstration fails with it and passes without it.
usage: seeds.py [id ...]     (development tool; no check uses it)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("SEED_ROOT") or os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed_data import SEEDS     # noqa: E402

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=.
exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="seeds_", dir="/tmp")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    bad = 0
    try:
        for s in SEEDS:
            if want and s["id"] not in want:
                continue
            if not want and os.path.exists(os.path.join(ROOT, "seeded", s["id"], "patch.diff")):
                continue
            w = os.path.join(tmp, s["id"])
            run(["git", "clone", "-q", "/repo", w], tmp)
            d = os.path.join(ROOT, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
            clean = run(["bash", os.path.join(d, "demo.sh")], w)
            msg = []
            if clean.returncode != 0:
                msg.append("demo fails on the unchanged tree: " + clean.stderr[-400:])
            for f, old, new in s["edits"]:
                p = os.path.join(w, f)
                t = open(p).read()
                if t.count(old) != 1:
                    msg.append(f"{f}: {t.count(old)} matches of {old[:50]!r}")
                open(p, "w").write(t.replace(old, new, 1))
            diff = run(["git", "diff"], w).stdout
            if not diff:
                msg.append("empty patch")
            t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], w, env=env)
            if t.returncode != 0:
                msg.append("tests fail: " + t.stdout[-600:])
            dirty = run(["bash", os.path.join(d, "demo.sh")], w)
            if dirty.returncode == 0:
                msg.append("demo passes with the change")
            elif "AssertionError" not in dirty.stderr and not s.get("crash"):
                msg.append("demo fails for another reason: " + dirty.stderr[-300:])
            shutil.rmtree(w)
            if msg:
                bad += 1
                shutil.rmtree(d)
                print("BAD", s["id"], *msg, sep="\n   ")
                continue
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("ok ", s["id"], s["property"])
    finally:
        shutil.rmtree(tmp)
    return bad


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Writes the planted changes under /verif/seeded from the specs in seed_specs.py:
  mkseed.py [ID...]    (edits are made in a scratch copy, never in /repo)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seed_specs import SPECS

def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
        for s in SPECS:
            if want and s["id"] not in want: continue
            subprocess.check_call(["git", "-C", tmp + "/r", "checkout", "-q", "--", "."])
            for f, old, new in s["edits"]:
                p = tmp + "/r/ink_stroke_modeler/" + f
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            d = V + "/seeded/" + s["id"]
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"], text=True)
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy(HERE + "/seed_common/demo_common.h", d)
            shutil.copy(HERE + "/seed_common/demo.sh", d)
            os.chmod(d + "/demo.sh", 0o755)
            shutil.copytree(V + "/harness/shim", d + "/shim")
            open(d + "/demo.cc", "w").write('#include "demo_common.h"\n%s\nint main() {\n%s\n  return g_failed;\n}\n' % (s.get("top", ""), s["demo"].strip("\n")))
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            print(s["id"])
    finally:
        shutil.rmtree(tmp)
main()

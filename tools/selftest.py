#!/usr/bin/env python3
"""Compare the Java values of LinAlg's operators with their TLA+ definitions (spec/SelfTest.tla)."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

c = vlib.Ctx("selftest")
try:
    src = open(os.path.join(c.spec, "LinAlg.tla")).read()
    with open(os.path.join(c.spec, "LinAlgRef.tla"), "w") as f:
        f.write(src.replace("MODULE LinAlg ", "MODULE LinAlgRef ", 1))
    rc, out = c.tlc("SelfTest", workers=1, timeout=800)
    print("\n".join(l for l in out.splitlines() if "DIFFER" in l or "Error" in l or "states" in l))
    if rc or "No error has been found" not in out:
        print(out[-2000:])
finally:
    shutil.rmtree(c.dir, ignore_errors=True)
sys.exit(1 if rc else 0)

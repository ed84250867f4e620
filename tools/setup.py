"""Checks that the tools are there and builds the driver once (checks build their own from the current tree)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vg
os.makedirs(vg.BUILD, exist_ok=True)
r = vg.java(['tla2sany.SANY', os.path.join(vg.SPEC, 'Trace.tla')])
if r.returncode != 0 or 'Could not' in r.stdout:
    print(r.stdout)
    sys.exit(1)
print(vg.build_driver())

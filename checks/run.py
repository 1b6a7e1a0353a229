#!/usr/bin/env python3
"""checks/run.py <property>: runs the check of one property (see DESIGN.md)."""
import importlib
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.path.insert(0, V + "/checks")
import check

prop = sys.argv[1]
if len(sys.argv) > 2 and sys.argv[2] == "thorough":
    os.environ["VERIF_TIER"] = "thorough"
elif len(sys.argv) > 2 and sys.argv[2] == "quick":
    os.environ["VERIF_TIER"] = "quick"
c = check.Check(prop)
try:
    importlib.import_module(prop.lower()).main(c)
except SystemExit:
    raise
except Exception:
    import traceback
    c.errors.append(traceback.format_exc())
c.finish()

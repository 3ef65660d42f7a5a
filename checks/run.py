"""run.py <property>: decide one property on the current tree; tier and seed come from the environment"""
import importlib
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
try:
    sys.exit(importlib.import_module(sys.argv[1].lower()).main())
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    print("CHECK-ERROR property=%s" % sys.argv[1])
    sys.exit(2)

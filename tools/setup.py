"""Nothing persistent is needed: every check builds what it needs from /repo.  This verifies the toolchain and warms the build cache."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
vf.build("harness")
print("ok")

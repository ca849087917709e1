import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core
try:
    rc = core.main()
except core.HarnessError as e:
    print("ERROR: %s" % e)
    rc = 2
sys.exit(rc)

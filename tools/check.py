import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import runner
pid = sys.argv[1].upper()
rc = 2
try:
    rc = runner.main(pid, sys.argv[2:])
finally:
    sys.stdout.flush()
sys.exit(rc)

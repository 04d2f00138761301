"""Re-evaluates one listed finding: exit 0 when it still reproduces, 3 when it does not, 1 on errors."""
import importlib
import json
import os
import sys

from .boot import boot

boot(sys.argv[2])
check = importlib.import_module("vf.checks." + sys.argv[1].lower()).CHECK
entry = json.loads(sys.argv[3])
sys.exit(0 if check.known(entry) else 3)

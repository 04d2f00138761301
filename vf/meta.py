"""Prints the description of a check as json."""
import importlib
import json
import sys

from .boot import boot

boot(sys.argv[2])
check = importlib.import_module("vf.checks." + sys.argv[1].lower()).CHECK
sys.stdout.write(
    "\n" + json.dumps({"rule": check.rule, "assumptions": check.assumptions, "workers": check.workers,
                "runner": check.runner is not None}) + "\n"
)

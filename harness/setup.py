"""Nothing to build; makes sure that the tools and the specification are there."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core

core.run_model("MCGrid", "MCGrid.cfg")
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(core.ROOT, d), exist_ok=True)
print("ready")

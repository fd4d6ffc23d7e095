"""Builds the adapter once, so that the checks only rebuild what changed, and looks for the tools."""
import os
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core  # noqa: E402

for tool in ("java", "cargo"):
    if not shutil.which(tool):
        sys.exit("missing tool: " + tool)
os.makedirs(core.BUILD, exist_ok=True)
print("adapter:", core.build())

from literals import Literals  # noqa: E402
import tempfile  # noqa: E402

lits = Literals()
lits.add("", b"")
w = tempfile.mkdtemp(dir=core.BUILD)
print("literals:", "snap" in lits.run(w)[0])
shutil.rmtree(w)

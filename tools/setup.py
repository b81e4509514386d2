#!/usr/bin/env python3
"""Check that what the checks need is there."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
for name in ("tlc", "gcc"):
    if not shutil.which(name):
        sys.exit("%s is missing" % name)
for path in ("/opt/venv/bin/python",):
    if not os.path.exists(path):
        sys.exit("%s is missing" % path)
for module in sorted(os.listdir(os.path.join(HERE, "spec"))):
    if module.endswith(".tla"):
        subprocess.run(["tla-sany", module], check=True,
                       cwd=os.path.join(HERE, "spec"),
                       stdout=subprocess.DEVNULL)

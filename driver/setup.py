#!/usr/bin/env python3
"""Nothing is prebuilt: a check compiles /repo's current tree. This checks that the tools are there."""
import shutil
import subprocess
import sys

for tool in ("cargo", "cargo-kani"):
    if not shutil.which(tool):
        sys.exit(f"{tool} is missing")
sys.exit(subprocess.run(["cargo", "kani", "--version"]).returncode)

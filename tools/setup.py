#!/usr/bin/env python3
"""Builds the harness once, to show that it builds from the committed files and
to warm Go's build cache. Checks build again from the current tree."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check

scratch = tempfile.mkdtemp(prefix="verif-setup-", dir="/tmp")
try:
    env = check.go_env(scratch)
    mod = check.modfile(scratch)
    for pkg in sorted({c["pkg"] for c in check.CONFIG.values()}):
        d = os.path.join(check.HARNESS, pkg)
        if not os.path.isdir(d) or not any(f.endswith(".go") for f in os.listdir(d)):
            continue
        subprocess.run(["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", os.path.join(scratch, pkg), "./" + pkg],
                       cwd=check.HARNESS, env=env, check=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print("setup done")

#!/usr/bin/env python3
"""Builds the harness for both runtimes (offline) and lets TLC parse every specification."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check  # noqa: E402

check.build([check.USUAL, check.DEBUG, check.LOGGED, check.SILENT])
for m in ("MCDefs", "SmtpTrace", "SmtpConform", "DotStuff", "DotTrace", "PureTrace", "Same", "Two"):
    r = subprocess.run(["java", "-cp", check.JAVA[check.JAVA.index("-cp") + 1], "tla2sany.SANY", m + ".tla"], cwd=check.SPEC, capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stdout)
        sys.exit(1)
print("ready")

#!/usr/bin/env python3
"""Setup: nothing is installed; this only proves that the framework builds."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import checks
bins = sorted({b for s in checks.CHECKS.values() for j in s["jobs"] if j.get("variant", "asan") == "asan" for b in [j["bin"]] + j.get("needs", [])})
sys.exit(subprocess.run([sys.executable, V + "/tools/build.py", "asan"] + bins).returncode)

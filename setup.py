#!/usr/bin/env python3
"""Nothing is kept between runs: verifies that the tools and the specification are in order."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ("out", "evidence"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
for cmd in (["clang++", "--version"], ["java", "-version"]):
    if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        sys.exit("missing: " + cmd[0])
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", "Props.tla"], cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    sys.exit(r.stdout)
print("ok")

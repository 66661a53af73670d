"""checks that the tools are there and that every specification parses"""
import glob
import os
import subprocess
import sys

V = os.path.dirname(os.path.abspath(__file__))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for p in sorted(glob.glob(os.path.join(V, "spec", "*.tla"))):
    r = subprocess.run(
        ["java", "-cp", CP, "tla2sany.SANY", os.path.basename(p)],
        cwd=os.path.join(V, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
    )
    if r.returncode != 0 or b"*** Errors" in r.stdout:
        print(p, r.stdout.decode()[-800:])
        bad = 1
for p in ("/opt/venv/bin/python",):
    if not os.path.exists(p):
        print("missing", p)
        bad = 1
sys.exit(bad)

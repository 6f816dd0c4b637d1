"""Nothing is built ahead of the checks; make sure the tools they need are there."""
import subprocess
import sys

for cmd in (["/opt/veriftools/pyvenv/bin/python", "-c", "import z3"], ["/opt/venv/bin/python", "-c", "import yaml"]):
    if subprocess.call(cmd):
        sys.exit("setup: %s failed" % " ".join(cmd))
print("ok")

"""Setup: nothing is compiled; verifies that the toolchain the checks use is present."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
os.makedirs(os.path.join(HERE, "..", "evidence"), exist_ok=True)
assert shutil.which("java"), "java missing"
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
p = subprocess.run(["/opt/venv/bin/python", "-c", "import rt"], cwd=HERE, capture_output=True, text=True)
if p.returncode:
    sys.exit(p.stderr[-2000:])
print("setup ok")

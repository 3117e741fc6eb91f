"""setup_cmd: the tools the checks need are there, and the engine loads /repo's source."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.argv = ["selftest"]
import z3  # noqa
from symx import run  # noqa
p = run.make_private()
p.load("tonnikala.loader")
r = subprocess.run(["/opt/venv/bin/python", "-c", "import markupsafe"], capture_output=True)
assert r.returncode == 0, r.stderr
print("ok", z3.get_version_string())

"""Nothing to build: checks that the interpreters the framework uses are there."""
import subprocess
import sys
import mpmath, sympy, z3  # noqa: F401,E401
subprocess.check_call(["/opt/venv/bin/python", "-c", "import numpy, scipy"])
print("ok", sys.version.split()[0])

"""Setup: nothing to build, only check that the interpreter, the solver and the code under test are there."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
code = ("import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy, pylattica; "
        "print(z3.get_version_string(), numpy.__version__, pylattica.__file__)")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", code]))

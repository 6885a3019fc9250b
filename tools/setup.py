"""setup_cmd: the framework is plain Python; check that what it needs is there"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import z3  # noqa
from vlib import scen
scen.setup_paths()
import tealish  # noqa
print("z3", z3.get_version_string(), "tealish from", os.path.dirname(tealish.__file__))
subprocess.run(["/opt/venv/bin/python", "-c", "import textx"], check=True)
subprocess.run([sys.executable, os.path.join(HERE, "symtest.py")], check=True)      # the symbolic text model against str and re

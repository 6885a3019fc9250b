#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property"""
import os
import sys

VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VT) and os.path.realpath(sys.executable) != os.path.realpath(VT) or not sys.prefix.startswith("/opt/veriftools"):
    if os.environ.get("VERIF_REEXEC") != "1":
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(VT if os.path.exists(VT) else sys.executable, [VT] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import run  # noqa: E402

run.main()

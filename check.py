#!/usr/bin/env python3
"""Entry point: check.py PROPERTY [--tier quick|thorough]."""
import os
import sys

VT = "/opt/veriftools/pyvenv"
if sys.prefix != VT and not os.environ.get("LH_VT"):
    os.environ["LH_VT"] = "1"
    os.execv(VT + "/bin/python", [VT + "/bin/python", *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
if "--setup" in sys.argv:
    import z3, sympy, numpy  # noqa: E401,F401  the tools are there; nothing has to be built
    sys.exit(0)
from lhsym.run import main  # noqa: E402

sys.exit(main())

#!/usr/bin/env python3-vt
"""Entry point: run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") is None:
    # fix hash randomisation so that a run is a function of the code and the seed
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner

if __name__ == "__main__":
    sys.exit(runner.main())

"""Offline setup: the framework is pure Python, so only check that it can run."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hypothesis
from vlib import runner, cfbref
data = cfbref.build({"/a": ("f", b"\0" * 16, b"x" * 5000)})
assert not cfbref.parse(data).problems
print("hypothesis", hypothesis.__version__, "reference model ok")

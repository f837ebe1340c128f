"""O02: weak references lead to the object they were given, whatever happens around it."""
from hypothesis import strategies as st
from vlib.runner import Target
from vlib import aafmodel

PROPERTY = "O02"
RULE = ("A history dominated by assigning, extending, clearing and reading weak references (single, vector, set) from "
        "content and from definitions, with new definitions, moved, copied and removed holders, saves and reopens. "
        "Non-trivial: at least three weak references were changed and the file was reopened afterwards.")
ASSUMPTIONS = ["the target of a weak reference stays in the document"]
WEIGHTS = {"weak": 8, "sset": 2, "vec": 2, "ref": 1, "copy": 1, "twin": 1, "set": 1, "reopen": 2, "abandon": 1, "refuse_weak": 2, "peek": 1}


def run(value, ctx):
    w = aafmodel.play(value, ctx)
    ctx.nontrivial(w.count.get("weak", 0) >= 3 and w.count.get("reopen", 0) >= 1)


TARGETS = [Target("weakrefs", lambda tier: aafmodel.histories(st, WEIGHTS, 16 if tier == "quick" else 40), run, quick=360, thorough=8000)]

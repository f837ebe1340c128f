"""F02: editing a file over any number of sessions changes exactly what was edited."""
from hypothesis import strategies as st
from vlib.runner import Target
from vlib import aafmodel

PROPERTY = "F02"
RULE = ("A history of edits (values, references, vectors, sets, streams, moves, copies, new and removed objects, refused "
        "requests) on a file written earlier, with saves, closes and reopens in between. Non-trivial: at least four edits "
        "took effect and the file was reopened at least twice.")
ASSUMPTIONS = ["definitions that are referred to are not removed",
               "property values stay below 65536 bytes, the limit of the stored format"]
WEIGHTS = {"set": 3, "delete": 2, "ref": 2, "vec": 4, "sset": 3, "weak": 2, "stream": 2, "mobid": 1, "copy": 1, "twin": 1, "fill": 1,
           "save": 1, "reopen": 3, "abandon": 1, "peek": 1, "refuse": 1}


def run(value, ctx):
    w = aafmodel.play(value, ctx)
    n = sum(w.count.get(k, 0) for k in ("set", "delete", "ref", "vec", "sset", "weak", "stream", "mobid"))
    ctx.nontrivial(n >= 4 and w.count.get("reopen", 0) >= 2)


TARGETS = [Target("sessions", lambda tier: aafmodel.histories(st, WEIGHTS, 14 if tier == "quick" else 40), run, quick=360, thorough=8000)]

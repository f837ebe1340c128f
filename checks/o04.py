"""O04: an object has one owner; detaching, re-attaching and moving it keeps it whole; refused requests change nothing."""
from hypothesis import strategies as st
from vlib.runner import Target
from vlib import aafmodel

PROPERTY = "O04"
RULE = ("A history of detaching objects (pop, del, replacement, clearing), editing them while detached, attaching them "
        "again elsewhere, changing mob ids, and requests that must be refused (object with an owner, of another file or "
        "class, stored twice, inside itself, key in use or fixed, bad index). Non-trivial: at least one object was "
        "re-attached or moved, or two requests were refused, and at least three edits took effect.")
ASSUMPTIONS = []
WEIGHTS = {"vec": 4, "sset": 4, "ref": 4, "stream": 2, "delete": 2, "fill": 3, "mobid": 3, "refuse_owner": 4, "reopen": 1,
           "abandon": 1, "save": 1, "copy": 1}


def run(value, ctx):
    w = aafmodel.play(value, ctx)
    c = w.count
    ctx.nontrivial((c.get("reattach", 0) + c.get("move", 0) >= 1 or c.get("refused", 0) >= 2)
                   and sum(c.get(k, 0) for k in ("vec", "sset", "ref", "stream", "delete", "fill", "mobid")) >= 3)


TARGETS = [Target("ownership", lambda tier: aafmodel.histories(st, WEIGHTS, 18 if tier == "quick" else 50), run, quick=360, thorough=8000)]

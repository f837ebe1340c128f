"""O01: vectors and sets of owned objects behave like lists and keyed maps."""
from hypothesis import strategies as st
from vlib.runner import Target
from vlib import aafmodel

PROPERTY = "O01"
RULE = ("A history dominated by vector and set operations (append, insert, extend, item assignment, pop, clear, value "
        "assignment, reordering, slicing, moves between vectors, replacing by key) on attached and detached holders, with "
        "dropped handles and reopens in between; after each operation the collection is compared with a list or dict by "
        "length, iteration, index or key, and identity of the objects. Non-trivial: at least five collection operations "
        "took effect, of which two on the same kind.")
ASSUMPTIONS = ["objects in a vector or set are compared by identity where the program kept them, by content otherwise"]
WEIGHTS = {"vec": 9, "sset": 7, "ref": 1, "set": 1, "reopen": 1, "abandon": 1, "refuse_index": 2, "mobid": 1, "save": 1, "peek": 1}


def run(value, ctx):
    w = aafmodel.play(value, ctx)
    a, b = w.count.get("vec", 0), w.count.get("sset", 0)
    ctx.nontrivial(a + b >= 5 and max(a, b) >= 2)


TARGETS = [Target("collections", lambda tier: aafmodel.histories(st, WEIGHTS, 18 if tier == "quick" else 50), run, quick=360, thorough=8000)]

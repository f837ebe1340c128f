"""C03: every container written is structurally valid for any other reader."""
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib.cfbmodel import Box, data_of, sizes, NAMES, ZERO16, EDGES
from vlib import cfbref
from checks.c02 import Hist, op as ns_op, bulk, unbulk

PROPERTY = "C03"
RULE = ("A case is a sector size and a history mixing namespace operations, bulk creation/removal and stream "
        "writes/overwrites/truncations, with the container closed and reopened for modification in between. At every "
        "close an independent parser validates the whole file: FAT, DIFAT and mini FAT chains in range, terminated, "
        "acyclic, disjoint and of exactly the length their stream needs, nothing leaked, header counts, mini stream "
        "extent, sibling trees in directory order and red-black, all entries reachable. "
        "Non-trivial: two or more closes, at least one removal, shrink or overwrite, and both mini and regular streams.")
ASSUMPTIONS = ["the validator encodes MS-CFB; header fields for an absent mini FAT or DIFAT may be FREESECT, as written today"]

any_i = st.integers(0, 60)
sop = st.one_of(
    st.tuples(st.just("s"), any_i, st.just("write"), sizes(), st.integers(0, 255)),
    st.tuples(st.just("s"), any_i, st.just("append"), sizes(), st.integers(0, 255)),
    st.tuples(st.just("s"), any_i, st.just("rewrite"), sizes(), st.integers(0, 255)),
    st.tuples(st.just("s"), any_i, st.just("trunc"), sizes(), st.just(0)),
    st.tuples(st.just("s"), any_i, st.just("seek"), sizes(), st.just(0)),
)


def case(tier):
    m = 40 if tier == "quick" else 120
    o = st.one_of(ns_op, sop, sop, st.just(("reopen",)))
    o2 = st.one_of(ns_op, sop, sop, sop, bulk, unbulk, st.just(("reopen",)))
    return st.tuples(st.sampled_from([4096, 512]), st.one_of(
        st.lists(o, min_size=1, max_size=10), st.lists(o, min_size=20, max_size=m),
        st.lists(o2, min_size=8, max_size=20)))


def stream_op(box, o, marks):
    _, i, kind, n, tag = o
    s = box.streams()
    if not s or i % 11 == 10:
        p = "/0123%d" % i        # no case variants of it exist
        if p not in box.model:
            box.do_open(p, "w")
        elif box.model[p][0] != "f":
            return
    else:
        p = s[i % len(s)]
    size = len(box.model[p][2])
    box.do_open(p, "w" if kind == "rewrite" else "rw")
    if kind == "rewrite" and size:
        marks.add("overwrite")
    if kind == "append":
        box.do_seek(p, 0, 2)
    if kind in ("write", "append", "rewrite"):
        box.do_write(p, data_of(n, tag))
    elif kind == "trunc":
        if n < size:
            marks.add("shrink")
        box.do_truncate(p, n)
    else:
        box.do_seek(p, n, 0)
    box.handles.clear()


def validate(data, what=""):
    P = cfbref.parse(data, check_rb=True)
    check(not P.problems, "invalid container%s:" % what, "; ".join(P.problems[:4]))
    return P


class H3(Hist):
    closes = 0

    def reopen(self):
        self.box.close()
        P = validate(self.box.bytes())
        self.box.compare_parsed(P)
        if P.stats["mini"] and P.stats["regular"]:
            self.marks.add("both-kinds")
        if P.stats["max_siblings"] > 30:
            self.marks.add("siblings>30")
        if P.stats["fat_sectors"] > 1:
            self.marks.add("fat>1")
        self.closes += 1
        self.box.reopen("rb+")


def run(value, ctx):
    ss, ops = value
    box = Box(ss)
    h = H3(box, ctx)
    for o in ops:
        if o[0] == "s":
            stream_op(box, o, h.marks)
        else:
            h.apply(o)
    h.reopen()
    # an untouched reopen-and-close keeps the file valid as well
    h.reopen()
    for x in h.marks:
        ctx.event(x)
    ctx.nontrivial(h.closes >= 3 and bool(h.marks & {"remove", "shrink", "overwrite"}) and "both-kinds" in h.marks)


TARGETS = [
    Target("structure", case, run, quick=3600, thorough=50000),
]

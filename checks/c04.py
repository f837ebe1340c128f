"""C04: containers laid out by other writers are read exactly and can be edited."""
import random

from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib.cfbmodel import Box, data_of, sizes, NAMES, ZERO16
from vlib import cfbref
from checks.c02 import Hist, op as ns_op, bulk, unbulk
from checks.c03 import sop, stream_op

PROPERTY = "C04"
RULE = ("A case is a directory tree, a layout an independent writer gives it (sector size, sector and mini-sector "
        "permutations, free holes, directory slots permuted with gaps, sibling trees of random shape and colouring: "
        "balanced, spines, random insertion order, random red-black, all black), and a history of edits. The "
        "container is read back against the tree, edited in place against the model, closed, and re-parsed. "
        "Non-trivial: 4 or more entries, at least one multi-sector stream in a permuted layout, and two effective edits.")
ASSUMPTIONS = ["foreign containers are generated by our MS-CFB writer, which our MS-CFB parser accepts without complaint"]

small = st.integers(0, 2**32 - 1)


def case(tier):
    entry = st.tuples(st.integers(0, 30), st.sampled_from(NAMES), st.sampled_from("dff"), sizes())
    many = st.tuples(st.integers(0, 30), st.integers(1, 90), st.sampled_from("df"))
    o = st.one_of(ns_op, ns_op, sop, sop, bulk, unbulk, st.just(("reopen",)))
    return st.tuples(
        st.sampled_from([4096, 512]),
        st.tuples(st.lists(entry, max_size=16), st.lists(many, max_size=2)),
        st.tuples(small, st.sampled_from(["balanced", "left", "right", "order", "rb", "rb", "order-black", "zigzag"]),
                  st.booleans(), st.booleans(), st.booleans(), st.integers(0, 6), st.integers(0, 5), st.integers(0, 5)),
        st.one_of(st.lists(o, max_size=4), st.lists(o, min_size=5, max_size=20 if tier == "quick" else 60)))


def make_tree(spec):
    entries, bulks = spec
    tree = {}
    dirs = [""]
    taken = set()

    def add(parent, name, kind, size, tag):
        k = (parent, cfbref.cfb_key(name))
        if k in taken:
            return
        taken.add(k)
        p = parent + "/" + name
        if kind == "d":
            tree[p] = ("d", ZERO16 if tag % 3 else data_of(16, tag + 1))
            dirs.append(p)
        else:
            tree[p] = ("f", ZERO16, data_of(size, tag))
    for i, (d, name, kind, size) in enumerate(entries):
        add(dirs[d % len(dirs)], name, kind, size, i + 1)
    for i, (d, n, kind) in enumerate(bulks):
        parent = dirs[d % len(dirs)]
        for j in range(n):
            add(parent, "k%03d" % (j * 2), kind, j % 70, j)
    return tree


def layout(tree, ss, lay):
    seed, shape, pm, pd, pmini, free, dgaps, mgaps = lay
    rnd = random.Random(seed)

    def perm(n):
        x = list(range(n))
        rnd.shuffle(x)
        return x
    memo = {}

    def rb(n):
        t, cols = cfbref.random_rb(n, rnd)
        memo[t] = cols
        return t

    def order(n):
        return cfbref.from_insert_order(perm(n))

    def zigzag(n):
        lo, hi, seq = 0, n - 1, []
        while lo <= hi:
            seq.append(lo)
            if hi != lo:
                seq.append(hi)
            lo, hi = lo + 1, hi - 1
        return cfbref.from_insert_order(seq)
    shapes = {"balanced": cfbref.balanced, "left": cfbref.left_spine, "right": cfbref.right_spine,
              "order": order, "order-black": order, "rb": rb, "zigzag": zigzag}
    colors = {"balanced": "rb", "rb": lambda t: memo[t]}.get(shape, "black")
    data = cfbref.build(tree, sector_size=ss, perm=perm if pm else None, dir_perm=perm if pd else None,
                        mini_perm=perm if pmini else None, shape=shapes[shape], colors=colors,
                        free_gaps=free, dir_gaps=dgaps, mini_gaps=mgaps,
                        empty_start=[cfbref.ENDOFCHAIN, cfbref.FREESECT, 0, cfbref.ENDOFCHAIN][seed % 4],
                        size_hi=(lambda i: [0, 1, 0xFFFFFFFF, seed][i % 4]) if seed % 3 == 1 else None)
    return data, shape in ("balanced", "rb")


class H4(Hist):
    rb = False

    def reopen(self):
        self.box.close()
        P = cfbref.parse(self.box.bytes(), check_rb=self.rb)
        check(not P.problems, "edited container is invalid:", "; ".join(P.problems[:4]))
        self.box.compare_parsed(P)
        self.box.reopen("rb+")


def run(value, ctx):
    ss, spec, lay, ops = value
    tree = make_tree(spec)
    data, rb = layout(tree, ss, lay)
    P = cfbref.parse(data, check_rb=rb)
    if P.problems:
        from vlib.runner import HarnessError
        raise HarnessError("reference writer produced an invalid file: %s" % P.problems[:3])
    model = {p: [t[0], t[1], bytearray(t[2]) if t[0] == "f" else None] for p, t in tree.items()}
    box = Box(ss, data=data, model=model)
    # read only, in full
    ro = Box(ss, data=data, model=model)
    ro.reopen("rb")
    ro.compare_tree()
    ro.cfb.close()
    check(bytes(ro.f.getvalue()) == data, "reading changed the container")
    h = H4(box, ctx)
    h.rb = rb
    for o in ops:
        if o[0] == "s":
            stream_op(box, o, h.marks)
            h.effects += 1
        else:
            h.apply(o)
    h.full()
    h.reopen()
    h.full()
    h.reopen()
    multi = any(t[0] == "f" and len(t[2]) > (ss if len(t[2]) >= 4096 else 64) for t in tree.values())
    ctx.event("shape-" + lay[1])
    if multi and (lay[2] or lay[4]):
        ctx.event("fragmented")
    if lay[5] or lay[6] or lay[7]:
        ctx.event("holes")
    for x in h.marks:
        ctx.event(x)
    ctx.nontrivial(len(tree) >= 4 and multi and (lay[2] or lay[4]) and h.effects >= 2)


TARGETS = [
    Target("foreign", case, run, quick=2400, thorough=40000),
]

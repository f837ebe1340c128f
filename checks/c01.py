"""C01: streams inside a container behave like independent files."""
from hypothesis import strategies as st
from vlib.runner import Target, check, check_eq
from vlib.cfbmodel import Box, data_of, sizes, EDGES, ZERO16
from vlib import cfbref

PROPERTY = "C01"
RULE = ("A case is a sector size, a file backend and a history of open/write/seek/read/truncate/remove/reopen "
        "operations over up to 6 streams in 3 storages, applied to the real container and to byte arrays. "
        "Non-trivial: at least 3 writes, and a stream crossed the 4096-byte mini/regular cutoff, or was overwritten "
        "inside, or was shrunk, and the container was closed and reopened at least once.")

PATHS = ["/s0", "/s1", "/d/s2", "/d/s3", "/d/e/s4", "/d/e/s5"]

path_i = st.integers(0, len(PATHS) - 1)
op = st.one_of(
    st.tuples(st.just("open"), path_i, st.sampled_from(["w", "rw", "rw"])),
    st.tuples(st.just("write"), path_i, sizes(), st.integers(0, 255), st.integers(0, 2)),
    st.tuples(st.just("write"), path_i, sizes(), st.integers(0, 255), st.just(0)),
    st.tuples(st.just("seekset"), path_i, st.one_of(st.sampled_from(EDGES), st.integers(0, 20000))),
    st.tuples(st.just("seekrel"), path_i, st.integers(-5000, 300), st.sampled_from([1, 2])),
    st.tuples(st.just("seekend"), path_i),
    st.tuples(st.just("seekfrac"), path_i, st.integers(0, 8)),
    st.tuples(st.just("read"), path_i, st.one_of(st.none(), st.sampled_from(EDGES), st.integers(0, 9000))),
    st.tuples(st.just("trunc"), path_i, st.one_of(st.none(), sizes())),
    st.tuples(st.just("truncfrac"), path_i, st.integers(0, 8)),
    st.tuples(st.just("remove"), path_i),
    st.tuples(st.just("reopen"), st.booleans()),
)


def case(max_ops):
    return st.tuples(st.sampled_from([4096, 512]), st.sampled_from(["mem", "mem", "mem", "file", "raw"]),
                     st.one_of(st.lists(op, min_size=1, max_size=8),
                               st.lists(op, min_size=12, max_size=max_ops),
                               st.lists(op, min_size=20, max_size=max_ops)))


def run(value, ctx):
    ss, backend, ops = value
    box = Box(ss, backend="mem" if backend == "mem" else "file", scratch=ctx.scratch, raw=backend == "raw")
    try:
        _run(box, ops, ctx)
    finally:
        box.dispose()


def _run(box, ops, ctx):
    box.cfb.makedirs("/d/e")
    box.model["/d"] = ["d", ZERO16]
    box.model["/d/e"] = ["d", ZERO16]
    writes = 0
    marks = set()

    def reopen(deep):
        box.close()
        P = box.parse()
        box.compare_parsed(P)
        box.reopen("rb")
        box.compare_tree()
        box.reopen("rb+")
        if deep:
            box.compare_tree()

    for o in ops:
        kind = o[0]
        if kind == "reopen":
            reopen(o[1])
            marks.add("reopen")
            continue
        path = PATHS[o[1]]
        if kind == "open":
            box.do_open(path, o[2])
            continue
        if kind == "remove":
            if path in box.model:
                box.close_handles(path)
                box.cfb.remove(path)
                del box.model[path]
                marks.add("remove")
            continue
        if path not in box.handles:
            box.do_open(path, "rw")
        size = len(box.model[path][2])
        pos = box.handles[path][1]
        if kind == "write":
            d = data_of(o[2], o[3])
            box.do_write(path, d, o[4])
            writes += 1
            new = len(box.model[path][2])
            if size and size < 4096 <= new:
                marks.add("mini-to-regular")
            if pos < size and d:
                marks.add("overwrite")
        elif kind == "seekset":
            if o[2] > size:
                marks.add("seek-extends")
            box.do_seek(path, o[2], 0)
        elif kind == "seekrel":
            box.do_seek(path, o[2], o[3])
        elif kind == "seekend":
            box.do_seek(path, 0, 2)
        elif kind == "seekfrac":
            box.do_seek(path, size * o[2] // 8, 0)
        elif kind == "read":
            box.do_read(path, o[2])
        elif kind in ("trunc", "truncfrac"):
            n = o[2] if kind == "trunc" else size * o[2] // 8
            box.do_truncate(path, n)
            new = len(box.model[path][2])
            if new < size:
                marks.add("shrink")
                if size >= 4096 > new > 0:
                    marks.add("regular-to-mini")
            if new > size:
                marks.add("truncate-extends")
        check_eq(box.cfb.find(path).byte_size, len(box.model[path][2]), "size of", path)
    # streams are independent: after the history all of them are compared
    box.compare_tree()
    reopen(True)
    for m in marks:
        ctx.event(m)
    ctx.nontrivial(writes >= 3 and "reopen" in marks and
                   bool(marks & {"mini-to-regular", "regular-to-mini", "overwrite", "shrink"}))


TARGETS = [
    Target("streams", lambda tier: case(50 if tier == "quick" else 120), run, quick=9000, thorough=150000),
]

"""F04: files of other software are read exactly and edited without disturbing what they hold."""
import io
from hypothesis import strategies as st
from vlib.runner import REPO, Target, Violation, check, check_eq
from vlib import aafgen, aafmodel, aafref, aafrelay
from vlib.aafgen import same

PROPERTY = "F04"
RULE = ("A generated graph in a file laid out by the check's own writer: properties and elements of sets in any order, any names "
        "of storages and streams, any local keys, other local property ids, a permuted table of weak references with repeated and "
        "unused rows, entries that belong to no object, fragmented containers; or one of the sample files of other software. It is "
        "read, opened for editing, and edited through a history as in F02, with the independent reader judging each closed file. "
        "Non-trivial: at least three edits took effect and the file was reopened.")
ASSUMPTIONS = ["the two top level storages keep their usual names", "definitions that are referred to are not removed"]
WEIGHTS = {"set": 3, "delete": 2, "ref": 2, "vec": 4, "sset": 3, "weak": 3, "stream": 2, "mobid": 1, "copy": 1, "twin": 1, "fill": 1,
           "save": 1, "reopen": 2, "peek": 1, "refuse": 1}
SAMPLES = ["sector_size_512.aaf", "empty.aaf", "retimes/bezier01.aaf", "retimes/step01.aaf", "retimes/linear02.aaf", "test_file_01.aaf"]
EDITS = ("set", "delete", "ref", "vec", "sset", "weak", "stream", "mobid", "fill", "copy")


def extras(data, extra, what):
    tree = aafref.AAF(data).tree
    for p, e in extra.items():
        got = tree.get(p)
        check(got is not None and got[0] == e[0] and bytes(got[-1] if e[0] == "f" else got[1]) == bytes(e[-1]),
              what, "the entry %r, which belongs to no object, is gone or changed" % p)


def reading(path, data, lit, what):
    import aaf2
    with aaf2.open(path, "r") as f:
        same(aafgen.whole(f), lit, what + ", read only")
    check_eq(io.open(path, "rb").read() == data, True, "reading left the file unchanged")


def run(value, ctx):
    relay, hist = value
    ss, base, ops = hist
    data, lit = aafmodel.base_file(4096, base)
    data, extra = aafrelay.relay(data, ss, relay)
    A, got = aafref.load(data)
    same(got, lit, "laid out")              # the writer's own doing
    path = ctx.path("m.aaf")
    io.open(path, "wb").write(data)
    reading(path, data, lit, "laid out by others")
    w = aafmodel.play(hist, ctx, given=(data, lit), first=lambda w: w.check("opened for editing"))
    extras(w.data, extra, "after editing")
    n = sum(w.count.get(k, 0) for k in EDITS)
    ctx.nontrivial(n >= 3 and w.count.get("reopen", 0) >= 1)


_samples = {}


def sample(name):
    """(bytes, graph, data model of the file once it is open for editing)"""
    if name not in _samples:
        import aaf2
        import os
        import tempfile
        data = io.open(REPO + "/tests/test_files/" + name, "rb").read()
        lit = aafref.load(data, closed=False, required=False)[1]
        fd, p = tempfile.mkstemp(dir=os.environ.get("TMPDIR"))
        os.close(fd)
        try:
            io.open(p, "wb").write(data)
            with aaf2.open(p, "rw"):
                pass
            _samples[name] = (data, lit, aafgen.Schema(io.open(p, "rb").read(), lenient=True))
        finally:
            os.unlink(p)
    return _samples[name]


def run_sample(value, ctx):
    name, (ss, base, ops) = value
    data, lit, S = sample(name)
    path = ctx.path("m.aaf")
    io.open(path, "wb").write(data)
    reading(path, data, lit, name)
    w = aafmodel.play((ss, base, ops), ctx, given=(data, lit), S=S, first=lambda w: w.check("opened for editing"))
    n = sum(w.count.get(k, 0) for k in EDITS)
    ctx.event(name)
    ctx.nontrivial(n >= 3 and w.count.get("reopen", 0) >= 1)


TARGETS = [Target("layouts", lambda tier: st.tuples(st.integers(0, 1 << 20), aafmodel.histories(st, WEIGHTS, 10 if tier == "quick" else 30)), run,
                  quick=150, thorough=5000),
           Target("samples", lambda tier: st.tuples(st.sampled_from(SAMPLES[:4] * 2 + SAMPLES[4:5] + SAMPLES[5:] * (tier != "quick")),
                                                    aafmodel.histories(st, WEIGHTS, 9 if tier == "quick" else 30)), run_sample, quick=60, thorough=1500)]

"""W01: a failing disk is reported, and never becomes data."""
import contextlib
import io
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib import aafgen, aafmodel, aafref, cfbref
from vlib.aafgen import same, snapshot
from vlib.cfbmodel import Box
from vlib.faulty import Disk
from fractions import Fraction
from checks import e01, x01
from checks.p01 import printed
from checks.c02 import Hist, op as ns_op
from checks.c03 import sop, stream_op

PROPERTY = "W01"
RULE = ("Histories of container operations ('box') and of edits of a file as in F02 ('sessions'), on real files opened with any "
        "buffering whose n-th read or write after the start of one of the steps fails, once or from then on, or whose disk has room for so many bytes, writes over "
        "it storing what fits. Files read on a disk that fails now and then, what failed being asked for again ('again'). Media and "
        "MXF files imported, linked and dumped from such a disk ('sources'), compared with a good one. "
        "Non-trivial: the disk failed after at least two operations; two failures; an import that failed.")
ASSUMPTIONS = ["after an operation has raised, what the session holds is not judged (a file opened to read excepted)"]
BUFFERS = [0, 0, 64, 512, 4096, -1, -1, 65536]


def plans():
    """what fails, counted from when the operation 'at' begins (modulo their number; 0: opening, -1: closing)"""
    k = st.one_of(st.integers(0, 6), st.integers(0, 40), st.integers(0, 400)).map(lambda x: [x])
    at = st.one_of(st.just(-1), st.integers(0, 30))
    w = st.one_of(st.fixed_dictionaries({"write": k, "sticky": st.sampled_from([False, False, True]), "at": at}),
                  st.fixed_dictionaries({"limit": st.integers(0, 1000), "at": at}))
    return st.one_of(w, w, st.fixed_dictionaries({"read": k, "sticky": st.booleans(), "at": at}))


class Reported(Exception):
    pass


class Steps(object):
    """guards the steps of a session, and turns the failures on when theirs begins"""
    def __init__(self, disk, n):
        self.disk, self.done, self.at = disk, 0, disk.plan.pop("at", 0) % (n + 2)
        disk.on = False

    def __call__(self, fn):
        if self.done == self.at:
            self.disk.on = True
        r = guarded(self.disk, fn)
        self.done += 1
        return r


def guarded(disk, fn):
    """fn(); raises Reported when it raised after the disk failed"""
    try:
        return fn()
    except Violation:
        raise
    except Exception as e:
        if disk.fired:
            raise Reported(repr(e))
        raise


# ------------------------------------------------------------- the container

class FaultyBox(Box):
    def __init__(self, disk, ss, path, buffering, data=None, model=None):
        self.disk, self.buffering = disk, buffering
        if data is not None:
            io.open(path, "wb").write(data)
        self.fpath = path
        self.opened = []
        Box.__init__(self, ss, data, model, backend="mem")

    def _file(self, mode):
        f = self.disk.open(self.fpath, mode, self.buffering)
        self.opened.append(f)
        self.f = f
        return f

    def bytes(self):
        return io.open(self.fpath, "rb").read()

    def close(self):
        Box.close(self)
        self.f.close()


def settled(disk, files):
    """the handles a failed session leaves are dropped"""
    disk.off()
    for f in files:
        try:
            f.close()
        except Exception:
            pass


def run_box(value, ctx):
    ss, buffering, plan, before, ops = value
    plain = Box(ss)
    h = Hist(plain, ctx)
    for o in before:
        stream_op(plain, o, set()) if o[0] == "s" else h.apply(o) if o[0] != "reopen" else None
    plain.close()
    data = plain.bytes()
    plan = dict(plan)
    if "limit" in plan:
        # somewhere between half of what there is and twice of it
        plan["limit"] = len(data) * (plan["limit"] + 500) // 1000 if plan["limit"] else 0
    disk = Disk(plan)
    path = ctx.path("box.cfb")
    box = None
    reported = None
    step = Steps(disk, len(ops))
    try:
        try:
            box = step(lambda: FaultyBox(disk, ss, path, buffering, data, plain.model))
            h = Hist(box, ctx)
            h.reopen = lambda: None
            for o in ops:
                step(lambda: stream_op(box, o, set()) if o[0] == "s" else h.apply(o) if o[0] != "badname" else None)
            step(box.close)
        except Reported as e:
            reported = str(e)
    finally:
        disk.off()
        if box is not None:
            settled(disk, box.opened)
    if not reported:
        P = cfbref.parse(box.bytes())
        if disk.fired:
            ctx.event("failed and right")
        check(not P.problems, "%s was not reported, the container is damaged:" % what(disk), "; ".join(P.problems[:3]))
        try:
            box.compare_parsed(P)
        except Violation as e:
            raise Violation("%s, no error: %s" % (what(disk), e))
    ctx.event("reported" if reported else "no fault" if not disk.fired else "unreported")
    ctx.nontrivial(bool(disk.fired) and step.done >= 2)


def what(disk):
    return "a failure of the disk (%s)" % ", ".join(k for k in disk.plan) if disk.fired else "nothing"


# ----------------------------------------------------------------- AAF files

WEIGHTS = {"set": 6, "delete": 2, "ref": 3, "vec": 5, "sset": 5, "weak": 3, "stream": 6, "mobid": 1, "copy": 2, "twin": 1, "fill": 1,
           "save": 2, "peek": 3, "reopen": 2}


class World(aafmodel.World):
    disk = None
    buffering = -1
    given_fault = None

    def open(self):
        import aaf2
        with self.disk.patched(self.path):
            self.f = aaf2.open(self.path, "rw", buffering=self.buffering)

    def check_bytes(self, what_):
        try:
            aafmodel.World.check_bytes(self, what_)
        except Violation as e:
            raise Violation("%s, no error: %s" % (what(self.disk), e))


def run_sessions(value, ctx):
    buffering, plan, hist = value
    ss, base, ops = hist
    data, lit = aafmodel.base_file(ss, base)
    plan = dict(plan)
    if "limit" in plan:
        plan["limit"] = len(data) + (plan["limit"] - 300) * 200
    disk = Disk(plan)
    cls = type("W", (World,), {"disk": disk, "buffering": buffering if buffering != 64 else -1})
    reported = None
    w = None
    step = Steps(disk, len(ops))
    try:
        try:
            w = step(lambda: cls(ctx.path("w.aaf"), ss, base, ctx))
            for o in ops:
                step(lambda: w.apply(o))
            step(w.reopen)
            step(lambda: w.check("API after reopening"))
        except Reported as e:
            reported = str(e)
    finally:
        disk.off()
        try:
            if w is not None:
                w.f.f.close()
        except Exception:
            pass
    ctx.event("reported" if reported else "no fault" if not disk.fired else "unreported")
    ctx.nontrivial(bool(disk.fired) and step.done >= 2)


# ------------------------------------------------------------- reading again

def run_again(value, ctx):
    """a file is read on a disk that fails now and then; what failed is asked for again"""
    import aaf2
    ss, base, buffering, reads, seed = value
    S = aafgen.schema()
    data, lit = aafmodel.base_file(ss, base)
    path = ctx.path("r.aaf")
    io.open(path, "wb").write(data)
    disk = Disk({"read": reads})
    rnd = random.Random(seed)
    fails = [0]

    def again(fn):
        while True:
            n = disk.fired
            try:
                return fn()
            except Violation:
                raise
            except Exception:
                if disk.fired == n:
                    raise
                fails[0] += 1

    def opened():
        with disk.patched(path):
            return aaf2.open(path, "r", buffering=buffering)
    f = again(opened)
    try:
        def visit(get, lit, where):
            o = again(get)
            cls, props = lit
            same(o.classdef.class_name, cls, where)
            check_eq(sorted(again(lambda: list(o.keys()))), sorted(props), "properties of", where)
            names = sorted(props)
            rnd.shuffle(names)
            for name in names:
                v = props[name]
                p = o[name]
                at = where + "/" + name
                if v[0] == "o":
                    visit(lambda: p.value, v[1], at)
                elif v[0] == "ov":
                    check_eq(len(p), len(v[1]), "length of", at)
                    for i, x in enumerate(v[1]):
                        visit(lambda: p.get(i), x, "%s[%d]" % (at, i))
                elif v[0] == "os":
                    check_eq(len(p), len(v[1]), "length of", at)
                    for k, x in v[1].items():
                        visit(lambda: p[aafmodel.World.keyobj(k)], x, "%s[%s]" % (at, k))
                else:
                    same(("v", ("x", again(lambda: aafgen.snapshot_prop(p)))), ("v", ("x", v)), at)
        hdr = lit[1]["Header"][1]
        visit(lambda: f.header, hdr, "Header")
        same(again(lambda: snapshot(f.header)), hdr, "the whole")
    finally:
        disk.off()
        f.close()
    ctx.event("%d failures" % min(fails[0], 5))
    ctx.nontrivial(fails[0] >= 2)


# ------------------------------------------------- media and MXF files read

def plain(lit):
    """a literal without the ids and times that differ from run to run"""
    cls, props = lit
    out = {}
    for k, v in props.items():
        if k in ("MobID", "SourceID", "CreationTime", "LastModified"):
            continue
        if v[0] == "o":
            v = ("o", plain(v[1]))
        elif v[0] == "ov":
            v = ("ov", [plain(x) for x in v[1]])
        elif v[0] == "os":
            v = ("os", sorted((plain(x) for x in v[1].values()), key=repr))
        out[k] = v
    return (cls, out)


def bring_in(f, m, path):
    """import the media (all that is made of it)"""
    if m["kind"] == "mxf":
        with contextlib.redirect_stdout(io.StringIO()):
            mobs = f.content.link_external_mxf(path) if m["how"] == "link" else f.content.create_ama_link(path, {})
        return [plain(snapshot(x)) for x in mobs]
    if m["kind"] == "dump":
        from aaf2 import mxf
        return [printed(mxf.MXFFile(path).dump)]
    mob = f.create.SourceMob("m")
    f.content.mobs.append(mob)
    if m["kind"] == "wav":
        mob.import_audio_essence(path, 25)
    elif m["kind"] == "dnx":
        mob.import_dnxhd_essence(path, 25)
    else:
        mob.import_rawvideo_essence(path, 25, m["size"][0], m["size"][1], [{"Code": c, "Size": b} for c, b in m["layout"]])
    return [plain(snapshot(mob)), plain(snapshot(mob.essence))]


def run_sources(value, ctx):
    import aaf2
    m, reads, sticky = value
    path = ctx.path("source.mxf" if m["kind"] == "mxf" else "source.bin")
    if m["kind"] in ("mxf", "dump"):
        op = x01.UL("060e2b34040101%02x0d0102011000000000" % m["op"])[:16].ljust(16, b"\0")
        media = x01.write(x01.document(random.Random(m["seed"]), m["sources"]), dict(m, op=op))
    else:
        media = e01.expected(m, Fraction(25), None)[0]
    io.open(path, "wb").write(media)
    good = Disk({})
    with aaf2.open() as g, good.patched(path):
        want = bring_in(g, m, path)
    # one of the reads it takes, or one after them
    disk = Disk({"read": [k % (good.count["read"] + 1) for k in reads], "sticky": sticky})
    f = aaf2.open()
    try:
        with disk.patched(path):
            got = guarded(disk, lambda: bring_in(f, m, path))
    except Reported:
        ctx.event("reported")
        ctx.nontrivial()
        return
    finally:
        disk.off()
    check_eq(len(got), len(want), "objects made of a", m["kind"])
    for a, b in zip(got, want):
        if m["kind"] == "dump":
            check_eq(a, b, what(disk) + ", no error: the dump")
        else:
            same(a, b, what(disk) + ", no error: the %s" % m["kind"])
    ctx.event("unreported" if disk.fired else "no fault")


@st.composite
def sources(draw):
    k = draw(st.sampled_from(["wav", "wav", "dnx", "raw", "mxf", "mxf", "dump"]))
    m = dict(draw(x01.cases()), kind=k) if k in ("mxf", "dump") else {"wav": e01.wav, "dnx": e01.dnx, "raw": e01.raw}[k](draw)
    if k == "wav" and draw(st.booleans()):
        m["frames"] = max(m["frames"], draw(st.integers(10000, 40000)) // (m["width"] * m["channels"]))
    n = draw(st.lists(st.one_of(st.integers(0, 8), st.integers(0, 1000)), min_size=1, max_size=2))
    return m, n, draw(st.booleans())


_k = st.one_of(st.integers(0, 30), st.integers(0, 150), st.integers(0, 500))
TARGETS = [
    Target("box", lambda tier: st.tuples(st.sampled_from([4096, 512]), st.sampled_from(BUFFERS), plans(),
                                         st.lists(st.one_of(ns_op, sop, sop), max_size=15),
                                         st.lists(st.one_of(ns_op, sop, sop), min_size=1, max_size=20)), run_box, quick=600, thorough=20000),
    Target("sessions", lambda tier: st.tuples(st.sampled_from(BUFFERS), plans(), aafmodel.histories(st, WEIGHTS, 14)), run_sessions, quick=120, thorough=4000),
    Target("sources", lambda tier: sources(), run_sources, quick=150, thorough=6000),
    Target("again", st.tuples(st.sampled_from([4096, 512]), st.integers(0, 3), st.sampled_from(BUFFERS), st.lists(_k, min_size=1, max_size=12, unique=True),
                              st.integers(0, 1 << 20)), run_again, quick=120, thorough=4000),
]

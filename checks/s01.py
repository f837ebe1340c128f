"""S01: files that are open at the same time do not affect one another."""
import gc
import io
import os
import random
import struct
import sys
import threading
import zlib
from hypothesis import strategies as st
from vlib.runner import SRC, Target, Violation, check, check_eq
from vlib import cfbref, aafext, aafgen, aafmodel, aafref, aafrelay
from vlib.aafgen import same, snapshot
from checks import m01

PROPERTY = "S01"
RULE = ("Two to four files open in one process - plain ones, ones laid out by the check's own writer with other local ids, and ones "
        "with their own data models, in which the same names and ids stand for different classes, types and properties - each with a "
        "history of edits as in F02 against its own model, the histories interleaved, while further files are opened, fail to open, "
        "are given up or collected; target 'threads': two histories in two threads, switched between at generated lines of the "
        "library, or at drawn places of it; target 'alone': a history with new classes run twice, the second time with other files open. Non-trivial: at least two of the files were edited in turns at least three times.")
ASSUMPTIONS = ["a file is used by one thread only", "definitions that are referred to are not removed"]
WEIGHTS = {"set": 4, "delete": 1, "ref": 2, "vec": 4, "sset": 3, "weak": 2, "stream": 2, "mobid": 1, "copy": 1, "fill": 1,
           "save": 1, "reopen": 2, "peek": 1, "refuse": 1}
THREADS = dict((k, v) for k, v in WEIGHTS.items() if k not in ("refuse",))


class Twin(aafext.Planner):
    """draws the same ids and names as any other Twin"""
    def new_id(self, rnd):
        n = self.__dict__["count"] = self.__dict__.get("count", 0) + 1
        return aafext.auid(random.Random("id%d" % n))

    def fresh(self, rnd, stem):
        while True:
            n = self.__dict__["named"] = self.__dict__.get("named", 0) + 1
            if "%s%d" % (stem, n) not in self.names:
                self.names.add("%s%d" % (stem, n))
                return "%s%d" % (stem, n)


_built = {}


def build(kind, seed, path):
    """(bytes, graph, data model or None) of a file of the kind, put at the path"""
    ss = 4096 if seed % 2 else 512
    k = (kind, seed)
    if k not in _built:
        _built[k] = make(kind, seed, ss, path)
    io.open(path, "wb").write(_built[k][0])
    return _built[k]


def make(kind, seed, ss, path):
    import aaf2
    rnd = random.Random(seed)
    S = None
    if kind in ("own", "own relaid"):
        S0 = m01.base_schema(True)
        pl = Twin(S0)
        pl.step("class", seed)
        for i in range(4 + seed % 5):
            pl.step(rnd.choice(["type", "type", "class", "prop", "prop", "elem", "elem"]), rnd.randrange(1 << 20))
        with aaf2.open(path, "w", sector_size=ss) as f:
            for c in pl.plan:
                aafext.register(f, c, rnd, {})
        S = aafgen.Schema(io.open(path, "rb").read())
        prefer = [pl.classes[c]["name"] for c in pl.new_classes] + [p for _, p in pl.new_props] + sorted(pl.added)
        doc = m01.document(S, pl, seed, prefer)
        with aaf2.open(path, "rw") as f:
            aafgen.Builder(f, S, rnd).document(doc)
        data = io.open(path, "rb").read()
    else:
        data = aafmodel.base_file(ss, seed % 4)[0]
    if "relaid" in kind:
        data = aafrelay.relay(data, ss, seed)[0]
    return data, aafref.load(data)[1], S


class Reader(object):
    """a file open for reading"""
    def __init__(self, path, data, lit):
        import aaf2
        self.path, self.data, self.lit = path, data, lit
        self.f = aaf2.open(path, "r")

    def apply(self, op):
        same(aafgen.whole(self.f), self.lit, "a file open for reading")
        return False

    def finish(self):
        self.apply(None)
        self.f.close()
        check(io.open(self.path, "rb").read() == self.data, "a file open for reading has changed")


def world(path, ctx, data, lit, S):
    w = aafmodel.World(path, 4096, 0, ctx, given=(data, lit), S=S)
    w.strict = True
    return w


def aside(what, path, data, rnd):
    """something done with yet another file"""
    import aaf2
    if what == "broken":
        b = bytearray(data)
        cut = rnd.randrange(3)
        if cut == 0:
            del b[rnd.randrange(len(b)):]
        else:
            for _ in range(20):
                b[rnd.randrange(len(b) // 8)] ^= rnd.randrange(256)
        io.open(path, "wb").write(bytes(b))
        try:
            with aaf2.open(path, rnd.choice(["r", "rw"])) as f:
                snapshot(f.header)
        except Exception:
            pass
    elif what == "new":
        with aaf2.open() as f:
            m = f.create.MasterMob("x")
            f.content.mobs.append(m)
            pl = Twin(m01.base_schema(True))
            for i in range(3):
                pl.step(rnd.choice(["type", "class", "elem", "elem"]), rnd.randrange(1 << 20))
            for c in pl.plan:
                aafext.register(f, c, rnd, {})
    elif what == "dropped":
        io.open(path, "wb").write(data)
        f = aaf2.open(path, "rw")
        m = f.create.CompositionMob("left")
        f.content.mobs.append(m)
        f.header["LastModified"].value
        del f, m
    gc.collect()


def run(value, ctx):
    kinds, ops, seed = value
    rnd = random.Random(seed)
    parts, opened = [], []
    try:
        specs = []
        for i, (kind, s, ro) in enumerate(kinds):
            path = ctx.path("p%d.aaf" % i)
            specs.append((path, ro) + build(kind, s, path))
            ctx.event(kind + (" read only" if ro else ""))
        for path, ro, data, lit, S in specs:
            p = Reader(path, data, lit) if ro else world(path, ctx, data, lit, S)
            parts.append(p)
            opened.append(p)
        turns = []
        for n, (who, op) in enumerate(ops):
            if isinstance(op, str):
                ctx.event(op)
                aside(op, ctx.path("aside.aaf"), specs[who % len(specs)][2], rnd)
                continue
            k = (n + who) % len(parts)
            if parts[k].apply(op) is not False:
                turns.append(k)
        for p in parts:
            if isinstance(p, aafmodel.World):
                p.check("at the end")
        for p in parts:
            if isinstance(p, aafmodel.World):
                p.reopen()
        for p, spec in zip(parts, specs):
            if isinstance(p, aafmodel.World):
                p.check("after reopening")
                A = aafref.AAF(p.data)
                aafext.check_kept(A, aafref.AAF(spec[2]), "definitions")
                aafext.check_api(p.f, A, "definitions, API")
        for p in parts:
            if isinstance(p, aafmodel.World):
                p.close()
            else:
                p.finish()
            opened.remove(p)
    finally:
        for p in opened:
            try:
                p.f.close()
            except Exception:
                pass
    changes = sum(1 for a, b in zip(turns, turns[1:]) if a != b)
    ctx.nontrivial(changes >= 3)


# ------------------------------------------------------------------- threads

class Stop(BaseException):
    pass


class Baton(object):
    """lets one thread run at a time and hands over after a drawn number of lines of the library, or (two cases of
    three) at the lines of a drawn set of its functions, a limited number of times each, so that threads meet in them"""
    def __init__(self, n, rnd):
        self.places = rnd.choice([0, 0, 7, 20, 40, 40])
        self.salt, self.spent = rnd.random(), {}
        self.cond = threading.Condition()
        self.rnd, self.alive, self.turn, self.over, self.switches = rnd, list(range(n)), 0, False, 0
        self.base = os.path.join(SRC, "aaf2") + os.sep
        self.left = self.draw()

    def draw(self):
        return self.rnd.choice([1, 3, 10, 50, 300, 2000, 10000])

    def place(self, code):
        """whether to hand over at this line of a drawn function"""
        n = self.spent.get(code, 0)
        if n >= 40 or self.rnd.random() < 0.5:
            return False
        self.spent[code] = n + 1
        return True

    def drawn(self, code):
        return not self.places or zlib.crc32(("%s:%s:%r" % (os.path.basename(code.co_filename), code.co_qualname, self.salt)).encode()) % self.places == 0

    def hand_over(self, me):
        with self.cond:
            others = [x for x in self.alive if x != me]
            if others:
                self.turn = self.rnd.choice(others)
                self.switches += 1
            self.left = self.draw()
            self.cond.notify_all()
        self.wait(me)

    def wait(self, me):
        with self.cond:
            while self.turn != me and not self.over:
                self.cond.wait(1.0)
            if self.over:
                raise Stop()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.place(frame.f_code) if self.places else self.left <= 0:
                    self.hand_over(me)
            return local

        known = {}

        def outer(frame, event, arg):
            code = frame.f_code
            if code not in known:
                known[code] = code.co_filename.startswith(self.base) and self.drawn(code)
            return local if known[code] else None
        return outer

    def done(self, me):
        with self.cond:
            self.alive.remove(me)
            if self.alive:
                self.turn = self.alive[0]
            self.cond.notify_all()


def run_threads(value, ctx):
    seed, hists = value
    rnd = random.Random(seed)
    given = []
    for i, (relay, (ss, base, ops)) in enumerate(hists):
        data, lit = aafmodel.base_file(ss, base)
        if relay:
            data = aafrelay.relay(data, ss, relay)[0]
        given.append((data, lit))
    baton = Baton(len(hists), rnd)
    failed, worlds = [], []

    class Quiet(object):
        """the case's context, with a directory of its own"""
        def __init__(self, i):
            self.i = i

        def path(self, name):
            return ctx.path("t%d-%s" % (self.i, name))

        def event(self, what):
            pass

    def body(i):
        try:
            baton.wait(i)
            sys.settrace(baton.tracer(i))
            try:
                worlds.append(aafmodel.play(hists[i][1], Quiet(i), given=given[i]))
            finally:
                sys.settrace(None)
        except Stop:
            pass
        except BaseException as e:
            failed.append(e)
        finally:
            baton.done(i)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(hists))]
    try:
        for t in ts:
            t.start()
        for t in ts:
            while t.is_alive():
                t.join(0.5)
    finally:
        with baton.cond:
            baton.over = True
            baton.cond.notify_all()
    if failed:
        raise failed[0]
    edits = [sum(w.count.get(k, 0) for k in THREADS if k not in ("save", "peek", "reopen")) for w in worlds]
    ctx.nontrivial(baton.switches >= 5 and min(edits) >= 1)


# ------------------------------------------------------- numbers given out

def signature(data):
    """names of entries, and the numbers, formats and sizes of properties: all but the values"""
    out = {}
    for p, e in cfbref.parse(data).tree.items():
        if e[0] == "d":
            out[p] = bytes(e[1])
            continue
        b = bytes(e[2])
        out[p] = len(b)
        if p.endswith("/properties"):
            out[p] = struct.unpack_from("<%dH" % (3 * struct.unpack_from("<H", b, 2)[0]), b, 4)
        elif p == "/referenced properties":
            out[p] = b
    return out


def run_alone(value, ctx):
    """the same history alone, and while other files are open that went before it"""
    import aaf2
    (ss, base, ops), seed, others = value
    data, lit = aafmodel.base_file(ss, base)
    got = []
    open_files = []
    count = None
    try:
        for turn in range(2):
            rnd = random.Random(seed)
            for o, oseed in others if turn else ():
                f = aaf2.open()
                open_files.append(f)
                r2 = random.Random(oseed)
                pl = Twin(m01.base_schema(True))
                for i in range(o):
                    pl.step(r2.choice(["type", "class", "class", "prop", "elem"]), r2.randrange(1 << 20))
                for c in pl.plan:
                    aafext.register(f, c, r2, {})
                for i in range(o):
                    m = f.create.MasterMob("other %d" % i)
                    f.content.mobs.append(m)
                    m.create_picture_slot(25)
            pids = {}
            pl = Twin(m01.base_schema(True))
            for i in range(3 + seed % 4):
                pl.step(rnd.choice(["type", "class", "prop", "prop"]), rnd.randrange(1 << 20))
            plan = list(pl.plan)
            w = aafmodel.World(ctx.path("n.aaf"), ss, base, ctx, given=(data, lit))
            try:
                for n, op in enumerate(ops):
                    if plan and n % 2 == 0:
                        aafext.register(w.f, plan.pop(0), rnd, pids)
                    w.apply(op)
                for c in plan:
                    aafext.register(w.f, c, rnd, pids)
                s = w.f.create.MasterMob("numbers")
                w.f.content.mobs.append(s)
                got.append([s.create_picture_slot(25).slot_id, s.create_sound_slot(25).slot_id, sorted(pids.items())])
            finally:
                w.f.close()
            got[-1] = (got[-1], signature(io.open(w.path, "rb").read()))
            count = w.count
    finally:
        for f in open_files:
            f.close()
    (ids, a), (ids2, b) = got
    check_eq(ids2, ids, "ids of slots and properties with other files open")
    diff = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
    check(not diff, "with other files open the same history gave other numbers or names, at %s: %s, alone: %s" % (
        diff[:3], [b.get(k) for k in diff[:3]], [a.get(k) for k in diff[:3]]))
    ctx.nontrivial(sum(count.get(k, 0) for k in WEIGHTS) >= 2)


ALONE = dict((k, v) for k, v in WEIGHTS.items() if k != "refuse")


def cases(tier):
    big = tier != "quick"
    kind = st.tuples(st.sampled_from(["plain", "relaid", "own", "own", "own relaid"]), st.integers(0, 2 if not big else 60),
                     st.sampled_from([False, False, False, True]))
    names = [n for n, w in WEIGHTS.items() for _ in range(w)]
    op = st.tuples(st.sampled_from(names), st.integers(0, 1000), st.integers(0, 40), st.integers(0, 1 << 20))
    step = st.tuples(st.sampled_from([0, 0, 0, 1, 2]), st.one_of(*[op] * 10, st.sampled_from(["broken", "new", "dropped"])))
    return st.tuples(st.lists(kind, min_size=2, max_size=4 if big else 3),
                     st.lists(step, min_size=9, max_size=50 if big else 16), st.integers(0, 1 << 20))


def threads(tier):
    h = st.tuples(st.sampled_from([0, 0, 1, 2, 3]), aafmodel.histories(st, THREADS, 6 if tier == "quick" else 15))
    return st.tuples(st.integers(0, 1 << 20), st.lists(h, min_size=2, max_size=2 if tier == "quick" else 3))


TARGETS = [Target("together", cases, run, quick=80, thorough=3000),
           Target("alone", lambda tier: st.tuples(aafmodel.histories(st, ALONE, 8), st.integers(0, 1 << 20),
                                                  st.lists(st.tuples(st.integers(1, 6), st.integers(0, 1 << 20)), min_size=1, max_size=3)), run_alone,
                  quick=40, thorough=1500),
           Target("threads", threads, run_threads, quick=40, thorough=1500)]

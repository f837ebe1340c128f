"""R01: work, memory and space follow what is handled."""
import io
import os
import random
import sys
import tracemalloc

from hypothesis import strategies as st

from vlib.memfile import MemFile
from vlib.runner import Target, check

PROPERTY = "R01"
RULE = ("Target 'space': histories over small and large streams in one or more sessions; after each close the file has no more sectors "
        "than the model needed at its fullest. Target 'pieces': streams written and read in generated pieces, with bytes and memory "
        "counted. Target 'parts': two files alike but for the weight of their objects, of which the same parts are read or edited. "
        "Target 'work': a generated program of one unit repeated n and 4n times, with executed lines of the library counted. "
        "Non-trivial: 'space' gave up at least as much as the file holds; 'pieces' at least 20 pieces and 50 sectors; 'parts' at "
        "most half of the objects; 'work' at least two kinds of operation.")
ASSUMPTIONS = ["many streams of one container are appended to in turn, or vectors one object at a time, without a promise of their cost",
               "directory entries given up in earlier sessions need not be used again"]

CUT = 4096


# -------------------------------------------------------------------- space

class Need(object):
    """sectors the streams and tables of a container need"""
    def __init__(self, ss):
        self.ss, self.sizes = ss, {}
        self.big = self.mini = self.high_mini = 0
        self.dirs, self.net, self.high_net = 1, 0, 0
        self.peak, self.given_up = 0, 0
        self.note()

    def sectors(self, size):
        return (-(-size // self.ss), 0) if size >= CUT else (0, -(-size // 64))

    def set(self, name, size, start=None):
        old = self.sizes.get(name)
        if old is None:
            self.net += 1
        else:
            b, m = self.sectors(old)
            self.big -= b
            self.mini -= m
            self.given_up += max(0, old - size)
        if start is not None:
            # what it has in between, when it is written anew
            self.given_up += old or 0
        b, m = self.sectors(size)
        self.big += b
        self.mini += m
        self.sizes[name] = size
        self.note()

    def drop(self, name):
        size = self.sizes.pop(name)
        b, m = self.sectors(size)
        self.big -= b
        self.mini -= m
        self.net -= 1
        self.given_up += size
        self.note()

    def note(self):
        self.high_mini = max(self.high_mini, self.mini)
        self.high_net = max(self.high_net, self.net)
        per = self.ss // 128
        n = self.big + -(-self.high_mini * 64 // self.ss) + -(-self.high_mini * 4 // self.ss) + self.dirs + -(-self.high_net // per)
        self.peak = max(self.peak, n)

    def reopened(self):
        self.dirs += -(-self.high_net // (self.ss // 128))
        self.net = self.high_net = 0
        self.note()

    def allowed(self):
        n = self.peak + 2
        fat = -(-(n + n // (self.ss // 4 - 1)) // (self.ss // 4 - 1)) + 1
        return 1 + n + fat + max(0, -(-(fat - 109) // (self.ss // 4 - 1)))


def run_space(value, ctx):
    from aaf2.cfb import CompoundFileBinary
    ss, ops = value
    need = Need(ss)
    f = MemFile()
    c = CompoundFileBinary(f, "wb+", sector_size=ss)

    def closed(when):
        c.close()
        have = len(f.buf) // ss
        check(have <= need.allowed(), "%s the file has %d sectors of %d bytes, its streams and tables never needed more than %d" % (
            when, have, ss, need.allowed()))

    sessions = 1
    for op, who, size, times in ops:
        names = sorted(need.sizes)
        for t in range(times):
            if op == "close":
                closed("after session %d" % sessions)
                c = CompoundFileBinary(f, "rb+")
                need.reopened()
                sessions += 1
                break
            if op == "new" or not names:
                name = "/s%d" % (len(need.sizes) + who * 1000)
                if name in need.sizes:
                    continue
                c.open(name, "w").write(bytes(size))
                need.set(name, size)
                continue
            name = names[who % len(names)]
            if op == "rewrite":
                s = c.open(name, "w")
                need.set(name, 0, 0)
                s.write(bytes(size))
                need.set(name, size)
            elif op == "add":
                s = c.open(name, "rw")
                s.seek(0, 2)
                s.write(bytes(size % 3000))
                need.set(name, need.sizes[name] + size % 3000)
            elif op == "cut":
                s = c.open(name, "rw")
                to = need.sizes[name] * (size % 100) // 100
                s.truncate(to)
                need.set(name, to)
            elif op == "again":
                c.remove(name)
                need.drop(name)
                c.open(name, "w").write(bytes(size))
                need.set(name, size)
            elif op == "away":
                if name in need.sizes:
                    c.remove(name)
                    need.drop(name)
            elif op == "tree":
                c.makedir("/t")
                need.set("/t", 0)
                c.open("/t/x", "w").write(bytes(size))
                need.set("/t/x", size)
                c.rmtree("/t")
                need.drop("/t/x")
                need.drop("/t")
            elif op == "move":
                c.move(name, "/m%d" % who)
                c.move("/m%d" % who, name)
        ctx.event(op)
    closed("in the end")
    ctx.nontrivial(need.given_up >= sum(need.sizes.values()) and need.given_up >= 4 * ss)


def space(tier):
    big = tier != "quick"
    size = st.one_of(st.integers(0, 700), st.integers(3900, 4300), st.integers(4096, 30000))
    op = st.tuples(st.sampled_from(["new", "new", "rewrite", "add", "cut", "again", "away", "tree", "move", "close"]),
                   st.integers(0, 30), size, st.sampled_from([1, 1, 2, 5, 12]))
    return st.tuples(st.sampled_from([512, 512, 4096]), st.lists(op, min_size=5, max_size=30 if not big else 80))


# ------------------------------------------------------------------- pieces

class Counted(io.FileIO):
    def __init__(self, path, mode):
        self.got = self.put = 0
        io.FileIO.__init__(self, path, mode)

    def readinto(self, b):
        n = io.FileIO.readinto(self, b)
        self.got += n
        return n

    def read(self, n=-1):
        d = io.FileIO.read(self, n)
        self.got += len(d)
        return d

    def write(self, data):
        n = io.FileIO.write(self, data)
        self.put += n
        return n


def run_pieces(value, ctx):
    from aaf2.cfb import CompoundFileBinary
    ss, total, others, seed, memory = value
    rnd = random.Random(seed)
    path = ctx.path("p.cfb")
    biggest = rnd.choice([64, 700, 5000, 60000])
    tables = 4 * (total // ss + 1) + 4 * ss

    def pieces(n):
        out, left = [], n
        while left > 0:
            k = min(left, 1 + rnd.randrange(biggest))
            out.append(k)
            left -= k
        return out

    room = 6 * biggest + 700 * (ss + 150) + 60 * (total // ss) + 300000
    top = [0]

    class Watch(object):
        def __enter__(self):
            if memory:
                tracemalloc.start()

        def __exit__(self, *a):
            if memory:
                top[0] = tracemalloc.get_traced_memory()[1]
                tracemalloc.stop()
                check(a[0] is not None or top[0] <= room, "%s a stream of %d bytes in pieces of up to %d took %d bytes of memory, %d would do" % (
                    self.what, total, biggest, top[0], room))

        def __call__(self, what):
            self.what = what
            return self
    watch = Watch()
    f = Counted(path, "w+")
    c = CompoundFileBinary(f, "wb+", sector_size=ss)
    for i in range(others):
        c.open("/o%d" % i, "w").write(bytes(rnd.choice([10, 900, 5000])))
    plan = pieces(total)
    body = memoryview(rnd.randbytes(biggest))
    with watch("writing"):
        s = c.open("/s", "w")
        f.got = f.put = 0
        for k in plan:
            s.write(body[:k])
        spent = (f.got, f.put)
        c.close()
        spent_close = f.put - spent[1]
    check(spent[1] <= total + 3 * CUT + 2 * ss + 128 * 200, "writing %d bytes in %d pieces wrote %d to the file" % (total, len(plan), spent[1]))
    check(spent[0] <= 3 * CUT + 4 * ss + 128 * 200, "writing %d bytes in %d pieces read %d from the file" % (total, len(plan), spent[0]))
    check(spent_close <= 3 * tables + 200000 + 8 * ss, "closing after writing %d bytes wrote %d" % (total, spent_close))
    f.close()

    f = Counted(path, rnd.choice(["r", "r+"]))
    c = CompoundFileBinary(f, "rb" if not f.writable() else "rb+")
    with watch("reading"):
        s = c.open("/s", "r")
        check(f.got <= 3 * tables + 200000 + 16 * ss, "opening a container with a stream of %d bytes read %d" % (total, f.got))
        f.got = f.put = 0
        n = asked = 0
        for i in range(rnd.choice([1, 20, 60])):
            s.seek(rnd.randrange(total + 1))
            k = 1 + rnd.randrange(biggest)
            asked += len(s.read(k))
            n += 1
        check(f.got <= asked + n * 2 * ss + 128 * 64, "%d pieces with %d bytes of a stream of %d took reading %d" % (n, asked, total, f.got))
        f.got = 0
        s.seek(0)
        n = 0
        while True:
            d = s.read(1 + rnd.randrange(biggest))
            if not d:
                break
            n += 1
        check(f.got <= total + n * 2 * ss + 128 * 64, "reading all %d bytes in %d pieces took reading %d" % (total, n, f.got))
        check(f.put == 0, "reading wrote to the file")
        s = d = None
    if f.writable():
        with watch("editing"):
            f.got = f.put = 0
            s = c.open("/s", "rw")
            n = given = 0
            for i in range(30):
                at = rnd.randrange(total)
                k = min(total - at, 1 + rnd.randrange(biggest))
                s.seek(at)
                s.write(body[:k])
                given += k
                n += 1
            check(f.put <= given + 128 * 64, "%d pieces with %d bytes put in a stream of %d took writing %d" % (n, given, total, f.put))
            check(f.got <= n * 2 * ss + 128 * 64, "%d pieces put in a stream of %d took reading %d" % (n, total, f.got))
            c.close()
    f.close()
    ctx.nontrivial(len(plan) >= 20 and total // ss >= 50)


def pieces(tier):
    total = st.one_of(st.integers(1, 9000), st.integers(20000, 700000), st.integers(20000, 700000), st.integers(1500000, 2000000 if tier == "quick" else 30000000))
    return st.tuples(st.sampled_from([512, 512, 4096]), total, st.integers(0, 40), st.integers(0, 1 << 20), st.booleans()).map(
        lambda v: v[:4] + (v[4] or v[1] > 1000000,))


# -------------------------------------------------------------------- parts

def run_parts(value, ctx):
    import aaf2
    from vlib.faulty import Disk
    n, picks, edits, weight, essence, mode, ss, seed = value
    picks = list(dict.fromkeys(p % n for p in picks))[:max(1, n // 2)]
    spent = []
    for factor in (1, 16):
        path = ctx.path("f%d.aaf" % factor)
        rnd = random.Random(seed)
        ids = []
        with aaf2.open(path, "w", sector_size=ss) as f:
            for i in range(n):
                m = rnd.choice([f.create.MasterMob, f.create.CompositionMob])("m%d " % i + "n" * (weight * factor))
                f.content.mobs.append(m)
                ids.append(m.mob_id)
                m.comments["c"] = "x" * (weight * factor)
                m.comments["d"] = "y" * (weight * factor)
            for i in range(essence):
                m = f.create.SourceMob("e%d" % i)
                m.descriptor = f.create.PCMDescriptor()
                for k, v in (("BlockAlign", 2), ("Channels", 1), ("AverageBPS", 1), ("QuantizationBits", 16), ("AudioSamplingRate", 48000), ("SampleRate", 48000), ("Length", 0)):
                    m.descriptor[k].value = v
                f.content.mobs.append(m)
                e = f.create.EssenceData()
                e.mob_id = m.mob_id
                f.content.essencedata.append(e)
                e.open("w").write(bytes(6000 * factor))
        size = os.path.getsize(path)

        class CountingDisk(Disk):
            def open(self, path, mode="rb", buffering=-1):
                raw = Counted(path, mode.replace("b", ""))
                self.raws.append(raw)
                return raw
        disk = CountingDisk({})
        with disk.patched(path):
            f = aaf2.open(path, mode, buffering=0)
        raw = disk.raws[0]
        tracemalloc.start()
        try:
            for j, k in enumerate(picks):
                m = f.content.mobs.get(ids[k])
                check(m.name.split()[0] == "m%d" % k, "another mob")
                if mode == "rw" and j < edits:
                    m.name = "new%d " % k + m.name
                else:
                    len(m.comments["c"])
                m = None
            if mode == "rw":
                f.save()
            f.close()
            mem = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        spent.append((raw.got, raw.put, mem, size))
        ctx.event(mode)
    (r1, w1, m1, s1), (r2, w2, m2, s2) = spent
    grown = s2 - s1
    each = len(set(picks)) * (3 * weight * 16 * 2 + 6 * ss)
    tables = 12 * (s2 // ss) + 16 * ss
    wrote = min(edits, len(picks)) * (3 * weight * 16 * 2 + 6 * ss) if mode == "rw" else 0
    more = "%d of %d objects of a file of %d bytes" % (len(set(picks)), n, s2)
    check(r2 <= r1 + 2 * each + tables, "%s took reading %d bytes, in one of %d bytes %d" % (more, r2, s1, r1))
    check(w2 <= w1 + wrote + tables, "%s took writing %d bytes, in one of %d bytes %d" % (more, w2, s1, w1))
    check(m2 <= m1 + 4 * each + 3 * tables + 300000, "%s took %d bytes of memory, in one of %d bytes %d" % (more, m2, s1, m1))
    ctx.nontrivial(grown > 2 * (2 * each + tables))


def parts(tier):
    return st.tuples(st.integers(20, 60), st.lists(st.integers(0, 1000), min_size=1, max_size=8), st.integers(0, 3), st.integers(300, 1500),
                     st.integers(0, 6), st.sampled_from(["r", "rw"]), st.sampled_from([512, 4096]), st.integers(0, 1 << 20))


# --------------------------------------------------------------------- work

class Lines(object):
    """executed lines of the library"""
    def __init__(self):
        import aaf2
        self.base = os.path.dirname(os.path.abspath(aaf2.__file__)) + os.sep
        self.n = 0
        self.known = {}

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
        return self.local

    def outer(self, frame, event, arg):
        code = frame.f_code
        if code not in self.known:
            self.known[code] = code.co_filename.startswith(self.base)
        return self.local if self.known[code] else None

    def __enter__(self):
        self.n = 0
        sys.settrace(self.outer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def container_program(unit, n, seed, ss):
    from aaf2.cfb import CompoundFileBinary
    rnd = random.Random(seed)
    f = MemFile()
    c = CompoundFileBinary(f, "wb+", sector_size=ss)
    size = rnd.choice([10, 100, 600, 5000])
    order = list(range(n))
    if rnd.random() < 0.5:
        rnd.shuffle(order)
    deep = "deep" in unit
    if deep:
        c.makedir("/d")
    base = "/d" if deep else ""
    for i in order:
        c.open("%s/s%d" % (base, i), "w").write(bytes(size))
    for what in unit:
        if what == "find":
            for i in order:
                c.open("%s/s%d" % (base, i), "r").read()
        elif what == "rewrite":
            for i in order:
                c.open("%s/s%d" % (base, i), "w").write(bytes(size))
        elif what == "move":
            for i in order:
                c.move("%s/s%d" % (base, i), "%s/t%d" % (base, i))
                c.move("%s/t%d" % (base, i), "%s/s%d" % (base, i))
        elif what == "storages":
            for i in order:
                c.makedir("%s/g%d" % (base, i))
                c.open("%s/g%d/x" % (base, i), "w").write(b"x")
            for i in order:
                c.rmtree("%s/g%d" % (base, i))
        elif what == "long":
            s = c.open("/long", "w")
            for i in range(n):
                s.write(bytes(ss))
            s.seek(0)
            for i in range(n):
                s.read(ss)
            s.truncate(ss * n // 2)
        elif what == "walk":
            for root, storages, streams in c.walk():
                for e in streams:
                    e.path()
        elif what == "reopen":
            c.close()
            c = CompoundFileBinary(f, "rb+")
        elif what == "remove":
            for i in order[::2]:
                c.remove("%s/s%d" % (base, i))
            for i in order[::2]:
                c.open("%s/s%d" % (base, i), "w").write(bytes(size))
    c.close()


def file_program(unit, n, seed, path):
    import aaf2
    rnd = random.Random(seed)
    f = aaf2.open(path, "w", sector_size=512)
    ids = []
    many = []
    for i in range(n):
        m = f.create.MasterMob("m%d" % i)
        ids.append(m.mob_id)
        if "together" in unit:
            many.append(m)
        else:
            f.content.mobs.append(m)
    if many:
        f.content.mobs.extend(many)
    many = None
    order = list(ids)
    if rnd.random() < 0.5:
        rnd.shuffle(order)
    for what in unit:
        if what == "get":
            for i in order:
                f.content.mobs.get(i).name
        elif what == "edit":
            for i in order:
                f.content.mobs.get(i).name = "other"
            f.save()
        elif what == "pop":
            for i in order[::2]:
                m = f.content.mobs.pop(i)
                f.content.mobs.append(m)
        elif what == "slots":
            for i in order:
                m = f.content.mobs.get(i)
                s = m.create_picture_slot(25)
                s.segment.components.extend([f.create.Filler("picture", 5)])
        elif what == "long":
            m = f.create.MasterMob("long")
            f.content.mobs.append(m)
            s = m.create_picture_slot(25)
            s.segment.components.extend([f.create.Filler("picture", 1) for i in range(n)])
            s.segment.index_at_time(n // 2)
            s.length
        elif what == "reopen":
            f.close()
            f = aaf2.open(path, "rw")
        elif what == "walk":
            for m in f.content.mobs:
                list(m.slots)
        elif what == "rename":
            for k, i in enumerate(order[::3]):
                m = f.content.mobs.get(i)
                new = aaf2.mobid.MobID(int=k + 77)
                m.mob_id = new
                m.mob_id = i
    f.close()


def run_work(value, ctx):
    kind, unit, seed, ss = value
    n = 24
    got = []
    for k in (0, n, 4 * n):
        with Lines() as lines:
            if kind == "container":
                container_program(unit, k, seed, ss)
            else:
                file_program(unit, k, seed, ctx.path("w.aaf"))
        got.append(lines.n)
        ctx.event(kind)
    base, one, four = got
    a, b = one - base, four - base
    check(b <= 7.5 * a + 2000, "%s with %d of them takes %d lines of the library, with %d %d: more than in proportion" % (
        " ".join(unit), n, a, 4 * n, b))
    ctx.nontrivial(len(set(unit)) >= 2)


def work(tier):
    c = st.tuples(st.just("container"), st.lists(st.sampled_from(["find", "rewrite", "move", "storages", "long", "walk", "reopen", "remove", "deep"]), min_size=1, max_size=4),
                  st.integers(0, 1 << 20), st.sampled_from([512, 4096]))
    f = st.tuples(st.just("file"), st.lists(st.sampled_from(["get", "edit", "pop", "slots", "long", "reopen", "walk", "rename", "together"]), min_size=1, max_size=4),
                  st.integers(0, 1 << 20), st.just(512))
    return st.one_of(c, f)


TARGETS = [Target("space", space, run_space, quick=300, thorough=12000),
           Target("pieces", pieces, run_pieces, quick=60, thorough=1500),
           Target("parts", parts, run_parts, quick=40, thorough=1000),
           Target("work", work, run_work, quick=40, thorough=2000)]

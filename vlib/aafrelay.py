"""Lays an AAF file out as other software might.

The graph stays the same; what changes is everything the format leaves open: the order of properties and of
elements of sets, names of storages and streams, local keys of collections, local ids of properties that have no
fixed one, the order of the table of weak references (with repeated and unused rows), further entries next to the
objects, and the layout of the container below.  Nothing here imports aaf2.
"""
import random
import struct

from . import aafref, cfbref
from .aafref import METAPROP

WORDS = ["Obj", "data", "x", "Ref", "Item list", "a b c", "Slots"]


def z16(s):
    return s.encode("utf-16le") + b"\0\0"


class Relay(object):
    def __init__(self, data, seed, what=None):
        self.A = aafref.AAF(data)
        self.rnd = random.Random(seed)
        every = ["order", "names", "keys", "pids", "weak", "extra", "sets"]
        self.what = set(every if what is None else what)
        self.tree = {}
        self.extra = {}
        self.pid = {}
        if "pids" in self.what:
            dyn = sorted(set(p for c in self.A.classes.values() for p in c["props"] if p >= 0x8000))
            new = self.rnd.sample(range(0x8000, 0x10000), len(dyn))
            if self.rnd.random() < 0.5:
                new.sort(reverse=True)
            self.pid = dict(zip(dyn, new))
        self.weak_table()
        self.copy("", "")
        if "extra" in self.what:
            for p, e in ((u"/\x05SummaryInformation", ("f", bytes(16), self.rnd.randbytes(self.rnd.choice([0, 40, 5000])))),
                         ("/Other", ("d", self.rnd.randbytes(16))), ("/Other/thing", ("f", bytes(16), b"thing" * 30))):
                self.extra[p] = e
            self.tree.update(self.extra)

    def p(self, pid):
        return self.pid.get(pid, pid)

    def weak_table(self):
        rows = [[self.p(x) for x in r] for r in self.A.weak]
        self.idx = {}
        items = list(enumerate(rows))
        if "weak" in self.what:
            self.rnd.shuffle(items)
            out = []
            for i, r in items:
                if self.rnd.random() < 0.2:
                    out.append((None, list(self.rnd.choice(rows))))
                out.append((i, r))
            items = out
        self.table = []
        for i, r in items:
            if i is not None:
                self.idx[i] = len(self.table)
            self.table.append(r)
        body = b"".join(struct.pack("<%dH" % (len(r) + 1), *(r + [0])) for r in self.table)
        self.tree["/referenced properties"] = ("f", bytes(16), struct.pack("<BHI", 0x4C, len(self.table), len(body) // 2) + body)

    def name(self, taken, old):
        if "names" not in self.what or self.rnd.random() < 0.3:
            n = old
        else:
            n = "%s-%x" % (self.rnd.choice(WORDS), self.rnd.randrange(1 << 16))
        while cfbref.cfb_key(n) in taken:
            n = "%s-%x" % (self.rnd.choice(WORDS), self.rnd.randrange(1 << 16))
        taken.add(cfbref.cfb_key(n))
        return n

    def local(self, n):
        """n local keys and the next free one"""
        if "keys" not in self.what:
            return list(range(n)), n
        ks = self.rnd.sample(range(n * 3 + 2 if self.rnd.random() < 0.7 else self.rnd.choice([1 << 16, 1 << 20, 1 << 31]) + n), n)
        return ks, max(ks + [-1]) + 1 + self.rnd.choice([0, 0, 1, 7])

    def shuffled(self, items, flag):
        items = list(items)
        if flag in self.what:
            self.rnd.shuffle(items)
        return items

    def add(self, path, data):
        self.tree[path] = ("f", bytes(16), bytes(data))

    def copy(self, old, new):
        A = self.A
        o = A.obj(old)
        if new:
            e = A.tree[old]
            self.tree[new] = ("d", e[1])
        taken = set([cfbref.cfb_key("properties"), cfbref.cfb_key("referenced properties"), cfbref.cfb_key("tmp")])
        if old == "":
            # these two have their names by convention
            for pid in (1, 2):
                taken.add(cfbref.cfb_key(aafref.utf16z(o.props[pid][1])))
        codes = {v: k for k, v in aafref.FMT.items()}
        props = []
        for pid, (fmt, data) in self.shuffled(o.props.items(), "order"):
            if fmt == "data":
                if o.clsid == METAPROP and pid == 0x000D:
                    data = struct.pack("<H", self.p(struct.unpack("<H", data)[0]))
            elif fmt == "stream":
                n = aafref.utf16z(data[1:])
                m = self.name(taken, n)
                self.add(new + "/" + m, A.stream(old + "/" + n))
                data = data[:1] + z16(m)
            elif fmt == "weak":
                idx, kpid, ks = struct.unpack_from("<HHB", data, 0)
                data = struct.pack("<HHB", self.idx[idx], self.p(kpid), ks) + data[5:]
            else:
                n = aafref.utf16z(data)
                m = n if old == "" else self.name(taken, n)
                data = z16(m)
                src, dst = "%s/%s" % (old, n), "%s/%s" % (new, m)
                if fmt == "strong":
                    self.copy(src, dst)
                elif fmt == "strongvec":
                    b = A.stream(src + " index")
                    cnt, nxt, last = struct.unpack_from("<III", b, 0)
                    ks = struct.unpack_from("<%dI" % cnt, b, 12)
                    new_ks, free = self.local(cnt)
                    self.add(dst + " index", struct.pack("<III", cnt, free, last) + struct.pack("<%dI" % cnt, *new_ks))
                    for a, c in zip(ks, new_ks):
                        self.copy("%s{%x}" % (src, a), "%s{%x}" % (dst, c))
                elif fmt == "strongset":
                    b = A.stream(src + " index")
                    cnt, nxt, last, kpid, size = struct.unpack_from("<IIIHB", b, 0)
                    new_ks, free = self.local(cnt)
                    rows = []
                    for i in range(cnt):
                        at = 15 + i * (8 + size)
                        lk, rc = struct.unpack_from("<II", b, at)
                        rows.append(struct.pack("<II", new_ks[i], rc) + b[at + 8:at + 8 + size])
                        self.copy("%s{%x}" % (src, lk), "%s{%x}" % (dst, new_ks[i]))
                    self.add(dst + " index", struct.pack("<IIIHB", cnt, free, last, self.p(kpid), size) + b"".join(self.shuffled(rows, "sets")))
                else:
                    b = A.stream(src + " index")
                    cnt, idx, kpid, size = struct.unpack_from("<IHHB", b, 0)
                    rows = [b[9 + i * size:9 + (i + 1) * size] for i in range(cnt)]
                    if fmt == "weakset":
                        rows = self.shuffled(rows, "sets")
                    self.add(dst + " index", struct.pack("<IHHB", cnt, self.idx[idx], self.p(kpid), size) + b"".join(rows))
            props.append((self.p(pid), codes[fmt], data))
        head = struct.pack("<BBH", 0x4C, 0x20, len(props)) + b"".join(struct.pack("<HHH", a, b, len(c)) for a, b, c in props)
        self.add(new + "/properties", head + b"".join(c for _, _, c in props))

    def bytes(self, ss, plain=False):
        rnd = self.rnd

        def perm(n):
            x = list(range(n))
            rnd.shuffle(x)
            return x
        memo = {}

        def rb(n):
            t, cols = cfbref.random_rb(n, rnd)
            memo[t] = cols
            return t
        if plain:
            return cfbref.build(self.tree, sector_size=ss, root_clsid=self.A.P.root_clsid)
        return cfbref.build(self.tree, sector_size=ss, perm=rnd.choice([None, perm]), dir_perm=rnd.choice([None, perm]),
                            mini_perm=rnd.choice([None, perm]), shape=rb, colors=lambda t: memo[t],
                            free_gaps=rnd.choice([0, 3]), dir_gaps=rnd.choice([0, 5]), mini_gaps=rnd.choice([0, 4]),
                            root_clsid=self.A.P.root_clsid)


def relay(data, ss, seed, what=None):
    """(bytes of the same graph in another layout, the entries added next to it)"""
    r = Relay(data, seed, what)
    return r.bytes(ss), r.extra

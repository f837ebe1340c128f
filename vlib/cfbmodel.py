"""Reference model of a compound file: a tree of storages and byte-array
streams, and an interpreter that applies one list of operations both to the
model and to aaf2.cfb.CompoundFileBinary."""
import io

from hypothesis import strategies as st

from . import cfbref
from .memfile import MemFile
from .runner import Violation, check, check_eq, short

ZERO16 = bytes(16)

# names whose mutual order and case folding the format defines unambiguously
NAMES = ["a", "b", "c", "d", "ab", "B1", "aa", "Ca", "properties", "Mobs-1901 index",
         "Mobs-1901{0}", "Mobs-1901{1f}", "x" * 31, "Z" + "y" * 30, "0", "_", "A-b", "zz z",
         "\u00e9t\u00e9", "\u0416\u0443\u043a", "\u4e2d\u6587", "name.with.dots", "~", "Zz9"]


def data_of(n, tag):
    """n deterministic bytes, different for different tags, no short period"""
    if n <= 0:
        return b""
    a = (tag * 2654435761 + 12345) & 0xFFFFFFFF
    block = bytearray()
    x = a | 1
    for i in range(min(n, 257)):
        x = (x * 1103515245 + 12345) & 0x7FFFFFFF
        block.append((x >> 16) & 0xFF)
    reps = n // len(block) + 1
    out = bytearray()
    for r in range(reps):
        out += block
        if len(out) > n:
            break
        # vary each repetition so that sectors are distinguishable
        out += bytes([(tag + r) & 0xFF])
    return bytes(out[:n])


EDGES = [0, 1, 2, 63, 64, 65, 127, 128, 511, 512, 513, 1000, 1024, 2048, 4032, 4095, 4096, 4097, 4160,
         8191, 8192, 8193, 12288, 20000]


def sizes(big=20000):
    return st.one_of(st.sampled_from([e for e in EDGES if e <= big]), st.integers(0, 300), st.integers(0, big))


# ---------------------------------------------------------------- container

class Box(object):
    """One container under test plus its model."""

    def __init__(self, sector_size, data=None, model=None, backend="mem", scratch=None, raw=False):
        from aaf2.cfb import CompoundFileBinary
        self.CFB = CompoundFileBinary
        self.sector_size = sector_size
        self.backend = backend
        self.raw = raw
        self.path = None if scratch is None else scratch + "/box.cfb"
        self.model = model if model is not None else {}      # path -> [kind, clsid, bytearray]
        self.handles = {}                                     # path -> [Stream, pos]
        self.log = []
        if backend == "mem":
            self.f = MemFile(data or b"")
        else:
            with open(self.path, "wb") as f:
                f.write(data or b"")
            self.f = None
        if data is None:
            self.cfb = self.CFB(self._file("wb+"), "wb+", sector_size)
            self.root_clsid = None
        else:
            self.cfb = self.CFB(self._file("rb+"), "rb+")

    def _file(self, mode):
        if self.backend == "mem":
            return self.f
        if self.f is not None:
            self.f.close()
        if self.raw:
            self.f = io.open(self.path, mode, buffering=0)
        else:
            self.f = io.open(self.path, mode)
        return self.f

    def bytes(self):
        if self.backend == "mem":
            return self.f.getvalue()
        with open(self.path, "rb") as f:
            return f.read()

    def dispose(self):
        if self.backend != "mem" and self.f is not None:
            self.f.close()

    # -- model helpers
    def kids(self, path):
        pre = path + "/"
        return sorted(p for p in self.model if p.startswith(pre) and "/" not in p[len(pre):])

    def storages(self):
        return [""] + sorted(p for p, e in self.model.items() if e[0] == "d")

    def streams(self):
        return sorted(p for p, e in self.model.items() if e[0] == "f")

    def subtree(self, path):
        return [p for p in self.model if p == path or p.startswith(path + "/")]

    def clash(self, path, ignore=None):
        """a sibling equal by the format's (case-insensitive) comparison"""
        parent, name = path.rsplit("/", 1)
        k = cfbref.cfb_key(name)
        for p in self.kids(parent):
            if p != ignore and cfbref.cfb_key(p.rsplit("/", 1)[1]) == k:
                return True
        return False

    def close_handles(self, path):
        for p in [h for h in self.handles if h == path or h.startswith(path + "/")]:
            self.handles.pop(p)

    # -- comparing
    def compare_tree(self, cfb=None, contents=True):
        cfb = cfb or self.cfb
        got = {}
        for root, storages, streams in cfb.walk():
            base = root.path()
            base = "" if base == "/" else base
            for s in storages:
                check(s.isdir() and not s.isfile(), "walk lists a non-storage as a storage:", s.path())
                got[base + "/" + s.name] = ["d", s]
            for s in streams:
                check(s.isfile() and not s.isdir(), "walk lists a non-stream as a stream:", s.path())
                got[base + "/" + s.name] = ["f", s]
        check_eq(sorted(got), sorted(self.model), "paths listed by walk")
        for p, (kind, entry) in got.items():
            m = self.model[p]
            check_eq(kind, m[0], "kind of", p)
            check_eq(entry.path(), p, "path() of", p)
            cid = entry.class_id
            check_eq(ZERO16 if cid is None else bytes(cid.bytes_le), m[1], "class id of", p)
            if kind == "f":
                check_eq(entry.byte_size, len(m[2]), "size of", p)
                if contents:
                    check_eq(bytes(entry.open("r").read()), bytes(m[2]), "content of", p)
            found = cfb.find(p)
            check(found is not None and found.name == entry.name, "find does not return", p)
        return len(got)

    def parse(self, check_rb=False, strict=True):
        P = cfbref.parse(self.bytes(), check_rb=check_rb)
        return P

    def compare_parsed(self, P):
        check_eq(sorted(P.tree), sorted(self.model), "paths in the file (independent reader)")
        for p, t in P.tree.items():
            m = self.model[p]
            check_eq(t[0], m[0], "kind of", p, "(independent reader)")
            check_eq(t[1], m[1], "class id of", p, "(independent reader)")
            if t[0] == "f":
                check_eq(t[2], bytes(m[2]), "content of", p, "(independent reader)")

    # -- lifecycle
    def close(self):
        self.handles.clear()
        self.cfb.close()
        if self.backend != "mem":
            self.f.close()
            self.f = None

    def reopen(self, mode="rb+"):
        self.handles.clear()
        self.cfb = self.CFB(self._file(mode), mode)
        return self.cfb

    # -- stream operations
    def do_open(self, path, mode):
        m = self.model.get(path)
        self.handles.pop(path, None)
        s = self.cfb.open(path, mode)
        if m is None:
            self.model[path] = m = ["f", ZERO16, bytearray()]
        elif mode == "w":
            m[1] = ZERO16
            del m[2][:]
        self.handles[path] = [s, 0]
        check_eq(s.tell(), 0, "position after open", path)

    def do_write(self, path, data, kind=0):
        h = self.handles[path]
        buf = self.model[path][2]
        h[0].write(data if kind == 0 else bytearray(data) if kind == 1 else memoryview(data))
        buf[h[1]:h[1] + len(data)] = data
        h[1] += len(data)
        check_eq(h[0].tell(), h[1], "position after write", path)

    def do_read(self, path, n):
        h = self.handles[path]
        buf = self.model[path][2]
        got = bytes(h[0].read() if n is None else h[0].read(n))
        want = bytes(buf[h[1]:] if n is None or n == -1 else buf[h[1]:h[1] + n])
        check_eq(got, want, "read(%s) at %d of" % (n, h[1]), path)
        h[1] += len(want)
        check_eq(h[0].tell(), h[1], "position after read", path)

    def do_seek(self, path, off, whence):
        h = self.handles[path]
        buf = self.model[path][2]
        pos = off + (0 if whence == 0 else h[1] if whence == 1 else len(buf))
        if pos < 0:
            try:
                h[0].seek(off, whence)
            except ValueError:
                check_eq(h[0].tell(), h[1], "position after refused seek", path)
                return
            raise Violation("seek to %d was accepted" % pos)
        r = h[0].seek(off, whence)
        if pos > len(buf):
            buf.extend(bytes(pos - len(buf)))
        h[1] = pos
        check_eq(r, pos, "seek result", path)
        check_eq(h[0].tell(), pos, "position after seek", path)

    def do_truncate(self, path, size):
        h = self.handles[path]
        buf = self.model[path][2]
        if size is None:
            h[0].truncate()
            size = h[1]
        else:
            h[0].truncate(size)
        if size < len(buf):
            del buf[size:]
        else:
            buf.extend(bytes(size - len(buf)))
        h[1] = min(h[1], size)
        check_eq(h[0].tell(), h[1], "position after truncate", path)

"""Files on a failing disk: real files whose reads, writes, seeks or truncations fail when told to."""
import builtins
import contextlib
import errno
import io
import os


class Disk(object):
    """what fails: plan is a dict
    read/write: numbers (from 0) of the reads or writes that fail; sticky: and all after them
    limit: the disk has room for this many bytes of the file; short: writes over it store what fits first"""

    def __init__(self, plan):
        self.plan = plan
        self.fired = 0
        self.count = {"read": 0, "write": 0}
        self.on = True
        self.raws = []

    def io(self, kind):
        if not self.on:
            return
        k = self.count[kind]
        self.count[kind] += 1
        at = self.plan.get(kind, ())
        if k in at or (self.plan.get("sticky") and at and k >= min(at)):
            self.fired += 1
            raise OSError(errno.EIO, "the disk failed (%s %d)" % (kind, k))

    def room(self, pos, n):
        """how many of n bytes at pos can be stored"""
        limit = self.plan.get("limit")
        if limit is None or not self.on or pos + n <= limit:
            return n
        self.fired += 1
        fits = max(0, limit - pos)
        if not fits:
            raise OSError(errno.ENOSPC, "no room on the disk")
        return fits

    def open(self, path, mode="rb", buffering=-1):
        raw = Raw(self, path, mode)
        self.raws.append(raw)
        if buffering == 0:
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering < 0 else buffering
        kind = io.BufferedRandom if "+" in mode else io.BufferedWriter if "w" in mode else io.BufferedReader
        return kind(raw, size)

    def off(self):
        """from now on everything works"""
        self.on = False

    @contextlib.contextmanager
    def patched(self, *paths):
        """opening one of the paths opens it on this disk"""
        real = builtins.open
        want = set(os.path.abspath(p) for p in paths)

        def fake(file, mode="r", buffering=-1, *args, **kw):
            if isinstance(file, (str, bytes, os.PathLike)) and os.path.abspath(os.fsdecode(file)) in want and "b" in mode:
                return self.open(file, mode, buffering)
            return real(file, mode, buffering, *args, **kw)
        builtins.open = io.open = fake
        try:
            yield
        finally:
            builtins.open = io.open = real


class Raw(io.FileIO):
    def __init__(self, disk, path, mode):
        self.disk = disk
        io.FileIO.__init__(self, path, mode.replace("b", ""))

    def readinto(self, b):
        self.disk.io("read")
        return io.FileIO.readinto(self, b)

    def read(self, n=-1):
        self.disk.io("read")
        return io.FileIO.read(self, n)

    def readall(self):
        self.disk.io("read")
        return io.FileIO.readall(self)

    def write(self, data):
        self.disk.io("write")
        mv = memoryview(data).cast("B")
        return io.FileIO.write(self, mv[:self.disk.room(self.tell(), len(mv))])

    def truncate(self, size=None):
        self.disk.io("write")
        end = self.tell() if size is None else size
        if end > os.fstat(self.fileno()).st_size and self.disk.room(0, end) < end:
            raise OSError(errno.ENOSPC, "no room on the disk")
        return io.FileIO.truncate(self, size)

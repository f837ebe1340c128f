"""In-memory file objects with real-file semantics (not BytesIO: the library
treats a BytesIO specially)."""


class MemFile(object):
    """bytearray-backed binary file; truncate() extends like a real file."""

    def __init__(self, data=b"", readonly=False):
        self.buf = bytearray(data)
        self.pos = 0
        self.readonly = readonly
        self.ops = 0
        self.max_ops = None
        self.writes = 0

    def _tick(self):
        self.ops += 1
        if self.max_ops is not None and self.ops > self.max_ops:
            raise IOLimit("more than %d file operations" % self.max_ops)

    def seek(self, pos, whence=0):
        self._tick()
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += len(self.buf)
        if pos < 0:
            raise ValueError("negative seek")
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self._tick()
        if n is None or n < 0:
            n = max(0, len(self.buf) - self.pos)
        d = bytes(self.buf[self.pos:self.pos + n])
        self.pos += len(d)
        return d

    def readinto(self, b):
        self._tick()
        n = max(0, min(len(b), len(self.buf) - self.pos))
        b[:n] = self.buf[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, data):
        self._tick()
        self.writes += 1
        if self.readonly:
            raise IOError("not writable")
        data = bytes(data)
        end = self.pos + len(data)
        if self.pos > len(self.buf):
            self.buf.extend(bytes(self.pos - len(self.buf)))
        self.buf[self.pos:end] = data
        self.pos = end
        return len(data)

    def truncate(self, size=None):
        self._tick()
        self.writes += 1
        if self.readonly:
            raise IOError("not writable")
        if size is None:
            size = self.pos
        if size < len(self.buf):
            del self.buf[size:]
        else:
            self.buf.extend(bytes(size - len(self.buf)))
        return size

    def flush(self):
        pass

    def close(self):
        pass

    def getvalue(self):
        return bytes(self.buf)


class IOLimit(Exception):
    pass


class SparseFile(object):
    """Sparse in-memory file (page dictionary): files of several GB at no cost."""
    PAGE = 4096

    def __init__(self):
        self.pages = {}
        self.size = 0
        self.pos = 0

    def seek(self, pos, whence=0):
        if whence == 1:
            pos += self.pos
        elif whence == 2:
            pos += self.size
        if pos < 0:
            raise ValueError("negative seek")
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def pread(self, n, pos):
        n = max(0, min(n, self.size - pos))
        out = bytearray(n)
        done = 0
        while done < n:
            page, off = divmod(pos + done, self.PAGE)
            take = min(self.PAGE - off, n - done)
            p = self.pages.get(page)
            if p is not None:
                out[done:done + take] = p[off:off + take]
            done += take
        return bytes(out)

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        d = self.pread(n, self.pos)
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.pread(len(b), self.pos)
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, data):
        data = memoryview(data).cast("B")
        n = len(data)
        pos = self.pos
        done = 0
        while done < n:
            page, off = divmod(pos + done, self.PAGE)
            take = min(self.PAGE - off, n - done)
            chunk = data[done:done + take]
            p = self.pages.get(page)
            if p is None:
                if any(chunk):
                    p = self.pages[page] = bytearray(self.PAGE)
                    p[off:off + take] = chunk
            else:
                p[off:off + take] = chunk
            done += take
        self.pos = pos + n
        self.size = max(self.size, self.pos)
        return n

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        if size < self.size:
            last, off = divmod(size, self.PAGE)
            for k in [k for k in self.pages if k > last or (k == last and off == 0)]:
                del self.pages[k]
            if off and last in self.pages:
                self.pages[last][off:] = bytes(self.PAGE - off)
        self.size = size
        return size

    def flush(self):
        pass

    def close(self):
        pass

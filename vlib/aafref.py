"""Independent reader of AAF files (structured storage stored format).

Nothing here imports aaf2.  Built on cfbref.parse; reads the class and type
definitions out of the file's own MetaDictionary, decodes every object, checks
the format's integrity rules and returns plain Python literals:

  object   ("ClassName", {property name: value})
  values   ("v", literal) data, ("s", bytes) stream, ("o", object) strong ref,
           ("ov", [objects]), ("os", {key hex: object}),
           ("w", key hex), ("wv", [keys]), ("ws", sorted keys)

Data literals: int, bool (Boolean), str, enum name, {"auid": hex}, {"mobid": hex},
(num, den) for Rational, dicts for records, lists for arrays, ("set", sorted list),
("ind", type name, literal) for indirect values.
"""
import struct

from . import cfbref

CLASS_OF_CLASSDEF = "0d010101-0201"
FMT = {0x82: "data", 0x42: "stream", 0x22: "strong", 0x32: "strongvec", 0x3A: "strongset",
       0x02: "weak", 0x12: "weakvec", 0x1A: "weakset"}


class BadAAF(Exception):
    pass


def auid_hex(b):
    """little endian bytes -> canonical 32 digit hex"""
    if len(b) != 16:
        raise BadAAF("AUID of %d bytes" % len(b))
    d1, d2, d3 = struct.unpack("<IHH", b[:8])
    return "%08x%04x%04x%s" % (d1, d2, d3, bytes(b[8:]).hex())


def H(s):
    return s.replace("-", "").lower()


BOOLEAN = H("01040100-0000-0000-060e-2b3401040101")
MOBIDTYPE = H("01030200-0000-0000-060e-2b3401040101")
AUIDTYPE = H("01030100-0000-0000-060e-2b3401040101")
RATIONAL = H("03010100-0000-0000-060e-2b3401040101")
CHARACTER = H("01100100-0000-0000-060e-2b3401040101")

TYPEKIND = {
    H("0d010101-0204-0000-060e-2b3402060101"): "int",
    H("0d010101-0205-0000-060e-2b3402060101"): "strong",
    H("0d010101-0206-0000-060e-2b3402060101"): "weak",
    H("0d010101-0207-0000-060e-2b3402060101"): "enum",
    H("0d010101-0208-0000-060e-2b3402060101"): "fixed",
    H("0d010101-0209-0000-060e-2b3402060101"): "var",
    H("0d010101-020a-0000-060e-2b3402060101"): "set",
    H("0d010101-020b-0000-060e-2b3402060101"): "string",
    H("0d010101-020c-0000-060e-2b3402060101"): "stream",
    H("0d010101-020d-0000-060e-2b3402060101"): "record",
    H("0d010101-020e-0000-060e-2b3402060101"): "rename",
    H("0d010101-0220-0000-060e-2b3402060101"): "extenum",
    H("0d010101-0221-0000-060e-2b3402060101"): "indirect",
    H("0d010101-0222-0000-060e-2b3402060101"): "opaque",
    H("0d010101-0223-0000-060e-2b3402060101"): "char",
    H("0e040101-0000-0000-060e-2b3402060101"): "genchar",
}
METACLASS = H("0d010101-0201-0000-060e-2b3402060101")
METAPROP = H("0d010101-0202-0000-060e-2b3402060101")
METADICT = H("0d010101-0225-0000-060e-2b3402060101")
ROOTCLASS = H("b3b398a5-1c90-11d4-8053-080036210804")


def utf16z(b):
    if len(b) < 2 or b[-2:] != b"\0\0":
        raise BadAAF("string is not NUL terminated: %r" % bytes(b[:40]))
    s = bytes(b[:-2]).decode("utf-16le", "surrogatepass")
    if "\0" in s:
        raise BadAAF("NUL inside a string")
    return s


def utf16_array(b):
    if len(b) % 2:
        raise BadAAF("odd string array")
    if not b:
        return []
    units = struct.unpack("<%dH" % (len(b) // 2), b)
    if units[-1] != 0:
        raise BadAAF("string array is not terminated")
    out, cur = [], []
    for u in units:
        if u == 0:
            out.append(struct.pack("<%dH" % len(cur), *cur).decode("utf-16le", "surrogatepass"))
            cur = []
        else:
            cur.append(u)
    return out


class RawObj(object):
    __slots__ = ("path", "clsid", "props")      # props: pid -> (fmt, data)


class AAF(object):
    def __init__(self, data, parsed=None, check=True, closed=True):
        self.closed = closed            # every type and class mentioned is defined in the file
        self.P = parsed or cfbref.parse(data)
        if not closed:
            self.P.problems = [p for p in self.P.problems if "unused directory entry" not in p]
        if self.P.problems and check:
            raise BadAAF("container: " + "; ".join(self.P.problems[:4]))
        self.tree = self.P.tree
        self.kids = {}
        for p in self.tree:
            self.kids.setdefault(p.rsplit("/", 1)[0], []).append(p)
        self.raw = {}
        self.read_refs()
        self.read_meta()

    # -------------------------------------------------------------- raw level
    def stream(self, path):
        e = self.tree.get(path)
        if e is None or e[0] != "f":
            raise BadAAF("missing stream %s" % path)
        return e[2]

    def read_refs(self):
        b = self.stream("/referenced properties")
        bo, npath, npid = struct.unpack_from("<BHI", b, 0)
        if bo != 0x4C:
            raise BadAAF("referenced properties byte order %x" % bo)
        if len(b) != 7 + 2 * npid:
            raise BadAAF("referenced properties has %d bytes for %d pids" % (len(b), npid))
        pids = struct.unpack_from("<%dH" % npid, b, 7)
        self.weak = []
        cur = []
        for p in pids:
            if p == 0:
                self.weak.append(cur)
                cur = []
            else:
                cur.append(p)
        if cur or len(self.weak) != npath:
            raise BadAAF("referenced properties lists %d paths, header says %d" % (len(self.weak), npath))

    def obj(self, path):
        o = self.raw.get(path)
        if o is not None:
            return o
        o = RawObj()
        o.path = path
        if path:
            e = self.tree.get(path)
            if e is None or e[0] != "d":
                raise BadAAF("missing object storage %s" % path)
            o.clsid = auid_hex(e[1])
        else:
            o.clsid = auid_hex(self.P.root_clsid)
        o.props = {}
        b = self.stream(path + "/properties")
        bo, ver, n = struct.unpack_from("<BBH", b, 0)
        if bo != 0x4C:
            raise BadAAF("%s: byte order %x" % (path, bo))
        off = 4 + 6 * n
        for i in range(n):
            pid, fmt, size = struct.unpack_from("<HHH", b, 4 + 6 * i)
            if pid in o.props:
                raise BadAAF("%s: property %x twice" % (path, pid))
            if fmt not in FMT:
                raise BadAAF("%s: property %x has format %x" % (path, pid, fmt))
            if off + size > len(b):
                raise BadAAF("%s: property %x runs past the stream" % (path, pid))
            o.props[pid] = (FMT[fmt], b[off:off + size])
            off += size
        if off != len(b):
            raise BadAAF("%s: properties stream has %d bytes, expected %d" % (path, len(b), off))
        self.raw[path] = o
        return o

    def vec_index(self, path, name):
        b = self.stream("%s/%s index" % (path, name))
        n, nxt, last = struct.unpack_from("<III", b, 0)
        if len(b) != 12 + 4 * n:
            raise BadAAF("%s/%s index: %d bytes for %d items" % (path, name, len(b), n))
        keys = struct.unpack_from("<%dI" % n, b, 12)
        if len(set(keys)) != n:
            raise BadAAF("%s/%s index: repeated local key" % (path, name))
        if any(k >= nxt for k in keys):
            raise BadAAF("%s/%s index: local key not below the next free key %d" % (path, name, nxt))
        return ["%s/%s{%x}" % (path, name, k) for k in keys]

    def set_index(self, path, name):
        b = self.stream("%s/%s index" % (path, name))
        n, nxt, last, kpid, ksize = struct.unpack_from("<IIIHB", b, 0)
        if ksize not in (16, 32) or len(b) != 15 + (8 + ksize) * n:
            raise BadAAF("%s/%s index: %d bytes for %d items of key size %d" % (path, name, len(b), n, ksize))
        out = {}
        local = set()
        for i in range(n):
            o = 15 + i * (8 + ksize)
            lk, rc = struct.unpack_from("<II", b, o)
            key = b[o + 8:o + 8 + ksize]
            if lk in local or lk >= nxt:
                raise BadAAF("%s/%s index: bad local key %d (next free %d)" % (path, name, lk, nxt))
            if rc != 1:
                raise BadAAF("%s/%s index: reference count %d" % (path, name, rc))
            local.add(lk)
            if key in out:
                raise BadAAF("%s/%s index: key %s twice" % (path, name, key.hex()))
            out[key] = "%s/%s{%x}" % (path, name, lk)
        return out, kpid

    def weak_index(self, path, name):
        b = self.stream("%s/%s index" % (path, name))
        n, idx, kpid, ksize = struct.unpack_from("<IHHB", b, 0)
        if ksize not in (16, 32) or len(b) != 9 + ksize * n:
            raise BadAAF("%s/%s index: %d bytes for %d weak references" % (path, name, len(b), n))
        return [b[9 + i * ksize:9 + (i + 1) * ksize] for i in range(n)], idx, kpid

    # ---------------------------------------------------------- meta dictionary
    def read_meta(self):
        root = self.obj("")
        f, d = root.props[0x0001]
        self.meta_path = "/" + utf16z(d)
        md = self.obj(self.meta_path)
        self.classes = {}
        self.types = {}
        self.class_by_name = {}
        items, kpid = self.set_index(self.meta_path, utf16z(md.props[0x0003][1]))
        for key, p in items.items():
            o = self.obj(p)
            if o.clsid != METACLASS:
                raise BadAAF("%s is not a class definition" % p)
            cid = auid_hex(o.props[0x0005][1])
            if bytes(o.props[0x0005][1]) != bytes(key):
                raise BadAAF("class definition key mismatch at %s" % p)
            c = {"name": utf16z(o.props[0x0006][1]), "id": cid, "concrete": o.props[0x000A][1] == b"\1",
                 "parent": auid_hex(o.props[0x0008][1][5:21]), "props": {}}
            if 0x0009 in o.props:
                pi, _ = self.set_index(p, utf16z(o.props[0x0009][1]))
                for k2, pp in pi.items():
                    po = self.obj(pp)
                    if po.clsid != METAPROP:
                        raise BadAAF("%s is not a property definition" % pp)
                    pid = struct.unpack("<H", po.props[0x000D][1])[0]
                    if pid in c["props"]:
                        raise BadAAF("class %s has two properties with pid %x" % (c["name"], pid))
                    if bytes(po.props[0x0005][1]) != bytes(k2):
                        raise BadAAF("property definition key mismatch at %s" % pp)
                    c["props"][pid] = {"name": utf16z(po.props[0x0006][1]), "id": auid_hex(po.props[0x0005][1]),
                                       "type": auid_hex(po.props[0x000B][1]), "pid": pid,
                                       "optional": po.props[0x000C][1] == b"\1",
                                       "unique": po.props.get(0x000E, (0, b""))[1] == b"\1"}
            if cid in self.classes:
                raise BadAAF("class %s defined twice" % c["name"])
            self.classes[cid] = c
            self.class_by_name[c["name"]] = c
        # the root object's class is not stored
        self.classes.setdefault(ROOTCLASS, {"name": "Root", "id": ROOTCLASS, "concrete": True, "parent": ROOTCLASS, "props": {
            1: {"name": "MetaDictionary", "type": None, "pid": 1, "optional": False, "unique": False, "id": None},
            2: {"name": "Header", "type": None, "pid": 2, "optional": False, "unique": False, "id": None}}})
        items, kpid = self.set_index(self.meta_path, utf16z(md.props[0x0004][1]))
        for key, p in items.items():
            o = self.obj(p)
            kind = TYPEKIND.get(o.clsid)
            if kind is None:
                raise BadAAF("%s has unknown type class %s" % (p, o.clsid))
            tid = auid_hex(o.props[0x0005][1])
            if bytes(o.props[0x0005][1]) != bytes(key):
                raise BadAAF("type definition key mismatch at %s" % p)
            t = {"kind": kind, "id": tid, "name": utf16z(o.props[0x0006][1])}
            pr = o.props

            def wk(pid):
                return auid_hex(pr[pid][1][5:21])
            if kind == "int":
                t["size"] = pr[0x000F][1][0]
                t["signed"] = pr[0x0010][1] == b"\1"
            elif kind == "strong":
                t["cls"] = wk(0x0011)
            elif kind == "weak":
                t["cls"] = wk(0x0012)
                b = pr[0x0013][1]
                t["target"] = [auid_hex(b[i:i + 16]) for i in range(0, len(b), 16)]
            elif kind == "enum":
                t["elem"] = wk(0x0014)
                names = utf16_array(pr[0x0015][1])
                vals = struct.unpack("<%dq" % (len(pr[0x0016][1]) // 8), pr[0x0016][1])
                if len(names) != len(vals):
                    raise BadAAF("enum %s: %d names, %d values" % (t["name"], len(names), len(vals)))
                t["values"] = dict(zip(vals, names))
            elif kind == "fixed":
                t["elem"] = wk(0x0017)
                t["count"] = struct.unpack("<I", pr[0x0018][1])[0]
            elif kind == "var":
                t["elem"] = wk(0x0019)
            elif kind == "set":
                t["elem"] = wk(0x001A)
            elif kind == "string":
                t["elem"] = wk(0x001B)
            elif kind == "record":
                names = utf16_array(pr[0x001D][1])
                keys, _, _ = self.weak_index(p, utf16z(pr[0x001C][1]))
                if len(names) != len(keys):
                    raise BadAAF("record %s: %d names, %d types" % (t["name"], len(names), len(keys)))
                t["fields"] = list(zip(names, [auid_hex(k) for k in keys]))
            elif kind == "rename":
                t["elem"] = wk(0x001E)
            elif kind == "extenum":
                names = utf16_array(pr[0x001F][1])
                b = pr[0x0020][1]
                vals = [auid_hex(b[i:i + 16]) for i in range(0, len(b), 16)]
                if len(names) != len(vals):
                    raise BadAAF("extendible enum %s: %d names, %d values" % (t["name"], len(names), len(vals)))
                t["values"] = dict(zip(vals, names))
            if tid in self.types:
                raise BadAAF("type %s defined twice" % t["name"])
            self.types[tid] = t
        # closure and pid uniqueness
        if not self.closed:
            return
        dyn = {}
        for c in self.classes.values():
            if c["parent"] not in self.classes:
                raise BadAAF("class %s: parent %s is not defined" % (c["name"], c["parent"]))
            for pid, p in c["props"].items():
                if p["type"] is not None and p["type"] not in self.types:
                    raise BadAAF("property %s.%s: type %s is not defined" % (c["name"], p["name"], p["type"]))
                if pid >= 0x8000:
                    if dyn.setdefault(pid, p["id"]) != p["id"]:
                        raise BadAAF("dynamic pid %x is used by two properties" % pid)
        for t in self.types.values():
            for k in ([t["elem"]] if "elem" in t else []) + [x for _, x in t.get("fields", [])]:
                if k not in self.types:
                    raise BadAAF("type %s: element type %s is not defined" % (t["name"], k))
            if "cls" in t and t["cls"] not in self.classes:
                raise BadAAF("type %s: class %s is not defined" % (t["name"], t["cls"]))

    def chain(self, cid):
        out = []
        seen = set()
        while cid not in seen:
            seen.add(cid)
            c = self.classes[cid]
            out.append(c)
            cid = c["parent"]
        return out

    def propdef(self, cid, pid):
        for c in self.chain(cid):
            if pid in c["props"]:
                return c["props"][pid]
        return None

    # ------------------------------------------------------------------ values
    def size_of(self, tid):
        t = self.types[tid]
        k = t["kind"]
        if k == "int":
            return t["size"]
        if k in ("enum", "rename"):
            return self.size_of(t["elem"])
        if k == "record":
            return sum(self.size_of(x) for _, x in t["fields"])
        if k == "fixed":
            return self.size_of(t["elem"]) * t["count"]
        if k == "extenum":
            return 16
        if k == "char":
            return 2
        raise BadAAF("type %s has no fixed size" % t["name"])

    def decode(self, tid, b):
        t = self.types.get(tid)
        if t is None:
            raise BadAAF("unknown type %s" % tid)
        k = t["kind"]
        if k == "int":
            if len(b) != t["size"]:
                raise BadAAF("%s of %d bytes" % (t["name"], len(b)))
            return int.from_bytes(b, "little", signed=t["signed"])
        if k == "rename":
            return self.decode(t["elem"], b)
        if tid == BOOLEAN:
            if bytes(b) not in (b"\0", b"\1"):
                raise BadAAF("Boolean %r" % bytes(b))
            return bytes(b) == b"\1"
        if k == "enum":
            v = self.decode(t["elem"], b)
            if v not in t["values"]:
                raise BadAAF("%s has no value %d" % (t["name"], v))
            return t["values"][v]
        if k == "extenum":
            h = auid_hex(b)
            return t["values"].get(h, {"auid": h})
        if tid == MOBIDTYPE:
            if len(b) != 32:
                raise BadAAF("mob id of %d bytes" % len(b))
            return {"mobid": bytes(b).hex()}
        if tid == AUIDTYPE:
            return {"auid": auid_hex(b)}
        if k == "record":
            if len(b) != self.size_of(tid):
                raise BadAAF("record %s of %d bytes" % (t["name"], len(b)))
            out, off = {}, 0
            for n, x in t["fields"]:
                s = self.size_of(x)
                out[n] = self.decode(x, b[off:off + s])
                off += s
            if tid == RATIONAL:
                return (out["Numerator"], out["Denominator"])
            return out
        if k == "string":
            return utf16z(b)
        if k in ("fixed", "var", "set"):
            if t["elem"] == CHARACTER:
                return utf16_array(b)
            s = self.size_of(t["elem"])
            if len(b) % s:
                raise BadAAF("%s: %d bytes is not a multiple of %d" % (t["name"], len(b), s))
            items = [self.decode(t["elem"], b[i:i + s]) for i in range(0, len(b), s)]
            if k == "fixed" and len(items) != t["count"]:
                raise BadAAF("%s: %d elements, expected %d" % (t["name"], len(items), t["count"]))
            if k == "set":
                items.sort(key=repr)
                for x, y in zip(items, items[1:]):
                    if x == y:
                        raise BadAAF("%s: repeated element" % t["name"])
                return ("set", items)
            return items
        if k in ("indirect", "opaque"):
            if bytes(b[:1]) != b"\x4c":
                raise BadAAF("indirect byte order %r" % bytes(b[:1]))
            it = auid_hex(b[1:17])
            if it not in self.types:
                raise BadAAF("indirect value of unknown type %s" % it)
            return ("ind", self.types[it]["name"], self.decode(it, b[17:]))
        if k == "char":
            return bytes(b).decode("utf-16le")
        raise BadAAF("cannot decode type kind %s" % k)

    # ------------------------------------------------------------------ objects
    def load(self, path="", required=True, weakcheck=True):
        """decode the object at path, recursively"""
        o = self.obj(path)
        c = self.classes.get(o.clsid)
        if c is None:
            raise BadAAF("%s: class %s is not defined" % (path, o.clsid))
        if not c["concrete"]:
            raise BadAAF("%s: class %s is abstract" % (path, c["name"]))
        props = {}
        for pid, (fmt, data) in o.props.items():
            pd = self.propdef(o.clsid, pid)
            if pd is None:
                raise BadAAF("%s: class %s has no property %x" % (path, c["name"], pid))
            if path == "" and pid == 1:
                continue
            props[pd["name"]] = self.load_prop(path, pd, fmt, data, required, weakcheck)
        if required:
            for x in self.chain(o.clsid):
                for pid, pd in x["props"].items():
                    if not pd["optional"] and pid not in o.props and pd["name"] != "ObjClass":
                        raise BadAAF("%s: %s lacks the required property %s" % (path, c["name"], pd["name"]))
        return (c["name"], props)

    def check_class(self, path, cid, what):
        got = self.obj(path).clsid
        if got not in self.classes:
            raise BadAAF("%s: class %s is not defined" % (path, got))
        if cid not in [c["id"] for c in self.chain(got)]:
            raise BadAAF("%s: %s is not a %s" % (path, self.classes[got]["name"], self.classes[cid]["name"]))

    def elem_class(self, pd):
        if pd["type"] is None:
            return None
        t = self.types[pd["type"]]
        if "elem" in t:
            t = self.types[t["elem"]]
        return t.get("cls")

    def expected_format(self, pd):
        if pd["type"] is None:
            return "strong"
        t = self.types[pd["type"]]
        while t["kind"] == "rename":
            t = self.types[t["elem"]]
        if t["kind"] in ("strong", "weak", "stream"):
            return t["kind"]
        if t["kind"] in ("var", "set", "fixed"):
            e = self.types[t["elem"]]
            if e["kind"] in ("strong", "weak"):
                return e["kind"] + ("set" if t["kind"] == "set" else "vec")
        return "data"

    def load_prop(self, path, pd, fmt, data, required, weakcheck):
        want = self.expected_format(pd)
        # the SDK stores OperationGroup::Parameters as a set
        if fmt != want and pd["id"] != H("06010104-060a-0000-060e-2b3401010102"):
            raise BadAAF("%s: property %s is stored as %s, its type needs %s" % (path, pd["name"], fmt, want))
        if fmt == "data":
            return ("v", self.decode(pd["type"], data))
        if fmt == "stream":
            if data[:1] != b"\x55":
                raise BadAAF("%s: stream property %s" % (path, pd["name"]))
            return ("s", self.stream(path + "/" + utf16z(data[1:])))
        if fmt == "strong":
            p = path + "/" + utf16z(data)
            cls = self.elem_class(pd)
            if cls:
                self.check_class(p, cls, pd["name"])
            return ("o", self.load(p, required, weakcheck))
        if fmt == "strongvec":
            paths = self.vec_index(path, utf16z(data))
            cls = self.elem_class(pd)
            for p in paths:
                self.check_class(p, cls, pd["name"])
            return ("ov", [self.load(p, required, weakcheck) for p in paths])
        if fmt == "strongset":
            items, kpid = self.set_index(path, utf16z(data))
            cls = self.elem_class(pd)
            out = {}
            for key, p in items.items():
                self.check_class(p, cls, pd["name"])
                kp = self.obj(p).props.get(kpid)
                if pd["id"] == H("06010104-060a-0000-060e-2b3401010102"):
                    kp = self.obj(p).props.get(0x4C01)      # keyed by the parameter definition
                if kp is None or bytes(kp[1]) != bytes(key):
                    raise BadAAF("%s: the key of an element of %s is not its %x property" % (p, pd["name"], kpid))
                out[bytes(key).hex()] = self.load(p, required, weakcheck)
            return ("os", out)
        if fmt == "weak":
            idx, kpid, ks = struct.unpack_from("<HHB", data, 0)
            key = data[5:]
            if ks != len(key):
                raise BadAAF("%s: weak reference %s key size" % (path, pd["name"]))
            if weakcheck:
                self.check_weak(path, pd, idx, kpid, key)
            return ("w", bytes(key).hex())
        keys, idx, kpid = self.weak_index(path, utf16z(data))
        for k in keys:
            if weakcheck:
                self.check_weak(path, pd, idx, kpid, k)
        keys = [bytes(k).hex() for k in keys]
        if fmt == "weakset":
            return ("ws", sorted(keys))
        return ("wv", keys)

    def check_weak(self, path, pd, idx, kpid, key):
        if idx >= len(self.weak):
            raise BadAAF("%s: weak reference %s has table index %d of %d" % (path, pd["name"], idx, len(self.weak)))
        # the table path must be the one its type declares
        t = self.types[pd["type"]]
        if "elem" in t:
            t = self.types[t["elem"]]
        cid = ROOTCLASS
        pids = self.weak[idx]
        want = []
        for a in t["target"]:
            for c in self.chain(cid):
                for p in c["props"].values():
                    if p["id"] == a:
                        want.append(p["pid"])
                        tt = self.types[p["type"]] if p["type"] else None
                        if tt is not None:
                            tt = self.types[tt["elem"]] if "elem" in tt else tt
                            cid = tt["cls"]
        cur = ""
        for pid in pids[:-1]:
            f, d = self.obj(cur).props[pid]
            cur = cur + "/" + utf16z(d)
        pr = self.obj(cur).props.get(pids[-1])
        if pr is None:
            raise BadAAF("%s: weak reference %s: target collection is absent" % (path, pd["name"]))
        ck = (cur, pids[-1])
        cache = self.__dict__.setdefault("_sets", {})
        if ck not in cache:
            cache[ck] = self.set_index(cur, utf16z(pr[1]))
        items, kp = cache[ck]
        if bytes(key) not in items:
            raise BadAAF("%s: weak reference %s to %s does not resolve" % (path, pd["name"], bytes(key).hex()))
        self.check_class(items[bytes(key)], t["cls"], pd["name"])
        if kp != kpid:
            raise BadAAF("%s: weak reference %s has key pid %x, the set has %x" % (path, pd["name"], kpid, kp))
        return items[bytes(key)]


def load(data, closed=True, **kw):
    a = AAF(data, closed=closed)
    return a, a.load("", **kw)

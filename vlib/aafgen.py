"""Generating AAF object graphs as plain literals, building them through the
public API and taking snapshots back in the same form (see aafref).

The schema (classes, properties, types) is what the independent reader finds in
a file the library has just written, so the generator covers every class and
type the library knows without repeating its tables here.
"""
import datetime
import io
import os
import random

from hypothesis import strategies as st

from . import aafref
from .runner import HarnessError, Violation

H = aafref.H
COLLECTIONS = [
    ("DataDefinitions", "DataDefinition"), ("ContainerDefinitions", "ContainerDefinition"),
    ("InterpolationDefinitions", "InterpolationDefinition"), ("ParameterDefinitions", "ParameterDefinition"),
    ("OperationDefinitions", "OperationDefinition"), ("CodecDefinitions", "CodecDefinition"),
    ("PluginDefinitions", "PluginDefinition"), ("KLVDataDefinitions", "KLVDataDefinition"),
    ("TaggedValueDefinitions", "TaggedValueDefinition")]
# classes that only exist once or belong to the meta dictionary
EXCLUDED = {"Root", "Header", "ContentStorage", "Dictionary", "MetaDictionary", "ClassDefinition",
            "PropertyDefinition", "Identification"}
TIMESTAMP = H("03010700-0000-0000-060e-2b3401040101")
DATESTRUCT = H("03010500-0000-0000-060e-2b3401040101")
TIMESTRUCT = H("03010600-0000-0000-060e-2b3401040101")
PARAMETERS = H("06010104-060a-0000-060e-2b3401010102")


class Schema(object):
    def __init__(self, data, lenient=False):
        self.lenient = lenient
        self.A = A = aafref.AAF(data, closed=not lenient)
        self.root = A.load("", required=not lenient)
        self.classes = {}
        for c in A.classes.values():
            if c["name"].startswith("TypeDefinition") or c["name"] in EXCLUDED:
                continue
            self.classes[c["name"]] = c
        self.props = {}                 # class name -> {prop name: info}
        for name, c in list(A.class_by_name.items()) + [("Root", A.classes[aafref.ROOTCLASS])]:
            d = {}
            for x in A.chain(c["id"]):
                for pd in x["props"].values():
                    if pd["name"] == "ObjClass" or lenient and pd["type"] is not None and pd["type"] not in A.types:
                        continue
                    fmt = A.expected_format(pd)
                    if pd["id"] == PARAMETERS:
                        fmt = "strongset"
                    info = {"name": pd["name"], "fmt": fmt, "type": pd["type"], "optional": pd["optional"],
                            "unique": pd["unique"], "id": pd["id"]}
                    cid = A.elem_class(pd)
                    if cid:
                        info["cls"] = A.classes[cid]["name"]
                    d[pd["name"]] = info
            self.props[name] = d
        self.subs = {}
        for name, c in self.classes.items():
            if not c["concrete"]:
                continue
            for x in A.chain(c["id"]):
                self.subs.setdefault(x["name"], []).append(name)
        for v in self.subs.values():
            v.sort()
        self.existing = {}
        dic = self.root[1]["Header"][1][1]["Dictionary"][1][1]
        for coll, cls in COLLECTIONS:
            self.existing[coll] = sorted(dic.get(coll, ("os", {}))[1])
        empty = [cls for coll, cls in COLLECTIONS if not self.existing[coll]] if lenient else []
        # smallest depth of required strong references below a class
        depth = {n: None for n in self.classes}
        changed = True
        while changed:
            changed = False
            for n, c in self.classes.items():
                if not c["concrete"]:
                    continue
                d = 0
                for p in self.props[n].values():
                    if not p["optional"] and p["fmt"] == "weak" and p["cls"] in empty:
                        d = None        # there is nothing it could refer to
                        break
                    if p["optional"] or p["fmt"] not in ("strong",):
                        continue
                    opts = [depth[s] for s in self.subs.get(p["cls"], []) if depth[s] is not None]
                    if not opts:
                        d = None
                        break
                    d = max(d, 1 + min(opts))
                if d is not None and depth[n] != d:
                    depth[n] = d
                    changed = True
        self.depth = depth
        self.generic = [n for n in sorted(self.classes) if depth.get(n) is not None
                        and self.classes[n]["concrete"]]
        self._strats = {}
        self.class_keys = sorted(self.key_bytes(c["id"]).hex() for c in A.classes.values() if c["name"] != "Root")
        self.type_keys = sorted(self.key_bytes(t).hex() for t in A.types)

    @staticmethod
    def key_bytes(hexid):
        import struct
        b = bytes.fromhex(hexid)
        return struct.pack("<IHH", *struct.unpack(">IHH", b[:8])) + b[8:]

    # ---------------------------------------------------------- data strategies
    def zero(self, tid):
        return self.A.decode(tid, bytes(self.A.size_of(tid)))

    def data(self, tid):
        s = self._strats.get(tid)
        if s is None:
            s = self._strats[tid] = self.make_data(tid)
        return s

    def make_data(self, tid):
        t = self.A.types[tid]
        k = t["kind"]
        if k == "int":
            n = t["size"] * 8
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if t["signed"] else (0, (1 << n) - 1)
            return st.one_of(st.integers(max(lo, -300), min(hi, 300)), st.sampled_from([lo, hi, lo + 1, hi - 1]),
                             st.integers(lo, hi))
        if k == "rename":
            return self.data(t["elem"])
        if tid == aafref.BOOLEAN:
            return st.booleans()
        if k == "enum":
            return st.sampled_from(sorted(t["values"].values()))
        if k == "extenum":
            return st.sampled_from(sorted(set(t["values"].values())))
        if tid == aafref.MOBIDTYPE:
            return st.one_of(st.just({"mobid": "00" * 32}), sparse_ids(32).map(lambda b: {"mobid": b.hex()}), st.binary(min_size=32, max_size=32).map(lambda b: {"mobid": b.hex()}))
        if tid == aafref.AUIDTYPE:
            return st.one_of(st.binary(min_size=16, max_size=16), sparse_ids(16)).map(lambda b: {"auid": b.hex()})
        if tid == aafref.RATIONAL:
            den = st.one_of(st.sampled_from([1, 2, 25, 1001, 60, (1 << 31) - 1, -1, -1001]), st.integers(1, 100000))
            return st.tuples(self.data(t["fields"][0][1]), den)
        if tid == DATESTRUCT:
            return st.dates().map(lambda d: {"year": d.year, "month": d.month, "day": d.day})
        if tid == TIMESTRUCT:
            return st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(
                lambda v: {"hour": v[0], "minute": v[1], "second": v[2], "fraction": 0})
        if k == "record":
            return st.tuples(*[self.data(x) for _, x in t["fields"]]).map(
                lambda v, names=[n for n, _ in t["fields"]]: dict(zip(names, v)))
        if k == "string":
            return text()
        if k in ("var", "set", "fixed") and t["elem"] == aafref.CHARACTER:
            return st.lists(text(), max_size=4)
        if k == "var":
            if self.A.types[t["elem"]]["kind"] == "int":
                return st.one_of(st.lists(self.data(t["elem"]), max_size=5), st.integers(0, 400).map(lambda n: [7] * n))
            return st.lists(self.data(t["elem"]), max_size=4)
        if k == "set":
            return st.lists(self.data(t["elem"]), max_size=5).map(dedupe)
        if k == "fixed":
            return st.lists(self.data(t["elem"]), min_size=t["count"], max_size=t["count"])
        if k in ("indirect", "opaque"):
            T = {x["name"]: x["id"] for x in self.A.types.values()}
            return st.one_of(text().map(lambda s: ("ind", "aafString", s)),
                             self.data(T["aafInt32"]).map(lambda v: ("ind", "aafInt32", v)),
                             self.data(aafref.RATIONAL).map(lambda v: ("ind", "Rational", v)))
        if k == "char":
            return st.characters(min_codepoint=1, max_codepoint=0xFFFF, exclude_categories=["Cs"])
        raise HarnessError("no strategy for type %s" % t["name"])

    # ------------------------------------------------------------------- values
    def to_api(self, tid, v):
        """literal -> what a user of the library assigns"""
        from aaf2.auid import AUID
        from aaf2.mobid import MobID
        from aaf2.rational import AAFRational
        t = self.A.types[tid]
        k = t["kind"]
        if k == "rename":
            return self.to_api(t["elem"], v)
        if isinstance(v, dict) and "mobid" in v:
            return MobID(bytes_le=bytearray.fromhex(v["mobid"]))
        if isinstance(v, dict) and "auid" in v:
            return AUID(v["auid"])
        if tid == aafref.RATIONAL:
            return AAFRational(v[0], v[1])
        if tid == TIMESTAMP:
            d, m = v["date"], v["time"]
            return datetime.datetime(d["year"], d["month"], d["day"], m["hour"], m["minute"], m["second"])
        if tid == DATESTRUCT:
            return datetime.date(v["year"], v["month"], v["day"])
        if tid == TIMESTRUCT:
            return datetime.time(v["hour"], v["minute"], v["second"])
        if k == "record":
            return {n: self.to_api(x, v[n]) for n, x in t["fields"]}
        if k in ("var", "fixed"):
            return [self.to_api(t["elem"], x) for x in v] if t["elem"] != aafref.CHARACTER else list(v)
        if k == "set":
            return set(self.to_api(t["elem"], x) for x in v[1])
        if k in ("indirect", "opaque"):
            return self.to_api(self.type_named(v[1]), v[2])
        return v

    def type_named(self, name):
        for t in self.A.types.values():
            if t["name"] == name:
                return t["id"]
        raise HarnessError("no type " + name)


def dedupe(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    out.sort(key=repr)
    return ("set", out)


def sparse_id(rnd, size):
    """Bytes of an id, not all zero: mostly zeros, half zeros, or one byte away from others of its kind."""
    b = bytearray(size)
    how = rnd.randrange(4)
    if how == 0:
        b[rnd.randrange(size)] = rnd.randint(1, 255)
    elif how == 1:
        b[:size // 2] = rnd.randbytes(size // 2)
    elif how == 2:
        b[size // 2:] = rnd.randbytes(size // 2)
    else:
        b[:] = bytes(range(1, size + 1))
        b[rnd.randrange(size)] ^= rnd.randint(1, 255)
    if not any(b):
        b[0] = 1
    return bytes(b)


def sparse_ids(size):
    return st.integers(0, 2**32).map(lambda n: sparse_id(random.Random(n), size))


# characters that have a zero byte in UTF-16, next to each other
ZEROS = ["a", "\u0100", "\u4e00", "\x01", "\u0200", "\U00010000", "\U00010100"]


def text():
    return st.one_of(st.lists(st.sampled_from(ZEROS), min_size=1, max_size=6).map("".join),
                     st.text(alphabet=st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=12),
                     st.sampled_from(["", "x", "caf\u00e9", "\U0001f3ac clip", "a" * 255, "\ufeffbom", "\u65e5\u672c", "a/b\\c"]),
                     st.integers(0, 900).map(lambda n: "n" * n))


def stream_bytes(v):
    n, seed = v
    return random.Random(seed).randbytes(n)


_schema = None
_templates = {}


def template(sector_size=4096):
    """bytes of an empty file as the library writes it"""
    if sector_size not in _templates:
        import aaf2
        import tempfile
        fd, p = tempfile.mkstemp(dir=os.environ.get("TMPDIR"))
        os.close(fd)
        try:
            with aaf2.open(p, "w", sector_size=sector_size):
                pass
            _templates[sector_size] = io.open(p, "rb").read()
        finally:
            os.unlink(p)
    return _templates[sector_size]


def schema():
    global _schema
    if _schema is None:
        _schema = Schema(template(4096))
    return _schema


# ------------------------------------------------------------------ generation

STREAM_SIZES = [0, 1, 63, 64, 65, 511, 512, 513, 4095, 4096, 4097, 9000]


class Budget(object):
    def __init__(self, objects, props):
        self.objects = objects
        self.props = props


def draw_node(draw, S, cls, depth, budget, rich=True):
    """a node of a concrete class: {"c": class, "k": key seed, "p": [[name, value]...]}"""
    budget.objects -= 1
    props = []
    info = S.props[cls]
    names = sorted(n for n in info if not info[n]["unique"])
    req = [n for n in names if not info[n]["optional"]]
    opt = [n for n in names if info[n]["optional"]]
    chosen = list(req)
    if opt and rich and budget.props > 0:
        n = draw(st.integers(0, min(5, len(opt))))
        if n:
            chosen += draw(st.lists(st.sampled_from(opt), min_size=n, max_size=n, unique=True))
    if len(chosen) > 1 and draw(st.booleans()):
        chosen = draw(st.permutations(chosen)) if len(chosen) < 12 else chosen[::-1]
    for n in chosen:
        v = draw_value(draw, S, info[n], depth, budget, n in req)
        if v is not None:
            props.append([n, v])
            budget.props -= 1
    return {"c": cls, "k": draw(st.integers(0, 65535)), "p": props}


def pick_class(draw, S, base, depth, budget):
    subs = [s for s in S.subs.get(base, []) if S.depth.get(s) is not None]
    if depth <= 0 or budget.objects <= 0:
        m = min(S.depth[s] for s in subs)
        subs = [s for s in subs if S.depth[s] == m]
    else:
        ok = [s for s in subs if S.depth[s] <= depth]
        subs = ok or subs
    return draw(st.sampled_from(subs))


def draw_value(draw, S, p, depth, budget, required):
    f = p["fmt"]
    if f == "data":
        return ("v", draw(S.data(p["type"])))
    if f == "stream":
        return ("s", (draw(st.one_of(st.sampled_from(STREAM_SIZES), st.integers(0, 6000))), draw(st.integers(0, 999))))
    if f == "strong":
        if not required and (depth <= 0 or budget.objects <= 0):
            return None
        if p["cls"] not in S.subs:
            return None
        c = pick_class(draw, S, p["cls"], depth - 1, budget)
        return ("o", draw_node(draw, S, c, depth - 1, budget, depth > 0))
    if f in ("strongvec", "strongset"):
        n = 0
        if depth > 0 and budget.objects > 0 and p["cls"] in S.subs:
            n = draw(st.integers(0, 3))
        items = []
        for i in range(n):
            if budget.objects <= 0:
                break
            c = pick_class(draw, S, p["cls"], depth - 1, budget)
            items.append(draw_node(draw, S, c, depth - 1, budget, True))
        return ("ov" if f == "strongvec" else "os", items)
    if f == "weak":
        return ("w", draw(st.integers(0, 60)))
    if f in ("weakvec", "weakset"):
        return ("wv" if f == "weakvec" else "ws", draw(st.lists(st.integers(0, 60), max_size=4)))
    raise HarnessError("format %s" % f)


BASE_DEFS = [("InterpolationDefinitions", "InterpolationDefinition"), ("ParameterDefinitions", "ParameterDefinition"),
             ("OperationDefinitions", "OperationDefinition")]


@st.composite
def documents(draw, max_objects=22, max_props=90, mobs=(1, 4), depth=4):
    S = schema()
    budget = Budget(max_objects, max_props)
    defs = []
    for coll, cls in BASE_DEFS:
        defs.append([coll, draw_node(draw, S, cls, 1, budget, draw(st.booleans()))])
    for i in range(draw(st.integers(0, 3))):
        coll, cls = draw(st.sampled_from(COLLECTIONS))
        defs.append([coll, draw_node(draw, S, cls, 1, budget)])
    ms, es = [], []
    for i in range(draw(st.integers(*mobs))):
        c = draw(st.sampled_from(S.subs["Mob"]))
        ms.append(draw_node(draw, S, c, depth, budget))
    for i in range(draw(st.integers(0, 2))):
        es.append(draw_node(draw, S, "EssenceData", 1, budget))
    return {"defs": defs, "mobs": ms, "essence": es, "order": draw(st.integers(0, 1 << 16))}


# ------------------------------------------------------------- concrete literals

class Concretizer(object):
    """assigns unique keys and resolves weak references; result is in aafref form"""
    def __init__(self, S, existing=None):
        self.S = S
        self.used = set()
        self.pools = {c: list(S.existing[c]) for c, _ in COLLECTIONS}
        self.mobs = []
        if existing:
            existing(self)

    def key(self, seed, size):
        n = seed
        while True:
            rnd = random.Random(n)
            if n % 4 == 0:
                b = sparse_id(rnd, size)
            elif size == 32:
                b = bytes([6, 10, 43, 52, 1, 1, 1, 1, 1, 1, 15, 0, 19, 0, 0, 0]) + rnd.randbytes(16)
            else:
                b = rnd.randbytes(16)
            if b not in self.used:
                self.used.add(b)
                return b
            n += 1

    def shell(self, node):
        """the key property of a node, as (name, value, key bytes) or None"""
        for n, p in self.S.props[node["c"]].items():
            if p["unique"]:
                size = 32 if p["type"] == aafref.MOBIDTYPE else 16
                b = self.key(node["k"], size)
                lit = {"mobid": b.hex()} if size == 32 else {"auid": aafref.auid_hex(b)}
                return n, ("v", lit), b
        return None

    def node(self, node, key=None):
        S = self.S
        props = {}
        key = key or self.shell(node)
        if key:
            props[key[0]] = key[1]
        info = S.props[node["c"]]
        for n, v in node["p"]:
            p = info[n]
            t = v[0]
            if t == "v":
                props[n] = ("v", v[1])
            elif t == "s":
                props[n] = ("s", stream_bytes(v[1]))
            elif t == "o":
                props[n] = ("o", self.node(v[1]))
            elif t == "ov":
                props[n] = ("ov", [self.node(x) for x in v[1]])
            elif t == "os":
                d = {}
                for x in v[1]:
                    c = self.node(x)
                    k = node_key(S, c)
                    if k is None or k in d:
                        continue
                    d[k] = c
                props[n] = ("os", d)
            elif t in ("w", "wv", "ws"):
                pool = self.pool(p)
                if not pool:
                    if p["optional"]:
                        continue
                    raise HarnessError("nothing to refer to for %s.%s" % (node["c"], n))
                if t == "w":
                    props[n] = ("w", pool[v[1] % len(pool)])
                else:
                    ks = [pool[i % len(pool)] for i in v[1]]
                    if t == "ws":
                        ks = sorted(set(ks))
                    props[n] = (t, ks)
        return (node["c"], props)

    def pool(self, p):
        c = p["cls"]
        if c == "ClassDefinition":
            return self.S.class_keys
        if c == "TypeDefinition":
            return self.S.type_keys
        if c == "Mob":
            return self.mobs
        for coll, cls in COLLECTIONS:
            if cls == c:
                return self.pools[coll]
        raise HarnessError("weak reference to %s" % c)

    def document(self, doc):
        shells = [(coll, n, self.shell(n)) for coll, n in doc["defs"]]
        mshells = [(n, self.shell(n)) for n in doc["mobs"]]
        eshells = [(n, self.shell(n)) for n in doc["essence"]]
        for coll, n, s in shells:
            self.pools[coll].append(s[2].hex())
        for n, s in mshells:
            self.mobs.append(s[2].hex())
        return {"defs": [(coll, self.node(n, s)) for coll, n, s in shells],
                "mobs": [self.node(n, s) for n, s in mshells],
                "essence": [self.node(n, s) for n, s in eshells],
                "order": doc["order"]}


def node_key(S, node):
    """hex of the bytes a strong reference set would store this object under"""
    cls, props = node
    for n, p in S.props[cls].items():
        if p["unique"]:
            return lit_key(props[n][1])
    if "Definition" in props and "Parameter" in [c["name"] for c in S.A.chain(S.A.class_by_name[cls]["id"])]:
        return lit_key(props["Definition"][1])
    return None


def lit_key(lit):
    if "mobid" in lit:
        return lit["mobid"]
    return Schema.key_bytes(lit["auid"]).hex()


# --------------------------------------------------------------------- building

ALIASES = {"DataDefinition": "DataDef", "ContainerDefinition": "ContainerDef", "OperationDefinition": "OperationDef",
           "ParameterDefinition": "ParameterDef", "PluginDefinition": "PluginDef", "CodecDefinition": "CodecDef",
           "InterpolationDefinition": "InterpolationDef", "TaggedValueDefinition": "TaggedValueDef"}
CTOR_ARGS = {"CodecDef": lambda f: (f.dictionary,)}


class Builder(object):
    def __init__(self, f, S, rnd=None):
        self.f = f
        self.S = S
        self.rnd = rnd or random.Random(0)

    def new(self, cls):
        """an empty object of the class"""
        f = self.f
        name = ALIASES.get(cls, cls)
        if cls == "OperationGroup":
            # its constructor wants an operation definition
            from aaf2.components import OperationGroup
            obj = OperationGroup.__new__(OperationGroup)
            obj.root = f
        else:
            args = CTOR_ARGS[name](f) if name in CTOR_ARGS else ()
            try:
                obj = f.create.from_name(name, *args)
            except Exception as e:
                # the constructor wants a data definition the file of others does not have
                if not (self.S.lenient and "No Definition" in str(e)):
                    raise
                cls = f.metadict.lookup_class(name)
                obj = cls.__new__(cls)
                obj.root = f
        for k in list(obj.keys()):
            del obj[k]
        return obj

    def target(self, p, key):
        from aaf2.auid import AUID
        from aaf2.mobid import MobID
        c = p["cls"]
        f = self.f
        b = bytearray.fromhex(key)
        if c == "Mob":
            return f.content.mobs[MobID(bytes_le=b)]
        a = AUID(bytes_le=b)
        if c == "ClassDefinition":
            return f.metadict.lookup_classdef(a)
        if c == "TypeDefinition":
            return f.metadict.lookup_typedef(a)
        for coll, cls in COLLECTIONS:
            if cls == c:
                return f.dictionary[coll][a]

    def put(self, obj, cls, name, v):
        from aaf2.auid import AUID
        p = self.S.props[cls][name]
        t = v[0]
        rnd = self.rnd
        if t == "v" and isinstance(v[1], tuple) and v[1][0] == "ind" and v[1][1] not in ("aafString", "aafInt32", "Rational"):
            tid = self.S.type_named(v[1][1])
            obj.encode_value(self.S.to_api(tid, v[1][2]), AUID(tid) if rnd.random() < 0.5 else v[1][1])
        elif t == "v":
            obj[name].value = self.S.to_api(p["type"], v[1])
        elif t == "s":
            self.put_stream(obj[name], v[1])
        elif t == "o":
            if rnd.random() < 0.4:
                c = self.shell(v[1])
                obj[name].value = c
                self.fill(c, v[1])
            else:
                obj[name].value = self.make(v[1])
        elif t == "ov":
            self.put_many(obj, name, v[1], lambda pr, items: setattr(pr, "value", items))
        elif t == "os":
            self.put_many(obj, name, list(v[1].values()), lambda pr, items: setattr(pr, "value", items))
        elif t == "w":
            obj[name].value = self.target(p, v[1])
        else:
            objs = [self.target(p, k) for k in v[1]]
            if rnd.random() < 0.5 or not objs:
                obj[name].value = objs
            else:
                for o in objs:
                    pr = obj[name]
                    pr.append(o)

    def put_stream(self, prop, data):
        s = prop.open("w")
        rnd = self.rnd
        pos = 0
        while pos < len(data):
            n = rnd.randint(1, len(data))
            s.write(data[pos:pos + n])
            pos += n

    def put_many(self, obj, name, nodes, assign):
        rnd = self.rnd
        mode = rnd.randrange(4)
        if not nodes or mode == 0:
            assign(obj[name], [self.make(n) for n in nodes])
        elif mode == 1:
            for n in nodes:
                obj[name].append(self.make(n))
        elif mode == 2:
            k = rnd.randint(0, len(nodes))
            if k:
                obj[name].extend([self.make(n) for n in nodes[:k]])
            for n in nodes[k:]:
                c = self.shell(n)
                obj[name].append(c)
                self.fill(c, n)
        else:
            cs = [self.shell(n) for n in nodes]
            assign(obj[name], cs)
            for c, n in zip(cs, nodes):
                self.fill(c, n)

    def shell(self, node):
        cls, props = node
        obj = self.new(cls)
        for n in self.key_props(node):
            self.put(obj, cls, n, props[n])
        return obj

    def key_props(self, node):
        cls, props = node
        return [n for n, p in self.S.props[cls].items() if n in props and
                (p["unique"] or n == "Definition" and node_key(self.S, node) is not None)]

    def fill(self, obj, node):
        cls, props = node
        ks = self.key_props(node)
        for n, v in props.items():
            if n not in ks:
                self.put(obj, cls, n, v)

    def make(self, node):
        obj = self.shell(node)
        self.fill(obj, node)
        return obj

    def document(self, cdoc):
        """add everything to the open file"""
        f = self.f
        rnd = self.rnd
        shells = []
        for coll, n in cdoc["defs"]:
            o = self.shell(n)
            f.dictionary[coll].append(o)
            shells.append((o, n))
        for o, n in shells:
            self.fill(o, n)
        jobs = [("m", n) for n in cdoc["mobs"]] + [("e", n) for n in cdoc["essence"]]
        rnd.shuffle(jobs)
        late = []
        # mobs may be referred to weakly: attach their shells first
        for k, n in jobs:
            dst = f.content.mobs if k == "m" else f.content.essencedata
            if rnd.random() < 0.5:
                o = self.shell(n)
                dst.append(o)
                late.append((o, n))
            else:
                dst.append(self.make(n))
        for o, n in late:
            self.fill(o, n)


# -------------------------------------------------------------------- snapshots

def to_lit(v):
    from aaf2.auid import AUID
    from aaf2.mobid import MobID
    from fractions import Fraction
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, AUID):
        return {"auid": v.hex}
    if isinstance(v, MobID):
        return {"mobid": bytes(v.bytes_le).hex()}
    if isinstance(v, Fraction):
        return (v.numerator, v.denominator)
    if isinstance(v, datetime.datetime):
        return {"date": to_lit(v.date()), "time": to_lit(v.time())}
    if isinstance(v, datetime.date):
        return {"year": v.year, "month": v.month, "day": v.day}
    if isinstance(v, datetime.time):
        return {"hour": v.hour, "minute": v.minute, "second": v.second, "fraction": v.microsecond}
    if isinstance(v, (list, tuple)):
        return [to_lit(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return dedupe([to_lit(x) for x in v])
    if isinstance(v, dict):
        return {k: to_lit(x) for k, x in v.items()}
    raise Violation("value of unexpected type %r" % type(v))


def snapshot(obj, streams=True):
    """the object graph below obj as the public API reports it"""
    from aaf2 import properties as P
    out = {}
    for p in obj.properties():
        name = p.name
        if name in out:
            raise Violation("property %s reported twice" % name)
        out[name] = snapshot_prop(p, streams)
    return (obj.classdef.class_name, out)


def snapshot_prop(p, streams=True):
    from aaf2 import properties as P
    if isinstance(p, P.StreamProperty):
        return ("s", bytes(p.open("r").read()) if streams else None)
    if isinstance(p, P.StrongRefProperty):
        return ("o", snapshot(p.value, streams))
    if isinstance(p, P.StrongRefVectorProperty):
        return ("ov", [snapshot(o, streams) for o in p.value])
    if isinstance(p, P.StrongRefSetProperty):
        d = {}
        for k, o in p.items():
            d[bytes(k.bytes_le).hex()] = snapshot(o, streams)
        return ("os", d)
    if isinstance(p, P.WeakRefSetProperty):
        return ("ws", sorted(bytes(o.unique_key.bytes_le).hex() for o in p.value))
    if isinstance(p, P.WeakRefArrayProperty):
        return ("wv", [bytes(o.unique_key.bytes_le).hex() for o in p.value])
    if isinstance(p, P.WeakRefProperty):
        o = p.value
        if o is None:
            raise Violation("weak reference %s does not resolve" % p.name)
        return ("w", bytes(o.unique_key.bytes_le).hex())
    v = p.value
    t = p.typedef
    if type(t).__name__ in ("TypeDefIndirect", "TypeDefOpaque"):
        return ("v", ("ind", t.decode_typedef(p.data).type_name, to_lit(v)))
    return ("v", to_lit(v))


def content_tree(root):
    """(header literal without dictionary and content, {collection: defs}, mobs, essence)"""
    hdr = dict(root[1]["Header"][1][1])
    dic = dict(hdr.pop("Dictionary")[1][1])
    con = dict(hdr.pop("Content")[1][1])
    return hdr, dic, con


def whole(f, streams=True):
    """snapshot of the open file without the meta dictionary, as aafref.load gives it"""
    return ("Root", {"Header": ("o", snapshot(f.header, streams))})


def merge_doc(root, cdoc):
    """the literal root with a concrete document added"""
    hdr, dic, con = content_tree(root)
    for coll, n in cdoc["defs"]:
        d = dict(dic.get(coll, ("os", {}))[1])
        d[node_key(schema(), n)] = n
        dic[coll] = ("os", d)
    mobs = dict(con.get("Mobs", ("os", {}))[1])
    for n in cdoc["mobs"]:
        mobs[node_key(schema(), n)] = n
    con["Mobs"] = ("os", mobs)
    if cdoc["essence"]:
        e = dict(con.get("EssenceData", ("os", {}))[1])
        for n in cdoc["essence"]:
            e[node_key(schema(), n)] = n
        con["EssenceData"] = ("os", e)
    hdr["Dictionary"] = ("o", ("Dictionary", dic))
    hdr["Content"] = ("o", ("ContentStorage", con))
    return ("Root", {"Header": ("o", ("Header", hdr))})


def diff(got, want, path=""):
    """first difference of two literals, as text, or None"""
    if got == want and type(got) is type(want):
        return None
    if isinstance(got, (tuple, list)) and isinstance(want, (tuple, list)) and type(got) is type(want) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            tag = ("[%d]" % i) if not (isinstance(got, tuple) and i == 1 and isinstance(got[0], str)) else ""
            d = diff(a, b, path + tag)
            if d:
                return d
        return None
    if isinstance(got, dict) and isinstance(want, dict):
        if set(got) != set(want):
            return "%s: extra %s, missing %s" % (path, sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3])
        for k in got:
            d = diff(got[k], want[k], path + "/" + str(k)[:24])
            if d:
                return d
        return None
    if got == want:
        return None
    from .runner import short
    return "%s: got %s, want %s" % (path, short(got, 120), short(want, 120))


def same(got, want, what):
    d = diff(got, want)
    if d:
        raise Violation("%s: %s" % (what, d))


def count_objects(node):
    n = 1
    for v in node[1].values():
        if v[0] == "o":
            n += count_objects(v[1])
        elif v[0] == "ov":
            n += sum(count_objects(x) for x in v[1])
        elif v[0] == "os":
            n += sum(count_objects(x) for x in v[1].values())
    return n


def stats(cdoc, ctx):
    kinds = set()

    def walk(node):
        for v in node[1].values():
            kinds.add(v[0])
            if v[0] == "o":
                walk(v[1])
            elif v[0] in ("ov",):
                for x in v[1]:
                    walk(x)
            elif v[0] == "os":
                for x in v[1].values():
                    walk(x)
    n = 0
    for coll, x in cdoc["defs"]:
        walk(x)
        n += count_objects(x)
    for x in cdoc["mobs"] + cdoc["essence"]:
        walk(x)
        n += count_objects(x)
    ctx.event("objects-%d+" % (n // 10 * 10))
    return n, kinds

"""Edit histories of an open AAF file against a model tree.

The model is a tree of N nodes mirroring the object graph below the Header.
An operation is a tuple (name, i, j, seed): i and j select the object and the
property, all further choices come from random.Random(seed), so that a history
is a plain list of tuples.  World.apply performs the operation on the library
and on the model; World.check compares the two, World.reopen also compares the
bytes as read by the independent reader.
"""
import gc
import io
import os
import random

from . import aafgen, aafref
from .aafgen import Builder, COLLECTIONS, Schema, node_key, same, snapshot
from .runner import Violation, HarnessError, check, check_eq

STREAMS = [0, 1, 63, 64, 65, 500, 512, 4095, 4096, 4097, 5000, 9000]


def trace(*a):
    if os.environ.get("VERIF_TRACE"):
        print("  ", *a)


class N(object):
    __slots__ = ("cls", "props", "parent", "pname", "obj")

    def __init__(self, cls):
        self.cls = cls
        self.props = {}
        self.parent = None
        self.pname = None
        self.obj = None

    def children(self):
        for v in self.props.values():
            if v[0] == "o":
                yield v[1]
            elif v[0] == "ov":
                for x in v[1]:
                    yield x
            elif v[0] == "os":
                for x in v[1].values():
                    yield x

    def walk(self):
        yield self
        for c in self.children():
            for x in c.walk():
                yield x

    def attached(self, root):
        n = self
        while n.parent is not None:
            n = n.parent
        return n is root


def from_lit(lit):
    n = N(lit[0])
    for name, v in lit[1].items():
        t = v[0]
        if t == "o":
            c = from_lit(v[1])
            c.parent, c.pname = n, name
            n.props[name] = ["o", c]
        elif t == "ov":
            cs = [from_lit(x) for x in v[1]]
            for c in cs:
                c.parent, c.pname = n, name
            n.props[name] = ["ov", cs]
        elif t == "os":
            d = {}
            for k, x in v[1].items():
                c = d[k] = from_lit(x)
                c.parent, c.pname = n, name
            n.props[name] = ["os", d]
        elif t in ("wv", "ws"):
            n.props[name] = [t, list(v[1])]
        else:
            n.props[name] = [t, v[1]]
    return n


def to_lit(n):
    out = {}
    for name, v in n.props.items():
        t = v[0]
        if t == "o":
            out[name] = ("o", to_lit(v[1]))
        elif t == "ov":
            out[name] = ("ov", [to_lit(x) for x in v[1]])
        elif t == "os":
            out[name] = ("os", dict((k, to_lit(x)) for k, x in v[1].items()))
        elif t == "ws":
            out[name] = ("ws", sorted(v[1]))
        elif t == "wv":
            out[name] = ("wv", list(v[1]))
        else:
            out[name] = (t, v[1])
    return (n.cls, out)


# ----------------------------------------------------------- random generation

class Gen(object):
    def __init__(self, S, rnd, prefer=()):
        self.S = S
        self.rnd = rnd
        self.indirect = []              # types for tagged values, besides the usual ones
        self.prefer = set(prefer)       # class names, property ids and enumeration elements to use more often

    def text(self):
        r = self.rnd
        k = r.randrange(7)
        if k == 0:
            return ""
        if k == 6:
            return "".join(r.choice(aafgen.ZEROS) for _ in range(r.randint(1, 6)))
        if k == 1:
            return "n" * r.randint(1, 700)
        if k == 2:
            return r.choice(["caf\u00e9", "\U0001f3ac clip", "a" * 255, "\ufeffbom", "\u65e5\u672c", "a/b\\c", "x y.z"])
        return "".join(chr(r.choice([r.randint(32, 126), r.randint(160, 0x2ff), r.randint(0x4e00, 0x4fff)]))
                       for _ in range(r.randint(1, 12)))

    def data(self, tid):
        S, r = self.S, self.rnd
        t = S.A.types[tid]
        k = t["kind"]
        if k == "int":
            n = t["size"] * 8
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if t["signed"] else (0, (1 << n) - 1)
            return r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -300), min(hi, 300))])
        if k == "rename":
            return self.data(t["elem"])
        if tid == aafref.BOOLEAN:
            return r.random() < 0.5
        if k in ("enum", "extenum"):
            vs = sorted(set(t["values"].values()))
            liked = [x for x in vs if x in self.prefer]
            return r.choice(liked if liked and r.random() < 0.5 else vs)
        if tid == aafref.MOBIDTYPE:
            return {"mobid": (bytes(32) if r.random() < 0.2 else aafgen.sparse_id(r, 32) if r.random() < 0.3 else r.randbytes(32)).hex()}
        if tid == aafref.AUIDTYPE:
            return {"auid": (aafgen.sparse_id(r, 16) if r.random() < 0.3 else r.randbytes(16)).hex()}
        if tid == aafref.RATIONAL:
            return (self.data(t["fields"][0][1]), r.choice([1, 2, 25, 1001, 60, (1 << 31) - 1, -1, -1001, r.randint(1, 9999)]))
        if tid == aafgen.DATESTRUCT:
            return {"year": r.randint(1, 9999), "month": r.randint(1, 12), "day": r.randint(1, 28)}
        if tid == aafgen.TIMESTRUCT:
            return {"hour": r.randint(0, 23), "minute": r.randint(0, 59), "second": r.randint(0, 59), "fraction": 0}
        if k == "record":
            return {n: self.data(x) for n, x in t["fields"]}
        if k == "string":
            return self.text()
        if k in ("var", "set", "fixed") and t["elem"] == aafref.CHARACTER:
            return [self.text() for _ in range(r.randint(0, 4))]
        if k == "var":
            return [self.data(t["elem"]) for _ in range(r.choice([0, 1, 2, 5, 40]))]
        if k == "set":
            return aafgen.dedupe([self.data(t["elem"]) for _ in range(r.randint(0, 5))])
        if k == "fixed":
            return [self.data(t["elem"]) for _ in range(t["count"])]
        if k in ("indirect", "opaque"):
            n = r.choice(["aafString", "aafInt32", "Rational"])
            return ("ind", n, self.data(S.type_named(n)))
        if k == "char":
            return chr(r.choice([65, 0xe9, 0x65e5]))
        raise HarnessError("no data for %s" % t["name"])

    def pick(self, base, depth):
        S = self.S
        subs = [s for s in S.subs.get(base, []) if S.depth.get(s) is not None]
        if not subs:
            return None
        if depth <= 0:
            m = min(S.depth[s] for s in subs)
            subs = [s for s in subs if S.depth[s] == m]
        else:
            subs = [s for s in subs if S.depth[s] <= depth] or subs
        if self.prefer:
            liked = [s for s in subs if s in self.prefer]
            if liked and self.rnd.random() < 0.7:
                subs = liked
        return self.rnd.choice(subs)

    def node(self, cls, depth, rich=True):
        """in the form Concretizer.node takes"""
        S, r = self.S, self.rnd
        info = S.props[cls]
        names = sorted(n for n in info if not info[n]["unique"])
        chosen = [n for n in names if not info[n]["optional"]]
        req = len(chosen)
        opt = [n for n in names if info[n]["optional"]]
        if rich and opt:
            chosen += r.sample(opt, r.randint(0, min(4, len(opt))))
            if self.prefer:
                chosen += [n for n in opt if n not in chosen and info[n]["id"] in self.prefer and r.random() < 0.8]
        props = []
        for i, n in enumerate(chosen):
            v = self.value(info[n], depth, i < req)
            if self.indirect and (cls, n) == ("TaggedValue", "Value") and r.random() < 0.6:
                t = r.choice(self.indirect)
                v = ("v", ("ind", S.A.types[t]["name"], self.data(t)))
            if v is not None:
                props.append([n, v])
        r.shuffle(props)
        return {"c": cls, "k": r.randrange(1 << 30), "p": props}

    def value(self, p, depth, required):
        f, r = p["fmt"], self.rnd
        if f == "data":
            return ("v", self.data(p["type"]))
        if f == "stream":
            return ("s", (r.choice(STREAMS + [r.randint(0, 6000)]), r.randrange(1000)))
        if f == "strong":
            if not required and depth <= 0:
                return None
            c = self.pick(p["cls"], depth - 1)
            return None if c is None else ("o", self.node(c, depth - 1, depth > 0))
        if f in ("strongvec", "strongset"):
            items = []
            if depth > 0 and p["cls"] in self.S.subs:
                for i in range(r.choice([0, 1, 1, 2, 3])):
                    c = self.pick(p["cls"], depth - 1)
                    items.append(self.node(c, depth - 1, r.random() < 0.6))
            return ("ov" if f == "strongvec" else "os", items)
        if f == "weak":
            return None if p["cls"] == "Mob" and not required else ("w", r.randrange(1000))
        if p["cls"] == "Mob":
            return None
        return ("wv" if f == "weakvec" else "ws", [r.randrange(1000) for _ in range(r.randint(0, 3))])


class Keys(aafgen.Concretizer):
    """Concretizer drawing weak targets and used keys from a World"""
    def __init__(self, world):
        aafgen.Concretizer.__init__(self, world.S)
        self.used = world.used
        for coll, cls in COLLECTIONS:
            v = world.dic().props.get(coll)
            self.pools[coll] = sorted(v[1]) if v else []
        v = world.content().props.get("Mobs")
        self.mobs = sorted(v[1]) if v else []

    def node(self, node, key=None):
        # a weak reference needs somebody to refer to
        info = self.S.props[node["c"]]
        keep = []
        for n, v in node["p"]:
            if v[0] in ("w", "wv", "ws") and not self.pool(info[n]) and info[n]["optional"]:
                continue
            keep.append([n, v])
        return aafgen.Concretizer.node(self, dict(node, p=keep), key)


def base_file(ss, seed):
    """bytes of a document written by the library, and its literal"""
    k = (ss, seed)
    if k not in _bases:
        import aaf2
        import os
        import tempfile
        S = aafgen.schema()
        rnd = random.Random(seed)
        g = Gen(S, rnd)
        doc = {"defs": [[c, g.node(k2, 1)] for c, k2 in aafgen.BASE_DEFS] +
               [["TaggedValueDefinitions", g.node("TaggedValueDefinition", 1)]],
               "mobs": [g.node(c, 3) for c in ("CompositionMob", "MasterMob", "SourceMob")],
               "essence": [g.node("EssenceData", 1) for _ in range(2)], "order": seed}
        cdoc = aafgen.Concretizer(S).document(doc)
        fd, p = tempfile.mkstemp(dir=os.environ.get("TMPDIR"))
        os.close(fd)
        try:
            with aaf2.open(p, "w", sector_size=ss) as f:
                Builder(f, S, rnd).document(cdoc)
            data = io.open(p, "rb").read()
        finally:
            os.unlink(p)
        _bases[k] = (data, aafref.load(data)[1])
    return _bases[k]


_bases = {}
_other = []


def other_file():
    """another open file, to take foreign objects from"""
    if not _other:
        import aaf2
        _other.append(aaf2.open())
    return _other[0]


class World(object):
    def __init__(self, path, ss, seed, ctx, given=None, S=None):
        self.S = S or aafgen.schema()
        self.strict = S is None         # files of others may lack what ours have to have
        self.path = path
        self.ctx = ctx
        self.data, lit = given or base_file(ss, seed)
        io.open(path, "wb").write(self.data)
        self.base = lit
        self.header = from_lit(lit[1]["Header"][1])
        self.pool = []
        self.recent = []
        self.used = set()
        for n in self.header.walk():
            for name, p in self.S.props[n.cls].items():
                if p["unique"] and name in n.props:
                    self.used.add(bytes.fromhex(aafgen.lit_key(n.props[name][1])))
        self.count = {}
        self.saved = True
        self.open()

    def open(self):
        import aaf2
        self.f = aaf2.open(self.path, "rw")

    def close(self):
        self.f.close()

    def dic(self):
        return self.header.props["Dictionary"][1]

    def content(self):
        return self.header.props["Content"][1]

    # ------------------------------------------------------------- navigation
    def nodes(self, detached=True):
        """objects to edit: the content, the header and detached objects; not definitions"""
        out = [x for x in self.content().walk()]
        if detached:
            for p in self.pool:
                out += list(p.walk())
        out.append(self.header)
        for x in self.header.props.get("IdentificationList", ["ov", []])[1]:
            out.append(x)
        return out

    def defs(self):
        return [x for c, _ in COLLECTIONS for x in self.dic().props.get(c, ["os", {}])[1].values()]

    @staticmethod
    def keyobj(hexkey):
        from aaf2.auid import AUID
        from aaf2.mobid import MobID
        b = bytearray.fromhex(hexkey)
        return MobID(bytes_le=b) if len(b) == 32 else AUID(bytes_le=b)

    def get(self, n, rnd=None):
        if n.obj is not None:
            return n.obj
        if n is self.header:
            return self.f.header
        if n.parent is None:
            raise HarnessError("detached object without a handle")
        p = self.get(n.parent, rnd)[n.pname]
        v = n.parent.props[n.pname]
        if v[0] == "o":
            o = p.value
        elif v[0] == "ov":
            i = [k for k, x in enumerate(v[1]) if x is n][0]
            k = rnd.randrange(4) if rnd else 0
            o = p[i] if k == 0 else p.get(i) if k == 1 else p[i - len(v[1])] if k == 2 else list(p)[i]
        else:
            k = self.keyobj(self.key_in(v[1], n))
            o = p[k] if not rnd or rnd.random() < 0.5 else p.get(k)
        if o is None:
            raise Violation("%s.%s holds no object, expected a %s" % (n.parent.cls, n.pname, n.cls))
        if rnd is None or rnd.random() < 0.5:
            n.obj = o
        return o

    @staticmethod
    def key_in(d, n):
        for k, x in d.items():
            if x is n:
                return k
        raise HarnessError("not in set")

    def new(self, rnd, cls, depth=2):
        """a fresh detached object with its node"""
        g = Gen(self.S, rnd)
        lit = Keys(self).node(g.node(cls, depth, rnd.random() < 0.7))
        b = Builder(self.f, self.S, rnd)
        obj = b.make(lit)
        n = from_lit(lit)
        n.obj = obj
        return n

    def candidate(self, rnd, cls, depth=2):
        """an object to attach where cls is wanted: often one that was detached before"""
        subs = self.S.subs.get(cls, [])
        ok = [p for p in self.pool if p.cls in subs]
        if ok and rnd.random() < 0.5:
            n = rnd.choice(ok)
            self.pool.remove(n)
            self.note("reattach")
            return n
        c = Gen(self.S, rnd).pick(cls, depth)
        return None if c is None else self.new(rnd, c, depth)

    def release(self, n):
        """n is not part of the document any more"""
        n.parent = n.pname = None
        if n.obj is not None and len(self.pool) < 4:
            self.pool.append(n)

    def adopt(self, parent, name, n):
        n.parent, n.pname = parent, name

    def forget(self, n):
        for x in n.walk():
            x.obj = None

    def note(self, what):
        self.ctx.event(what)
        self.count[what] = self.count.get(what, 0) + 1

    # --------------------------------------------------------------- comparing
    def check(self, what="API"):
        same(snapshot(self.f.header), to_lit(self.header), what)

    def check_node(self, n, what):
        same(snapshot(self.get(n)), to_lit(n), what)

    def check_bytes(self, what):
        try:
            A, got = aafref.load(self.data, closed=self.strict, required=self.strict)
        except aafref.BadAAF as e:
            raise Violation("%s: the saved file is not valid: %s" % (what, e))
        same(got, ("Root", {"Header": ("o", to_lit(self.header))}), what + ", independent reader")

    def reopen(self, check_before=False):
        if check_before:
            self.check("API before closing")
        self.f.close()
        self.data = io.open(self.path, "rb").read()
        self.check_bytes("after closing")
        for x in self.header.walk():
            x.obj = None
        self.pool = []
        self.open()
        self.note("reopen")

    # ------------------------------------------------------------------- edits
    def apply(self, op):
        name, i, j, seed = op
        rnd = random.Random(seed)
        trace(op)
        r = getattr(self, "op_" + name)(i, j, rnd)
        if r is not False:
            self.note(name)
        return r

    def pick_prop(self, i, j, fmts, rnd, present=None, where=None, ok=None):
        """(node, property info) having a property of the formats"""
        nodes = where if where is not None else self.nodes()

        def fits(n, q):
            return (q["fmt"] in fmts and not q["unique"] and q["name"] not in ("Dictionary", "Content")
                    and not (q["name"] == "Definition" and node_key(self.S, (n.cls, {"Definition": n.props["Definition"]})))
                    and (present is None or (q["name"] in n.props) == present) and (ok is None or ok(n, q)))
        # several operations on one property reach what single ones do not
        if rnd.random() < 0.4:
            here = set(id(x) for x in nodes)
            near = [(n, self.S.props[n.cls][q]) for n, q in self.recent if id(n) in here]
            near = [(n, q) for n, q in near if fits(n, q)]
            if near:
                return self.remember(*near[(i + j) % len(near)])
        for k in range(len(nodes)):
            n = nodes[(i + k) % len(nodes)]
            info = self.S.props[n.cls]
            ps = [p for p in sorted(info) if fits(n, info[p])]
            if ps:
                # prefer properties that hold something
                full = [p for p in ps if p in n.props]
                if full and rnd.random() < 0.5:
                    ps = full
                return self.remember(n, info[ps[j % len(ps)]])
        return None, None

    def remember(self, n, p):
        self.recent = [x for x in self.recent if x != (n, p["name"])][-5:] + [(n, p["name"])]
        return n, p

    def op_set(self, i, j, rnd):
        where = self.defs() if rnd.random() < 0.15 else None
        # the constructors find data definitions by name
        n, p = self.pick_prop(i, j, ("data",), rnd, where=where, ok=lambda n, p: where is None or p["name"] != "Name")
        if n is None:
            return False
        v = Gen(self.S, rnd).data(p["type"])
        o = self.get(n, rnd)
        o[p["name"]].value = self.S.to_api(p["type"], v)
        n.props[p["name"]] = ["v", v]
        self.check_prop(o, n, p["name"])

    def check_prop(self, o, n, name):
        """one property right after an edit"""
        if name not in n.props:
            check_eq(name in o, False, "%s still has %s" % (n.cls, name))
            check_eq(name in o.keys(), False, "%s.keys() still has %s" % (n.cls, name))
            return
        check_eq(name in o, True, "%s has %s" % (n.cls, name))
        v = n.props[name]
        p = o[name]
        if v[0] == "v":
            same(aafgen.snapshot_prop(p)[1], v[1], "%s.%s" % (n.cls, name))
        elif v[0] == "ov":
            check_eq(len(p), len(v[1]), "len of %s.%s" % (n.cls, name))
            got = p.value
            check_eq(len(got), len(v[1]), "items of %s.%s" % (n.cls, name))
            for k, (a, x) in enumerate(zip(got, v[1])):
                check_eq(a.classdef.class_name, x.cls, "class of %s.%s[%d]" % (n.cls, name, k))
                if x.obj is not None:
                    check(a is x.obj, "%s.%s[%d] is not the object put there" % (n.cls, name, k))
                check(p[k] is a, "%s.%s[%d] differs from iteration" % (n.cls, name, k))
        elif v[0] == "os":
            check_eq(len(p), len(v[1]), "len of %s.%s" % (n.cls, name))
            got = dict((bytes(k.bytes_le).hex(), a) for k, a in p.items())
            check_eq(sorted(got), sorted(v[1]), "keys of %s.%s" % (n.cls, name))
            for k, x in v[1].items():
                if x.obj is not None:
                    check(got[k] is x.obj, "%s.%s holds another object under its key" % (n.cls, name))
        elif v[0] == "o":
            a = p.value
            check(a is not None, "%s.%s is None" % (n.cls, name))
            check_eq(a.classdef.class_name, v[1].cls, "class of %s.%s" % (n.cls, name))
            if v[1].obj is not None:
                check(a is v[1].obj, "%s.%s is another object" % (n.cls, name))
        elif v[0] == "s":
            check_eq(bytes(p.open("r").read()) == v[1], True, "bytes of stream %s.%s" % (n.cls, name))
        else:
            same(aafgen.snapshot_prop(p), to_lit(n)[1][name], "%s.%s" % (n.cls, name))

    def op_delete(self, i, j, rnd):
        n, p = self.pick_prop(i, j, ("data", "stream", "strong", "strongvec", "strongset", "weak", "weakvec", "weakset"),
                              rnd, present=True, ok=lambda n, p: p["optional"])
        if n is None:
            return False
        name = p["name"]
        o = self.get(n, rnd)
        kids = [c for c in n.children() if c.pname == name]
        for c in kids:
            if rnd.random() < 0.5:
                c.obj = self.get(c, rnd)
        if rnd.random() < 0.5 or p["fmt"] == "stream":
            del o[name]
        else:
            o[name].value = None
        del n.props[name]
        for c in kids:
            self.release(c)
        self.check_prop(o, n, name)

    def op_ref(self, i, j, rnd):
        n, p = self.pick_prop(i, j, ("strong",), rnd)
        if n is None:
            return False
        name = p["name"]
        c = self.candidate(rnd, p["cls"])
        if c is None:
            return False
        o = self.get(n, rnd)
        old = n.props.get(name)
        if old is not None and rnd.random() < 0.5:
            old[1].obj = self.get(old[1], rnd)
        o[name].value = c.obj
        n.props[name] = ["o", c]
        self.adopt(n, name, c)
        if old is not None:
            self.release(old[1])
        self.check_prop(o, n, name)

    # vectors
    def op_vec(self, i, j, rnd):
        n, p = self.pick_prop(i, j, ("strongvec",), rnd, ok=lambda n, p: p["cls"] in self.S.subs)
        if n is None:
            return False
        name = p["name"]
        o = self.get(n, rnd)
        items = n.props.get(name, ["ov", []])[1]
        how = rnd.choice(["append", "append", "insert", "insert", "pop", "pop", "setitem", "extend", "extend", "clear",
                          "value", "reorder", "slice", "move"])
        vec = o[name]
        c = None
        trace("vec", n.cls, name, how, len(items))
        if how in ("append", "insert"):
            c = self.candidate(rnd, p["cls"])
            k = rnd.randint(-len(items) - 2, len(items) + 2)
            if how == "append":
                vec.append(c.obj)
                items = items + [c]
            else:
                vec.insert(k, c.obj)
                items = list(items)
                items.insert(k, c)
        elif how == "setitem":
            if not items:
                return False
            k = rnd.randint(-len(items), len(items) - 1)
            c = self.candidate(rnd, p["cls"])
            old = items[k]
            if rnd.random() < 0.5:
                old.obj = self.get(old, rnd)
            vec[k] = c.obj
            items = list(items)
            items[k] = c
            self.release(old)
        elif how == "pop":
            if not items:
                return False
            k = rnd.randint(-len(items), len(items) - 1)
            old = items[k]
            got = vec.pop(k)
            check_eq(got.classdef.class_name, old.cls, "class of the popped object")
            if old.obj is not None:
                check(got is old.obj, "pop returned another object")
            old.obj = got
            items = list(items)
            items.pop(k)
            self.release(old)
        elif how == "extend":
            cs = []
            for _ in range(rnd.randint(0, 3)):
                x = self.candidate(rnd, p["cls"], 1)
                cs.append(x)
            objs = [x.obj for x in cs]
            vec.extend(rnd.choice([list, tuple, iter, lambda x: (y for y in x)])(objs))
            items = items + cs
        elif how in ("clear", "value", "reorder", "slice"):
            keep = []
            if how in ("reorder", "slice") and items:
                for x in items:
                    x.obj = self.get(x, rnd)
                keep = rnd.sample(items, len(items) if how == "reorder" else rnd.randint(0, len(items)))
            cs = [self.candidate(rnd, p["cls"], 1) for _ in range(rnd.randint(0, 2))] if how in ("value", "slice") else []
            new = keep + cs
            for x in items:
                if x not in new and rnd.random() < 0.4:
                    x.obj = self.get(x, rnd)
            if how == "clear":
                vec.clear()
                if name not in n.props:
                    return False
            else:
                objs = [x.obj for x in new]
                vec.value = rnd.choice([list, tuple, iter])(objs)
            for x in items:
                if x not in new:
                    self.release(x)
            items = new
        elif how == "move":
            # take an object out of one vector and put it into another
            srcs = [x for x in self.nodes() if x.parent is not None and x.parent.props[x.pname][0] == "ov"
                    and x.cls in self.S.subs.get(p["cls"], []) and x.pname != "IdentificationList" and not self.below(n, x)]
            if not srcs:
                return False
            x = srcs[rnd.randrange(len(srcs))]
            src, sname = x.parent, x.pname
            k = [y for y, z in enumerate(src.props[sname][1]) if z is x][0]
            got = self.get(src, rnd)[sname].pop(k)
            if x.obj is not None:
                check(got is x.obj, "pop returned another object")
            x.obj = got
            src.props[sname][1].pop(k)
            items = list(n.props.get(name, ["ov", []])[1])
            o[name].append(got)
            items.append(x)
            if not (src is n and sname == name):
                self.check_prop(self.get(src), src, sname)
            self.note("move")
        n.props[name] = ["ov", list(items)]
        for x in items:
            self.adopt(n, name, x)
        self.check_prop(o, n, name)
        # absent positions
        v = o[name]
        for k in (len(items), -len(items) - 1):
            check_eq(v.get(k, "absent"), "absent", "get(%d) of %d items" % (k, len(items)))
        return None

    @staticmethod
    def below(n, top):
        while n is not None:
            if n is top:
                return True
            n = n.parent
        return False

    # sets
    def op_sset(self, i, j, rnd):
        where = None
        r = rnd.random()
        if r < 0.5:
            where = [self.content()]
        elif r < 0.6:
            where = [self.dic()]
        n, p = self.pick_prop(i, j, ("strongset",), rnd, where=where, ok=lambda n, p: p["cls"] in self.S.subs)
        if n is None:
            return False
        name = p["name"]
        o = self.get(n, rnd)
        items = dict(n.props.get(name, ["os", {}])[1])
        hows = ["append", "append", "extend", "replace"]
        if n is not self.dic():
            hows += ["pop", "pop", "clear", "value", "valuedict"]
        how = rnd.choice(hows)
        st = o[name]
        drop = []
        trace("sset", n.cls, name, how, len(items))
        if how in ("append", "extend"):
            cs = [self.candidate(rnd, p["cls"]) for _ in range(1 if how == "append" else rnd.randint(0, 3))]
            cs = [c for c in cs if c is not None]
            if n is self.dic():
                # a definition others may refer to is not replaced
                cs = [c for c in cs if self.key_of(c) not in items]
            if how == "append" and cs:
                st.append(cs[0].obj)
            else:
                st.extend(rnd.choice([list, tuple, iter])([c.obj for c in cs]))
            for c in cs:
                k = self.key_of(c)
                if k in items and items[k] is not c:
                    drop.append(items[k])
                items[k] = c
        elif how == "replace":
            if not items or n is self.dic():
                return False
            k = rnd.choice(sorted(items))
            old = items[k]
            if rnd.random() < 0.5:
                old.obj = self.get(old, rnd)
            if old.cls not in self.S.generic:
                return False
            c = self.new(rnd, old.cls)
            # give it the key of the other one while it is detached
            self.set_key(c, old)
            st.append(c.obj)
            items[k] = c
            drop.append(old)
        elif how == "pop":
            if not items:
                return False
            k = rnd.choice(sorted(items))
            old = items.pop(k)
            got = st.pop(self.keyobj(k))
            check_eq(got.classdef.class_name, old.cls, "class of the popped object")
            if old.obj is not None:
                check(got is old.obj, "pop returned another object")
            old.obj = got
            drop.append(old)
        elif how in ("clear", "value", "valuedict"):
            new = {}
            if how == "clear":
                st.clear()
                if name not in n.props:
                    return False
            else:
                if rnd.random() < 0.6:
                    for k in sorted(items):
                        if rnd.random() < 0.5:
                            items[k].obj = self.get(items[k], rnd)
                            new[k] = items[k]
                for _ in range(rnd.randint(0, 2)):
                    c = self.candidate(rnd, p["cls"], 1)
                    if c is not None and self.key_of(c) not in new:
                        new[self.key_of(c)] = c
                objs = [x.obj for x in new.values()]
                if how == "valuedict":
                    st.value = dict((x.obj.unique_key, x.obj) for x in new.values())
                else:
                    st.value = rnd.choice([list, tuple, iter])(objs)
            for k, x in items.items():
                if new.get(k) is not x:
                    drop.append(x)
            items = new
        n.props[name] = ["os", items]
        for x in items.values():
            self.adopt(n, name, x)
        for x in drop:
            self.release(x)
        self.check_prop(o, n, name)
        k = random.Random(rnd.random()).randbytes(32 if name in ("Mobs", "EssenceData") else 16).hex()
        check_eq(o[name].get(self.keyobj(k), "absent"), "absent", "get of an absent key")
        check_eq(self.keyobj(k) in o[name], False, "an absent key is contained")

    def key_of(self, n):
        return node_key(self.S, (n.cls, n.props))

    def set_key(self, c, old):
        for name, p in self.S.props[c.cls].items():
            if p["unique"] or (name == "Definition" and p["fmt"] == "data" and node_key(self.S, to_lit(c))):
                v = old.props[name][1]
                c.obj[name].value = self.S.to_api(p["type"], v)
                c.props[name] = ["v", v]

    # weak references
    def op_weak(self, i, j, rnd):
        fmts = ("weak", "weakvec", "weakset")
        where = None
        if rnd.random() < 0.4:
            where = self.defs()
            if rnd.random() < 0.6:
                fmts = fmts[1:]
        n, p = self.pick_prop(i, j, fmts, rnd, where=where, ok=lambda n, p: p["cls"] != "Mob")
        if n is None:
            return False
        name = p["name"]
        pool = Keys(self).pool(p)
        if not pool:
            return False
        o = self.get(n, rnd)
        b = Builder(self.f, self.S, rnd)
        trace("weak", n.cls, name, p["fmt"], len(pool))
        self.note(p["fmt"])
        if p["fmt"] == "weak":
            k = rnd.choice(pool)
            o[name].value = b.target(p, k)
            n.props[name] = ["w", k]
        else:
            t = "wv" if p["fmt"] == "weakvec" else "ws"
            cur = list(n.props.get(name, [t, []])[1])
            how = rnd.choice(["append", "append", "extend", "value", "clear"])
            ks = [rnd.choice(pool) for _ in range(1 if how == "append" else rnd.randint(0, 4))]
            if t == "ws":
                ks = sorted(set(ks))
                if how in ("append", "extend"):
                    ks = [k for k in ks if k not in cur]
            objs = [b.target(p, k) for k in ks]
            pr = o[name]
            if how == "append":
                if not objs:
                    return False
                pr.append(objs[0])
                cur += ks
            elif how == "extend":
                pr.extend(rnd.choice([list, tuple, iter])(objs))
                cur += ks
            elif how == "clear":
                if name not in n.props:
                    return False
                pr.clear()
                cur = []
            else:
                pr.value = rnd.choice([list, tuple, iter])(objs)
                cur = ks
            n.props[name] = [t, cur]
            pr = o[name]
            check_eq(len(pr), len(cur), "len of %s.%s" % (n.cls, name))
            for k, x in zip(cur, pr):
                if t == "wv":
                    check(x is b.target(p, k), "%s.%s leads to another object" % (n.cls, name))
            for k in set(cur):
                check(pr[self.keyobj(k)] is b.target(p, k), "%s.%s by key leads to another object" % (n.cls, name))
                check(pr.get(self.keyobj(k)) is b.target(p, k), "%s.%s get by key leads to another object" % (n.cls, name))
                check_eq(self.keyobj(k) in pr, True, "key in %s.%s" % (n.cls, name))
            for k in sorted(set(pool) - set(cur))[:3]:
                check_eq(self.keyobj(k) in pr, False, "key of another definition in %s.%s" % (n.cls, name))
                check_eq(pr.get(self.keyobj(k), "absent"), "absent", "get of another definition in %s.%s" % (n.cls, name))
        if p["fmt"] == "weak":
            check(o[name].value is b.target(p, n.props[name][1]), "%s.%s leads to another object" % (n.cls, name))
        self.check_prop(o, n, name)

    # streams
    def op_stream(self, i, j, rnd):
        r = rnd.random()
        where = None
        if r < 0.6:
            where = list(self.content().props.get("EssenceData", ["os", {}])[1].values()) or None
        n, p = self.pick_prop(i, j, ("stream",), rnd, where=where)
        if n is None:
            return False
        name = p["name"]
        o = self.get(n, rnd)
        cur = n.props.get(name, ["s", None])[1]
        data = aafgen.stream_bytes((rnd.choice(STREAMS + [rnd.randint(0, 7000)]), rnd.randrange(1000)))
        how = rnd.choice(["w", "w", "rw", "append", "truncate"])
        if cur is None or how == "w":
            s = o[name].open("w")
            s.write(data)
            cur = data
        else:
            s = o[name].open("rw")
            if how == "append":
                s.seek(0, 2)
                s.write(data)
                cur = cur + data
            elif how == "rw":
                k = rnd.randint(0, len(cur))
                s.seek(k)
                s.write(data)
                cur = cur[:k] + data + cur[k + len(data):]
            else:
                k = rnd.randint(0, len(cur) + 600)
                s.seek(k)
                s.truncate()
                cur = cur[:k] + bytes(max(0, k - len(cur)))
        n.props[name] = ["s", cur]
        self.check_prop(o, n, name)

    # ownership
    def op_mobid(self, i, j, rnd):
        coll = rnd.choice(["Mobs", "Mobs", "EssenceData"])
        v = self.content().props.get(coll)
        if not v or not v[1]:
            return False
        ks = sorted(v[1])
        k = ks[i % len(ks)]
        n = v[1][k]
        new = k if rnd.random() < 0.1 else Keys(self).key(rnd.randrange(1 << 30), 32).hex()
        o = self.get(n, rnd)
        if rnd.random() < 0.5:
            o.mob_id = self.keyobj(new)
        else:
            o["MobID"].value = self.keyobj(new)
        n.props["MobID"] = ["v", {"mobid": new}]
        if new != k:
            del v[1][k]
            v[1][new] = n
            check_eq(self.keyobj(k) in self.f.content[coll], False, "the old id is still a key")
        check(self.f.content[coll][self.keyobj(new)] is o, "the new id does not lead to the object")
        self.check_prop(self.f.content, self.content(), coll)

    def op_copy(self, i, j, rnd):
        nodes = [x for x in self.nodes() if x is not self.content() and x is not self.header]
        if not nodes:
            return False
        n = nodes[i % len(nodes)]
        if rnd.random() < 0.5:
            # what was edited, or what holds it
            near = set(id(x) for x, _ in self.recent)
            near = [x for x in nodes if any(id(y) in near for y in x.walk())]
            if near:
                n = near[j % len(near)]
        if sum(1 for _ in n.walk()) > 60:
            return False
        o = self.get(n, rnd)
        c = o.copy()
        check(c is not o, "copy returned the object itself")
        m = from_lit(to_lit(n))
        m.obj = c
        same(snapshot(c), to_lit(n), "the copy")
        same(snapshot(o), to_lit(n), "the original after copying")
        self.pool.insert(0, m)
        del self.pool[5:]
        for x, y in zip(n.walk(), m.walk()):
            for z, q in list(self.recent):
                if z is x and y.cls == x.cls:
                    self.recent = self.recent[-6:] + [(y, q)]

    def op_twin(self, i, j, rnd):
        """take items out of a vector, copy what holds it, put others into the copy, and the copy next to the original"""
        cand = [(n, q) for n in self.nodes(False) if n.parent is not None and n.parent.props[n.pname][0] == "ov" and n.pname != "IdentificationList"
                for q, v in sorted(n.props.items()) if v[0] == "ov" and len(v[1]) >= 2 and self.S.props[n.cls][q]["cls"] in self.S.subs]
        if not cand:
            return False
        n, q = cand[i % len(cand)]
        if sum(1 for _ in n.walk()) > 60:
            return False
        o = self.get(n, rnd)
        items = n.props[q][1]
        for _ in range(rnd.randint(1, 2)):
            k = rnd.randrange(len(items))
            old = items.pop(k)
            old.obj = o[q].pop(k)
            self.release(old)
        self.check_prop(o, n, q)
        c = o.copy()
        m = from_lit(to_lit(n))
        m.obj = c
        early = rnd.random() < 0.5
        dest = self.get(n.parent, rnd)

        def place():
            dest[n.pname].append(c)
            n.parent.props[n.pname][1].append(m)
            self.adopt(n.parent, n.pname, m)
        if early:
            place()
        for who, x in [(m, c), (n, o)] if rnd.random() < 0.5 else [(m, c)]:
            for _ in range(rnd.randint(1, 2)):
                y = self.candidate(rnd, self.S.props[n.cls][q]["cls"], 1)
                if y is not None:
                    x[q].append(y.obj)
                    who.props[q][1].append(y)
                    self.adopt(who, q, y)
            self.check_prop(x, who, q)
        if not early:
            place()
        self.check_prop(dest, n.parent, n.pname)

    def op_fill(self, i, j, rnd):
        """edit a detached object"""
        if not self.pool:
            return False
        nodes = [x for p in self.pool for x in p.walk()]
        n = nodes[i % len(nodes)]
        n2, p = self.pick_prop(0, j, ("data",), rnd, where=[n])
        if n2 is None:
            return False
        v = Gen(self.S, rnd).data(p["type"])
        self.get(n, rnd)[p["name"]].value = self.S.to_api(p["type"], v)
        n.props[p["name"]] = ["v", v]

    # sessions
    def op_save(self, i, j, rnd):
        self.f.save()
        if rnd.random() < 0.3:
            self.check("API after save()")

    def op_reopen(self, i, j, rnd):
        self.reopen(rnd.random() < 0.3)

    def op_abandon(self, i, j, rnd):
        """forget every handle, so that objects are read again"""
        for x in self.header.walk():
            x.obj = None
        self.pool = []
        gc.collect()

    def op_peek(self, i, j, rnd):
        nodes = self.nodes()
        self.check_node(nodes[i % len(nodes)], "object read back")

    # ------------------------------------------------------- refused requests
    def refused(self, what, fn, nodes):
        try:
            fn()
        except Exception:
            pass
        else:
            raise Violation("accepted: " + what)
        for n in nodes:
            self.check_node(n, "after refusing %s" % what)
        self.note("refused")

    def op_refuse(self, i, j, rnd):
        how = rnd.choice(["attached", "attached", "wrong", "twice", "foreign", "key", "mobid", "index", "absent", "badvalue",
                          "wrongref", "loop"])
        return getattr(self, "no_" + how)(i, j, rnd)

    def op_refuse_weak(self, i, j, rnd):
        return self.no_wrongref(i, j, rnd)

    def op_refuse_index(self, i, j, rnd):
        return getattr(self, "no_" + rnd.choice(["index", "absent", "twice", "wrong"]))(i, j, rnd)

    def op_refuse_owner(self, i, j, rnd):
        return getattr(self, "no_" + rnd.choice(["attached", "foreign", "key", "mobid", "twice", "loop"]))(i, j, rnd)

    def containers(self, i, j, rnd, fmts):
        n, p = self.pick_prop(i, j, fmts, rnd, ok=lambda n, p: p["cls"] in self.S.subs)
        return n, p

    def put_calls(self, n, p, objs):
        """ways to store objs in the property"""
        o = self.get(n)
        name = p["name"]
        if p["fmt"] == "strong":
            return [lambda: setattr(o[name], "value", objs[-1])]
        calls = [lambda: o[name].extend(objs), lambda: setattr(o[name], "value", objs), lambda: o[name].append(objs[-1]),
                 lambda: setattr(o[name], "value", iter(objs))]
        if p["fmt"] == "strongvec":
            calls.append(lambda: o[name].insert(0, objs[-1]))
            if n.props.get(name, (0, ()))[1]:
                calls.append(lambda: o[name].__setitem__(0, objs[-1]))
        return calls

    def no_attached(self, i, j, rnd):
        n, p = self.containers(i, j, rnd, ("strong", "strongvec", "strongset"))
        if n is None:
            return False
        xs = [x for x in self.content().walk() if x.cls in self.S.subs[p["cls"]] and
              not (x.parent is n and x.pname == p["name"])]
        if not xs:
            return False
        x = xs[rnd.randrange(len(xs))]
        objs = [self.get(x)]
        if rnd.random() < 0.5:
            c = Gen(self.S, rnd).pick(p["cls"], 1)
            objs.insert(0, self.new(rnd, c, 1).obj)
        self.refused("storing an attached %s in %s.%s" % (x.cls, n.cls, p["name"]), rnd.choice(self.put_calls(n, p, objs)), [n, x.parent])

    def no_wrong(self, i, j, rnd):
        n, p = self.containers(i, j, rnd, ("strong", "strongvec", "strongset"))
        if n is None:
            return False
        wrong = [c for c in self.S.generic if c not in self.S.subs[p["cls"]] and self.S.depth[c] <= 1]
        if not wrong:
            return False
        objs = [self.new(rnd, rnd.choice(wrong), 0).obj]
        if rnd.random() < 0.5:
            c = Gen(self.S, rnd).pick(p["cls"], 1)
            objs.insert(0, self.new(rnd, c, 1).obj)
        self.refused("storing a %s in %s.%s" % (objs[-1].classdef.class_name, n.cls, p["name"]), rnd.choice(self.put_calls(n, p, objs)), [n])

    def no_foreign(self, i, j, rnd):
        n, p = self.containers(i, j, rnd, ("strong", "strongvec", "strongset"))
        if n is None:
            return False
        c = Gen(self.S, rnd).pick(p["cls"], 0)
        x = Builder(other_file(), self.S, rnd).new(c)
        self.refused("storing an object of another file in %s.%s" % (n.cls, p["name"]), rnd.choice(self.put_calls(n, p, [x])), [n])

    def no_twice(self, i, j, rnd):
        n, p = self.containers(i, j, rnd, ("strongvec",))
        if n is None:
            return False
        o = self.get(n)
        c = Gen(self.S, rnd).pick(p["cls"], 0)
        x = self.new(rnd, c, 0).obj
        objs = [x, x]
        items = n.props.get(p["name"], ["ov", []])[1]
        if items and rnd.random() < 0.5:
            y = self.get(items[0])
            objs = [y, x, y]
        name = p["name"]
        self.refused("storing one object twice in %s.%s" % (n.cls, name),
                     rnd.choice([lambda: o[name].extend(objs), lambda: setattr(o[name], "value", objs)]), [n])

    def no_key(self, i, j, rnd):
        ds = self.defs()
        n = ds[i % len(ds)]
        o = self.get(n)
        for name, p in self.S.props[n.cls].items():
            if p["unique"]:
                v = Gen(self.S, rnd).data(p["type"])
                self.refused("changing the identification of an attached definition",
                             lambda: setattr(o[name], "value", self.S.to_api(p["type"], v)), [n])
                return
        return False

    def no_mobid(self, i, j, rnd):
        v = self.content().props.get("Mobs")
        if not v or len(v[1]) < 2:
            return False
        ks = sorted(v[1])
        a, b = rnd.sample(ks, 2)
        o = self.get(v[1][a])
        val = rnd.choice([self.keyobj(b), None, "x"])
        self.refused("mob id %r" % (val,), lambda: setattr(o, "mob_id", val), [self.content()])
        check(self.f.content.mobs[self.keyobj(a)] is o, "the mob is not found under its id any more")

    def no_index(self, i, j, rnd):
        n, p = self.containers(i, j, rnd, ("strongvec",))
        if n is None:
            return False
        o = self.get(n)
        name = p["name"]
        size = len(n.props.get(name, (0, ()))[1])
        k = rnd.choice([size, size + 3, -size - 1, -size - 4])
        how = rnd.randrange(3)
        if how == 0:
            fn = lambda: o[name][k]
        elif how == 1:
            fn = lambda: o[name].pop(k)
        else:
            c = Gen(self.S, rnd).pick(p["cls"], 0)
            x = self.new(rnd, c, 0).obj
            fn = lambda: o[name].__setitem__(k, x)
        self.refused("index %d of %d" % (k, size), fn, [n])

    def no_absent(self, i, j, rnd):
        nodes = self.nodes()
        n = nodes[i % len(nodes)]
        o = self.get(n)
        absent = sorted(x for x in self.S.props[n.cls] if x not in n.props)
        if not absent:
            return False
        name = absent[j % len(absent)]
        self.refused("deleting the absent property " + name, lambda: o.__delitem__(name), [n])
        self.refused("an unknown property", lambda: o["No such property"], [n])
        check_eq(o.getvalue(name, "default"), "default", "getvalue of the absent property %s" % name)

    def no_badvalue(self, i, j, rnd):
        n, p = self.pick_prop(i, j, ("data",), rnd, ok=lambda n, p: self.bad(p["type"], random.Random(0)) is not None)
        if n is None:
            return False
        v = self.bad(p["type"], rnd)[0]
        o = self.get(n)
        self.refused("%r for %s.%s" % (v, n.cls, p["name"]), lambda: setattr(o[p["name"]], "value", v), [n])

    def bad(self, tid, rnd):
        t = self.S.A.types[tid]
        if tid == aafref.BOOLEAN:
            return None
        if t["kind"] == "int":
            n = t["size"] * 8
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if t["signed"] else (0, (1 << n) - 1)
            return (rnd.choice([lo - 1, hi + 1, "1", [1]]),)
        if t["kind"] in ("enum", "extenum"):
            return ("no such element",)
        if t["kind"] == "rename":
            return self.bad(t["elem"], rnd)
        if t["kind"] == "string":
            return (rnd.choice([5, b"x", [1]]),)
        if t["kind"] == "fixed":
            g = Gen(self.S, rnd)
            return ([self.S.to_api(t["elem"], g.data(t["elem"])) for _ in range(t["count"] + rnd.randint(1, 3))],)
        if tid in (aafref.AUIDTYPE, aafref.MOBIDTYPE):
            return (rnd.choice([5, "x"]),)
        return None

    def no_wrongref(self, i, j, rnd):
        n, p = self.pick_prop(i, j, ("weak", "weakvec", "weakset"), rnd)
        if n is None:
            return False
        o = self.get(n)
        if p["cls"] in ("ClassDefinition", "TypeDefinition") or rnd.random() < 0.5:
            x = self.new(rnd, rnd.choice(["Filler", "TaggedValue"]), 0).obj
        else:
            x = Builder(other_file(), self.S, rnd).new(p["cls"]) if p["cls"] != "Mob" else other_file().create.MasterMob()
        v = x if p["fmt"] == "weak" else [x]
        self.refused("a weak reference in %s.%s to %s" % (n.cls, p["name"], x), lambda: setattr(o[p["name"]], "value", v), [n])

    def no_loop(self, i, j, rnd):
        """an object inside itself"""
        ns = [x for x in self.content().walk() if x.parent is not None and x.parent.parent is not None]
        if not ns:
            return False
        x = ns[i % len(ns)]
        top = x
        while top is not self.content():
            for name, p in sorted(self.S.props[x.cls].items()):
                if p["fmt"] in ("strong", "strongvec", "strongset") and top.cls in self.S.subs.get(p["cls"], []) \
                        and not (top.parent is x and top.pname == name):
                    self.refused("an object inside itself", rnd.choice(self.put_calls(x, p, [self.get(top)])), [self.content()])
                    return
            top = top.parent
        return False


def histories(st, weights, size):
    names = [n for n, w in weights.items() for _ in range(w)]
    op = st.tuples(st.sampled_from(names), st.integers(0, 1000), st.integers(0, 40), st.integers(0, 1 << 20))
    return st.tuples(st.sampled_from([4096, 512]), st.integers(0, 3), st.lists(op, min_size=size // 3, max_size=size))


def play(value, ctx, final=True, given=None, S=None, first=None, cls=None):
    """run a history; the World is closed and compared at the end"""
    ss, base, ops = value
    w = (cls or World)(ctx.path("m.aaf"), ss, base, ctx, given, S)
    done = False
    try:
        if first:
            first(w)
        for op in ops:
            w.apply(op)
        if final:
            w.check("API at the end")
            w.reopen()
            w.check("API after reopening")
        done = True
    finally:
        try:
            w.close()
        except Exception:
            if done:
                raise
    return w

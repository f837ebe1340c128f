"""Generated extensions of the data model: types, classes and properties.

A plan is a list of registration commands (plain literals), derived from seeds
against the schema of an ordinary file:

  ("type", category, name, auid, args)          args as register_typedef_model takes them
  ("class", name, auid, parent, concrete)       parent: class id
  ("prop", class id, name, auid, pid or None, type auid, optional, unique)
  ("elem", type auid, element name, value)
"""
import random

from . import aafref
from .runner import HarnessError, Violation, check, check_eq

SIZEABLE = ("int", "enum", "extenum", "record", "fixed", "rename")
LABELS = ["PAL", "NTSC", "Wide", "caf\u00e9", "\u65e5\u672c", "with space", "x" * 40, "A_1", "b.c", "Z"]
PARENTS = ["InterchangeObject", "Component", "Segment", "EssenceDescriptor", "FileDescriptor", "TaggedValue", "SubDescriptor",
           "Sequence", "Filler", "DefinitionObject", "MasterMob", "CommentMarker", "Locator", "SourceClip", "KLVData",
           "EventMobSlot", "TimelineMobSlot", "DescriptiveFramework"]


def auid(rnd):
    return aafref.auid_hex(rnd.randbytes(16))


class Planner(object):
    """keeps what is registered, on top of a Schema"""
    def __init__(self, S):
        self.S = S
        self.types = dict(S.A.types)
        self.classes = dict((k, dict(c, props=dict((p["id"], p) for p in c["props"].values()))) for k, c in S.A.classes.items())
        self.plan = []
        self.new_types = []
        self.new_classes = []
        self.new_props = []
        self.names = set(t["name"] for t in self.types.values()) | set(c["name"] for c in self.classes.values())
        self.frozen = set()             # classes that may have objects already
        self.only = None
        self.nested = []
        self.added = set()              # names of elements added to existing enumerations
        self.weak = {}
        for t in self.types.values():
            if t["kind"] == "weak":
                self.weak.setdefault(t["cls"], t)

    def new_id(self, rnd):
        return auid(rnd)

    def fresh(self, rnd, stem):
        while True:
            n = "%s%s%d" % (stem, rnd.choice(["", "Caf\u00e9", "\u65e5\u672c", "_x", " y", "Very" * 12]), rnd.randrange(100000))
            if n not in self.names:
                self.names.add(n)
                return n

    def sized(self, tid):
        t = self.types[tid]
        k = t["kind"]
        if k in ("fixed", "rename"):
            return self.sized(t["elem"])
        if k == "record":
            return all(self.sized(x) for _, x in t["fields"])
        return k in SIZEABLE

    def pick_type(self, rnd, ok):
        if self.only is not None and ok(self.types[self.only]):
            return self.only
        new = [t for t in self.new_types if ok(self.types[t])]
        if new and rnd.random() < 0.6:
            return rnd.choice(new)
        old = sorted(t for t in self.types if t not in self.new_types and ok(self.types[t]))
        return rnd.choice(old) if old else None

    def data_type(self, t):
        return t["kind"] not in ("strong", "weak", "stream", "genchar", "opaque") and self.usable(t)

    def usable(self, t):
        """types whose values the generator can make"""
        k = t["kind"]
        if k in ("var", "set", "fixed", "rename"):
            e = self.types[t["elem"]]
            if k == "var" and e["id"] == aafref.CHARACTER:
                return True
            if k != "rename" and e["kind"] in ("strong", "weak", "genchar", "stream"):
                return False
            return self.usable(e)
        if k == "record":
            return all(self.usable(self.types[x]) for _, x in t["fields"])
        if k == "string":
            return self.types[t["elem"]]["kind"] == "char"
        # the library has no encoding for a lone character
        return k not in ("genchar", "strong", "weak", "stream", "opaque", "char")

    def elem_ok(self, t):
        return self.sized(t["id"]) and self.usable(t) and t["id"] not in (aafref.BOOLEAN,)

    def target_class(self, rnd, unique):
        out = []
        for c in self.classes.values():
            if c["name"] in ("Root", "Header", "ContentStorage", "Dictionary", "MetaDictionary", "Identification"):
                continue
            chain = [x["name"] for x in self.chain(c["id"])]
            if "InterchangeObject" not in chain or "DefinitionObject" in chain or "Mob" in chain or "EssenceData" in chain:
                continue
            if unique and not any(p["unique"] for x in self.chain(c["id"]) for p in x["props"].values()):
                continue
            if not any(x["concrete"] for x in self.classes.values() if c in self.chain(x["id"])):
                continue
            out.append(c["id"])
        new = [c for c in out if c in self.new_classes]
        if new and rnd.random() < 0.7:
            return rnd.choice(new)
        out = sorted(out)
        return rnd.choice(out) if out else None

    def chain(self, cid):
        out = []
        while True:
            c = self.classes[cid]
            out.append(c)
            if c["parent"] == cid:
                return out
            cid = c["parent"]

    # ------------------------------------------------------------------- steps
    def step(self, what, seed):
        rnd = random.Random(seed * 1000 + len(self.plan))
        return getattr(self, "plan_" + what)(rnd)

    def add_type(self, cat, t, args):
        self.types[t["id"]] = t
        self.new_types.append(t["id"])
        self.plan.append(("type", cat, t["name"], t["id"], args))
        return t["id"]

    def plan_type(self, rnd, kind=None):
        kind = kind or rnd.choice(["enum", "enum", "extenum", "record", "record", "fixed", "var", "var", "set", "rename", "string",
                                   "strong", "strongvec", "strongset", "weak", "weakvec", "weakset"])
        tid = self.new_id(rnd)
        name = self.fresh(rnd, kind.capitalize())
        t = {"id": tid, "name": name, "kind": kind}
        if kind == "enum":
            e = self.pick_type(rnd, lambda x: x["kind"] == "int")
            n = self.types[e]["size"] * 8
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if self.types[e]["signed"] else (0, min((1 << n) - 1, (1 << 63) - 1))
            vals = set(rnd.choice([lo, hi, rnd.randint(max(lo, -9), min(hi, 30)), rnd.randint(lo, hi)]) for _ in range(rnd.randint(1, 6)))
            d = dict(zip(sorted(vals), rnd.sample(LABELS, len(vals))))
            t.update(elem=e, values=d)
            return self.add_type("enums", t, (tid, e, d))
        if kind == "extenum":
            d = dict((self.new_id(rnd), x) for x in rnd.sample(LABELS, rnd.randint(1, 5)))
            t.update(values=d)
            return self.add_type("extenums", t, (tid, d))
        if kind == "record":
            names = rnd.sample(["Data1", "X", "Y", "Size", "Caf\u00e9", "flag", "A b"], rnd.randint(1, 5))
            fields = [(x, self.pick_type(rnd, lambda y: self.sized(y["id"]) and self.usable(y))) for x in names]
            t.update(fields=fields)
            return self.add_type("records", t, (tid, fields))
        if kind == "fixed":
            e = self.pick_type(rnd, self.elem_ok)
            n = rnd.randint(1, 5)
            t.update(elem=e, count=n)
            return self.add_type("fixed_arrays", t, (tid, e, n))
        if kind in ("var", "set"):
            e = aafref.CHARACTER if kind == "var" and rnd.random() < 0.2 else self.pick_type(rnd, self.elem_ok)
            if kind == "set" and not self.hashable(e):
                e = self.pick_type(rnd, lambda x: x["kind"] in ("int", "enum", "extenum") and x["id"] != aafref.BOOLEAN)
            t.update(elem=e)
            return self.add_type("var_arrays" if kind == "var" else "sets", t, (tid, e))
        if kind == "rename":
            e = self.pick_type(rnd, lambda x: self.data_type(x) and x["kind"] not in ("indirect",))
            t.update(elem=e)
            return self.add_type("renames", t, (tid, e))
        if kind == "string":
            t.update(elem=aafref.CHARACTER)
            return self.add_type("strings", t, (tid, aafref.CHARACTER))
        if kind in ("strong", "strongvec", "strongset"):
            c = self.target_class(rnd, kind == "strongset")
            if c is None:
                return self.plan_type(rnd, "enum")
            r = {"id": tid, "name": name, "kind": "strong", "cls": c}
            self.add_type("strongrefs", r, (tid, c))
            return self.wrap(rnd, kind, tid)
        if kind in ("weak", "weakvec", "weakset"):
            cs = sorted(c for c in self.weak if self.weak[c]["target"] and self.classes[c]["name"] in
                        ("DataDefinition", "CodecDefinition", "ContainerDefinition", "InterpolationDefinition",
                         "OperationDefinition", "ParameterDefinition", "ClassDefinition", "TypeDefinition"))
            c = rnd.choice(cs)
            path = list(self.weak[c]["target"])
            r = {"id": tid, "name": name, "kind": "weak", "cls": c, "target": path}
            self.add_type("weakrefs", r, (tid, c, path))
            return self.wrap(rnd, kind, tid)
        raise HarnessError(kind)

    def hashable(self, tid):
        t = self.types[tid]
        if t["kind"] == "rename":
            return self.hashable(t["elem"])
        return t["kind"] in ("int", "enum", "extenum") or tid in (aafref.AUIDTYPE, aafref.RATIONAL, aafref.MOBIDTYPE)

    def wrap(self, rnd, kind, tid):
        if kind in ("strong", "weak"):
            return tid
        vec = kind.endswith("vec")
        wid = self.new_id(rnd)
        t = {"id": wid, "name": self.fresh(rnd, "Wrap"), "kind": "var" if vec else "set", "elem": tid}
        return self.add_type("var_arrays" if vec else "sets", t, (wid, tid))

    def plan_class(self, rnd):
        ps = [c["id"] for c in self.classes.values() if c["name"] in PARENTS] + self.new_classes * 4
        parent = rnd.choice(ps)
        cid = self.new_id(rnd)
        c = {"id": cid, "name": self.fresh(rnd, "Class"), "parent": parent, "concrete": rnd.random() < 0.85, "props": {}}
        self.classes[cid] = c
        self.new_classes.append(cid)
        self.plan.append(("class", c["name"], cid, parent, c["concrete"]))
        if self.classes[parent]["name"] == "InterchangeObject" and rnd.random() < 0.5:
            self.add_prop(rnd, cid, aafref.AUIDTYPE, False, True)
        for _ in range(rnd.randint(0, 4)):
            self.plan_prop(rnd, cid)
        return cid

    def plan_prop(self, rnd, cid=None):
        if cid is None:
            cs = [c["id"] for c in self.classes.values() if c["name"] in PARENTS + ["Mob", "MobSlot", "InterchangeObject", "EssenceData",
                  "Header", "TaggedValue", "Sequence", "OperationGroup", "DataDefinition"]]
            cid = rnd.choice(sorted(cs) + self.new_classes * 6)
        r = rnd.random()
        refs = [t for t in self.new_types if self.ref_kind(t)]
        if refs and r < 0.4:
            tid = rnd.choice(refs)
        elif r < 0.5:
            tid = [t for t in self.types if self.types[t]["kind"] == "stream"][0]
        else:
            tid = self.pick_type(rnd, self.data_type)
        optional = rnd.random() < 0.8 or cid not in self.new_classes or cid in self.frozen or self.ref_kind(tid) == "strong"
        return self.add_prop(rnd, cid, tid, optional, False)

    def ref_kind(self, tid):
        t = self.types[tid]
        while t["kind"] in ("var", "set"):
            t = self.types[t["elem"]]
        return t["kind"] if t["kind"] in ("strong", "weak") else None

    def add_prop(self, rnd, cid, tid, optional, unique):
        used = set(p["name"] for c in self.chain(cid) for p in c["props"].values())
        used |= set(p["name"] for c in self.classes.values() if cid in [x["id"] for x in self.chain(c["id"])] for p in c["props"].values())
        while True:
            name = rnd.choice(["Ext", "Prop\u00e9", "Answer", "Long" * 10]) + str(rnd.randrange(1000))
            if name not in used:
                break
        pid = None
        if rnd.random() < 0.3:
            pid = rnd.choice([rnd.randint(0x8000, 0xFFFF), rnd.randint(0xFF40, 0xFF59), rnd.randint(0xFFA0, 0xFFBF)])
        pa = self.new_id(rnd)
        p = {"name": name, "id": pa, "type": tid, "optional": optional, "unique": unique, "pid": pid}
        self.classes[cid]["props"][pa] = p
        self.new_props.append((cid, pa))
        self.plan.append(("prop", cid, name, pa, pid, tid, optional, unique))
        return p

    def plan_nest(self, rnd):
        """an enumeration inside arrays, records and renamed types, in a property of a common class"""
        e = self.plan_type(rnd, rnd.choice(["enum", "extenum"]))
        self.nested.append(e)
        tid = e
        for _ in range(rnd.randint(1, 3)):
            kinds = ["var", "fixed", "rename", "record", "set"] if self.sized(tid) else ["rename"]
            self.only = tid
            tid = self.plan_type(rnd, rnd.choice(kinds))
            self.only = None
        c = rnd.choice(["Mob", "Component", "CompositionMob", "SourceMob", "EssenceData", "InterchangeObject", "DataDefinition"])
        cid = [x["id"] for x in self.classes.values() if x["name"] == c][0]
        self.add_prop(rnd, cid, tid, True, False)

    def plan_elem(self, rnd):
        es = [t for t in self.types.values() if t["kind"] in ("enum", "extenum") and t["id"] != aafref.BOOLEAN]
        new = [t for t in es if t["id"] in self.new_types]
        if self.nested and rnd.random() < 0.6:
            new = [self.types[rnd.choice(self.nested)]]
        t = rnd.choice(new if new and rnd.random() < 0.6 else sorted(es, key=lambda t: t["id"]))
        name = rnd.choice(["Added", "\u00e9l\u00e9ment"]) + str(rnd.randrange(10000))
        if name in t["values"].values():
            return
        if t["kind"] == "extenum":
            v = self.new_id(rnd)
        else:
            e = self.types[t["elem"]]
            n = e["size"] * 8
            v = rnd.randint(0, min((1 << n - 1) - 1, 1 << 40))
            if v in t["values"]:
                return
        self.types[t["id"]] = t = dict(t, values=dict(t["values"]))
        t["values"][v] = name
        self.added.add(name)
        self.plan.append(("elem", t["id"], name, v))


# ------------------------------------------------------------------ library side

def register(f, cmd, rnd, pids):
    """perform one command on an open file"""
    from aaf2.auid import AUID
    md = f.metadict
    if cmd[0] == "type":
        _, cat, name, tid, args = cmd
        args = list(args)
        if cat in ("extenums",):
            args[1] = dict(args[1])
        elif cat == "enums":
            args[2] = dict(args[2])
        elif cat == "records":
            args[1] = tuple((n, t) for n, t in args[1])
        elif cat == "weakrefs":
            args[2] = tuple(args[2])
        md.register_typedef_model({cat: {name: tuple(args)}})
    elif cmd[0] == "class":
        _, name, cid, parent, concrete = cmd
        pc = md.lookup_classdef(AUID(parent))
        c = md.register_classdef(name, rnd.choice([AUID(cid), cid]), rnd.choice([AUID(parent), pc.class_name, parent]), concrete)
        check_eq(c.class_name, name, "name of the registered class")
    elif cmd[0] == "prop":
        _, cid, name, pa, pid, tid, optional, unique = cmd
        if pid is not None:
            used = used_pids(f)
            while pid in used:
                pid = 0x8000 if pid >= 0xFFFE else pid + 1
        t = md.lookup_typedef(AUID(tid))
        check(t is not None, "the type %s is not found" % tid)
        tn = t.type_name
        forms = [AUID(tid), tid] + ([tn] if md.lookup_typedef(tn) is t else [])
        c = md.lookup_classdef(AUID(cid))
        if rnd.random() < 0.7:
            p = c.register_propertydef(name, AUID(pa), pid, rnd.choice(forms), optional, unique)
        else:
            cc = c.class_name
            md.register_classdef(cc, AUID(cid), (c.parent or c).auid, c.concrete, {name: (AUID(pa), pid, rnd.choice(forms), optional, unique)})
            p = c.lookup_propertydef(AUID(pa))
        check_eq(p.property_name, name, "name of the registered property")
        if pid is not None:
            check_eq(p.pid, pid, "id of the registered property")
        pids[pa] = p.pid
    elif cmd[0] == "elem":
        _, tid, name, v = cmd
        t = md.lookup_typedef(AUID(tid))
        t.register_element(name, AUID(v) if isinstance(v, str) else v)


def used_pids(f):
    out = set()
    for c in f.metadict["ClassDefinitions"].values():
        for p in c["Properties"].values():
            if p.pid >= 0x8000:
                if p.pid in out:
                    raise Violation("dynamic property id %x is used twice" % p.pid)
                out.add(p.pid)
    return out


def check_types(A, planner, what):
    """the stored definitions are exactly those planned (and those of the base)"""
    for tid in planner.new_types + sorted(set(c[1] for c in planner.plan if c[0] == "elem")):
        got = A.types.get(tid)
        if got is None:
            raise Violation("%s: type %s is not stored" % (what, planner.types[tid]["name"]))
        want = dict(planner.types[tid])
        got = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in got.items()}
        want = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in want.items()}
        if tid not in planner.new_types:
            # the built-in extensions may have added others
            got["values"] = {k: v for k, v in got["values"].items() if k in want["values"]}
        if "fields" in want:
            want["fields"] = [tuple(x) for x in want["fields"]]
            got["fields"] = [tuple(x) for x in got["fields"]]
        check_eq(got, want, "%s: type %s" % (what, want["name"]))
    for cid in planner.new_classes:
        got = A.classes.get(cid)
        c = planner.classes[cid]
        if got is None:
            raise Violation("%s: class %s is not stored" % (what, c["name"]))
        for k in ("name", "parent", "concrete"):
            check_eq(got[k], c[k], "%s: %s of class %s" % (what, k, c["name"]))
        check_eq(sorted(p["id"] for p in got["props"].values()), sorted(c["props"]), "%s: properties of class %s" % (what, c["name"]))
    for cid, pa in planner.new_props:
        want = planner.classes[cid]["props"][pa]
        got = [p for p in A.classes[cid]["props"].values() if p["id"] == pa]
        if not got:
            raise Violation("%s: property %s of class %s is not stored" % (what, want["name"], planner.classes[cid]["name"]))
        for k in ("name", "type", "optional", "unique"):
            check_eq(got[0][k], want[k], "%s: %s of property %s" % (what, k, want["name"]))


def check_kept(A, base, what, pids=None):
    """every definition of base is still there, unchanged except that elements and properties may have been added"""
    for tid, t in base.types.items():
        g = A.types.get(tid)
        if g is None:
            raise Violation("%s: type %s disappeared" % (what, t["name"]))
        for k, v in t.items():
            if k == "values":
                for x, n in v.items():
                    check_eq(g[k].get(x), n, "%s: element %s of %s" % (what, n, t["name"]))
            else:
                check_eq(g[k], v, "%s: %s of type %s" % (what, k, t["name"]))
    for cid, c in base.classes.items():
        if c["name"] == "Root":
            continue
        g = A.classes.get(cid)
        if g is None:
            raise Violation("%s: class %s disappeared" % (what, c["name"]))
        for k in ("name", "parent", "concrete"):
            check_eq(g[k], c[k], "%s: %s of class %s" % (what, k, c["name"]))
        gp = dict((p["id"], p) for p in g["props"].values())
        for p in c["props"].values():
            q = gp.get(p["id"])
            if q is None:
                raise Violation("%s: property %s.%s disappeared" % (what, c["name"], p["name"]))
            for k in ("name", "type", "optional", "unique", "pid"):
                check_eq(q[k], p[k], "%s: %s of property %s.%s" % (what, k, c["name"], p["name"]))


def check_api(f, A, what):
    """the open file reports the model an independent reader finds in its bytes"""
    from aaf2.auid import AUID
    md = f.metadict
    for cid, c in A.classes.items():
        if c["name"] == "Root":
            continue
        g = md.lookup_classdef(AUID(cid))
        check(g is not None, "%s: class %s is not found by id" % (what, c["name"]))
        check(md.lookup_classdef(c["name"]) is g, "%s: class %s is not found by name" % (what, c["name"]))
        check_eq((g.class_name, g.concrete, g.auid.hex), (c["name"], c["concrete"], cid), "%s: class %s" % (what, c["name"]))
        check_eq((g.parent or g).auid.hex, c["parent"], "%s: parent of %s" % (what, c["name"]))
        got = sorted((p.property_name, p.auid.hex, p.pid, p.typedef.auid.hex, p.optional, bool(p.unique)) for p in g.propertydefs)
        want = sorted((p["name"], p["id"], p["pid"], p["type"], p["optional"], p["unique"]) for p in c["props"].values())
        check_eq(got, want, "%s: properties of %s" % (what, c["name"]))
        for p in c["props"].values():
            check_eq(g.get_propertydef_from_pid(p["pid"]).property_name, p["name"], "%s: property by id" % what)
            check_eq(g.lookup_propertydef(AUID(p["id"])).property_name, p["name"], "%s: property by auid" % what)
    for tid, t in A.types.items():
        g = md.lookup_typedef(AUID(tid))
        check(g is not None, "%s: type %s is not found by id" % (what, t["name"]))
        check_eq((g.type_name, g.auid.hex), (t["name"], tid), "%s: type %s" % (what, t["name"]))
        check(md.lookup_typedef(t["name"]) is g, "%s: type %s is not found by name" % (what, t["name"]))
        k = t["kind"]
        if k in ("enum", "extenum"):
            got = dict((x.hex if k == "extenum" else x, y) for x, y in g.elements.items())
            check_eq(got, t["values"], "%s: elements of %s" % (what, t["name"]))
        elif k == "record":
            check_eq([(x, md.lookup_typedef(y).auid.hex) for x, y in g.fields], [tuple(x) for x in t["fields"]], "%s: fields of %s" % (what, t["name"]))
        elif k in ("fixed", "var", "set", "string"):
            check_eq(g.element_typedef.auid.hex, t["elem"], "%s: element type of %s" % (what, t["name"]))
            if k == "fixed":
                check_eq(g.size, t["count"], "%s: size of %s" % (what, t["name"]))
        elif k == "rename":
            check_eq(g.renamed_typedef.auid.hex, t["elem"], "%s: renamed type of %s" % (what, t["name"]))
        elif k in ("strong", "weak"):
            check_eq(g.ref_classdef.auid.hex, t["cls"], "%s: class of %s" % (what, t["name"]))
        elif k == "int":
            check_eq((g.size, g.signed), (t["size"], t["signed"]), "%s: integer %s" % (what, t["name"]))

"""P01: looking at a file shows what is in it, works in every state and changes nothing."""
import contextlib
import io
import random
import re
from collections import Counter
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib import aafgen, aafmodel, aafref, aafrelay
from vlib.aafgen import same, snapshot, snapshot_prop, to_lit
from checks import x01

PROPERTY = "P01"
RULE = ("A history of edits as in F02 on a file of ours or one laid out otherwise, in which objects - attached, detached, half "
        "filled, read or new - are looked at between any two edits: as a mapping, printed, dumped, walked, with unset and unknown "
        "properties asked for; the model says what must be seen, and the graph afterwards. Target 'empty': an object of any class "
        "with any part of its properties set. Target 'mxf': the dumps of generated MXF files. Non-trivial: at least five looks at "
        "objects with properties and two edits; three properties; four packages and descriptors.")
ASSUMPTIONS = ["definitions that are referred to are not removed"]
WEIGHTS = {"look": 12, "set": 2, "delete": 2, "ref": 2, "vec": 2, "sset": 2, "weak": 2, "stream": 2, "mobid": 1, "copy": 1, "fill": 1,
           "save": 1, "reopen": 1, "refuse": 1}
MISSING = object()


def printed(fn, *args):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn(*args)
    return out.getvalue()


def keys_look(S, o, cls, want):
    """the object as a mapping; want: name -> literal"""
    keys = list(o.keys())
    check_eq(sorted(keys), sorted(want), "keys of a %s" % cls)
    check_eq(sorted(p.name for p in o.properties()), sorted(want), "properties of a %s" % cls)
    known = set(S.props[cls])
    check_eq(set(o.allkeys()) - set(["ObjClass"]), known, "all keys of a %s" % cls)
    for name in sorted(known):
        what = "%s.%s" % (cls, name)
        check_eq(name in o, name in want, what + " in the object")
        p = o.get(name)
        check(p is not None and p.name == name, what, "is not got")
        check(o[name].name == name, what, "is not found")
        if name in want:
            same(("v", ("x", snapshot_prop(p))), ("v", ("x", want[name])), what)
            check(o.get(name, MISSING, False) is not MISSING, what, "is not got without the others")
            if want[name][0] == "v":
                same(to_lit(o.getvalue(name)), to_lit(p.value), what + " by getvalue")
        else:
            check(o.get(name, MISSING, False) is MISSING, what, "is there though it is not set")
            check(o.getvalue(name, MISSING) is MISSING, what, "has a value though it is not set")
            v = p.value
            check(v is None or isinstance(v, (list, tuple)) and not v, what, "is not set and has the value %r" % (v,))
            try:
                del o[name]
            except KeyError:
                pass
            else:
                raise Violation("%s is not set and was deleted" % what)
    for name in ("", "NoSuchProperty", "name", "data"):
        if name in known:
            continue
        check(name not in o and o.get(name) is None and o.get(name, MISSING) is MISSING and o.getvalue(name, MISSING) is MISSING,
              "a property that a %s cannot have is found" % cls)
        try:
            o[name]
        except KeyError:
            pass
        else:
            raise Violation("a property that a %s cannot have is found" % cls)


def print_look(S, o, cls, want):
    for x in [o, o.classdef] + list(o.properties()):
        for fn in (repr, str):
            check(isinstance(fn(x), str), "%s of %s is no text" % (fn, cls))
    for p in o.properties():
        for x in (p.typedef, p.propertydef):
            check(isinstance(repr(x), str), "no text")
        if want[p.name][0] == "ov":
            check_eq(len(repr(p.value)) > 0, True, "text of a vector")
    text = repr(o)
    v = want.get("Name")
    named = [c for b in ("Mob", "MobSlot", "DefinitionObject") for c in S.subs[b]]
    if v is not None and v[1] and cls in named and type(o).__name__ != "AAFObject":
        check(v[1] in text, "the name %r of a %s is not in its text %s" % (v[1], cls, text))


def dump_look(o, lit):
    """the dump has a line for each property, and the values"""
    text = printed(o.dump)
    lines = Counter(x.strip().split(" <")[0] for x in text.split("\n"))
    want, values = Counter(), []

    def walk(props):
        for name, v in props.items():
            want[name] += 1
            if v[0] == "v" and isinstance(v[1], (str, int)):
                values.append(str(v[1]))
            for k in [v[1]] if v[0] == "o" else v[1] if v[0] == "ov" else v[1].values() if v[0] == "os" else []:
                walk(k[1])
    walk(lit[1])
    for name, n in want.items():
        check(lines[name] >= n, "the dump of a %s has %d lines for %s, there are %d" % (lit[0], lines[name], name, n))
    for v in values:
        check(v in text, "the value %r is not in the dump of a %s" % (v, lit[0]))


def walk_look(o, lit):
    """every object and stream below, each once"""
    def count(lit, out):
        out[lit[0]] += 1
        for v in lit[1].values():
            if v[0] == "s":
                out["streams"] += 1
            for k in [v[1]] if v[0] == "o" else v[1] if v[0] == "ov" else v[1].values() if v[0] == "os" else []:
                count(k, out)
        return out
    want = count(lit, Counter())
    for top in (False, True):
        got, seen = Counter(), []
        for x, streams in o.walk_references(topdown=top):
            got[x.classdef.class_name] += 1
            got["streams"] += len(streams)
            seen.append(x)
        check_eq(dict((k, v) for k, v in got.items() if v), dict(want), "objects walked below a %s" % lit[0])
        check_eq(len(set(id(x) for x in seen)), len(seen), "objects walked are different ones")
        check(seen[-1 if top else 0] is o, "the object itself is not walked at its place")


class World(aafmodel.World):
    def op_look(self, i, j, rnd):
        if rnd.random() < 0.1:
            n = self.header
            if rnd.random() < 0.5:
                text = printed(self.f.dump)
                check("Header" in text and "Content" in text, "the dump of the file has no header")
        else:
            nodes = self.nodes() + ([rnd.choice(self.defs())] if rnd.random() < 0.2 else [])
            n = nodes[i % len(nodes)]
        o = self.get(n, rnd)
        kinds = rnd.sample(["keys", "keys", "print", "print", "dump", "walk"], rnd.randint(1, 3))
        want = aafmodel.to_lit(n)
        for k in kinds:
            if k == "keys":
                keys_look(self.S, o, n.cls, want[1])
            elif k == "print":
                print_look(self.S, o, n.cls, want[1])
            elif k == "dump":
                dump_look(o, want)
            else:
                walk_look(o, want)
        return None if want[1] else False


def run(value, ctx):
    relay, hist = value
    ss, base, ops = hist
    given = None
    if relay:
        data, lit = aafmodel.base_file(4096, base)
        given = (aafrelay.relay(data, ss, relay)[0], lit)
    w = aafmodel.play(hist, ctx, given=given, cls=World)
    n = sum(w.count.get(k, 0) for k in ("set", "delete", "ref", "vec", "sset", "weak", "stream", "mobid", "fill", "copy"))
    ctx.nontrivial(n >= 2 and w.count.get("look", 0) >= 5)


# ------------------------------------------------------ objects in any state

def run_empty(value, ctx):
    """an object with any part of what it needs, seen before and after it gets more and more of it"""
    import aaf2
    cls, seed = value
    S = aafgen.schema()
    rnd = random.Random(seed)
    names = sorted(c for c in S.generic if S.classes[c]["concrete"])
    cls = names[cls % len(names)]
    base = aafmodel.base_file(4096, seed % 4)
    path = ctx.path("e.aaf")
    io.open(path, "wb").write(base[0])
    ctx.event(cls)
    with aaf2.open(path, "rw") as f:
        w = W(S, f, base[1])
        g = aafmodel.Gen(S, rnd)
        lit = aafmodel.Keys(w).node(g.node(cls, 2, True))
        b = aafgen.Builder(f, S, rnd)
        o = b.new(cls)
        have = {}
        todo = list(lit[1].items())
        rnd.shuffle(todo)
        todo.sort(key=lambda x: x[0] in b.key_props(lit) and rnd.random() < 0.5)

        def look():
            now = (cls, dict(have))
            for k in rnd.sample(["keys", "print", "dump", "walk"], 2):
                if k == "keys":
                    keys_look(S, o, cls, now[1])
                elif k == "print":
                    print_look(S, o, cls, now[1])
                elif k == "dump":
                    dump_look(o, now)
                else:
                    walk_look(o, now)
            same(snapshot(o), now, "after looking")
        look()
        for name, v in todo:
            b.put(o, cls, name, v)
            have[name] = v
            if rnd.random() < 0.5:
                look()
        look()
        fresh = f.create.from_name(aafgen.ALIASES.get(cls, cls), *ctor(f, cls))
        for fn in (repr, str, lambda x: printed(x.dump), lambda x: list(x.walk_references())):
            fn(fresh)
    data = io.open(path, "rb").read()
    same(aafref.load(data)[1], base[1], "the file afterwards")
    ctx.nontrivial(len(todo) >= 3)


def ctor(f, cls):
    if cls == "OperationGroup":
        return (list(f.dictionary["OperationDefinitions"].values())[0],)
    name = aafgen.ALIASES.get(cls, cls)
    return aafgen.CTOR_ARGS[name](f) if name in aafgen.CTOR_ARGS else ()


class W(aafmodel.World):
    """only what Keys needs of a World"""
    def __init__(self, S, f, lit):
        self.S, self.f, self.used = S, f, set()
        self.header = aafmodel.from_lit(lit[1]["Header"][1])


# ------------------------------------------------------------------------ MXF

def run_mxf(value, ctx):
    """the dumps of an MXF file hold its packages, by id and name"""
    from aaf2 import mxf
    from aaf2.mobid import MobID
    doc = x01.document(random.Random(value["seed"]), value["sources"])
    op = x01.UL("060e2b34040101%02x0d0102011000000000" % value["op"])[:16].ljust(16, b"\0")
    data = x01.write(doc, dict(value, op=op))
    path = ctx.path("d.mxf")
    io.open(path, "wb").write(data)
    m = mxf.MXFFile(path)
    deep, flat = printed(m.dump), printed(m.dump_flat)
    n = 0
    for p in doc:
        u = str(MobID(bytes_le=bytearray(x01.uid(p["id"]))))
        for text in (deep, flat):
            check(u in text, "package %s is not in the dump" % u)
            if "name" in p:
                check(p["name"] in text, "name %r is not in the dump" % p["name"])
        n += 1 + ("descriptor" in p)
    check_eq(flat.count("MXFTrack"), sum(1 for p in doc for t in p["slots"] if t["kind"] == "Track"), "tracks in the flat dump")
    check((deep, flat) == (printed(m.dump), printed(m.dump_flat)), "a second dump differs")
    check(io.open(path, "rb").read() == data, "dumping changed the file")
    ctx.nontrivial(n >= 3)


TARGETS = [Target("sessions", lambda tier: st.tuples(st.sampled_from([0, 0, 1, 2, 3]), aafmodel.histories(st, WEIGHTS, 16 if tier == "quick" else 45)), run,
                  quick=130, thorough=4000),
           Target("empty", st.tuples(st.integers(0, 200), st.integers(0, 1 << 20)), run_empty, quick=200, thorough=6000),
           Target("mxf", lambda tier: x01.cases(), run_mxf, quick=120, thorough=3000)]

"""D01: what is registered or stored is found again by every name and id it has."""
import io
import os
import random
import uuid
from hypothesis import strategies as st
from vlib.runner import Target, Enumerated, Violation, check, check_eq, raises
from vlib import aafgen, aafref

PROPERTY = "D01"
RULE = ("Target 'definitions': histories of registering definitions of every kind under generated ids and names, renaming them, "
        "replacing them, refused registrations, and lookups by id, uuid, name, name without its prefix in any case, and by the "
        "definition itself, before and after saving and reopening. Target 'content': histories of adding, removing and renaming "
        "mobs and essence data, against the lists of mobs by kind, the top level list and the links between a mob and its essence. "
        "Target 'factory': objects of every class by name, nested and kept factory functions, class and type lookups. Target "
        "'update': one dictionary updated from another. Non-trivial: a history with a rename or a reopen; an update with a shared "
        "operation.")
ASSUMPTIONS = ["definition names of one kind differ in more than case"]

KINDS = [("DataDef", "DataDefinitions", "lookup_datadef"), ("ContainerDef", "ContainerDefinitions", "lookup_containerdef"),
         ("CodecDef", "CodecDefinitions", "lookup_codecdef"), ("ParameterDef", "ParameterDefinitions", "lookup_parameterdef"),
         ("OperationDef", "OperationDefinitions", "lookup_operationdef"),
         ("InterpolationDef", "InterpolationDefinitions", "lookup_interperlationdef"),
         ("TaggedValueDef", "TaggedValueDefinitions", "lookup_taggedvaluedef")]
ALPHA = u"abcXYZ019 _-.\u00e9\u00df\u0130\u4e2d"


def stem(rnd, used):
    while True:
        n = "".join(rnd.choice(ALPHA) for _ in range(rnd.randint(1, 9)))
        if n.lower() not in used and "def_" not in n.lower() and n.strip():
            return n


def bare(name):
    return name.replace("DataDef_", "").replace("ContainerDef_", "")


def variants(name, rnd):
    s = bare(name)
    out = [name, s]
    for v in (s.upper(), s.lower(), s.swapcase(), s.title()):
        if v.lower() == s.lower() and bare(v) == v:
            out.append(v)
    return out


def new_file(ctx, disk):
    import aaf2
    if not disk:
        return aaf2.file.AAFFile(None, "wb+"), None
    path = ctx.path("d.aaf")
    io.open(path, "wb").write(aafgen.template(4096))
    return aaf2.open(path, "rw"), path


def make(f, kind, auid, name, rnd):
    c = f.create
    a = rnd.choice([auid, str(auid), uuid.UUID(str(auid))])
    if kind == "CodecDef":
        return c.CodecDef(f.dictionary, a, name, "d", rnd.choice(["CDCIDescriptor", f.metadict.lookup_classdef("PCMDescriptor")]),
                          rnd.choice([["picture"], ["Sound", "picture"], [f.dictionary.lookup_datadef("sound")]]))
    if kind == "ParameterDef":
        t = rnd.choice(["Rational", "aafInt32"])
        t = rnd.choice([t, f.metadict.lookup_typedef(t), f.metadict.lookup_typedef(t).auid])
        return c.ParameterDef(a, name, "", t)
    d = c.from_name(kind, a, name, rnd.choice([None, "", "text"]))
    if kind == "OperationDef":
        d.media_kind = rnd.choice(["picture", "sound", "Timecode"])
        d.number_inputs = 1
    return d


def run_definitions(value, ctx):
    import aaf2
    from aaf2.auid import AUID
    ops, seed, disk = value
    rnd = random.Random(seed)
    f, path = new_file(ctx, disk)
    model = {k[0]: {} for k in KINDS}       # kind -> {auid text: name}
    try:
        for kind, coll, _ in KINDS:
            for d in f.dictionary[coll].value:
                model[kind][str(d.auid)] = d.name
        builtin = set(model["DataDef"])         # the other objects made here need them
        for what, i, j in ops:
            kind, coll, lookup = KINDS[i % len(KINDS)]
            names = set(bare(n or "").lower() for n in model[kind].values())
            mine = sorted(model[kind])
            if what == "add":
                auid = AUID(int=rnd.getrandbits(128))
                name = rnd.choice(["", "", "DataDef_", "ContainerDef_", kind + "_"]) + stem(rnd, names)
                if bare(name).lower() in names:
                    continue
                d = make(f, kind, auid, name, rnd)
                f.dictionary.register_def(d)
                model[kind][str(auid)] = name
                check(getattr(f.dictionary, lookup)(auid) is d, "the definition registered is found")
            elif what == "replace" and mine:
                k = mine[j % len(mine)]
                name = stem(rnd, names)
                if k in builtin:
                    continue
                d = make(f, kind, AUID(k), name, rnd)
                f.dictionary.register_def(d)
                model[kind][k] = name
            elif what == "rename" and mine:
                k = mine[j % len(mine)]
                if k in builtin:
                    continue
                d = getattr(f.dictionary, lookup)(AUID(k))
                name = rnd.choice(["", "DataDef_"]) + stem(rnd, names)
                d.name = name
                model[kind][k] = name
                ctx.nontrivial()
            elif what == "remove" and mine:
                k = mine[j % len(mine)]
                if kind == "DataDef":
                    continue            # operations refer to them
                f.dictionary[coll].pop(AUID(k))
                del model[kind][k]
            elif what == "refused":
                bad = rnd.choice([lambda: f.create.Filler("picture", 1), lambda: f.create.MasterMob(), lambda: None,
                                  lambda: "DataDef_x", lambda: f.create.NetworkLocator()])()
                check(raises((ValueError, TypeError), f.dictionary.register_def, bad), "registers", bad)
            elif what == "reopen" and path:
                f.close()
                f = aaf2.open(path, "rw")
                ctx.nontrivial()
            elif what == "instance" and mine:
                k = mine[j % len(mine)]
                d = getattr(f.dictionary, lookup)(AUID(k))
                check(getattr(f.dictionary, lookup)(d) is d, "looking up a definition gives another")
            agree_defs(f, model, kind, coll, lookup, rnd)
        for kind, coll, lookup in KINDS:
            agree_defs(f, model, kind, coll, lookup, rnd)
    finally:
        close(f)


def close(f):
    try:
        if f.is_open:
            f.close()
    except ValueError:
        pass


def agree_defs(f, model, kind, coll, lookup, rnd):
    from aaf2.auid import AUID
    look = getattr(f.dictionary, lookup)
    m = model[kind]
    check_eq(sorted(str(d.auid) for d in f.dictionary[coll].value), sorted(m), coll)
    keys = sorted(m)
    if len(keys) > 6:
        keys = rnd.sample(keys, 6)
    for k in keys:
        d = look(AUID(k))
        check(d is not None, kind, k, "is not found by its id")
        check_eq(str(d.auid), k, "id of the definition found")
        check(look(uuid.UUID(k)) is d, kind, "found by its UUID")
        check_eq(d.name, m[k], "name of", kind, k)
        check_eq(str(d.uuid), k, "uuid")
        if not m[k]:
            continue
        check_eq(d.short_name, bare(m[k]), "short name")
        same = [x for x in m.values() if x and bare(x).lower() == bare(m[k]).lower()]
        if len(same) == 1:
            for v in variants(m[k], rnd):
                check(look(v) is d, kind, "with name", m[k], "is not found as", v)
    # what is not there
    other = AUID(int=rnd.getrandbits(128))
    check(look(other) is None, kind, "found by an id nobody has")
    check(look(uuid.UUID(str(other))) is None, kind, "found by a UUID nobody has")
    n = stem(rnd, set(bare(x or "").lower() for x in m.values()))
    check(raises((Exception,), look, n), kind, "found by the name", n, "nobody has")
    # ids of other kinds are not of this kind
    for k2, coll2, _ in KINDS:
        if k2 != kind and model[k2]:
            k = rnd.choice(sorted(model[k2]))
            if k not in m:
                check(look(AUID(k)) is None, kind, "found by the id of a", k2)


# ---------------------------------------------------------------- content

MOBS = ["CompositionMob", "MasterMob", "SourceMob"]
USAGES = [None, "Usage_TopLevel", "Usage_LowerLevel", "Usage_SubClip", "Usage_Template", "Usage_AdjustedClip"]


def run_content(value, ctx):
    import aaf2
    from aaf2.mobid import MobID
    ops, seed, disk = value
    rnd = random.Random(seed)
    f, path = new_file(ctx, disk)
    mobs, gone, ess = {}, [], {}            # mob id text -> (class, usage, name); essence: mob id text -> bytes
    try:
        for what, i, j in ops:
            C = f.content
            ids = sorted(mobs)
            eids = sorted(ess)
            if what == "mob":
                cls, usage = MOBS[i % 3], USAGES[j % len(USAGES)]
                name = rnd.choice(["", "a", "same", None])
                m = f.create.from_name(cls, name) if rnd.random() < 0.8 else f.create.from_name(cls)
                m.name = "m%d" % j
                if cls == "SourceMob":
                    m.descriptor = f.create.TapeDescriptor()
                if usage:
                    m.usage = usage
                if rnd.random() < 0.3:
                    m.mob_id = MobID(int=rnd.getrandbits(256) | 1)
                C.mobs.append(m)
                mobs[str(m.mob_id)] = (cls, usage, "m%d" % j)
            elif what == "usage" and ids:
                k = ids[i % len(ids)]
                u = USAGES[1 + j % (len(USAGES) - 1)]
                C.mobs[MobID(k)].usage = u
                mobs[k] = (mobs[k][0], u, mobs[k][2])
            elif what == "remove" and ids:
                k = ids[i % len(ids)]
                m = C.mobs.pop(MobID(k))
                check_eq(str(m.mob_id), k, "the mob removed")
                del mobs[k]
            elif what == "rename" and ids:
                k = ids[i % len(ids)]
                m = C.mobs[MobID(k)]
                new = MobID.new()
                m.mob_id = new
                mobs[str(new)] = mobs.pop(k)
                ctx.nontrivial()
            elif what == "clash" and len(ids) > 1:
                a, b = rnd.sample(ids, 2)
                m = C.mobs[MobID(a)]
                check(raises((ValueError,), setattr, m, "mob_id", MobID(b)), "two mobs get one id")
            elif what == "essence":
                # of a mob that is there, or of one that is not
                k = ids[i % len(ids)] if ids and j % 4 else str(MobID.new())
                if k in ess:
                    continue
                e = f.create.EssenceData()
                if k in mobs and rnd.random() < 0.5:
                    e.mob = C.mobs[MobID(k)]
                else:
                    e.mob_id = MobID(k)
                C.essencedata.append(e)
                data = b"%d" % rnd.getrandbits(64)
                e.open("w").write(data)
                ess[k] = data
            elif what == "emove" and eids:
                k = eids[i % len(eids)]
                e = C.essencedata[MobID(k)]
                free = [x for x in ids if x not in ess]
                new = rnd.choice(free) if free and j % 3 else str(MobID.new())
                if new in mobs and rnd.random() < 0.5:
                    e.mob = C.mobs[MobID(new)]
                else:
                    e.mob_id = MobID(new)
                ess[new] = ess.pop(k)
                ctx.nontrivial()
            elif what == "eremove" and eids:
                k = eids[i % len(eids)]
                C.essencedata.pop(MobID(k))
                del ess[k]
            elif what == "reopen" and path:
                f.close()
                f = aaf2.open(path, rnd.choice(["rw", "r+"]))
                ctx.nontrivial()
            else:
                continue
            agree_content(f, mobs, ess, rnd)
    finally:
        close(f)


def agree_content(f, mobs, ess, rnd):
    import aaf2
    from aaf2.mobid import MobID
    C = f.content
    ident = lambda xs: sorted(str(x.mob_id) for x in xs)
    check_eq(ident(C.mobs), sorted(mobs), "mobs")
    check_eq(len(C.mobs), len(mobs), "number of mobs")
    of = lambda cls: sorted(k for k, v in mobs.items() if v[0] == cls)
    check_eq(ident(C.compositionmobs()), of("CompositionMob"), "compositionmobs")
    check_eq(ident(C.mastermobs()), of("MasterMob"), "mastermobs")
    check_eq(ident(C.sourcemobs()), of("SourceMob"), "sourcemobs")
    check_eq(ident(C.toplevel()), sorted(k for k, v in mobs.items() if v[0] == "CompositionMob" and v[1] == "Usage_TopLevel"), "toplevel")
    check_eq(ident(C.essencedata), sorted(ess), "essence data")
    check_eq(sorted(str(k) for k, _ in C.mobs.items()), sorted(mobs), "keys of the mobs")
    for k, (cls, usage, name) in mobs.items():
        m = C.mobs.get(MobID(k))
        check(m is not None and MobID(k) in C.mobs, "mob", k, "is not found")
        check(C.mobs[MobID(k)] is m, "mob found by its id")
        check_eq(type(m).__name__, cls, "class of the mob")
        check_eq((m.usage, m.name), (usage, name), "usage and name of the mob")
        if cls == "SourceMob":
            e = m.essence
            if k in ess:
                check(e is not None and e is C.essencedata[MobID(k)], "essence of the mob")
                check(e.mob is m, "mob of the essence")
            else:
                check(e is None, "a mob without essence has", e)
    for k, data in ess.items():
        e = C.essencedata[MobID(k)]
        want = C.mobs.get(MobID(k)) if k in mobs else None
        check(e.mob is want, "mob of essence", k, "is", e.mob)
        check_eq(e.open("r").read(), data, "bytes of the essence")
    gone = MobID.new()
    check(gone not in C.mobs and C.mobs.get(gone) is None and C.mobs.get(gone, 5) == 5, "a mob nobody added is found")
    check(raises((KeyError,), lambda: C.mobs[gone]), "a mob nobody added is found by index")


# ---------------------------------------------------------------- factory

_F = {}


def run_factory(value, ctx):
    import aaf2
    from aaf2.auid import AUID
    picks, seed = value
    rnd = random.Random(seed)
    if "f" not in _F:
        _F["f"] = aaf2.file.AAFFile(None, "wb+")
        _F["f"].dictionary.register_def(_F["f"].create.OperationDef(AUID(int=77), "Op_1", ""))
        _F["A"] = aafgen.schema().A
    f, A = _F["f"], _F["A"]
    byname = {c["name"]: c for c in A.classes.values() if c["name"] in f.metadict.classdefs_by_name}
    names = sorted(byname)
    kept = []
    for i, how in picks:
        n = names[i % len(names)]
        c = byname[n]
        cid = AUID(c["id"])
        cd = f.metadict.lookup_classdef(n)
        check(cd is not None and cd.auid == cid, "class named", n, "is", cd)
        check(f.metadict.lookup_classdef(cid) is cd and f.metadict.lookup_classdef(str(cid)) is cd
              and f.metadict.lookup_classdef(cd) is cd, "class", n, "by id")
        check_eq((cd.class_name, cd.concrete), (n, c["concrete"]), "class", n)
        chain = [x["id"] for x in A.chain(c["id"])]
        check_eq([str(x.auid) for x in cd.relatives()], [str(AUID(x)) for x in chain], "ancestors of", n)
        o = byname[names[(i * 7 + seed) % len(names)]]
        # a class is an instance of those above it: asked from below
        check_eq(f.metadict.lookup_classdef(AUID(o["id"])).isinstance(cd), o["id"] in chain, "is", n, "a kind of", o["name"])
        want = []
        for x in A.chain(c["id"]):
            for pd in x["props"].values():
                if pd["id"]:
                    want.append(pd)
        check_eq(sorted(p.property_name for p in cd.all_propertydefs()), sorted(pd["name"] for x in A.chain(c["id"]) for pd in x["props"].values()),
                 "properties of", n)
        for pd in rnd.sample(want, min(3, len(want))):
            p = cd.lookup_propertydef(AUID(pd["id"]))
            check(p is not None, "property", pd["name"], "of", n, "by id")
            check_eq((p.property_name, p.optional, bool(p.unique)), (pd["name"], pd["optional"], bool(pd["unique"])), "property of", n)
            if pd["type"]:
                check_eq(p.typedef.auid, AUID(pd["type"]), "type of property", pd["name"])
        if not c["concrete"]:
            check(raises((ValueError,), f.create.from_name, n), "an object of the abstract class", n, "is made")
            check(raises((ValueError,), getattr(f.create, n)), "an object of the abstract class", n, "is made")
            continue
        if n.startswith("TypeDef") or n in ("MetaDictionary", "ClassDefinition", "PropertyDefinition", "OperationGroup", "Dictionary"):
            continue
        fn = getattr(f.create, n) if how % 2 else (lambda n=n: f.create.from_name(n))
        kept.append((n, cid, fn))
        if how % 3 == 0:
            made(fn(), n, cid)
    rnd.shuffle(kept)
    for n, cid, fn in kept:
        made(fn(), n, cid)
    # made within the arguments of another
    c = f.create
    s = c.TimelineMobSlot(3, "s", c.Sequence(c.Filler("sound").media_kind, c.Filler("sound", 6).length), c.Filler("picture", 2).length)
    check_eq((type(s).__name__, type(s.segment).__name__), ("TimelineMobSlot", "Sequence"), "objects made within the arguments of another")
    ctx.nontrivial(len(kept) >= 3)
    # types
    tids = sorted(A.types)
    for i, how in picks:
        tid = tids[i % len(tids)]
        t = A.types[tid]
        td = f.metadict.lookup_typedef(AUID(tid))
        if td is None:
            continue        # a type only stored files have
        check_eq((str(td.auid), td.type_name), (str(AUID(tid)), t["name"]), "type by id")
        check(f.metadict.lookup_typedef(t["name"]) is td and f.metadict.lookup_typedef(td) is td
              and f.dictionary.lookup_typedef(t["name"]) is td and f.metadict.lookup_typedef(str(AUID(tid))) is td, "type", t["name"], "by its forms")
    for bad in ("NoSuch", "filler", AUID(int=99), ""):
        check(f.metadict.lookup_classdef(bad) is None, "class", bad, "is found")
        check(f.metadict.lookup_typedef(bad) is None, "type", bad, "is found")
        if not isinstance(bad, AUID):
            check(raises((ValueError,), f.create.from_name, bad), "an object of class", bad, "is made")


def made(o, n, cid):
    check_eq((o.classdef.class_name, o.class_id), (n, cid), "class of the object made")
    check(o.dir is None, "a new object is attached")


# ---------------------------------------------------------------- update

def run_update(value, ctx):
    import aaf2
    from aaf2.auid import AUID
    plan, seed, disk = value
    rnd = random.Random(seed)
    f, path = new_file(ctx, disk)
    if "g" not in _F:
        _F["g"] = aaf2.file.AAFFile(None, "wb+")
    g = _F["g"]
    kinds = {k: (coll, look) for k, coll, look in KINDS}
    pool = [AUID(int=1000 + n) for n in range(40)]
    try:
        here, there = {}, {}        # (kind, auid) -> (name, parameters)
        for i, side, j in plan:
            kind = KINDS[i % len(KINDS)][0]
            a = pool[(i + j) % len(pool)]
            for lib, m, on in ((f, here, side & 1), (g, there, side & 2)):
                if not on or (kind, a) in m:
                    continue
                name = "%s_%s_%d" % (kind, "here" if lib is f else "there", pool.index(a))
                d = make(lib, kind, a, name, rnd)
                lib.dictionary.register_def(d)
                m[kind, a] = [name, set()]
                if kind == "OperationDef":
                    # parameters of it
                    ps = [x for k, x in sorted(m, key=str) if k == "ParameterDef"]
                    for p in rnd.sample(ps, min(len(ps), rnd.randint(0, 3))):
                        d.parameters.append(lib.dictionary.lookup_parameterdef(p))
                        m[kind, a][1].add(p)
        before = {k: sorted(d.auid.hex for d in f.dictionary[kinds[k][0]].value) for k in kinds}
        theirs = {k: sorted(d.auid.hex for d in g.dictionary[kinds[k][0]].value) for k in kinds}
        for _ in range(1 + seed % 2):       # again changes nothing
            f.dictionary.update(g.dictionary)
        want = {}
        for key in set(here) | set(there):
            want[key] = (here.get(key) or there[key])[0], (here[key][1] if key in here else set()) | (there[key][1] if key in there else set())
        for rounds in range(2):
            for k in kinds:
                check_eq(sorted(d.auid.hex for d in f.dictionary[kinds[k][0]].value), sorted(set(before[k]) | set(theirs[k])), "after the update", k)
            for (kind, a), (name, ps) in want.items():
                d = getattr(f.dictionary, kinds[kind][1])(a)
                check_eq(d.name, name, "name after the update")
                check(d.root is f, "a definition belongs to another file")
                if kind == "OperationDef":
                    check_eq(sorted(p.auid.hex for p in d.parameters.value), sorted(p.hex for p in ps), "parameters of the operation")
                    check(all(p.root is f for p in d.parameters.value), "a parameter belongs to another file")
                    check_eq(d.media_kind is not None, True, "media kind of the operation")
                if kind == "ParameterDef":
                    check(d.typedef is not None and d.typedef.root is f, "type of the parameter")
            if not path or rounds:
                break
            f.close()
            try:
                aafref.load(io.open(path, "rb").read())
            except aafref.BadAAF as e:
                raise Violation("the file saved after an update is not valid: %s" % e)
            f = aaf2.open(path, "r")
        for k in kinds:
            check_eq(sorted(d.auid.hex for d in g.dictionary[kinds[k][0]].value), theirs[k], "the other dictionary after the update")
        check(raises((ValueError,), f.dictionary.update, {}), "updated from a dict")
        ctx.nontrivial(any(k[0] == "OperationDef" and k in there for k in here))
    finally:
        close(f)
        for kind, a in there:
            g.dictionary[kinds[kind][0]].pop(a)


ii = st.integers(0, 400)
TARGETS = [
    Target("definitions", st.tuples(st.lists(st.tuples(st.sampled_from(["add"] * 5 + ["replace", "rename", "rename", "remove", "refused", "reopen", "instance"]), ii, ii),
                                             min_size=4, max_size=16), st.integers(0, 1 << 20), st.sampled_from([False, True, True])), run_definitions, 260, 8000),
    Target("content", st.tuples(st.lists(st.tuples(st.sampled_from(["mob"] * 5 + ["usage", "remove", "rename", "clash", "essence", "essence", "essence", "emove",
                                                                                   "eremove", "reopen"]), ii, ii), min_size=4, max_size=18),
                                st.integers(0, 1 << 20), st.sampled_from([False, True, True])), run_content, 260, 8000),
    Target("factory", st.tuples(st.lists(st.tuples(ii, ii), min_size=2, max_size=8), st.integers(0, 1 << 20)), run_factory, 500, 15000),
    Target("update", st.tuples(st.lists(st.tuples(st.sampled_from([3, 3, 3, 4, 4, 4, 0, 1, 2, 5, 6]), st.sampled_from([1, 2, 2, 3, 3]), st.integers(0, 12)), min_size=2, max_size=16),
                               st.integers(0, 1 << 20), st.sampled_from([False, True, True])), run_update, 130, 4000),
]

"""F01: an object graph built through the API comes back from the file unchanged."""
import io
import os
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib import aafgen, aafref
from vlib.aafgen import same
from vlib.aafext import used_pids

PROPERTY = "F01"
RULE = ("A generated document: definition objects, mobs and essence data made of any concrete class of the class model, "
        "with all required and a random selection of optional properties of every type, linked by strong and weak "
        "references, built through the public API in a random order of attaching and filling. Compared: the document, the "
        "graph the API reports before saving, after reopening, and what the independent reader finds in the bytes. "
        "Non-trivial: at least 8 objects and both strong and weak references or a stream.")
ASSUMPTIONS = ["timestamps have whole seconds (the format's fraction field is written as 0)",
               "property values stay below 65536 bytes, the limit of the stored format",
               "strings contain no NUL and no unpaired surrogates"]


def case(tier):
    return st.tuples(st.sampled_from([4096, 512]), st.sampled_from(["w", "rw"]), st.sampled_from(["close", "save", "mid"]),
                     aafgen.documents(max_objects=22 if tier == "quick" else 60, max_props=90 if tier == "quick" else 300))


def run(value, ctx):
    import aaf2
    ss, mode, how, doc = value
    S = aafgen.schema()
    cdoc = aafgen.Concretizer(S).document(doc)
    path = ctx.path("a.aaf")
    if mode == "rw":
        io.open(path, "wb").write(aafgen.template(ss))
    elif os.path.exists(path):
        os.unlink(path)
    rnd = random.Random(doc["order"])
    with aaf2.open(path, mode, sector_size=ss) as f:
        base = aafgen.whole(f)
        want = aafgen.merge_doc(base, cdoc)
        b = aafgen.Builder(f, S, rnd)
        if how == "mid":
            cut = len(cdoc["mobs"]) // 2
            b.document(dict(cdoc, mobs=cdoc["mobs"][:cut], essence=[]))
            f.save()
            b.document(dict(cdoc, defs=[], mobs=cdoc["mobs"][cut:]))
        else:
            b.document(cdoc)
        same(aafgen.whole(f), want, "API before saving")
        if how == "save":
            f.save()
            same(aafgen.whole(f), want, "API after save()")
    data = io.open(path, "rb").read()
    try:
        A, got = aafref.load(data)
    except aafref.BadAAF as e:
        raise Violation("the saved file is not valid: %s" % e)
    same(got, want, "independent reader")
    with aaf2.open(path, "r") as f:
        same(aafgen.whole(f), want, "API after reopening")
    check_eq(io.open(path, "rb").read() == data, True, "reading left the file unchanged")
    n, kinds = aafgen.stats(cdoc, ctx)
    ctx.nontrivial(n >= 8 and (("w" in kinds and "ov" in kinds) or "s" in kinds))


# ------------------------------------------- properties with alike names and numbers

KINDS = {"vector": "kAAFTypeID_TaggedValueStrongReferenceVector", "one": "kAAFTypeID_TaggedValueStrongReference", "stream": "Stream",
         "set": "kAAFTypeID_DataDefinitionStrongReferenceSet", "weak": "kAAFTypeID_DataDefinitionWeakReferenceVector",
         "weakset": "kAAFTypeID_DataDefinitionWeakReferenceSet"}
MOBS = ["MasterMob", "CompositionMob"]


@st.composite
def named(draw):
    stem = st.tuples(st.sampled_from(["A", "SomeOf", "TheNameOfThisProperty"]), st.integers(0, 30), st.sampled_from(["", "A", "B", "a", "ab"]),
                     st.integers(0, 20), st.sampled_from(["", "-", "x", "-8001"]))
    number = st.one_of(st.none(), st.tuples(st.integers(0x80, 0x84), st.integers(0, 3)), st.tuples(st.sampled_from([0x80, 0x90, 0xF0]), st.sampled_from([0, 1, 0x10, 0xFF])))
    props = draw(st.lists(st.tuples(stem, number, st.sampled_from(sorted(KINDS)), st.sampled_from(["Mob", "MasterMob", "InterchangeObject", "TaggedValue"]),
                                    st.integers(0, 4)), min_size=2, max_size=12))
    return draw(st.sampled_from([512, 4096])), props, draw(st.sampled_from(MOBS)), draw(st.integers(0, 1 << 20)), draw(st.booleans())


def run_names(value, ctx):
    import aaf2
    import uuid
    from aaf2.auid import AUID
    ss, props, kind, seed, later = value
    rnd = random.Random(seed)
    path = ctx.path("n.aaf")
    want = {}
    seen, used = set(), set()

    def fill(f, o, name, how, n):
        tags = ["%s %d" % (name[-20:], i) for i in range(n + 1)]
        p = o[name]
        if how == "one":
            p.value = f.create.TaggedValue(tags[0], "v")
            return tags[0]
        if how == "vector":
            p.value = [f.create.TaggedValue(t, "v") for t in tags]
            return tags
        if how == "stream":
            body = rnd.randbytes(rnd.choice([0, 5, 900, 5000]))
            p.open("w").write(body)
            return body
        if how == "set":
            ds = [f.create.DataDef(AUID(uuid.UUID(bytes=rnd.randbytes(16)).hex), t, t) for t in tags]
            for d in ds:
                p.append(d)
            return sorted(str(d.auid) for d in ds)
        ds = [f.dictionary.lookup_datadef(k) for k in ("Picture", "Sound", "Timecode", "Edgecode", "DescriptiveMetadata")][:n + 1]
        p.value = ds
        return [str(d.auid) for d in ds]

    def got(o, name, how):
        p = o[name]
        if how == "one":
            return p.value.name
        if how == "vector":
            return [t.name for t in p.value]
        if how == "stream":
            return bytes(p.open("r").read())
        if how == "set":
            return sorted(str(d.auid) for d in p.value)
        l = [str(d.auid) for d in p.value]
        return l if how == "weak" else sorted(l)

    f = aaf2.open(path, "w", sector_size=ss)
    try:
        m = f.create.from_name(kind, "m")
        t = f.create.TaggedValue("t", "u")
        f.content.mobs.append(m)
        m["UserComments"].append(t)
        if later:
            f.save()
        for (a, la, b, lb, c), number, how, cls, n in props:
            name = a + "L" * la + b + "R" * lb + c
            if name in seen or (cls == "MasterMob" and kind != cls):
                continue
            seen.add(name)
            pid = None
            if number:
                pid = number[0] << 8 | number[1]
                if pid in used or pid in USED.setdefault(0, used_pids(f)):
                    continue
            cd = f.metadict.lookup_classdef(cls)
            p = cd.register_propertydef(name, AUID(uuid.UUID(bytes=rnd.randbytes(16)).hex), pid, KINDS[how], True)
            used.add(p.pid)
            for k, o in (("m", m), ("t", t)):
                if k == "t" and (cls in ("Mob", "MasterMob") or how in ("one", "vector")) or k == "m" and cls == "TaggedValue":
                    continue
                want[k, name] = (how, fill(f, o, name, how, n))
        for (k, name), (how, v) in want.items():
            if how == "weakset":
                want[k, name] = (how, sorted(v))

        def compare(when):
            for (k, name), (how, v) in want.items():
                check_eq(got(m if k == "m" else t, name, how), v, "%s %s.%s" % (when, k, name))
        compare("before saving")
        base = aafgen.whole(f)
        f.close()
        try:
            A, have = aafref.load(io.open(path, "rb").read())
        except aafref.BadAAF as e:
            raise Violation("the saved file is not valid: %s" % e)
        same(have, base, "independent reader")
        f = aaf2.open(path, "r")
        m = list(f.content.mobs)[0]
        t = m["UserComments"].value[0]
        compare("after reopening")
    finally:
        f.close()
    ctx.event("%d" % min(len(want), 9))
    ctx.nontrivial(len(want) >= 4)


USED = {}


TARGETS = [Target("graph", case, run, quick=420, thorough=6000),
           Target("names", lambda tier: named(), run_names, quick=150, thorough=6000)]

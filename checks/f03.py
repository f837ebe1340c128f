"""F03: a file is only changed when the mode it was opened with allows it."""
import io
import os
import random
import uuid
from hypothesis import strategies as st
from vlib.runner import Target, Enumerated, Violation, check, check_eq, raises
from vlib import aafgen, aafmodel

PROPERTY = "F03"
RULE = ("Target 'readonly': a generated file opened for reading and a history of attempts to change it, through every kind of property, "
        "collection, stream, id, helper and dictionary, with reads, save() and close() in between; after every attempt that "
        "succeeded and at the end the whole graph the API reports is what it was, and the bytes of the file are the same. "
        "Target 'modes': every mode string and ones that are none, on files that are missing, empty, damaged or valid. "
        "Non-trivial: at least five attempts on properties that exist, or a mode that must be refused.")
ASSUMPTIONS = ["the attempts go through the public classes, not through attributes of the container or of Python objects"]


class Skip(Exception):
    pass


def objects(f):
    out = [f.header]
    for o, streams in f.header.walk_references():
        out.append(o)
    return out


def bases():
    from aaf2 import properties as P
    return P


def fresh(f, cls="Filler"):
    """a new object; making one may be refused as well"""
    return f.create.from_name(cls)


def attempt(f, rnd, objs, foreign):
    """one attempt; returns what it was"""
    P = bases()
    o = rnd.choice(objs)
    what = rnd.choice(["prop"] * 10 + ["absent", "absent", "del", "detach", "mob", "mob", "comment", "slot", "dict", "essence", "stream",
                       "stream", "save", "copy", "clip", "content", "defs"])
    if what in ("prop", "del", "stream"):
        ps = [p for p in o.properties() if (what != "stream") or isinstance(p, P.StreamProperty)]
        if what == "stream":
            have = [(x, p) for x in objs for p in x.properties() if isinstance(p, P.StreamProperty)]
            if not have:
                raise Skip()
            o, p = rnd.choice(have)
            ps = [p]
        if what == "prop":
            # each kind of property as often
            kinds = {}
            for x in objs:
                for q in x.properties():
                    kinds.setdefault(type(q).__name__, []).append((x, q))
            o, p = rnd.choice(kinds[rnd.choice(sorted(kinds))])
            ps = [p]
        if not ps:
            raise Skip()
        p = rnd.choice(ps)
        if what == "del":
            del o[p.name]
            return
        k = rnd.randrange(12)
        if isinstance(p, P.StreamProperty):
            if k < 3:
                p.open(rnd.choice(["w", "rw", "r+"])).write(b"zz")
            elif k < 6:
                p.open("r").write(b"zz")
            elif k < 8:
                p.open("r").truncate(1)
            elif k < 9:
                p.value = None
            elif k < 10:
                p.setup_stream()
            else:
                p.open("r").close()
        elif isinstance(p, P.StrongRefVectorProperty):
            n = len(p)
            child = rnd.choice([lambda: fresh(f), lambda: foreign, lambda: p.get(0)])()
            [lambda: p.append(child), lambda: p.insert(0, child), lambda: p.extend([child]), lambda: p.extend([]), lambda: p.clear(), lambda: p.pop(-1),
             lambda: p.pop(0), lambda: p.__setitem__(0, child), lambda: setattr(p, "value", []), lambda: setattr(p, "value", [child]),
             lambda: setattr(p, "value", list(reversed(list(p)))), lambda: setattr(p, "value", None)][k]()
        elif isinstance(p, P.StrongRefSetProperty):
            keys = list(p.references)
            child = rnd.choice([lambda: foreign, lambda: p.get(rnd.choice(keys)) if keys else foreign])()
            key = rnd.choice(keys) if keys else None
            [lambda: p.append(child), lambda: p.extend([child]), lambda: p.extend([]), lambda: p.clear(), lambda: p.pop(key), lambda: p.pop(key),
             lambda: setattr(p, "value", []), lambda: setattr(p, "value", [child]), lambda: setattr(p, "value", None),
             lambda: p.swap_unique_key(key, type(key)(int=5) if key is not None else None), lambda: p.clear(), lambda: setattr(p, "value", list(p.values())[:1])][k]()
        elif isinstance(p, P.WeakRefArrayProperty):
            t = next(iter(p), None)
            [lambda: p.append(t), lambda: p.extend([t]), lambda: p.extend([]), lambda: p.clear(), lambda: setattr(p, "value", []),
             lambda: setattr(p, "value", [t]), lambda: setattr(p, "value", None)][k % 7]()
        elif isinstance(p, P.StrongRefProperty):
            p.value = rnd.choice([lambda: None, lambda: fresh(f), lambda: foreign, lambda: p.value])()
        elif isinstance(p, P.WeakRefProperty):
            p.value = rnd.choice([lambda: None, lambda: rnd.choice(list(f.dictionary["DataDefinitions"].values()))])()
        else:
            v = p.value
            if k < 3:
                p.value = None
            elif k < 6:
                p.value = v
            elif isinstance(v, bool):
                p.value = not v
            elif isinstance(v, int):
                p.value = v ^ 1
            elif isinstance(v, str):
                p.value = v + "x"
            elif isinstance(v, list):
                v.append(v[0] if v else 0)      # the list read is the caller's own
                p.value = v
            elif isinstance(v, dict):
                v.clear()
                p.value = v
            elif hasattr(v, "bytes_le"):
                b = bytearray(v.bytes_le)
                b[0] ^= 1
                p.value = type(v)(bytes_le=b)
            else:
                p.value = v
    elif what == "absent":
        have = [p.name for p in o.properties()]
        names = [k for k in o.allkeys() if k not in have and k != "ObjClass"]
        if not names:
            raise Skip()
        p = o[rnd.choice(names)] if rnd.random() < 0.5 else o.get(rnd.choice(names))
        k = rnd.randrange(5)
        if k == 0 and hasattr(p, "append"):
            p.append(foreign)
        elif k == 1 and hasattr(p, "extend"):
            p.extend([])
        elif k == 2 and isinstance(p, P.StreamProperty):
            p.open(rnd.choice(["w", "r", "rw"]))
        else:
            p.value = rnd.choice([None, 1, "x", [], foreign, {}])
    elif what == "detach":
        if rnd.random() < 0.5:
            o.detach()
        else:
            o.detach(delete=True)
    elif what == "mob":
        m = rnd.choice(list(f.content.mobs))
        from aaf2.mobid import MobID
        k = rnd.randrange(8)
        if k == 0:
            m.mob_id = MobID.new()
        elif k == 1:
            m.name = "changed"
        elif k == 2:
            m.usage = "Usage_Template"
        elif k == 3:
            f.content.mobs.pop(m.mob_id)
        elif k == 4:
            i = m.mob_id
            i.material = uuid.uuid4()       # the id read is the caller's own
        elif k == 5:
            f.content.mobs.append(foreign)
        elif k == 6:
            f.content.mobs.append(f.create.CompositionMob("new"))
        else:
            f.content.mobs.value = []
    elif what == "comment":
        m = rnd.choice(list(f.content.mobs))
        m.comments[rnd.choice(["new", "Comment"] + list(m.comments))] = rnd.choice(["v", 1])
    elif what == "slot":
        m = rnd.choice(list(f.content.mobs))
        k = rnd.randrange(5)
        slots = list(m.slots)
        if k == 0:
            m.create_timeline_slot(25)
        elif k == 1:
            m.create_picture_slot()
        elif slots and k == 2:
            m.slots.pop(0)
        elif slots and k == 3:
            slots[0].slot_id = 99
        elif slots:
            slots[0].segment = fresh(f)
    elif what == "clip":
        m = rnd.choice(list(f.content.mobs))
        slots = list(m.slots)
        if not slots:
            raise Skip()
        m.create_source_clip(slots[0].slot_id)
    elif what == "dict":
        D = f.dictionary
        k = rnd.randrange(4)
        d = rnd.choice(list(D["DataDefinitions"].values()))
        if k == 0:
            D.register_def(f.create.DataDef(str(uuid.uuid4()), "new", ""))
        elif k == 1:
            d["Name"].value = "renamed"
        elif k == 2:
            d.auid = uuid.uuid4()
        else:
            D["DataDefinitions"].pop(d.auid)
    elif what == "defs":
        f.dictionary.update(foreign.root.dictionary)
    elif what == "essence":
        E = f.content.essencedata
        es = list(E.values())
        if not es:
            raise Skip()
        e = rnd.choice(es)
        k = rnd.randrange(4)
        if k == 0:
            e.open("w")
        elif k == 1:
            e.mob_id = rnd.choice(list(f.content.mobs)).mob_id
        elif k == 2:
            E.pop(e.mob_id)
        else:
            e.mob = rnd.choice(list(f.content.mobs))
    elif what == "save":
        f.save()
    elif what == "copy":
        o.copy(root=f)
    elif what == "content":
        k = rnd.randrange(3)
        if k == 0:
            f.header["Content"].value = None
        elif k == 1:
            f.header["Dictionary"].value = None
        else:
            f.header["LastModified"].value = f.header["LastModified"].value


def readonly(value, ctx):
    import aaf2
    from aaf2 import properties as P
    ss, base, mode, ext, seed, n = value
    data, _ = aafmodel.base_file(ss, base)
    path = ctx.path("ro.aaf")
    io.open(path, "wb").write(data)
    other = aafmodel.other_file()
    rnd = random.Random(seed)
    done = 0
    f = aaf2.open(path, mode, extensions=ext)
    try:
        want = aafgen.whole(f)
        for _ in range(n):
            objs = objects(f)
            foreign = other.create.from_name(rnd.choice(["CompositionMob", "Filler", "TaggedValue"]))
            try:
                attempt(f, rnd, objs, foreign)
            except Skip:
                continue
            except Exception as e:
                ctx.event("refused " + type(e).__name__)
                if rnd.random() < 0.2:
                    aafgen.same(aafgen.whole(f), want, "the file after a refused attempt")
            else:
                ctx.event("accepted")
                aafgen.same(aafgen.whole(f), want, "the file opened for reading")
            done += 1
        aafgen.same(aafgen.whole(f), want, "the file opened for reading")
    finally:
        f.close()
    check(io.open(path, "rb").read() == data, "a file opened for reading has changed")
    ctx.nontrivial(done >= 5)


GOOD = {"r": "r", "rb": "r", "r+": "rw", "rb+": "rw", "rw": "rw", "w": "w", "w+": "w", "wb+": "w"}
BAD = ["", "a", "x", "wr", "R", "W", "b", "rwb", "r+b", "a+", "rt", "w ", "U"]


def modes(value, ctx):
    import aaf2
    mode, state, how, seed = value
    rnd = random.Random(seed)
    base, lit = aafmodel.base_file(rnd.choice([512, 4096]), rnd.randrange(3))
    path = ctx.path("m.aaf")
    if os.path.exists(path):
        os.unlink(path)
    data = {"missing": None, "empty": b"", "garbage": rnd.randbytes(rnd.choice([1, 100, 600, 9000])), "short": base[:rnd.choice([100, 511, 512, 600])],
            "valid": base}[state]
    if data is not None:
        io.open(path, "wb").write(data)

    def now():
        return io.open(path, "rb").read() if os.path.exists(path) else None

    kind = GOOD.get(mode)
    if kind is None:
        check(raises(ValueError, lambda: aaf2.open(path, mode)), "a mode that is none was accepted")
        check(now() == data, "a mode that is none changed the file")
        ctx.nontrivial()
        return
    if kind != "w" and state != "valid":
        check(raises(Exception, lambda: aaf2.open(path, mode)), "a file that is none was opened")
        check(now() == data, "opening a file that is none in mode %s changed or created it" % mode)
        ctx.nontrivial()
        return

    class Mine(Exception):
        pass
    if how == "raise":
        mine = Mine("x")
        f = None
        try:
            with aaf2.open(path, mode) as f:
                if kind != "r" and rnd.random() < 0.5:
                    f.content.mobs.append(f.create.CompositionMob("m"))
                raise mine
        except Mine as e:
            check(e is mine, "another exception came out of the with block")
        else:
            raise Violation("the exception in the with block was swallowed")
        check(f.f.closed, "the file is open after an exception in the with block")
        if kind == "r":
            check(now() == data, "a file opened for reading has changed")
        ctx.nontrivial()
        return
    f = aaf2.open(path, mode)
    seen = aafgen.whole(f)
    if kind == "w":
        check_eq((len(list(f.content.mobs)), len(list(f.content.essencedata.values())) if "EssenceData" in f.content.keys() else 0), (0, 0), "content of a new file")
    else:
        aafgen.same(seen, lit, "the file opened in mode " + mode)
    if how == "edit" and kind != "r":
        m = f.create.CompositionMob("m")
        f.content.mobs.append(m)
        mid = m.mob_id
    check_eq(f.writeable, kind != "r", "writeable")
    if kind == "r":
        f.save()
    f.close()
    if kind == "r":
        check(now() == data, "a file opened for reading has changed")
        return
    check(raises(IOError, f.save), "a closed file was saved")
    with aaf2.open(path) as g:
        check(not g.writeable, "the mode is not reading when none is given")
        if how == "edit":
            check(g.content.mobs.get(mid) is not None, "the mob added is not in the file")
        else:
            aafgen.same(aafgen.whole(g), seen, "the file after closing without edits")
    ctx.nontrivial()


def all_modes(tier, seed):
    for mode in sorted(GOOD) + BAD:
        for state in ("missing", "empty", "garbage", "short", "valid"):
            for how in ("edit", "plain", "raise"):
                yield [mode, state, how, seed + len(mode)]


TARGETS = [Target("readonly", lambda tier: st.tuples(st.sampled_from([512, 4096]), st.integers(0, 11), st.sampled_from(["r", "rb"]), st.booleans(),
                                                     st.integers(0, 10 ** 6), st.sampled_from([6, 12, 30])), readonly, quick=260, thorough=6000),
           Enumerated("modes", all_modes, modes)]

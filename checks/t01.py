"""T01: values of every type survive being stored; they are stored by value."""
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, short
from vlib import aafext, aafgen, aafmodel, aafref, aafval

PROPERTY = "T01"
RULE = ("Literals of every value type - all built-in ones, and generated enumerations, records, arrays, sets, renames, strings "
        "nested in each other - given to the library in every form it takes (names or numbers of enumeration elements, AUID or "
        "UUID, Fraction or text, dict or datetime, list, tuple, iterator or bytes, short fixed arrays, repeated set elements). "
        "Target 'types': types are asked to encode and decode; 'props': properties of objects of every class are set, read, "
        "overwritten and removed; 'bytes': arbitrary stored bytes are read; 'alias': the object given is changed afterwards. The oracle "
        "is an independent decoder of the stored bytes. Non-trivial: a value that is composite, or given in another form than the "
        "one read back.")
ASSUMPTIONS = ["text contains no NUL character, with which AAF ends strings", "times carry no fractions of a second"]

_F = {}


def library():
    """an open file that is never saved, to make objects with"""
    import aaf2
    if "f" not in _F:
        _F["f"] = aaf2.file.AAFFile(None, "wb+")
    return _F["f"]


def schema():
    return aafgen.schema()


def data_types(S):
    pl = aafext.Planner(S)
    return sorted(t for t in S.A.types if pl.data_type(pl.types[t]))


def same_lit(S, tid, got, want, what):
    """got: what aafref.decode reports; order of a set does not count"""
    check_eq(got, want, what)


def typed(S, tid, v, what):
    """the Python types of a decoded value"""
    t = S.A.types[tid]
    k = t["kind"]
    if k == "rename":
        return typed(S, t["elem"], v, what)
    if tid == aafref.BOOLEAN:
        check(isinstance(v, bool), what, "is", short(v))
    elif k == "int":
        check(isinstance(v, int) and not isinstance(v, bool), what, "is", short(v))
    elif k == "set":
        check(isinstance(v, (set, frozenset)), what, "is", short(v))


def encode(S, td, tid, lit, rnd, what, ctx):
    from aaf2.types import TypeDefIndirect
    fv = aafval.form(S, tid, lit, rnd)
    shown = short(fv)
    if S.A.types[tid]["kind"] in ("indirect", "opaque"):
        it = S.type_named(lit[1])
        from aaf2.auid import AUID
        arg = rnd.choice([AUID(it), lit[1]])
        # text, Int32 and Rational values need no type
        d = td.encode(fv, arg) if rnd.random() < 0.7 else td.encode(fv)
    else:
        d = td.encode(fv)
    check(isinstance(d, (bytes, bytearray)), what, "encodes to", type(d))
    d = bytes(d)
    try:
        got = S.A.decode(tid, d)
    except aafref.BadAAF as e:
        raise Violation("%s: %s stored as %s: %s" % (what, shown, d.hex()[:200], e))
    check_eq(got, lit, "%s: %s is stored as" % (what, shown))
    back = td.decode(d)
    typed(S, tid, back, what)
    if S.A.types[tid]["kind"] in ("indirect", "opaque"):
        check_eq(td.decode_typedef(d).type_name, lit[1], what, "type of the value")
        check_eq(aafgen.to_lit(back), lit[2], "%s: %s reads back as" % (what, shown))
    else:
        check_eq(aafgen.to_lit(back), lit, "%s: %s reads back as" % (what, shown))
    if S.A.types[tid]["kind"] not in ("set", "indirect", "opaque"):
        check_eq(S.A.decode(tid, bytes(td.encode(back))), lit, "%s: the value read, stored again" % what)
    ctx.event(S.A.types[tid]["kind"])
    return d


def steps():
    return st.lists(st.tuples(st.sampled_from(["type"] * 6 + ["elem", "nest"]), st.integers(0, 1 << 20)), min_size=1, max_size=5)


def run_types(value, ctx):
    from aaf2.auid import AUID
    plan, picks, seed = value
    S0 = schema()
    rnd = random.Random(seed)
    if plan is None:
        S, f = S0, library()
        pool = data_types(S)
    else:
        import aaf2
        pl = aafext.Planner(S0)
        for what, s in plan:
            pl.step(what, s)
        f = aaf2.file.AAFFile(None, "wb+")
        for c in pl.plan:
            aafext.register(f, c, rnd, {})
        S = aafval.Schema2(S0, pl.types)
        pool = [t for t in pl.new_types if pl.data_type(pl.types[t])]
        if not pool:
            return
    g = aafmodel.Gen(S, rnd)
    for i, s in picks:
        tid = pool[i % len(pool)]
        g.rnd = r = random.Random(s)
        lit = g.data(tid)
        what = "type %s" % S.A.types[tid]["name"]
        td = f.metadict.lookup_typedef(AUID(tid))
        encode(S, td, tid, lit, r, what, ctx)
        if S.A.types[tid]["kind"] not in ("int",):
            ctx.nontrivial()
    if plan is not None:
        # not closed properly on purpose: nothing needs writing
        f.mode = "rb"


def all_props(S):
    out = []
    for c in S.generic:
        for n in sorted(S.props[c]):
            p = S.props[c][n]
            if p["fmt"] == "data" and not p["unique"]:
                out.append((c, n))
    return out


def run_props(value, ctx):
    """objects of every class, their value properties set in any order and form"""
    import aaf2
    ops, seed = value
    S = schema()
    f = library()
    props = all_props(S)
    g = aafmodel.Gen(S, random.Random(seed))
    objs = {}
    bld = aafgen.Builder(f, S, random.Random(seed))
    for what, i, s in ops:
        r = g.rnd = random.Random(s)
        c, n = props[i % len(props)]
        p = S.props[c][n]
        if c not in objs:
            objs[c] = (bld.new(c), {})
        o, m = objs[c]
        if what == "again" and m:
            n = sorted(m)[i % len(m)]
            p = S.props[c][n]
        tid = p["type"]
        where = "%s.%s" % (c, n)
        if what == "del" and n in m:
            if s % 2:
                o[n].value = None
            else:
                del o[n]
            del m[n]
            ctx.event("removed")
        else:
            lit = g.data(tid)
            bld.rnd = r
            if S.A.types[tid]["kind"] in ("indirect", "opaque") and c == "TaggedValue":
                o.encode_value(aafval.form(S, tid, lit, r), lit[1])
            else:
                o[n].value = aafval.form(S, tid, lit, r)
            m[n] = lit
            if S.A.types[tid]["kind"] != "int":
                ctx.nontrivial()
        for k, lit in m.items():
            pr = o.get(k)
            check(pr is not None, where, "was set;", k, "is missing")
            d = pr.data
            t = S.props[c][k]["type"]
            try:
                got = S.A.decode(t, bytes(d))
            except aafref.BadAAF as e:
                raise Violation("%s.%s holds %s: %s" % (c, k, bytes(d).hex()[:200], e))
            check_eq(got, lit, "stored value of %s.%s" % (c, k))
            check_eq(aafgen.snapshot_prop(pr), ("v", lit), "value of %s.%s" % (c, k))
            if S.A.types[t]["kind"] not in ("indirect", "opaque"):
                check_eq(aafgen.to_lit(o.getvalue(k)), lit, "getvalue of %s.%s" % (c, k))
        names = [pr.name for pr in o.properties() if pr.name in S.props[c] and S.props[c][pr.name]["fmt"] == "data"]
        for k in m:
            check(k in o, where, k, "is not in the object")
            check_eq(names.count(k), 1, "times %s is listed" % k)
        if what == "del":
            check(n in m or (n not in o and n not in names and o.getvalue(n, "none") == "none"), where, "is still there after removal")


def run_bytes(value, ctx):
    """bytes another program may have stored"""
    from aaf2.auid import AUID
    i, raw, seed = value
    S = schema()
    f = library()
    pool = [t for t in data_types(S) if S.A.types[t]["kind"] not in ("indirect", "opaque", "string", "enum")
            and t not in (aafgen.TIMESTAMP, aafgen.TIMESTRUCT, aafref.RATIONAL)]
    tid = pool[i % len(pool)]
    t = S.A.types[tid]
    try:
        size = S.A.size_of(tid)
        data = (raw * size)[:size]
    except aafref.BadAAF:
        if t["elem"] == aafref.CHARACTER:
            data = raw
        else:
            es = S.A.size_of(t["elem"])
            data = raw[:len(raw) // es * es]
    try:
        want = S.A.decode(tid, data)
    except (aafref.BadAAF, UnicodeDecodeError):
        return
    if zero_over(want):
        return
    td = f.metadict.lookup_typedef(AUID(tid))
    got = td.decode(data)
    check_eq(aafgen.to_lit(got), want, "bytes %s of %s read" % (data.hex()[:120], t["name"]))
    if unknown(S, tid, want):
        ctx.event("unknown element")
        return
    again = bytes(td.encode(got))
    check_eq(S.A.decode(tid, again), want, "%s read and stored again" % t["name"])
    if t["kind"] not in ("set",):
        check_eq(again, data, "bytes of %s read and stored again" % t["name"])
    ctx.nontrivial(bool(data.strip(b"\0")))


def zero_over(v):
    """rationals with denominator 0 read as 0/1 or not at all"""
    if isinstance(v, tuple) and len(v) == 2 and v[1] == 0:
        return True
    items = v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else []
    return any(zero_over(x) for x in items)


def unknown(S, tid, v):
    """elements of an extendible enumeration this file does not know"""
    t = S.A.types[tid]
    if t["kind"] == "extenum":
        return isinstance(v, dict)
    if t["kind"] == "rename":
        return unknown(S, t["elem"], v)
    if t["kind"] in ("fixed", "var", "set") and t["elem"] != aafref.CHARACTER:
        return any(unknown(S, t["elem"], x) for x in (v[1] if t["kind"] == "set" else v))
    if t["kind"] == "record" and isinstance(v, dict) and "mobid" not in v and "auid" not in v:
        return any(unknown(S, x, v[n]) for n, x in t["fields"])
    return False


def run_alias(value, ctx):
    """the property holds the value given, whatever happens to the objects passed in or handed out"""
    from aaf2.auid import AUID
    from aaf2.mobid import MobID
    ops, seed = value
    f = library()
    rnd = random.Random(seed)
    S = schema()
    clip = f.create.SourceClip()
    mob = f.create.CompositionMob()
    ident = f.create.Identification()
    opdef = f.create.DataDef(str(AUID(rnd.randbytes(16).hex())), "x", "y")
    want = {}
    mid = {"v": None}
    given = []
    for what, raw in ops:
        if what == "clip":
            v = MobID(bytes_le=raw)
            if rnd.random() < 0.5:
                clip["SourceID"].value = v
            else:
                clip.mob_id = v
            want["clip"] = raw
        elif what == "mob":
            v = MobID(bytes_le=raw)
            mob.mob_id = v
            want["mob"] = raw
        elif what == "ident":
            v = AUID(bytes_le=raw[:16])
            ident["ProductID"].value = v
            want["ident"] = raw[:16]
        elif what == "attach":
            if mob.dir is None and "mob" in want and mob.mob_id not in f.content.mobs:
                f.content.mobs.append(mob)
                ctx.event("attached")
            continue
        elif what == "mutate" and given:
            v = given[rnd.randrange(len(given))]
            v.bytes_le[rnd.randrange(len(v.bytes_le))] ^= 1 + rnd.randrange(255)
            ctx.nontrivial()
            v = None
        else:
            # change what was handed out
            for o, n, k in ((clip, "SourceID", "clip"), (ident, "ProductID", "ident"), (mob, "MobID", "mob")):
                if k in want:
                    x = o[n].value
                    x.bytes_le[0] ^= 255
            v = None
        if v is not None:
            given.append(v)
        for o, n, k in ((clip, "SourceID", "clip"), (ident, "ProductID", "ident"), (mob, "MobID", "mob")):
            if k in want:
                check_eq(bytes(o[n].value.bytes_le), want[k], "value of %s after %s" % (n, what))
                check_eq(bytes(o[n].data), want[k], "bytes of %s after %s" % (n, what))
        if mob.dir is not None:
            key = MobID(bytes_le=want["mob"])
            check(f.content.mobs.get(key) is mob, "the mob is not found under its id after", what)
            check(key in f.content.mobs, "the id of the mob is not among the mobs after", what)
            check_eq(sum(1 for m in f.content.mobs if m is mob), 1, "times the mob is listed after", what)
            check_eq([bytes(k.bytes_le) for k, m in f.content.mobs.items() if m is mob], [want["mob"]], "keys of the mob after", what)
    if mob.dir is not None:
        f.content.mobs.pop(mob.mob_id)


rb = st.binary(min_size=32, max_size=32)
TARGETS = [
    Target("types", st.tuples(st.none(), st.lists(st.tuples(st.integers(0, 1 << 16), st.integers(0, 1 << 30)), min_size=1, max_size=20),
                              st.integers(0, 1 << 20)), run_types, 4000, 120000),
    Target("exttypes", st.tuples(steps(), st.lists(st.tuples(st.integers(0, 1 << 16), st.integers(0, 1 << 30)), min_size=1, max_size=25),
                                 st.integers(0, 1 << 20)), run_types, 500, 12000),
    Target("props", st.tuples(st.lists(st.tuples(st.sampled_from(["set", "set", "again", "again", "del"]), st.integers(0, 1 << 16),
                                                 st.integers(0, 1 << 30)), min_size=2, max_size=14), st.integers(0, 1 << 20)),
           run_props, 2500, 60000),
    Target("bytes", st.tuples(st.integers(0, 1 << 16), st.binary(min_size=1, max_size=60), st.just(0)), run_bytes, 6000, 150000),
    Target("alias", st.tuples(st.lists(st.tuples(st.sampled_from(["clip", "mob", "ident", "attach", "mutate", "mutate", "out"]), rb),
                                       min_size=2, max_size=14), st.integers(0, 1 << 20)), run_alias, 1500, 30000),
]

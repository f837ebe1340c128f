"""T02: values a property cannot hold are refused, and a refusal changes nothing."""
import io
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, short
from vlib import aafext, aafgen, aafmodel, aafref, aafval
from checks import t01

PROPERTY = "T02"
RULE = ("Properties of objects of every class, set to generated values of their type, then given values outside it: numbers out of "
        "range, unknown elements, wrong Python types, ids of the wrong length, rationals that do not fit, text that cannot be "
        "encoded, too many elements, records with missing fields, and any of these nested inside otherwise valid arrays, sets and "
        "records. Target 'tagged': values with their own type (TaggedValue, ConstantValue) given a type that does not exist or a "
        "value outside it. Target 'types': generated types. Target 'file': the same on objects of a file that is then saved and "
        "decoded by an independent reader. Non-trivial: a refusal of a nested value, or one that follows an accepted value.")
ASSUMPTIONS = ["None removes a property and is not a bad value"]


def refuse(what, fn):
    try:
        fn()
    except Exception:
        return
    raise Violation("%s is accepted" % what)


def state(o, names):
    """what the object holds, by name"""
    out = {}
    for p in o.properties():
        if p.name in names:
            out[p.name] = (bytes(p.data), aafgen.snapshot_prop(p))
    return out


def settable(S, c, n):
    p = S.props[c][n]
    return p["fmt"] == "data" and not p["unique"]


def run_props(value, ctx):
    ops, seed = value
    S = aafgen.schema()
    f = t01.library()
    props = [(c, n) for c, n in t01.all_props(S) if aafval.bad(S, S.props[c][n]["type"], random.Random(0)) is not None]
    g = aafmodel.Gen(S, random.Random(seed))
    bld = aafgen.Builder(f, S, random.Random(seed))
    objs = {}
    for what, i, s in ops:
        r = g.rnd = random.Random(s)
        c, n = props[i % len(props)]
        if c not in objs:
            objs[c] = (bld.new(c), {})
        o, m = objs[c]
        if what == "again" and m:
            n = sorted(m)[i % len(m)]
        tid = S.props[c][n]["type"]
        if what == "good":
            m[n] = g.data(tid)
            o[n].value = aafval.form(S, tid, m[n], r)
            continue
        names = set(k for k in S.props[c] if S.props[c][k]["fmt"] == "data")
        before = state(o, names)
        why, v = aafval.bad(S, tid, r)
        refuse("%s.%s: %s (%s)" % (c, n, why, short(v)), lambda: setattr(o[n], "value", v))
        check_eq(state(o, names), before, "%s after %s was refused for %s" % (c, why, n))
        check_eq(n in o, n in m, "%s in %s after %s was refused" % (n, c, why))
        check_eq(o.getvalue(n, "none") == "none", n not in m, "%s.%s is absent after %s was refused" % (c, n, why))
        ctx.nontrivial("is a" in why or n in m)
        ctx.event(S.A.types[tid]["kind"])


def run_types(value, ctx):
    """types refuse what they cannot encode; a property of the type keeps its value"""
    import aaf2
    from aaf2.auid import AUID
    plan, picks, seed = value
    S0 = aafgen.schema()
    rnd = random.Random(seed)
    pl = aafext.Planner(S0)
    for what, s in plan:
        pl.step(what, s)
    f = aaf2.file.AAFFile(None, "wb+")
    for c in pl.plan:
        aafext.register(f, c, rnd, {})
    f.mode = "rb"
    S = aafval.Schema2(S0, pl.types)
    pool = [t for t in pl.new_types if pl.data_type(pl.types[t])]
    for i, s in picks if pool else []:
        tid = pool[i % len(pool)]
        r = random.Random(s)
        b = aafval.bad(S, tid, r)
        if b is None:
            continue
        td = f.metadict.lookup_typedef(AUID(tid))
        if S.A.types[tid]["kind"] in ("indirect", "opaque"):
            continue
        refuse("type %s: %s (%s)" % (S.A.types[tid]["name"], b[0], short(b[1])), lambda: td.encode(b[1]))
        ctx.nontrivial("is a" in b[0])
        ctx.event(S.A.types[tid]["kind"])


def run_tagged(value, ctx):
    from aaf2.auid import AUID
    ops, seed = value
    S = aafgen.schema()
    f = t01.library()
    rnd = random.Random(seed)
    pool = [t for t in t01.data_types(S) if S.A.types[t]["kind"] not in ("indirect", "opaque")
            and aafval.bad(S, t, random.Random(1)) is not None]
    g = aafmodel.Gen(S, rnd)
    tag = f.create.TaggedValue("x")
    check("Value" not in tag and tag.name == "x", "a new TaggedValue without value has one")
    tid0 = pool[seed % len(pool)]
    pid = AUID(rnd.randbytes(16).hex())
    par = f.create.ParameterDef(str(pid), "p", "d", f.metadict.lookup_typedef(AUID(tid0)))
    f.dictionary.register_def(par)
    con = f.create.ConstantValue(par.auid)
    model = {"tag": None, "con": None}
    for what, i, s in ops:
        r = g.rnd = random.Random(s)
        tid = pool[i % len(pool)]
        name = S.A.types[tid]["name"]
        if what == "tag":
            lit = g.data(tid)
            tag.encode_value(aafval.form(S, tid, lit, r), r.choice([name, AUID(tid)]))
            model["tag"] = (name, lit)
        elif what == "con":
            lit = g.data(tid0)
            con.value = aafval.form(S, tid0, lit, r)
            model["con"] = (S.A.types[tid0]["name"], lit)
        elif what == "badtag":
            why, v = aafval.bad(S, tid, r)
            if r.random() < 0.5:
                refuse("TaggedValue of type %s: %s (%s)" % (name, why, short(v)), lambda: tag.encode_value(v, name))
            else:
                refuse("TaggedValue: %s" % why, lambda: setattr(tag, "value", r.choice([object(), [1], 1 << 40, {}])))
            ctx.nontrivial()
        elif what == "badcon":
            why, v = aafval.bad(S, tid0, r)
            refuse("ConstantValue of type %s: %s (%s)" % (S.A.types[tid0]["name"], why, short(v)), lambda: setattr(con, "value", v))
            ctx.nontrivial()
        elif what == "badtype":
            t = r.choice(["NoSuchType", AUID(r.randbytes(16).hex()), name + "x"])
            refuse("TaggedValue of type %r" % (t,), lambda: tag.encode_value(5, t))
            ctx.nontrivial()
        for k, o in (("tag", tag), ("con", con)):
            if model[k] is None:
                check("Value" not in o, k, "has a value after", what)
                check(o.getvalue("Value") is None, k, "reports a value after", what)
            else:
                check_eq(S.A.decode(S.props["TaggedValue"]["Value"]["type"], bytes(o["Value"].data)), ("ind",) + model[k],
                         "value of %s after %s" % (k, what))
                check_eq(aafgen.to_lit(o.value), model[k][1], "value of %s after %s" % (k, what))
        if model["tag"] is not None:
            check_eq(tag.value_typedef.type_name, model["tag"][0], "type of the tagged value after", what)


def run_file(value, ctx):
    """the objects belong to a file that is saved with the good values"""
    import aaf2
    ops, seed, again = value
    S = aafgen.schema()
    rnd = random.Random(seed)
    doc = {"defs": [], "mobs": [aafmodel.Gen(S, rnd).node(c, 2) for c in ("CompositionMob", "SourceMob", "MasterMob")],
           "essence": [], "order": seed}
    doc["defs"] = [[c, aafmodel.Gen(S, rnd).node(k, 1)] for c, k in aafgen.BASE_DEFS]
    cdoc = aafgen.Concretizer(S).document(doc)
    path = ctx.path("x.aaf")

    def attempts(f, ops):
        objs = [(n, o) for n, o in walk(f)]
        for what, i, j, s in ops:
            r = random.Random(s)
            c, o = objs[i % len(objs)]
            if c not in S.props:
                continue
            ps = sorted(k for k in S.props[c] if settable(S, c, k) and aafval.bad(S, S.props[c][k]["type"], random.Random(0)) is not None)
            if not ps:
                continue
            n = ps[j % len(ps)]
            why, v = aafval.bad(S, S.props[c][n]["type"], r)
            refuse("%s.%s: %s (%s)" % (c, n, why, short(v)), lambda: setattr(o[n], "value", v))
            ctx.nontrivial()
    with aaf2.open(path, "w") as f:
        aafgen.Builder(f, S, rnd).document(cdoc)
        attempts(f, ops)
        root = aafgen.whole(f)
    data = io.open(path, "rb").read()
    try:
        A, got = aafref.load(data)
    except aafref.BadAAF as e:
        raise Violation("the file is not valid: %s" % e)
    aafgen.same(got, root, "saved after refusals")
    aafgen.same(strip(got), strip(aafgen.merge_doc(root, cdoc)), "saved after refusals, against what was built")
    with aaf2.open(path, "rw") as f:
        attempts(f, again)
        aafgen.same(strip(aafgen.whole(f)), strip(got), "reopened, after refusals")
    try:
        A, got2 = aafref.load(io.open(path, "rb").read())
    except aafref.BadAAF as e:
        raise Violation("the file is not valid: %s" % e)
    aafgen.same(strip(got2), strip(got), "saved again after refusals")


def strip(root):
    """without the header's own properties, which carry times and versions"""
    hdr, dic, con = aafgen.content_tree(root)
    keep = dict((k, v) for k, v in hdr.items() if k not in ("IdentificationList", "LastModified"))
    return (keep, dic, con)


def walk(f):
    from aaf2 import properties as P
    todo = [f.content]
    while todo:
        o = todo.pop()
        yield o.classdef.class_name, o
        for p in o.properties():
            if isinstance(p, P.StrongRefProperty):
                todo.append(p.value)
            elif isinstance(p, P.StrongRefVectorProperty):
                todo.extend(p.value)
            elif isinstance(p, P.StrongRefSetProperty):
                todo.extend(p.value)


ii = st.integers(0, 1 << 16)
ss = st.integers(0, 1 << 30)
TARGETS = [
    Target("props", st.tuples(st.lists(st.tuples(st.sampled_from(["good", "bad", "bad", "again", "again"]), ii, ss), min_size=1, max_size=12),
                              st.integers(0, 1 << 20)), run_props, 5000, 120000),
    Target("types", st.tuples(t01.steps(), st.lists(st.tuples(ii, ss), min_size=1, max_size=25), st.integers(0, 1 << 20)),
           run_types, 300, 8000),
    Target("tagged", st.tuples(st.lists(st.tuples(st.sampled_from(["tag", "con", "badtag", "badcon", "badtype"]), ii, ss), min_size=1,
                                        max_size=8), st.integers(0, 1 << 20)), run_tagged, 3000, 60000),
    Target("file", st.tuples(st.lists(st.tuples(st.just(0), ii, ii, ss), min_size=1, max_size=12), st.integers(0, 1 << 20),
                             st.lists(st.tuples(st.just(0), ii, ii, ss), max_size=12)), run_file, 70, 2500),
]

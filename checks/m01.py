"""M01: the data model of a file can be extended; the definitions and the objects using them persist."""
import io
import random
from hypothesis import strategies as st
from vlib.runner import Enumerated, Target, Violation, check, check_eq, REPO
from vlib import aafext, aafgen, aafmodel, aafref, aafrelay

PROPERTY = "M01"
RULE = ("A generated set of enumerations, extendible enumerations, records, arrays, sets, renames, strings, references, "
        "classes (below built-in and other new classes) and properties (on new and built-in classes, with given or allotted "
        "local ids), registered when a file is created and in a second session, together with objects that use them. "
        "Non-trivial: at least two types and one class or property were registered and an object uses one of them. Target "
        "'builtin': every class and type definition stored in sample files of other software, compared with what the library "
        "writes for it.")
ASSUMPTIONS = ["a local id given explicitly is not already in use in the file"]

_S = {}


def base_schema(ext):
    if ext not in _S:
        import aaf2
        import os
        import tempfile
        fd, p = tempfile.mkstemp(dir=os.environ.get("TMPDIR"))
        os.close(fd)
        try:
            with aaf2.open(p, "w", extensions=ext):
                pass
            _S[ext] = aafgen.Schema(io.open(p, "rb").read())
        finally:
            os.unlink(p)
    return _S[ext]


step = st.tuples(st.sampled_from(["type"] * 5 + ["class"] * 3 + ["prop"] * 3 + ["elem"]), st.integers(0, 1 << 20))


def cases(tier):
    n = 8 if tier == "quick" else 20
    return st.tuples(st.booleans(), st.booleans(), st.booleans(), st.lists(step, min_size=4, max_size=n), st.lists(step, max_size=4),
                     st.integers(0, 1 << 20))


def document(S, planner, seed, prefer):
    rnd = random.Random(seed)
    g = aafmodel.Gen(S, rnd, prefer)
    if seed % 3:
        g.indirect = [t for t in planner.new_types if planner.types[t]["kind"] != "indirect" and planner.data_type(planner.types[t])
                      and t in S.A.types]
    names = [planner.classes[c]["name"] for c in planner.new_classes]
    defs = [[c, g.node(k, 1)] for c, k in aafgen.BASE_DEFS]
    if g.indirect:
        g.prefer |= {"TaggedValue", S.props["Component"]["UserComments"]["id"], S.props["Mob"]["UserComments"]["id"]}
    for coll, cls in aafgen.COLLECTIONS:
        for n in S.subs.get(cls, []):
            if n in names:
                defs.append([coll, g.node(n, 1)])
    mobs = [g.node(c, 3) for c in ("CompositionMob", "SourceMob")]
    for n in S.subs["Mob"]:
        if n in names:
            mobs.append(g.node(n, 2))
    doc = {"defs": defs, "mobs": mobs, "essence": [g.node("EssenceData", 1)], "order": seed}
    return aafgen.Concretizer(S).document(doc)


def uses(node, names, props, S):
    if node[0] in names:
        return True
    for n, v in node[1].items():
        if S.props[node[0]][n]["id"] in props:
            return True
        kids = [v[1]] if v[0] == "o" else v[1] if v[0] == "ov" else v[1].values() if v[0] == "os" else []
        if any(uses(k, names, props, S) for k in kids):
            return True
    return False


def make(S0, steps):
    pl = aafext.Planner(S0)
    pl.step("class", steps[0][1] + 1)
    for what, seed in steps:
        pl.step(what, seed)
    return pl


def load(path):
    data = io.open(path, "rb").read()
    try:
        return data, aafref.load(data)
    except aafref.BadAAF as e:
        raise Violation("the file is not valid: %s" % e)


def merged(S, root, cdoc):
    hdr, dic, con = aafgen.content_tree(root)
    for coll, n in cdoc["defs"]:
        d = dict(dic.get(coll, ("os", {}))[1])
        d[aafgen.node_key(S, n)] = n
        dic[coll] = ("os", d)
    for coll, nodes in (("Mobs", cdoc["mobs"]), ("EssenceData", cdoc["essence"])):
        d = dict(con.get(coll, ("os", {}))[1])
        for n in nodes:
            d[aafgen.node_key(S, n)] = n
        con[coll] = ("os", d)
    hdr["Dictionary"] = ("o", ("Dictionary", dic))
    hdr["Content"] = ("o", ("ContentStorage", con))
    return ("Root", {"Header": ("o", ("Header", hdr))})


def run(value, ctx):
    import aaf2
    ext, ext2, together, steps, steps2, seed = value
    rnd = random.Random(seed)
    S0 = base_schema(ext)
    pl = make(S0, steps)
    X = ctx.path("x.aaf")
    # registered when the file is created
    pids = {}
    with aaf2.open(X, "w", extensions=ext) as f:
        for c in pl.plan:
            aafext.register(f, c, rnd, pids)
    data, (A, root) = load(X)
    aafext.check_types(A, pl, "created")
    aafext.check_kept(A, S0.A, "created")
    for c in A.classes.values():
        for p in c["props"].values():
            if p["id"] in pids:
                check_eq(p["pid"], pids[p["id"]], "local id of %s" % p["name"])
    with aaf2.open(X, "r") as f:
        aafext.check_api(f, A, "reopened")
    if seed % 3 == 1:
        # the same laid out as other software might, with other local ids
        ctx.event("relaid")
        io.open(X, "wb").write(aafrelay.relay(data, 4096, seed)[0])
        data, (A, root) = load(X)
        aafext.check_types(A, pl, "relaid")
        with aaf2.open(X, "r") as f:
            aafext.check_api(f, A, "relaid")
        pids = {}
    SX = aafgen.Schema(data)
    prefer = [pl.classes[c]["name"] for c in pl.new_classes] + [p for _, p in pl.new_props]
    doc = document(SX, pl, seed, prefer)
    names = set(prefer)
    used = any(uses(n, names, names, SX) for n in doc["mobs"] + doc["essence"] + [x for _, x in doc["defs"]])
    ctx.nontrivial(used and len(pl.new_types) >= 2)
    for t in pl.new_types:
        ctx.event(pl.types[t]["kind"])
    if together:
        # definitions and objects in one session, in a new file
        Y = ctx.path("y.aaf")
        with aaf2.open(Y, "w", extensions=ext) as f:
            for c in pl.plan:
                aafext.register(f, c, rnd, {})
            aafgen.Builder(f, SX, rnd).document(doc)
            aafgen.same(aafgen.whole(f), merged(SX, root_of(f), doc), "before closing")
        data, (A1, got) = load(Y)
        aafext.check_types(A1, pl, "created together")
        aafgen.same(strip(got), strip(merged(SX, root, doc)), "created together")
        with aaf2.open(Y, "r") as f:
            aafext.check_api(f, A1, "created together, reopened")
            aafgen.same(strip(aafgen.whole(f)), strip(got), "created together, reopened")
        return
    # a second session: more definitions, and objects using those of the first
    pl.frozen = set(pl.new_classes)
    for what, s in steps2:
        pl.step(what, s)
    more = pl.plan[len(make(S0, steps).plan):]
    with aaf2.open(X, "rw", extensions=ext2) as f:
        half = len(more) // 2
        for c in more[:half]:
            aafext.register(f, c, rnd, pids)
        aafgen.Builder(f, SX, rnd).document(doc)
        for c in more[half:]:
            aafext.register(f, c, rnd, pids)
        hdr = root_of(f)
    data, (A2, got) = load(X)
    aafext.check_types(A2, pl, "second session")
    aafext.check_kept(A2, A, "second session")
    aafgen.same(strip(got), strip(merged(SX, root, doc)), "second session")
    with aaf2.open(X, "r") as f:
        aafext.check_api(f, A2, "second session, reopened")
        aafgen.same(strip(aafgen.whole(f)), strip(got), "second session, reopened")
    # a third session that only reads and closes keeps everything
    with aaf2.open(X, "rw", extensions=rnd.random() < 0.5) as f:
        pass
    data, (A3, got3) = load(X)
    aafext.check_kept(A3, A2, "third session")
    aafgen.same(strip(got3), strip(got), "third session")


def root_of(f):
    """what an empty file holds: only the header literal matters"""
    return aafgen.whole(f)


def strip(root):
    """without the header's own properties, which carry times and versions"""
    hdr, dic, con = aafgen.content_tree(root)
    keep = dict((k, v) for k, v in hdr.items() if k not in ("IdentificationList", "LastModified"))
    return (keep, dic, con)


# ------------------------------------------ the built-in model and files of other software

SAMPLES = ["test_file_01.aaf", "retimes/bezier01.aaf", "retimes/step01.aaf"]
# here the library deliberately follows the specification's spelling instead of the files'
DIFFER = {("TypeDefinitionEnumeration", "ElementNames", "type"), ("TypeDefinitionRecord", "MemberNames", "type"),
          ("TypeDefinitionExtendibleEnumeration", "ElementNames", "type"), ("CommentMarker", "CommentMarkerUSer", "name"),
          ("EssenceDescriptor", "MediaStreamPluginGUID", "name")}
_samples = {}


def sample(name):
    if name not in _samples:
        _samples[name] = aafref.AAF(io.open(REPO + "/tests/test_files/" + name, "rb").read())
    return _samples[name]


def definitions(tier, seed):
    for name in SAMPLES:
        A = sample(name)
        for cid in sorted(A.classes):
            if A.classes[cid]["name"] != "Root":
                yield (name, "class", cid)
        for tid in sorted(A.types):
            yield (name, "type", tid)


def run_builtin(value, ctx):
    """what a sample file says about a class or type is what the library writes about it"""
    name, kind, did = value
    A, B = sample(name), base_schema(True).A
    ctx.event(kind)
    ctx.nontrivial()
    if kind == "type":
        t, b = A.types[did], B.types.get(did)
        if b is None:
            return
        for k, v in t.items():
            if k == "values":
                for x, n in v.items():
                    check_eq(b[k].get(x), n, "element of %s" % t["name"])
            else:
                check_eq(b.get(k), v, "%s of type %s" % (k, t["name"]))
        return
    c, b = A.classes[did], B.classes.get(did)
    if b is None:
        return
    for k in ("name", "parent", "concrete"):
        check_eq(b[k], c[k], "%s of class %s" % (k, c["name"]))
    bp = dict((p["id"], p) for p in b["props"].values())
    for p in c["props"].values():
        q = bp.get(p["id"])
        if q is None:
            continue
        for k in ("name", "type", "optional", "unique") + (("pid",) if p["pid"] < 0x8000 else ()):
            if (c["name"], p["name"], k) not in DIFFER:
                check_eq(q[k], p[k], "%s of property %s.%s" % (k, c["name"], p["name"]))


TARGETS = [Target("extend", cases, run, quick=150, thorough=4000), Enumerated("builtin", definitions, run_builtin)]

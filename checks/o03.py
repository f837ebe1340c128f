"""O03: copies are complete, independent of the original, and can cross files."""
import io
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, HarnessError, check, check_eq
from vlib import aafext, aafgen, aafmodel, aafref, aafrelay
from vlib.aafgen import COLLECTIONS, same, snapshot
from vlib.aafmodel import from_lit, to_lit
from checks import m01

PROPERTY = "O03"
RULE = ("Two generated files with generated extensions of the data model - some definitions shared, some only in one, "
        "registered in different orders so that local ids clash - and a sequence of copies from one into the other: mobs, "
        "essence data, definitions, objects nested anywhere, whole dictionaries; followed by edits of the copies and a second "
        "session. Compared: each copy, the whole target file (API and independent reader) with a model that adds exactly the "
        "copies and the definitions they refer to; definitions of the target are kept, needed ones are there; the source graph "
        "and its bytes are unchanged. Target 'same': copies inside one file in histories of edits. Non-trivial: a copy crossed "
        "files that has at least 3 objects or uses a class, property or type that only the source had.")
ASSUMPTIONS = ["a definition with the same id in both files is the same definition",
               "elements added to an enumeration do not conflict between the files"]

UPDATED = ["DataDefinitions", "ContainerDefinitions", "CodecDefinitions", "ParameterDefinitions", "OperationDefinitions",
           "InterpolationDefinitions", "TaggedValueDefinitions"]
small = st.integers(0, 1 << 20)


def cases(tier):
    big = tier != "quick"
    step = st.tuples(st.sampled_from(["type"] * 4 + ["class"] * 3 + ["prop"] * 3 + ["elem"] * 2 + ["nest"]), st.integers(0, 1 << 20))
    opn = st.sampled_from(["mob", "mob", "essence", "def", "nested", "nested", "nested", "update", "edit"])
    return st.tuples(st.sampled_from([4096, 512]), st.booleans(), st.booleans(), st.booleans(), st.booleans(), st.booleans(),
                     st.lists(step, max_size=6 if big else 4), st.lists(step, min_size=1, max_size=8 if big else 4),
                     st.lists(step, max_size=6 if big else 3), st.integers(0, 1 << 20),
                     st.lists(st.tuples(opn, small, small), min_size=2, max_size=20 if big else 8))


class W(aafmodel.World):
    """a World over a file with its own schema"""
    def __init__(self, S, f, path, ctx, header):
        self.S, self.f, self.path, self.ctx, self.header = S, f, path, ctx, header
        self.pool, self.used, self.count = [], set(), {}
        for n in header.walk():
            for name, p in S.props[n.cls].items():
                if p["unique"] and name in n.props:
                    self.used.add(bytes.fromhex(aafgen.lit_key(n.props[name][1])))


def mixed(SB, SA):
    """the schema of B, knowing also what only A defines"""
    S = aafgen.Schema.__new__(aafgen.Schema)
    S.__dict__.update(SB.__dict__)
    S.props = dict(SB.props)
    for c, props in SA.props.items():
        S.props[c] = dict(props, **SB.props.get(c, {}))
    S.subs = dict((k, sorted(set(v) | set(SA.subs.get(k, [])))) for k, v in SB.subs.items())
    return S


class Copying(object):
    def __init__(self, ctx, SA, litA, fA, SB, w):
        self.ctx, self.SA, self.litA, self.fA, self.SB, self.w = ctx, SA, litA, fA, SB, w
        self.A = W(SA, fA, None, ctx, from_lit(litA[1]["Header"][1]))
        self.classes = set()            # ids of classes the copies use
        self.types = set()
        self.weight = 0
        self.copies = []

    # ------------------------------------------------------------- the model
    def bring(self, lit):
        """what copying the object adds to the target besides the copy"""
        SA = self.SA
        cls, props = lit
        self.classes.add(SA.A.class_by_name[cls]["id"])
        self.weight += 1
        if SA.A.class_by_name[cls]["id"] not in self.SB.A.classes:
            self.weight += 9
            self.ctx.event("new class")
        for name, v in props.items():
            if name not in self.SB.props.get(cls, {}):
                self.weight += 9
                self.ctx.event("new property")
            if v[0] in ("w", "wv", "ws"):
                for k in [v[1]] if v[0] == "w" else v[1]:
                    self.refer(SA.props[cls][name]["cls"], k)
            else:
                if v[0] == "v" and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] == "ind":
                    self.types.add(SA.type_named(v[1][1]))
                for x in [v[1]] if v[0] == "o" else v[1] if v[0] == "ov" else v[1].values() if v[0] == "os" else []:
                    self.bring(x)

    def refer(self, cls, k):
        SA = self.SA
        if cls == "ClassDefinition":
            self.classes.add([c["id"] for c in SA.A.classes.values() if SA.key_bytes(c["id"]).hex() == k][0])
        elif cls == "TypeDefinition":
            self.types.add([t for t in SA.A.types if SA.key_bytes(t).hex() == k][0])
        else:
            for coll, c in COLLECTIONS:
                if c == cls:
                    self.define(coll, k)

    def sourcedef(self, coll, k):
        return self.A.dic().props[coll][1][k]

    def define(self, coll, k):
        dic = self.w.dic()
        d = dic.props.setdefault(coll, ["os", {}])[1]
        if k in d:
            return
        self.ctx.event("definition brought along")
        lit = to_lit(self.sourcedef(coll, k))
        n = d[k] = from_lit(lit)
        n.parent, n.pname = dic, coll
        self.bring(lit)

    # ------------------------------------------------------------ operations
    def copied(self, n, ahandle=None):
        """copy the object of A into B, detached"""
        fB = self.w.f
        o = ahandle or self.A.get(n, None)
        lit = to_lit(n)
        self.bring(lit)
        c = o.copy(root=fB)
        check(c.root is fB, "the copy belongs to another file")
        same(snapshot(c), lit, "copy of a " + n.cls)
        m = from_lit(lit)
        m.obj = c
        self.copies.append(m)
        return m

    def attach(self, parent, name, m, key=None):
        o = self.w.get(parent)
        fmt = self.w.S.props[parent.cls][name]["fmt"]
        if fmt == "strong":
            o[name].value = m.obj
            old = parent.props.get(name)
            parent.props[name] = ["o", m]
            if old:
                self.w.forget(old[1])
                old[1].parent = old[1].pname = None
                if old[1] in self.copies:
                    self.copies.remove(old[1])
        elif fmt == "strongvec":
            o[name].append(m.obj)
            parent.props.setdefault(name, ["ov", []])[1].append(m)
        else:
            o[name].append(m.obj)
            parent.props.setdefault(name, ["os", {}])[1][key] = m
        m.parent, m.pname = parent, name

    def keyed(self, coll, cls_prop, n, rnd):
        w = self.w
        m = self.copied(n)
        d = w.content().props.get(coll, ["os", {}])[1]
        k = aafgen.node_key(w.S, to_lit(m))
        if k in d or rnd.random() < 0.2:
            k = rnd.randbytes(32).hex()
            m.obj['MobID'].value = w.keyobj(k)
            m.props["MobID"] = ["v", {"mobid": k}]
        self.attach(w.content(), coll, m, k)

    def op_mob(self, i, rnd):
        ms = sorted(self.A.content().props["Mobs"][1].items())
        if ms:
            self.keyed("Mobs", "MobID", ms[i % len(ms)][1], rnd)

    def op_essence(self, i, rnd):
        ms = sorted(self.A.content().props.get("EssenceData", ["os", {}])[1].items())
        if ms:
            self.keyed("EssenceData", "MobID", ms[i % len(ms)][1], rnd)

    def op_def(self, i, rnd):
        ds = [(coll, k) for coll, _ in COLLECTIONS for k in sorted(self.A.dic().props.get(coll, ["os", {}])[1])]
        ds = [x for x in ds if x[1] not in self.w.dic().props.get(x[0], ["os", {}])[1]]
        if not ds:
            return
        coll, k = ds[i % len(ds)]
        before = set(self.w.dic().props.get(coll, ["os", {}])[1])
        m = self.copied(self.sourcedef(coll, k))
        if k in self.w.dic().props.get(coll, ["os", {}])[1]:
            return          # it refers to itself and came along
        self.attach(self.w.dic(), coll, m, k)

    def op_nested(self, i, rnd):
        w = self.w
        ns = [x for x in self.A.content().walk() if x is not self.A.content() and x.cls not in ("EssenceData",)
              and x.pname != "Mobs" and sum(1 for _ in x.walk()) < 40]
        if not ns:
            return
        n = ns[i % len(ns)]
        places = []
        key = aafgen.node_key(w.S, to_lit(n))
        for x in w.content().walk():
            for name, p in sorted(w.S.props[x.cls].items()):
                if p["fmt"] in ("strong", "strongvec", "strongset") and n.cls in w.S.subs.get(p["cls"], []):
                    if p["fmt"] == "strongset" and (key is None or key in x.props.get(name, ["os", {}])[1]):
                        continue
                    places.append((x, name))
        m = self.copied(n)
        if places:
            x, name = places[rnd.randrange(len(places))]
            if name in self.SB.props.get(x.cls, {}):
                self.attach(x, name, m, key)

    def op_update(self, i, rnd):
        dic = self.w.dic()
        self.w.f.dictionary.update(self.fA.dictionary)
        for coll in UPDATED:
            for k, n in sorted(self.A.dic().props.get(coll, ["os", {}])[1].items()):
                have = dic.props.get(coll, ["os", {}])[1].get(k)
                if have is None:
                    self.define(coll, k)
                elif coll == "OperationDefinitions":
                    mine = list(have.props.get("ParametersDefined", ["ws", []])[1])
                    for x in n.props.get("ParametersDefined", ["ws", []])[1]:
                        if x not in mine:
                            mine.append(x)
                            self.ctx.event("parameter added")
                    if "ParametersDefined" in have.props or mine:
                        fmt = self.SA.props["OperationDefinition"]["ParametersDefined"]["fmt"]
                        have.props["ParametersDefined"] = ["ws" if fmt == "weakset" else "wv", mine]
        same(snapshot(self.w.f.dictionary), to_lit(dic), "the updated dictionary")

    def edit(self, n, rnd):
        S = self.SA
        ps = [p for name, p in sorted(S.props[n.cls].items()) if p["fmt"] in ("data", "stream") and not p["unique"]
              and name not in ("Name", "Definition") and (name in n.props or name in self.SB.props.get(n.cls, {}))]
        if not ps:
            return
        p = rnd.choice(ps)
        name = p["name"]
        o = n.obj or self.w.get(n)
        if p["fmt"] == "stream":
            data = rnd.randbytes(rnd.choice(aafmodel.STREAMS))
            s = o[name].open("w")
            s.truncate(0)
            s.write(data)
            n.props[name] = ["s", data]
        else:
            S = self.SB if p["type"] in self.SB.A.types else S
            v = aafmodel.Gen(S, rnd).data(p["type"])
            o[name].value = S.to_api(p["type"], v)
            n.props[name] = ["v", v]
        check_eq(name in o, True, "presence of %s" % name)

    def op_edit(self, i, rnd):
        """edit a copy: the source keeps its own"""
        ns = [x for m in self.copies for x in m.walk() if x.obj is not None or x.attached(self.w.header)]
        if ns:
            self.edit(ns[i % len(ns)], rnd)


def run(value, ctx):
    import aaf2
    ss, extA, extB, openB, ownfirst, fresh, shared, sa, sb, seed, ops = value
    rnd = random.Random(seed)
    S0 = m01.base_schema(False)
    names = set(x["name"] for x in list(m01.base_schema(True).A.types.values()) + list(m01.base_schema(True).A.classes.values()))

    def planner(steps, after=None, taken=()):
        pl = aafext.Planner(S0)
        pl.names |= names | set(taken)
        for what, s in steps:
            if what != "elem":
                pl.step(what, s)
        n = len(pl.plan)
        pl.frozen = set(pl.new_classes)
        for what, s in after or ():
            pl.step(what, s + 1)
        return pl, n
    plA, nshared = planner(shared, sa)
    plB, _ = planner([(w, s + 7) for w, s in sb], taken=plA.names)
    X, Y = ctx.path("a.aaf"), ctx.path("b.aaf")
    with aaf2.open(X, "w", extensions=extA, sector_size=ss) as f:
        for c in plA.plan:
            aafext.register(f, c, rnd, {})
    SA = aafgen.Schema(io.open(X, "rb").read())
    prefer = [plA.classes[c]["name"] for c in plA.new_classes] + [p for _, p in plA.new_props] + sorted(plA.added)
    doc = m01.document(SA, plA, seed, prefer)
    with aaf2.open(X, "rw", extensions=extA) as f:
        aafgen.Builder(f, SA, rnd).document(doc)
    dataA = io.open(X, "rb").read()
    if seed % 5 in (1, 2):
        # the source as other software might have laid it out
        ctx.event("source relaid")
        dataA = aafrelay.relay(dataA, ss, seed)[0]
        io.open(X, "wb").write(dataA)
    litA = aafref.load(dataA)[1]

    def modelB(f):
        both = plA.plan[:nshared]
        for c in (plB.plan + both if ownfirst else both + plB.plan):
            aafext.register(f, c, rnd, {})
    with aaf2.open(Y, "w", extensions=extB, sector_size=4096) as f:
        modelB(f)
    SB = aafgen.Schema(io.open(Y, "rb").read())
    if not fresh:
        # some of its objects have the ids of objects of the other file
        rb = random.Random(seed + 1)
        g = aafmodel.Gen(SB, rb, [plB.classes[c]["name"] for c in plB.new_classes])
        raw = {"defs": [[c, g.node(k, 1)] for c, k in aafgen.BASE_DEFS], "mobs": [g.node("CompositionMob", 3), g.node("SourceMob", 2)],
               "essence": [g.node("EssenceData", 1)], "order": seed}
        ra = random.Random(seed)
        ga = aafmodel.Gen(SA, ra, prefer)
        same_ids = [ga.node(k, 1)["k"] for c, k in aafgen.BASE_DEFS]
        for (c, n), k in zip(raw["defs"], same_ids):
            if rb.random() < 0.4:
                n["k"] = k
        docB = aafgen.Concretizer(SB).document(raw)
        with aaf2.open(Y, "rw", extensions=openB) as f:
            aafgen.Builder(f, SB, rnd).document(docB)
    dataB = io.open(Y, "rb").read()
    if seed % 5 in (2, 3) and not (fresh and seed % 2):
        ctx.event("target relaid")
        dataB = aafrelay.relay(dataB, ss, seed)[0]
        io.open(Y, "wb").write(dataB)
    AB, litB = aafref.load(dataB)

    with aaf2.open(X, "r") as fA:
        if fresh and seed % 2:
            fB = aaf2.open(Y, "w", extensions=extB, sector_size=ss)
            modelB(fB)
        else:
            fB = aaf2.open(Y, "rw", extensions=openB)
        try:
            w = W(mixed(SB, SA), fB, Y, ctx, from_lit(aafgen.whole(fB)[1]["Header"][1]))
            cp = Copying(ctx, SA, litA, fA, SB, w)
            for name, i, s in ops:
                getattr(cp, "op_" + name)(i, random.Random(s))
                ctx.event(name)
            for m in cp.copies:
                if m.obj is not None and not m.attached(w.header) and m.parent is None:
                    same(snapshot(m.obj), to_lit(m), "a copy at the end")
            w.check("the target at the end")
            same(aafgen.whole(fA), litA, "the source at the end")
        except BaseException:
            try:
                fB.close()
            except Exception:
                pass
            raise
        fB.close()
    check_eq(io.open(X, "rb").read() == dataA, True, "the bytes of the source file are unchanged")
    data = io.open(Y, "rb").read()
    try:
        A2, got = aafref.load(data)
    except aafref.BadAAF as e:
        raise Violation("the target file is not valid: %s" % e)
    want = ("Root", {"Header": ("o", to_lit(w.header))})
    same(m01.strip(got), m01.strip(want), "the target, independent reader")
    if not (fresh and seed % 2):
        aafext.check_kept(A2, AB, "the target's definitions")
    check_model(A2, AB, SA.A, cp)
    with aaf2.open(Y, "r") as f:
        same(m01.strip(aafgen.whole(f)), m01.strip(want), "the target, reopened")
        aafext.check_api(f, A2, "the target, reopened")
    ctx.nontrivial(cp.weight >= 3)


def check_model(A2, AB, AA, cp):
    """classes and types the copies need are defined in the target as in the source"""
    for cid in cp.classes:
        for c in AA.chain(cid):
            if c["name"] == "Root":
                continue
            g = A2.classes.get(c["id"])
            check(g is not None, "class %s did not come along" % c["name"])
            for k in ("name", "parent", "concrete"):
                check_eq(g[k], c[k], "%s of class %s" % (k, c["name"]))
            gp = dict((p["id"], p) for p in g["props"].values())
            for p in c["props"].values():
                q = gp.get(p["id"])
                if q is None:
                    if c["id"] in AB.classes:
                        continue
                    raise Violation("property %s.%s did not come along" % (c["name"], p["name"]))
                for k in ("name", "type", "optional", "unique"):
                    check_eq(q[k], p[k], "%s of property %s.%s" % (k, c["name"], p["name"]))
                if p["type"]:
                    cp.types.add(p["type"])
    todo = sorted(cp.types)
    seen = set()
    while todo:
        tid = todo.pop()
        if tid in seen:
            continue
        seen.add(tid)
        t, g = AA.types[tid], A2.types.get(tid)
        check(g is not None, "type %s did not come along" % t["name"])
        for k, v in t.items():
            if k != "values":
                check_eq(g[k], v, "%s of type %s" % (k, t["name"]))
            elif tid not in AB.types:
                for x, n in v.items():
                    check_eq(g[k].get(x), n, "element of type %s" % t["name"])
        todo += ([t["elem"]] if "elem" in t else []) + [x for _, x in t.get("fields", [])]


WEIGHTS = {"copy": 5, "twin": 2, "vec": 3, "sset": 2, "ref": 3, "stream": 3, "set": 2, "fill": 3, "delete": 1, "weak": 2, "reopen": 1, "abandon": 1}


def run_same(value, ctx):
    w = aafmodel.play(value, ctx)
    ctx.nontrivial(w.count.get("copy", 0) >= 1 and sum(w.count.get(k, 0) for k in ("fill", "vec", "ref", "stream", "sset")) >= 2)


TARGETS = [Target("files", cases, run, quick=110, thorough=3000),
           Target("same", lambda tier: aafmodel.histories(st, WEIGHTS, 16 if tier == "quick" else 45), run_same, quick=120, thorough=3000)]

"""Q02: references between mobs resolve, are followed and are collected exactly."""
import io
import os
import random
from collections import Counter
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, raises
from vlib import aafgen, aafref

PROPERTY = "Q02"
RULE = ("Target 'graph': histories over a file with mobs that refer to each other from clips placed in every kind of container "
        "(sequences, nested scopes, operation groups, selectors, essence groups), circles, missing mobs and slots included: after "
        "every step the mob and slot of each clip and the dependant mobs of each mob are compared with a model. Target 'walk': "
        "chains of clips through mobs, compared hop by hop with the chain that was built. Target 'objects': generated documents; "
        "walk_references from several objects against the ownership tree the independent reader finds. Non-trivial: a graph with "
        "a circle or a mob reached over two ways; a chain of three hops; a tree of twelve objects.")
ASSUMPTIONS = ["chains of clips end (a chain that leads back to itself has no end to report)",
               "beyond the first hop of a chain, sequences hold one component (walk looks components up by the clip's own start)"]

WRAPS = ["plain", "sequence", "scope", "group", "selector", "alternate", "choices", "deep"]
_F = {}


def library():
    import aaf2
    if "f" not in _F:
        f = _F["f"] = aaf2.file.AAFFile(None, "wb+")
        f.dictionary.register_def(f.create.OperationDef("9d2ea893-0968-11d3-8a38-0050040ef7d2", "Op_1", ""))
    return _F["f"]


def wrap(f, how, clip, rnd, depth=0):
    c = f.create
    if how == "plain":
        return clip
    if how == "sequence":
        s = c.Sequence("picture")
        for i in range(rnd.randint(0, 2)):
            s.components.append(c.Filler("picture", 3))
        s.components.append(clip)
        for i in range(rnd.randint(0, 2)):
            s.components.append(c.Filler("picture", 3))
        return s
    if how == "scope":
        s = c.NestedScope("picture", 5)
        s.slots.append(c.Filler("picture", 5))
        s.slots.insert(rnd.randint(0, 1), clip)
        return s
    if how == "group":
        g = c.OperationGroup("Op_1", 5, "picture")
        g.segments.append(clip)
        return g
    if how == "selector":
        s = c.Selector("picture", 5)
        s["Selected"].value = clip
        return s
    if how == "alternate":
        s = c.Selector("picture", 5)
        s["Selected"].value = c.Filler("picture", 5)
        s["Alternates"].append(clip)
        return s
    if how == "choices":
        g = c.EssenceGroup("picture", 5)
        g["Choices"].append(clip)
        return g
    inner = clip
    for _ in range(rnd.randint(2, 4)):
        inner = wrap(f, rnd.choice(["sequence", "scope", "group", "selector", "alternate"]), inner, rnd)
    return inner


def odd_id(f, rnd):
    """An id unlike the usual ones that no mob in the file has."""
    from aaf2.mobid import MobID
    while True:
        m = MobID(bytes_le=aafgen.sparse_id(rnd, 32))
        if m not in f.content.mobs:
            return m


# ---------------------------------------------------------------- graphs

def run_graph(value, ctx):
    import aaf2
    from aaf2.mobid import MobID
    ops, seed = value
    rnd = random.Random(seed)
    f = library()
    mobs = []       # [mob object, alive, [(slot, target index or None)]]
    try:
        for what, i, j, how in ops:
            if what == "mob" or not mobs:
                m = f.create.from_name(rnd.choice(["CompositionMob", "MasterMob", "SourceMob"]))
                if rnd.random() < 0.4:
                    m.mob_id = odd_id(f, rnd)
                f.content.mobs.append(m)
                mobs.append([m, True, []])
                continue
            a, b = mobs[i % len(mobs)], mobs[j % len(mobs)]
            if what in ("ref", "back"):
                if what == "back" and a[2] and a[2][-1][1] is not None:
                    a, b = mobs[a[2][-1][1]], a
                slot = a[0].create_timeline_slot(25)
                mode = rnd.randrange(8)
                if mode == 0:
                    clip = f.create.SourceClip(0, 5, media_kind="picture")
                    clip.mob = b[0]
                elif mode == 1:
                    clip = f.create.SourceClip(0, 5, b[0].mob_id, rnd.randint(1, 4), media_kind="picture")
                elif mode == 2 and b[2]:
                    clip = b[0].create_source_clip(rnd.choice(b[2])[0].slot_id, media_kind="picture")
                else:
                    clip = f.create.SourceClip(0, 5, b[0].mob_id, rnd.choice([1, 2, 3, 77]), media_kind="picture")
                slot.segment = wrap(f, how, clip, rnd)
                a[2].append((slot, mobs.index(b), clip))
            elif what == "null":
                slot = a[0].create_timeline_slot(25)
                clip = f.create.SourceClip(0, 5, rnd.choice([None, MobID(), MobID.new()]), 1, media_kind="picture")
                slot.segment = wrap(f, how, clip, rnd)
                a[2].append((slot, None, clip))
            elif what == "unref" and a[2]:
                k = j % len(a[2])
                slot = a[2].pop(k)[0]
                idx = [x.slot_id for x in a[0].slots].index(slot.slot_id)
                a[0].slots.pop(idx)
            elif what == "drop" and a[1]:
                f.content.mobs.pop(a[0].mob_id)
                a[1] = False
            elif what == "return" and not a[1]:
                f.content.mobs.append(a[0])
                a[1] = True
            elif what == "rename" and a[1]:
                new = rnd.choice([MobID.new(), odd_id(f, rnd)])
                a[0].mob_id = new
                for m in mobs:          # what referred to it dangles
                    m[2] = [(s, None if t == mobs.index(a) else t, c) for s, t, c in m[2]]
            elif what == "retarget" and a[2]:
                k = j % len(a[2])
                s, _, clip = a[2][k]
                t = rnd.randrange(len(mobs))
                clip.mob = mobs[t][0]
                a[2][k] = (s, t, clip)
            elif what == "move" and a[2]:
                # the id of a slot that clips may name
                s = a[2][j % len(a[2])][0]
                free = [x for x in range(1, 60) if x not in [q.slot_id for q in a[0].slots]]
                s.slot_id = free[0]
            else:
                continue
            agree(f, mobs, rnd, ctx)
    finally:
        for m in mobs:
            if m[1]:
                f.content.mobs.pop(m[0].mob_id)


def agree(f, mobs, rnd, ctx):
    direct = [[t for _, t, _ in m[2] if t is not None and mobs[t][1]] for m in mobs]
    for n, m in enumerate(mobs):
        for slot, t, clip in m[2]:
            want = mobs[t][0] if t is not None and mobs[t][1] else None
            got = clip.mob
            check(got is want, "clip names", want, "but its mob is", got)
            sid = clip.slot_id
            if want is None:
                check(clip.slot is None, "slot of a clip without a mob")
            else:
                hits = [s for s in want.slots if s.slot_id == sid]
                if hits:
                    check(clip.slot is hits[0], "slot of the clip")
                else:
                    check(raises((IndexError,), lambda: clip.slot), "a slot that is not there is found")
    # what every mob depends on
    idx = {id(m[0]): n for n, m in enumerate(mobs)}
    for n, m in enumerate(mobs):
        seen, todo = set(), [n]
        while todo:
            k = todo.pop()
            for t in direct[k]:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        circle = n in seen
        seen.discard(n)
        got = []
        for x in m[0].dependant_mobs():
            got.append(idx.get(id(x)))
            if len(got) > len(mobs) + 1:
                raise Violation("dependant_mobs gives more mobs than there are: %s" % got)
        check_eq(sorted(got, key=str), sorted(seen, key=str), "mobs that mob", n, "depends on; direct references are", direct)
        if not circle and acyclic(direct, n):
            for k, x in enumerate(got):
                late = [t for t in direct[x] if t not in got[:k]]
                check(not late, "mob", x, "comes before", late, "which it depends on:", got)
        else:
            ctx.nontrivial()
            ctx.event("circle")
        if len(seen) >= 3:
            ways = Counter(t for k in list(seen) + [n] for t in set(direct[k]))
            if max(ways.values()) > 1:
                ctx.nontrivial()
                ctx.event("two ways")


def acyclic(direct, n):
    state = {}

    def go(k):
        state[k] = 1
        for t in direct[k]:
            if state.get(t) == 1 or (t not in state and not go(t)):
                return False
        state[k] = 2
        return True
    return go(n)


# ---------------------------------------------------------------- chains

ENDS = ["filler", "essencegroup", "operationgroup", "pulldown", "null", "nomob", "seqnull"]


def run_walk(value, ctx):
    from aaf2.mobid import MobID
    hops, end, seed = value
    rnd = random.Random(seed)
    f = library()
    made = []
    want = []
    c = f.create

    def clip_to(mob, slot, start):
        clip = c.SourceClip(start, rnd.randint(1, 9), media_kind="picture")
        if mob is None:
            clip.mob_id = MobID() if end in ("null", "seqnull") else MobID.new()
            clip.slot_id = 1
        elif rnd.random() < 0.5:
            clip.mob, clip.slot = mob, slot
        else:
            clip.mob_id, clip.slot_id = mob.mob_id, slot.slot_id
        return clip

    try:
        # built from the end of the chain
        target = None           # (mob, slot)
        if end in ("filler", "essencegroup", "operationgroup", "pulldown"):
            mob = c.SourceMob()
            f.content.mobs.append(mob)
            made.append(mob)
            slot = mob.create_timeline_slot(25)
            if end == "filler":
                seg = c.Filler("picture", 100)
            elif end == "essencegroup":
                seg = c.EssenceGroup("picture", 100)
            elif end == "operationgroup":
                seg = c.OperationGroup("Op_1", 100, "picture")
            else:
                seg = c.Pulldown("picture", 100)
            slot.segment = seg
            target = (mob, slot)
            want = [seg]
        last = len(hops) - 1
        for n, (start, where, extra) in enumerate(hops):
            clip = clip_to(*(target or (None, None)), start=start)
            want = [clip] + want
            if n == last:
                break
            mob = c.from_name(rnd.choice(["SourceMob", "MasterMob", "CompositionMob"]))
            if rnd.random() < 0.3:
                mob.mob_id = odd_id(f, rnd)
            f.content.mobs.append(mob)
            made.append(mob)
            for _ in range(extra % 3):
                mob.create_timeline_slot(25).segment = c.Filler("picture", 4)
            slot = mob.create_timeline_slot(25)
            first = n == last - 1       # the first hop looks up its own start
            if where == "direct":
                slot.segment = clip
            elif where == "single" or not first:
                seq = c.Sequence("picture")
                clip.length = 50
                seq.components.append(clip)
                slot.segment = seq
            else:
                # the start of the outermost clip decides which component is meant
                seq = c.Sequence("picture")
                t = hops[last][0]
                before = rnd.randint(0, t) if t > 0 else 0
                if before:
                    for piece in split(before, rnd):
                        seq.components.append(c.SourceClip(0, piece, MobID.new(), 1, media_kind="picture"))
                clip.length = t - before + rnd.randint(1, 5)
                seq.components.append(clip)
                for _ in range(rnd.randint(0, 2)):
                    seq.components.append(c.SourceClip(0, rnd.randint(1, 9), MobID.new(), 1, media_kind="picture"))
                slot.segment = seq
            target = (mob, slot)
        outer = want.pop(0)
        got = list(outer.walk())
        check_eq(len(got), len(want), "steps of the walk")
        for k, (x, y) in enumerate(zip(got, want)):
            check(x is y, "step", k, "of the walk is", x, "wanted", y)
        ctx.nontrivial(len(hops) >= 3)
    finally:
        for m in made:
            f.content.mobs.pop(m.mob_id)


def split(n, rnd):
    out = []
    while n:
        k = rnd.randint(1, n)
        out.append(k)
        n -= k
    return out


# ---------------------------------------------------------------- all objects of a tree

def run_objects(value, ctx):
    import aaf2
    ss, doc, seed = value
    S = aafgen.schema()
    rnd = random.Random(seed)
    cdoc = aafgen.Concretizer(S).document(doc)
    path = ctx.path("o.aaf")
    io.open(path, "wb").write(aafgen.template(ss))
    n = 0
    with aaf2.open(path, "rw", sector_size=ss) as f:
        aafgen.Builder(f, S, random.Random(doc["order"])).document(cdoc)
        if rnd.random() < 0.6:
            n = whole_tree(f, rnd, "before saving")
    try:
        A, tree = aafref.load(io.open(path, "rb").read())
    except aafref.BadAAF as e:
        raise Violation("the saved file is not valid: %s" % e)
    with aaf2.open(path, "r") as f:
        n = max(n, whole_tree(f, rnd, "after opening", tree))
    ctx.nontrivial(n >= 12)


def whole_tree(f, rnd, when, tree=None):
    from aaf2 import properties as P
    roots = [f.header, f.content] + list(f.content.mobs) + list(f.content.essencedata)
    biggest = 0
    for root in roots[:2] + rnd.sample(roots[2:], min(4, len(roots) - 2)):
        for topdown in (False, True):
            got = [(o, s) for o, s in root.walk_references(topdown=topdown)]
            ids = [id(o) for o, _ in got]
            twice = [o for o, _ in got if ids.count(id(o)) > 1] if len(ids) != len(set(ids)) else []
            check(not twice, when, "walk_references gives twice", twice[:2])
            want = own(root)
            if root is not f.header:
                biggest = max(biggest, len(want))
            check_eq(len(got), len(want), when, "objects below", root)
            check(set(ids) == set(id(o) for o in want), when, "walk_references from", root, "misses or adds objects")
            for o, s in got:
                names = sorted(p.name for p in o.properties() if isinstance(p, P.StreamProperty))
                check_eq(sorted(p.name for p in s), names, when, "streams of", o)
    if tree is not None:
        got = Counter(o.classdef.class_name for o, _ in f.header.walk_references())
        want = Counter()
        count(tree[1]["Header"][1], want)
        check_eq(sorted(got.items()), sorted(want.items()), when, "objects of each class, against the independent reader")
    return biggest


def count(node, out):
    out[node[0]] += 1
    for kind, v in node[1].values():
        if kind == "o":
            count(v, out)
        elif kind == "ov":
            for x in v:
                count(x, out)
        elif kind == "os":
            for x in v.values():
                count(x, out)


def own(o):
    """objects below `o`, found through property values"""
    out = [o]
    for p in o.properties():
        kind = type(p).__name__
        if kind == "StrongRefProperty":
            if p.value is not None:
                out += own(p.value)
        elif kind in ("StrongRefVectorProperty", "StrongRefSetProperty"):
            for x in p.value:
                out += own(x)
    return out


ii, how = st.integers(0, 60), st.sampled_from(WRAPS)
op = st.tuples(st.sampled_from(["mob"] * 3 + ["ref"] * 6 + ["back"] * 2 + ["null", "unref", "drop", "return", "rename", "retarget", "move"]),
               ii, ii, how)
hop = st.tuples(st.one_of(st.integers(0, 12), st.integers(0, 200)), st.sampled_from(["direct", "single", "several"]), st.integers(0, 5))
TARGETS = [
    Target("graph", st.tuples(st.lists(op, min_size=4, max_size=22), st.integers(0, 1 << 20)), run_graph, 2500, 60000),
    Target("walk", st.tuples(st.lists(hop, min_size=1, max_size=6), st.sampled_from(ENDS), st.integers(0, 1 << 20)), run_walk, 3000, 90000),
    Target("objects", lambda tier: st.tuples(st.sampled_from([4096, 512]), aafgen.documents(max_objects=22, max_props=60), st.integers(0, 1 << 20)),
           run_objects, 220, 5000),
]

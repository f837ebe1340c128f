"""Q01: time in sequences and slots, slot ids and clips agree with the components."""
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, raises

PROPERTY = "Q01"
RULE = ("Target 'sequence': sequences of clips, fillers, timecode and nested segments of generated lengths (zero included), with "
        "transitions no longer than the components they join allow; every position of interest (each boundary, one before, one "
        "after, before the start, beyond the end) is looked up and compared with intervals computed from the lengths. Target "
        "'slots': histories of creating slots with and without given ids, removing slots and making clips of them, against a "
        "model of the ids and lengths. Non-trivial: a sequence with a transition or a component of length zero; a history in which "
        "an id below the largest is free.")
ASSUMPTIONS = ["transitions lie between two segments and together are no longer than the segment between them",
               "slot ids in a mob are distinct"]

_F = {}


def library():
    import aaf2
    if "f" not in _F:
        _F["f"] = aaf2.file.AAFFile(None, "wb+")
        f = _F["f"]
        f.dictionary.register_def(f.create.OperationDef("9d2ea893-0968-11d3-8a38-0050040ef7d2", "Op_%d" % 1, ""))
    return _F["f"]


KINDS = ["SourceClip", "Filler", "Sequence", "Timecode", "EssenceGroup", "NestedScope", "Pulldown", "OperationGroup"]


def plan(items):
    """[(kind, length, transition length or None before it)] with transitions that fit"""
    out = []
    room = 0                # what is left of the previous component for a transition
    for i, (kind, length, t) in enumerate(items):
        if i and t is not None:
            t = min(t, room, length)
            if i == 1:
                t = min(t, max(0, out[0][1] - 1))
            if t > 0 or (t == 0 and i > 1):
                out.append(("Transition", t))
                room = length - t
            else:
                room = length
        else:
            room = length
        out.append((kind, length))
    return out


def build(f, comps, rnd, seq=None):
    seq = seq or f.create.Sequence("picture")
    objs = []
    for kind, n in comps:
        if kind == "OperationGroup":
            o = f.create.OperationGroup("Op_1", n, "picture")
        elif kind == "Timecode":
            o = f.create.Timecode(25)
        elif kind == "SourceClip":
            o = f.create.SourceClip(0, n, media_kind="picture")
        else:
            o = f.create.from_name(kind, "picture", n)
        o.length = n
        objs.append(o)
    if rnd.random() < 0.5:
        for o in objs:
            seq.components.append(o)
    else:
        seq.components.value = objs
    return seq, objs


def layout(comps):
    """(start, end) of every component"""
    out, t = [], 0
    for kind, n in comps:
        if kind == "Transition":
            t -= n
            out.append((t, t + n))
        else:
            out.append((t, t + n))
            t += n
    return out, t


def at(comps, spans, t):
    """index of the component playing at t; a transition wins over what it joins"""
    if t < 0:
        t = 0
    for i, (a, b) in enumerate(spans):
        if comps[i][0] == "Transition" and a <= t < b:
            return i
    for i, (a, b) in enumerate(spans):
        if comps[i][0] != "Transition" and a <= t < b:
            return i
    return None             # beyond the end


def run_sequence(value, ctx):
    items, seed, attach = value
    f = library()
    rnd = random.Random(seed)
    comps = plan(items)
    seq, objs = build(f, comps, rnd)
    slot = f.create.TimelineMobSlot(1, segment=seq)
    mob = None
    if attach:
        mob = f.create.CompositionMob()
        mob.slots.append(slot)
        f.content.mobs.append(mob)
    try:
        spans, total = layout(comps)
        got = list(seq.positions())
        check_eq([(i, p) for i, p, _ in got], [(i, a) for i, (a, b) in enumerate(spans)], "positions")
        check(all(c is o for (_, _, c), o in zip(got, objs)), "positions yields other components")
        check_eq(slot.length, total, "length of the slot")
        times = set([-5, 0, total, total + 1, total + 100])
        for a, b in spans:
            times |= {a - 1, a, a + 1, b - 1, b, b + 1, (a + b) // 2}
        last = len(comps) - 1
        for t in sorted(times):
            if t <= 0:
                if spans[0][1] <= 0:
                    continue                # what plays at 0 after empty components is not said
                want = 0
            else:
                want = at(comps, spans, t)
                if want is None:
                    want = last             # beyond the end
            check_eq(seq.index_at_time(t), want, "component at", t, "of", comps)
            check(seq.component_at_time(t) is objs[want], "component_at_time(%d) is another component" % t)
        ctx.nontrivial(any(k == "Transition" or n == 0 for k, n in comps))
    finally:
        if mob is not None:
            f.content.mobs.pop(mob.mob_id)


def seg_length(spec):
    kind, n, inner = spec
    return n


def run_slots(value, ctx):
    import aaf2
    ops, kind, seed, attach = value
    f = library()
    rnd = random.Random(seed)
    mob = f.create.from_name(kind)
    if attach:
        f.content.mobs.append(mob)
    model = []          # [id, length, media kind, slot]
    try:
        for what, n, length, mk in ops:
            ids = [m[0] for m in model]
            if what == "auto":
                mode = n % 3
                if mode == 0:
                    s = mob.create_timeline_slot(25)
                    L, mk = None, None
                elif mode == 1:
                    s = mob.create_empty_sequence_slot(25, media_kind=mk)
                    L, mk = 0, mk.capitalize()
                else:
                    s, mk = (mob.create_picture_slot(), "Picture") if mk == "picture" else (mob.create_sound_slot("30000/1001"), "Sound")
                    L = 0
                check(isinstance(s, aaf2.mobslots.TimelineMobSlot), "the slot created is a", type(s))
                check(s.slot_id not in ids, "new slot got the id", s.slot_id, "which is in use among", ids)
                check(isinstance(s.slot_id, int) and s.slot_id >= 0, "new slot has id", s.slot_id)
                if ids and max(ids) >= len(ids) + 1:
                    ctx.nontrivial()
                    ctx.event("gap")
                model.append([s.slot_id, L, mk, s])
            elif what == "given":
                if n in ids:
                    check(raises((ValueError,), mob.create_timeline_slot, 25, n), "the id", n, "is given out twice")
                    check_eq(len(mob.slots), len(model), "slots after a refusal")
                    continue
                s = mob.create_timeline_slot(25, n)
                check_eq(s.slot_id, n, "id given to the slot")
                model.append([n, None, None, s])
            elif what == "own":
                if n in ids:
                    continue
                s = f.create.TimelineMobSlot(n, "own", edit_rate=24)
                mob.slots.append(s)
                model.append([n, None, None, s])
            elif what == "segment" and model:
                m = model[n % len(model)]
                m[1], m[2] = fill(f, m[3], rnd, length, mk)
            elif what == "remove" and model:
                i = n % len(model)
                mob.slots.pop(i)
                del model[i]
            elif what == "clip" and model:
                m = model[n % len(model)]
                if m[1] is None:
                    continue
                start = rnd.choice([None, 0, 1, length, m[1], m[1] + 3])
                ln = rnd.choice([None, None, length + 1])
                c = mob.create_source_clip(m[0], start, ln, rnd.choice([None, None, "sound"]) if m[2] else None)
                check_eq(c.mob_id, mob.mob_id, "mob of the clip")
                check_eq(c.slot_id, m[0], "slot of the clip")
                check_eq(c.start, start or 0, "start of the clip")
                check_eq(c.length, ln or max(m[1] - (start or 0), 0), "length of the clip")
                if attach:
                    check(c.mob is mob and c.slot is m[3], "the clip leads elsewhere")
                if m[2] and c.media_kind != "Sound":
                    check_eq(c.media_kind, m[2], "media kind of the clip")
                ctx.event("clip")
            elif what == "missing":
                if n not in ids:
                    check(raises((IndexError,), mob.slot_at, n), "slot_at finds a slot that is not there")
                    check(raises((IndexError,), mob.create_source_clip, n), "a clip of a slot that is not there is made")
            # everything still agrees
            check_eq([s.slot_id for s in mob.slots], [m[0] for m in model], "slot ids after", what)
            for sid, L, k, s in model:
                check(mob.slot_at(sid) is s, "slot_at", sid)
                if L is not None:
                    check_eq(s.length, L, "length of slot", sid)
                    if k:
                        check_eq(s.media_kind, s.segment.media_kind, "media kind of the slot")
    finally:
        if attach:
            f.content.mobs.pop(mob.mob_id)


def fill(f, slot, rnd, length, mk):
    """give the slot a segment; returns its length and media kind"""
    k = rnd.randrange(4)
    if k == 0:
        slot.segment = f.create.Filler(mk, length)
        return length, slot.segment.media_kind
    if k == 1:
        slot.segment = f.create.SourceClip(0, length, media_kind=mk)
        return length, slot.segment.media_kind
    if k == 2:
        comps = [(rnd.choice(KINDS[:2]), rnd.randint(0, 40)) for _ in range(rnd.randint(0, 4))]
        seq, _ = build(f, comps, rnd, f.create.Sequence(mk))
        slot.segment = seq
        return sum(n for _, n in comps), seq.media_kind
    scope = f.create.NestedScope(mk, length)
    lens = [rnd.randint(0, 50) for _ in range(rnd.randint(1, 4))]
    for n in lens:
        scope.slots.append(f.create.Filler(mk, n))
    slot.segment = scope
    return max(lens), scope.media_kind


length = st.one_of(st.integers(0, 12), st.sampled_from([0, 1, 100, 86400]), st.integers(0, 1 << 40))
item = st.tuples(st.sampled_from(KINDS), length, st.one_of(st.none(), st.none(), length))
op = st.tuples(st.sampled_from(["auto"] * 4 + ["given", "own", "segment", "segment", "remove", "clip", "clip", "missing"]),
               st.integers(0, 9), st.integers(0, 200), st.sampled_from(["picture", "sound"]))
TARGETS = [
    Target("sequence", st.tuples(st.lists(item, min_size=1, max_size=8), st.integers(0, 1 << 20), st.booleans()), run_sequence, 2500, 80000),
    Target("slots", st.tuples(st.lists(op, min_size=2, max_size=20), st.sampled_from(["CompositionMob", "MasterMob", "SourceMob"]),
                              st.integers(0, 1 << 20), st.booleans()), run_slots, 1500, 50000),
]

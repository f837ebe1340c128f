"""K01: effect parameters over time: key frames, interpolation, speed maps."""
import io
import random
from fractions import Fraction
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, raises
from vlib import aafgen, aafref

PROPERTY = "K01"
RULE = ("Target 'keyframes': histories of adding key frames at generated times (before, between, after and at those there are, in "
        "every form of a rational) against a sorted mapping, with the nearest index asked at and around every time. Target 'curve': "
        "generated key frames and tangents for constant, linear, bezier and cubic interpolation, evaluated at key frames, between, "
        "before and after, against an evaluation by bisection of the curve. Target 'offsets': offset maps of generated speed maps "
        "against a sum over the same steps, and against the map of a larger range. Target 'group': operation groups with constant "
        "and varying parameters through saving and reopening. Non-trivial: a key frame added out of order or replaced; a curve of "
        "three key frames; a map that starts before its first key frame.")
ASSUMPTIONS = ["key frame times are distinct", "the first and last key frames of a speed map are at whole frames",
               "cubic curves have the tangents of the two neighbours scaled by the smaller step, as the sample files of the vendor show"]

LINEAR = "5b6c85a4-0ede-11d3-80a9-006008143e6f"
CONSTANT = "5b6c85a5-0ede-11d3-80a9-006008143e6f"
BEZIER = "df394eda-6ac6-4566-8dbe-f28b0bdd781a"
CUBIC = "a04a5439-8a0e-4cb7-975f-a5b255866883"
INTERP = {"linear": LINEAR, "constant": CONSTANT, "bezier": BEZIER, "cubic": CUBIC}
P_RAT = "e4962321-2267-11d3-8a4c-0050040ef7d2"
P_INT = "e4962323-2267-11d3-8a4c-0050040ef7d2"
TANGENTS = ["PP_IN_TANGENT_POS_U", "PP_IN_TANGENT_VAL_U", "PP_OUT_TANGENT_POS_U", "PP_OUT_TANGENT_VAL_U"]
_F = {}


def define(f):
    from aaf2.auid import AUID
    d = f.dictionary
    for name, a in sorted(INTERP.items()):
        d.register_def(f.create.InterpolationDef(a, name, ""))
    d.register_def(f.create.ParameterDef(P_RAT, "amplitude", "", "Rational"))
    d.register_def(f.create.ParameterDef(P_INT, "number", "", "aafInt32"))
    op = f.create.OperationDef("9d2ea890-0968-11d3-8a38-0050040ef7d2", "speed", "")
    op.media_kind = "picture"
    op.number_inputs = 1
    d.register_def(op)
    op = f.create.OperationDef("9d2ea894-0968-11d3-8a38-0050040ef7d2", "gain", "")
    op.media_kind = "sound"
    op.number_inputs = 1
    d.register_def(op)
    for k, name in enumerate(TANGENTS + ["PP_BASE_FRAME_U"]):
        d.register_def(f.create.ParameterDef("df394eda-6ac6-4566-8dbe-f28b0bdd78%02x" % k, name, "", "aafInt32" if "BASE" in name else "Rational"))
    return f


def library():
    import aaf2
    if "f" not in _F:
        _F["f"] = define(aaf2.file.AAFFile(None, "wb+"))
    return _F["f"]


def forms(q, rnd):
    """what the library takes for the rational q"""
    from aaf2.rational import AAFRational
    c = [q, "%d/%d" % (q.numerator, q.denominator), AAFRational(q.numerator, q.denominator), AAFRational(q.numerator * 2, q.denominator * 2)]
    if q.denominator == 1:
        c += [int(q), float(q), str(int(q))]
    elif q.denominator in (2, 4, 8):
        c += [float(q)]
    return rnd.choice(c)


def varying(f, how, kind="rat"):
    from aaf2.auid import AUID
    return f.create.VaryingValue(P_RAT if kind == "rat" else P_INT, None) if how is None else \
        f.create.VaryingValue(AUID(P_RAT if kind == "rat" else P_INT), AUID(INTERP[how]))


# ---------------------------------------------------------------- key frames

HINTS = [None, "Proportional", "RelativeLeft", "RelativeRight", "RelativeFixed"]


def run_keyframes(value, ctx):
    from aaf2.auid import AUID
    ops, kind, seed = value
    rnd = random.Random(seed)
    f = library()
    v = varying(f, "linear", kind)
    model = {}
    for n, d, x, how in ops:
        q = Fraction(n, d)
        if how == "near" and model:
            q = sorted(model)[n % len(model)] + Fraction(rnd.choice([-1, 0, 1]), rnd.choice([1, 2, 1000]))
        elif how == "again" and model:
            q = sorted(model)[n % len(model)]
        elif how == "bad":
            bad = rnd.choice([("x", 1), (None, 1), (q, "y"), (q, object()), (q, Fraction(1, 3) if kind == "int" else None)])
            n0 = len(v.pointlist)
            check(raises((Exception,), v.add_keyframe, *bad), "key frame", bad, "is taken")
            check_eq(len(v.pointlist), n0, "key frames after a refusal")
            continue
        if how == "remove" and model:
            q = sorted(model)[n % len(model)]
            v.pointlist.pop(sorted(model).index(q))
            del model[q]
        else:
            hint = rnd.choice(HINTS)
            if q in model or (model and q < max(model)):
                ctx.nontrivial()
            val = x if kind == "int" else Fraction(x, rnd.choice([1, 1, 2, 3, 7]))
            cp = v.add_keyframe(forms(q, rnd), val if kind == "int" else forms(val, rnd), hint)
            model[q] = (val, hint)
            check_eq((cp.time, cp.value), (float(q), float(val)), "time and value of the key frame added")
        points(v, model)
    if not model:
        return
    ts = sorted(model)
    ask = set([ts[0] - 1, ts[-1] + 1])
    for a, b in zip(ts, ts[1:] + [ts[-1] + 2]):
        ask |= {a, (a + b) / 2, a + Fraction(1, 7919)}
    for t in sorted(ask):
        want = max([i for i, x in enumerate(ts) if x <= t] or [0])
        tt = float(t)
        if Fraction(tt) != t:
            if any(abs(x - t) < Fraction(1, 10 ** 6) for x in ts) and t not in ts:
                continue
        check_eq(v.nearest_index(tt), want, "nearest index of", tt, "among", [float(x) for x in ts])


def points(v, model):
    from aaf2.rational import AAFRational
    got = [(p["Time"].value, p["Value"].value, p.getvalue("EditHint"), p.time, p.value) for p in v.pointlist]
    want = sorted(model)
    check_eq([Fraction(t.numerator, t.denominator) for t, _, _, _, _ in got], want, "times of the key frames")
    for (t, val, hint, ft, fv), q in zip(got, want):
        x, h = model[q]
        if isinstance(val, AAFRational):
            val = Fraction(val.numerator, val.denominator)
        check_eq((val, hint), (x, h), "value and hint of the key frame at", float(q))
        check_eq((ft, fv), (float(q), float(x)), "time and value")
    check_eq(len(v.pointlist), len(want), "number of key frames")


# ---------------------------------------------------------------- curves

def bez(a, b, c, d, t):
    u = 1.0 - t
    return u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d


def scaled(p, h, x):
    """the point where the line from p to the handle h passes x"""
    return (x, p[1] + (h[1] - p[1]) * (x - p[0]) / (h[0] - p[0]))


def curve_range(p0, p1, p2, p3, x):
    """the values of the curve about x"""
    if p1[0] > p3[0]:
        p1 = scaled(p0, p1, p3[0])
    elif p1[0] < p0[0]:
        p1 = (p0[0], p1[1])
    if p2[0] < p0[0]:
        p2 = scaled(p3, p2, p0[0])
    elif p2[0] > p3[0]:
        p2 = (p3[0], p2[1])

    def find(x):
        lo, hi = 0.0, 1.0
        for _ in range(60):
            m = (lo + hi) / 2
            if bez(p0[0], p1[0], p2[0], p3[0], m) < x:
                lo = m
            else:
                hi = m
        return lo
    delta = (p3[0] - p0[0]) * 1e-7
    a = 0.0 if x - delta <= p0[0] else find(x - delta)
    b = 1.0 if x + delta >= p3[0] else find(x + delta)
    ys = [bez(p0[1], p1[1], p2[1], p3[1], a + (b - a) * k / 20.0) for k in range(21)]
    tol = 1e-5 * (1 + max(abs(p[1]) for p in (p0, p1, p2, p3)))
    return min(ys) - tol, max(ys) + tol


def handle(prev, cur, nxt, side):
    """offset of the handle of `cur` towards the next (side 1) or the previous (-1) key frame"""
    dx = 0.4 * ((nxt[0] - cur[0]) if side > 0 else (cur[0] - prev[0]))
    a, b = cur[1] - prev[1], nxt[1] - cur[1]
    if a * b <= 0:
        dy = 0.0
    else:
        dy = 2.0 * min(abs(a), abs(b)) * (1 if b > 0 else -1) / (nxt[0] - prev[0]) * dx
    return side * dx, side * dy


def expected(how, pts, tang, t):
    """(low, high) of the value at t"""
    ts = [p[0] for p in pts]
    i = max([k for k, x in enumerate(ts) if x <= t] or [0])
    y = pts[i][1]
    if t <= ts[0] or i == len(pts) - 1 or how == "constant" or t == ts[i]:
        e = 1e-9 * (1 + abs(y))
        return y - e, y + e
    a, b = pts[i], pts[i + 1]
    if how == "linear":
        y = a[1] + (b[1] - a[1]) * (t - a[0]) / (b[0] - a[0])
        e = 1e-9 * (1 + abs(a[1]) + abs(b[1]))
        return y - e, y + e
    if how == "bezier":
        o, n = tang[i][1], tang[i + 1][0]
    else:
        before = pts[i - 1] if i else (a[0] - (b[0] - a[0]) * 0.5, a[1])
        after = pts[i + 2] if i + 2 < len(pts) else (b[0] + (b[0] - a[0]) * 0.5, b[1])
        o, n = handle(before, a, b, 1), handle(a, b, after, -1)
    return curve_range(a, (a[0] + o[0], a[1] + o[1]), (b[0] + n[0], b[1] + n[1]), b, t)




def build_curve(f, how, keys, rnd):
    """-> (VaryingValue, points, tangents)"""
    t = Fraction(rnd.choice([0, 0, -10, 5, rnd.randint(-1000, 100000)]))
    v = varying(f, how)
    pts, tang = [], []
    for gap, val, hs in keys:
        pts.append((t, val))
        tang.append(hs)
        t += gap
    order = list(range(len(pts)))
    if rnd.random() < 0.5:
        rnd.shuffle(order)
    flat = []
    for k in order:
        cp = v.add_keyframe(forms(pts[k][0], rnd), forms(pts[k][1], rnd))
    for k, cp in enumerate(v.pointlist):
        hs = tang[k]
        got = [0.0] * 4
        if hs is not None:
            items = [(n, x) for n, x in zip(TANGENTS, hs) if x is not None]
            rnd.shuffle(items)
            if items:
                cp["ControlPointPointProperties"].value = [f.create.ConstantValue(n, forms(x, rnd)) for n, x in items]
            got = [float(x or 0) for x in hs]
        check_eq(cp.tangents, [(got[0], got[1]), (got[2], got[3])], "tangents of the key frame")
        flat.append([(got[0], got[1]), (got[2], got[3])])
    return v, [(float(a), float(b)) for a, b in pts], flat


def run_curve(value, ctx):
    how, keys, seed = value
    rnd = random.Random(seed)
    f = library()
    v, pts, tang = build_curve(f, how, keys, rnd)
    check_eq([p.time for p in v.pointlist], [p[0] for p in pts], "times of the key frames")
    ask = [pts[0][0] - 3, pts[-1][0] + 5]
    for a, b in zip(pts, pts[1:]):
        d = b[0] - a[0]
        ask += [a[0], a[0] + d * 0.5, a[0] + d * rnd.random(), a[0] + d * rnd.choice([1e-6, 1 - 1e-6, 0.1, 0.9])]
    ask.append(pts[-1][0])
    for t in ask:
        lo, hi = expected(how, pts, tang, t)
        got = v.value_at(t)
        check(isinstance(got, float), "value_at gives", got)
        check(lo <= got <= hi, "value at %r of the %s curve %s %s is %r, want %r..%r" % (t, how, pts, tang if how == "bezier" else "", got, lo, hi))
        q = Fraction(t)
        if q.denominator == 1:
            check(lo <= v.value_at(int(q)) <= hi and lo <= v.value_at(str(int(q))) <= hi, "value at", t, "in another form")
    ctx.nontrivial(len(pts) >= 3)
    ctx.event(how)


# ---------------------------------------------------------------- offset maps

def run_offsets(value, ctx):
    from aaf2.misc import generate_offset_map
    how, keys, rng, base, seed = value
    rnd = random.Random(seed)
    f = library()
    keys = [(Fraction(int(g) % 9 + 1), x, h) for g, x, h in keys]
    first = rnd.choice([0, 0, 0, -4, 7])
    v = varying(f, how)
    t = first
    pts, tang = [], []
    for g, x, h in keys:
        v.add_keyframe(t, forms(x, rnd))
        pts.append((float(t), float(x)))
        t += int(g)
    last = int(pts[-1][0])
    if base is not None:
        tags = [f.create.ConstantValue("PP_BASE_FRAME_U", base)]
        v.pointlist[0]["ControlPointPointProperties"].value = tags
    check_eq(v.pointlist[0].base_frame, base or 0, "base frame")
    start, end = first + rng[0], (None if rng[1] is None else first + rng[0] + rng[1])
    stop = last if end is None else end
    if start > stop:
        check(raises((ValueError,), generate_offset_map, v, start, end), "an offset map from", start, "to", stop)
        return
    got = generate_offset_map(v, start, end) if end is not None or rnd.random() < 0.5 else generate_offset_map(v, start=start)
    want_t = [start + k * 0.5 for k in range(2 * (stop - start) + 1)]
    check_eq([t for t, _ in got], want_t, "times of the offset map", start, stop)
    # steps of a tenth of a frame, each the mean of its ends; the first of a half frame reaches one step back
    lo = min(start, first)
    hi = max(stop, first)
    val = {}
    grid = [v.value_at(lo + (k - 6) * 0.1) for k in range(10 * (hi - lo) + 7)]
    acc = {}
    pos = 0.0
    for h in range(2 * (hi - lo) + 1):
        # from lo + h/2 - 1/2 to lo + h/2
        for k in range(5):
            i = h * 5 + k
            pos += (grid[i] + grid[i + 1]) * 0.05
        acc[lo + h * 0.5] = pos
    scale = 1 + sum(abs(g) for g in grid) * 0.1
    for t, y in got:
        w = acc[t] - acc[float(first)] + (base or 0)
        check(abs(y - w) <= 1e-6 * scale + steps(how, pts), "offset at %r is %r, want %r" % (t, y, w))
    if rnd.random() < 0.5:
        a, b = rnd.randint(0, 6), rnd.randint(0, 6)
        big = dict(generate_offset_map(v, start - a, stop + b))
        for t, y in got:
            check(abs(big[t] - y) <= 1e-6 * scale + steps(how, pts), "offset at", t, "of a larger range is", big[t], "not", y)
    ctx.nontrivial(start < first or stop > last)


def steps(how, pts):
    """constant curves jump: a rounding error at a jump moves one step of a tenth"""
    if how != "constant":
        return 0
    return 0.1 * sum(abs(b[1] - a[1]) for a, b in zip(pts, pts[1:]))


# ---------------------------------------------------------------- operation groups

def run_group(value, ctx):
    import aaf2
    from aaf2.auid import AUID
    plan, seed, disk = value
    rnd = random.Random(seed)
    path = None
    if disk:
        path = ctx.path("k.aaf")
        io.open(path, "wb").write(aafgen.template(4096))
        f = define(aaf2.open(path, "rw"))
    else:
        f = library()
    c = f.create
    made = []
    try:
        mob = c.CompositionMob()
        f.content.mobs.append(mob)
        made.append(mob)
        model = []
        for op, mk, ins, params, length in plan:
            name, auid, kind = (("speed", "9d2ea890-0968-11d3-8a38-0050040ef7d2", "Picture"), ("gain", "9d2ea894-0968-11d3-8a38-0050040ef7d2", "Sound"))[op]
            opdef = f.dictionary.lookup_operationdef(name)
            arg = rnd.choice([name, name.upper(), opdef, AUID(auid)])
            if mk is None and rnd.random() < 0.5:
                g = c.OperationGroup(arg, length)
            else:
                g = c.OperationGroup(arg, length=length, media_kind=mk)
            kind = {"picture": "Picture", "sound": "Sound", None: kind}[mk]
            segs = []
            for n in range(ins):
                s = c.SourceClip(n, length, media_kind=kind) if rnd.random() < 0.5 else c.Filler(kind, length)
                s.length = length + n
                g.segments.append(s)
                segs.append(length + n)
            ps = {}
            objs = []
            for which, val in params:
                pa = (P_RAT, P_INT)[which]
                if pa in ps:
                    continue
                key = rnd.choice([AUID(pa), ("amplitude", "number")[which], f.dictionary.lookup_parameterdef(AUID(pa))])
                if rnd.random() < 0.6:
                    p = c.ConstantValue(key, val)
                    ps[pa] = ("ConstantValue", float(val))
                else:
                    p = c.VaryingValue(key, rnd.choice(["linear", AUID(LINEAR), f.dictionary.lookup_interperlationdef(AUID(LINEAR))]))
                    p.add_keyframe(0, val)
                    p.add_keyframe(10, val + 10)
                    ps[pa] = ("VaryingValue", float(val) + 5)
                objs.append(p)
            mode = rnd.randrange(3)
            if mode == 0:
                g.parameters = objs
            elif mode == 1:
                g.parameters.value = objs
            else:
                for p in objs:
                    g.parameters.append(p)
            slot = mob.create_timeline_slot(25)
            slot.segment = g
            model.append((slot.slot_id, auid, kind, length, segs, ps))
            groups(f, mob, model)
        if path:
            f.close()
            try:
                aafref.load(io.open(path, "rb").read())
            except aafref.BadAAF as e:
                raise Violation("the saved file is not valid: %s" % e)
            f = aaf2.open(path, "r")
            groups(f, next(f.content.compositionmobs()), model)
        ctx.nontrivial(any(m[5] for m in model))
    finally:
        if path:
            f.close()
        else:
            for m in made:
                f.content.mobs.pop(m.mob_id)


def groups(f, mob, model):
    from aaf2.auid import AUID
    for sid, auid, kind, length, segs, ps in model:
        slot = mob.slot_at(sid)
        g = slot.segment
        check_eq(str(g.operation.auid), auid, "operation of the group")
        check(g.operation is f.dictionary.lookup_operationdef(AUID(auid)), "operation of the group is another object")
        check_eq((g.media_kind, g.length, slot.media_kind, slot.length), (kind, length, kind, length), "media kind and length of the group and its slot")
        check_eq([s.length for s in g.segments], segs, "inputs of the group")
        check_eq(sorted(str(p.auid) for p in g.parameters), sorted(ps), "parameters of the group")
        for p in g.parameters:
            cls, val = ps[str(p.auid)]
            check_eq(type(p).__name__, cls, "class of the parameter")
            d = f.dictionary.lookup_parameterdef(p.auid)
            check(p.parameterdef is d and p.name == d.name, "definition of the parameter")
            check(g.parameters.get(p.auid) is p, "parameter by its id")
            check_eq(p.typedef.type_name, d.typedef.type_name, "type of the parameter")
            check_eq(float(p.value_at(5)), val, "value of the parameter at 5")
            if cls == "VaryingValue":
                check_eq(str(p.interpolationdef.auid), LINEAR, "interpolation")
                check(p.interpolation is p.interpolationdef, "interpolation")


num = st.one_of(st.integers(-5, 30), st.integers(-5000, 5000))
rat = st.builds(lambda n, d: Fraction(n, d), st.integers(-3000, 3000), st.sampled_from([1, 1, 2, 3, 10, 100]))
# plain literals only: fractions are built inside
gap = st.tuples(st.integers(1, 400), st.sampled_from([1, 1, 1, 2, 3, 25]))
val = st.tuples(st.one_of(st.integers(-3, 3), st.integers(-3000, 3000)), st.sampled_from([1, 1, 2, 3, 100]))
off = st.one_of(st.none(), val)
hs = st.one_of(st.none(), st.tuples(off, off, off, off))
key = st.tuples(gap, val, hs)


def F(x):
    return None if x is None else Fraction(*x)


def keys_of(keys):
    return [(F(g), F(x), None if h is None else [F(y) for y in h]) for g, x, h in keys]


def curve_case(value, ctx):
    how, keys, seed = value
    run_curve((how, keys_of(keys), seed), ctx)


def offset_case(value, ctx):
    how, keys, rng, base, seed = value
    run_offsets((how, keys_of(keys), rng, base, seed), ctx)


kf = st.tuples(num, st.sampled_from([1, 1, 1, 2, 3, 30]), st.integers(-1000, 1000), st.sampled_from(["new"] * 5 + ["near", "again", "again", "bad", "remove"]))
hows = st.sampled_from(sorted(INTERP))
TARGETS = [
    Target("keyframes", st.tuples(st.lists(kf, min_size=2, max_size=14), st.sampled_from(["rat", "rat", "int"]), st.integers(0, 1 << 20)), run_keyframes, 1500, 50000),
    Target("curve", st.tuples(hows, st.lists(key, min_size=1, max_size=6), st.integers(0, 1 << 20)), curve_case, 2500, 80000),
    Target("offsets", st.tuples(hows, st.lists(key, min_size=1, max_size=4), st.tuples(st.integers(-12, 12), st.one_of(st.none(), st.integers(-2, 30))),
                                st.one_of(st.none(), st.integers(-20, 20)), st.integers(0, 1 << 20)), offset_case, 500, 15000),
    Target("group", st.tuples(st.lists(st.tuples(st.integers(0, 1), st.sampled_from([None, None, "picture", "sound"]), st.integers(0, 3),
                                                 st.lists(st.tuples(st.integers(0, 1), st.integers(-1000, 1000)), max_size=3), st.integers(0, 1000)), min_size=1, max_size=4),
                              st.integers(0, 1 << 20), st.sampled_from([False, False, True])), run_group, 300, 10000),
]

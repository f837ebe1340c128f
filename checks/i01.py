"""I01: AUID agrees with uuid.UUID; MobID forms are interchangeable."""
import pickle
import uuid
from hypothesis import strategies as st
from vlib.runner import Target, check, check_eq, raises

PROPERTY = "I01"
RULE = ("Target 'auid': 16 generated bytes (random, sparse, near other ids) given in every form AUID takes, compared with "
        "uuid.UUID; two ids compared for equality, order, hashing and use as keys together with UUIDs. Target 'mobid': 32 "
        "generated bytes (including UMIDs whose material number is half swapped) through the bytes, integer, text, dict and "
        "single-field forms against a plain bytes model, with a history of field edits. Targets 'badauid' and 'badmobid': "
        "malformed text, wrong lengths and numbers out of range. Non-trivial: the value is not all zeros, or for the malformed "
        "targets the text differs from a valid one by a small edit.")
ASSUMPTIONS = ["an id whose text is the same as that of a half-swapped id (label byte 12 zero, material beginning 060e2b34 7f7f "
               "in data order) is ambiguous as text in the format itself and is read as half swapped",
               "an empty byte string counts as no argument"]

nib = st.sampled_from([0, 1, 0x0f, 0x2b, 0x34, 0x7f, 0x80, 0xff, 0x06, 0x0e])
byte = st.one_of(st.integers(0, 255), nib)


def rawbytes(n):
    return st.one_of(st.binary(min_size=n, max_size=n), st.lists(byte, min_size=n, max_size=n).map(bytes),
                     st.lists(st.sampled_from([0, 0, 0, 1, 255]), min_size=n, max_size=n).map(bytes))


def forms(text, sel):
    """Text forms of an id; all of them denote the same id."""
    t = text
    if sel & 1:
        t = t.replace("-", "")
    if sel & 2:
        t = t.upper()
    if sel & 4:
        t = "{" + t + "}"
    if sel & 8:
        t = ("urn:uuid:" if sel & 16 else "uuid:") + t
    return t


def near(b, edit):
    kind, i, v = edit
    b = bytearray(b)
    if kind == "bit":
        b[i % len(b)] ^= 1 << (v % 8)
    elif kind == "swap":
        j = v % len(b)
        i %= len(b)
        b[i], b[j] = b[j], b[i]
    elif kind == "rev":
        b.reverse()
    return bytes(b)


edit = st.tuples(st.sampled_from(["same", "bit", "swap", "rev"]), st.integers(0, 31), st.integers(0, 31))


def same_auid(A, u, what):
    check_eq(bytes(A.bytes_le), u.bytes_le, what, "bytes_le")
    check_eq(bytes(A.bytes_be), u.bytes, what, "bytes_be")
    check_eq(A.int, u.int, what, "int")
    check_eq(A.hex, u.hex, what, "hex")
    check_eq(str(A), str(u), what, "str")
    check_eq(A.uuid, u, what, "uuid")
    f = u.fields
    check_eq((A.data1, A.data2, A.data3), f[:3], what, "data1-3")
    check_eq(bytes(A.data4), u.bytes[8:], what, "data4")


def run_auid(v, ctx):
    from aaf2.auid import AUID
    raw, sels, ed, other = v
    u = uuid.UUID(bytes=raw)
    made = [AUID(bytes_le=u.bytes_le), AUID(bytes_le=bytearray(u.bytes_le)), AUID(bytes_be=u.bytes), AUID(int=u.int), AUID(u),
            AUID(AUID(u)), AUID(hex=u.hex), AUID(str(u))]
    for s in sels:
        made.append(AUID(forms(str(u), s)))
    for i, a in enumerate(made):
        same_auid(a, u, "form %d of %s" % (i, u))
        check(a == u and u == a and not (a != u), "AUID and UUID of the same bytes are not equal", u)
        check(a == made[0] and hash(a) == hash(made[0]), "two AUIDs with the same bytes differ", u)
    a = made[0]
    check_eq(hash(a), hash(u), "hash of equal AUID and UUID")
    ob = near(raw, ed) if other is None else other
    w = uuid.UUID(bytes=ob)
    b = AUID(w)
    check_eq(a == b, u == w, "equality of", u, w)
    check_eq(a != b, u != w, "inequality of", u, w)
    check_eq(a == w, u == w, "equality with a UUID", u, w)
    check_eq(a < b, u < w, "order of", u, w)
    check_eq(a > b, u > w, "order of", u, w)
    check_eq([x.uuid for x in sorted([b, a])], sorted([w, u]), "sorting")
    d = {a: 1}
    d[w] = 2
    check_eq(len(d), len({u, w}), "distinct keys among", u, w)
    check_eq(d.get(u), 2 if u == w else 1, "lookup of an AUID key by UUID")
    check_eq(d.get(b), 2, "lookup of a UUID key by AUID")
    c = AUID(a)
    c.bytes_be = w.bytes
    same_auid(c, w, "assigning bytes_be")
    same_auid(a, u, "the id a changed copy was made from")
    src = bytearray(u.bytes_le)
    e = AUID(bytes_le=src)
    src[0] ^= 255
    same_auid(e, u, "after the bytes given were changed")
    check(not (a == str(u)) and not (a == u.bytes_le), "an AUID equals a string")
    if raw.strip(b"\0"):
        ctx.nontrivial()


def mutate(s, ops):
    for kind, i, ch in ops:
        i %= max(1, len(s))
        if kind == "del":
            s = s[:i] + s[i + 1:]
        elif kind == "ins":
            s = s[:i] + ch + s[i:]
        elif kind == "rep":
            s = s[:i] + ch + s[i + 1:]
        elif kind == "rep2":
            s = s[:i] + ch + ch + s[i + 2:]
    return s


mut = st.tuples(st.sampled_from(["del", "ins", "rep", "rep2"]), st.integers(0, 90),
                st.sampled_from([" ", "_", "g", "-", "+", "x", "0x", "\t", "{", "z", "a", "0", "\u0660", "\uff11", ".", "\n", "F"]))
HEX = set("0123456789abcdefABCDEF")


def ref_auid(text):
    """The id a text denotes by uuid's rules, or None."""
    t = text.replace("urn:", "").replace("uuid:", "").strip("{}").replace("-", "")
    if len(t) == 32 and set(t) <= HEX:
        return uuid.UUID(hex=t)
    return None


def run_badauid(v, ctx):
    from aaf2.auid import AUID
    raw, sel, muts, lens, num = v
    text = mutate(forms(str(uuid.UUID(bytes=raw)), sel), muts)
    want = ref_auid(text)
    try:
        got = AUID(text)
    except ValueError:
        check(want is None, "AUID refuses", repr(text))
    else:
        check(want is not None, "AUID accepts", repr(text), "as", got)
        same_auid(got, want, "AUID of %r" % text)
    ctx.nontrivial(want is None)
    n = lens
    if n != 16 and n:
        for kw in ("bytes_le", "bytes_be"):
            check(raises((ValueError,), AUID, **{kw: bytes(range(n))}), "AUID accepts", kw, "of", n, "bytes")
    if not 0 <= num < 1 << 128:
        check(raises((ValueError, OverflowError), AUID, int=num), "AUID accepts the integer", num)
    else:
        same_auid(AUID(int=num), uuid.UUID(int=num), "AUID of an integer")
    check(raises((TypeError,), AUID), "AUID() without arguments is accepted")


# --- MobID -------------------------------------------------------------------

def swapped(b):
    return b[11] == 0 and b[24:30] == b"\x06\x0e\x2b\x34\x7f\x7f"


def text_order(b):
    """The 32 bytes in the order the text form shows them."""
    d1, d2, d3 = b[19:15:-1], b[21:19:-1], b[23:21:-1]
    return b[:16] + (b[24:32] + d1 + d2 + d3 if swapped(b) else d1 + d2 + d3 + b[24:32])


def from_text(t):
    if t[11] == 0 and t[16:22] == b"\x06\x0e\x2b\x34\x7f\x7f":
        d4, d = t[16:24], t[24:32]
    else:
        d, d4 = t[16:24], t[24:32]
    return t[:16] + d[3::-1] + d[5:3:-1] + d[7:5:-1] + d4


def ref_urn(b):
    h = text_order(b).hex()
    return "urn:smpte:umid:" + ".".join(h[i:i + 8] for i in range(0, 64, 8))


def as_dict(b):
    return {"SMPTELabel": list(b[:12]), "length": b[12], "instanceHigh": b[13], "instanceMid": b[14], "instanceLow": b[15],
            "material": {"Data1": int.from_bytes(b[16:20], "little"), "Data2": int.from_bytes(b[20:22], "little"),
                         "Data3": int.from_bytes(b[22:24], "little"), "Data4": list(b[24:])}}


def same_mobid(m, b, what):
    check_eq(bytes(m.bytes_le), b, what, "bytes")
    check_eq(m.int, int.from_bytes(b, "big"), what, "int")
    check_eq(int(m), int.from_bytes(b, "big"), what, "int()")
    check_eq(m.urn, ref_urn(b), what, "urn")
    check_eq(str(m), ref_urn(b), what, "str")
    check_eq(m.to_dict(), as_dict(b), what, "to_dict")
    check_eq(bytes(m.SMPTELabel), b[:12], what, "SMPTELabel")
    check_eq((m.length, m.instanceHigh, m.instanceMid, m.instanceLow), tuple(b[12:16]), what, "length and instance")
    d = as_dict(b)["material"]
    check_eq((m.Data1, m.Data2, m.Data3, list(m.Data4)), (d["Data1"], d["Data2"], d["Data3"], d["Data4"]), what, "Data1-4")
    check_eq(m.material.uuid, uuid.UUID(bytes_le=b[16:]), what, "material")


def text_form(b, sel):
    t = ref_urn(b)
    if sel & 1:
        t = t.replace("urn:smpte:umid:", "")
    if sel & 2:
        t = t.replace(".", "" if sel & 4 else "-")
    if sel & 8:
        t = t.upper()
    if sel & 16 and sel & 1:
        t = "0x" + t
    return t


@st.composite
def almost_swapped(draw):
    """An id that is half swapped, in one order or the other, but for one byte."""
    b = bytearray(draw(rawbytes(32)))
    at = draw(st.sampled_from([24, 16, 16, 24, 20]))
    b[11] = 0
    b[at:at + 6] = draw(st.sampled_from([b"\x06\x0e\x2b\x34\x7f\x7f", b"\x34\x2b\x0e\x06\x7f\x7f"]))
    i = draw(st.sampled_from([11] + list(range(at, at + 6))))
    b[i] = draw(byte)
    return bytes(b)


mobbytes = st.one_of(
    rawbytes(32),
    almost_swapped(),
    st.tuples(st.just(bytes([6, 10, 43, 52, 1, 1, 1, 5, 1, 1])), rawbytes(2), rawbytes(4), rawbytes(16)).map(b"".join),
    st.tuples(rawbytes(11), st.sampled_from([b"\0", b"\0", b" "]), rawbytes(4), rawbytes(8), st.just(b"\x06\x0e\x2b\x34\x7f\x7f"),
              rawbytes(2)).map(b"".join),
    st.tuples(rawbytes(11), st.just(b"\x01"), rawbytes(4), st.just(b"\x34\x2b\x0e\x06\x7f\x7f"), rawbytes(10)).map(b"".join))
FIELDS = ["SMPTELabel", "length", "instanceHigh", "instanceMid", "instanceLow", "Data1", "Data2", "Data3", "Data4", "material",
          "int", "urn", "dict", "part"]
PARTS = [("SMPTELabel", 0, 12), ("length", 12, 13), ("instanceHigh", 13, 14), ("instanceMid", 14, 15), ("instanceLow", 15, 16),
         ("Data1", 16, 20), ("Data2", 20, 22), ("Data3", 22, 24), ("Data4", 24, 32), ("material", 16, 32)]
setop = st.tuples(st.sampled_from(FIELDS), rawbytes(32))


def apply_set(m, b, field, src):
    """Set one field from the bytes src in the real id and in the model."""
    from aaf2.auid import AUID
    d = as_dict(src)
    b = bytearray(b)
    if field == "SMPTELabel":
        m.SMPTELabel = list(src[:12])
        b[:12] = src[:12]
    elif field in ("length", "instanceHigh", "instanceMid", "instanceLow"):
        i = 12 + ["length", "instanceHigh", "instanceMid", "instanceLow"].index(field)
        setattr(m, field, src[i])
        b[i] = src[i]
    elif field in ("Data1", "Data2", "Data3"):
        lo, hi = {"Data1": (16, 20), "Data2": (20, 22), "Data3": (22, 24)}[field]
        setattr(m, field, d["material"][field])
        b[lo:hi] = src[lo:hi]
    elif field == "Data4":
        m.Data4 = src[24:]
        b[24:] = src[24:]
    elif field == "material":
        m.material = uuid.UUID(bytes_le=src[16:]) if src[0] & 1 else AUID(bytes_le=src[16:])
        b[16:] = src[16:]
    elif field == "int":
        m.int = int.from_bytes(src, "big")
        b[:] = src
    elif field == "urn":
        m.urn = ref_urn(src)
        b[:] = from_text(text_order(src))
    elif field == "part":
        # fields left out of a dict are zero
        b[:] = src
        for i, (k, lo, hi) in enumerate(PARTS):
            if src[i] & 1:
                b[lo:hi] = bytes(hi - lo)
                d["material"].pop(k, None) if k.startswith("Data") else d.pop(k)
        m.from_dict(d)
    else:
        m.from_dict(d)
        b[:] = src
    return bytes(b)


def run_mobid(v, ctx):
    from aaf2.mobid import MobID
    raw, sels, ed, sets = v
    made = [MobID(bytes_le=raw), MobID(bytes_le=bytearray(raw)), MobID(int=int.from_bytes(raw, "big"))]
    m = MobID()
    m.from_dict(as_dict(raw))
    made.append(m)
    if from_text(text_order(raw)) == raw:
        made += [MobID(ref_urn(raw)), MobID(made[0])] + [MobID(text_form(raw, s)) for s in sels]
    for i, a in enumerate(made):
        same_mobid(a, raw, "form %d" % i)
        check(a == made[0] and not (a != made[0]) and hash(a) == hash(made[0]), "two MobIDs with the same bytes differ")
    a = made[0]
    ob = near(raw, ed)
    b = MobID(bytes_le=ob)
    check_eq((a == b, a != b, a < b, a <= b, a > b, a >= b),
             (raw == ob, raw != ob, raw < ob, raw <= ob, raw > ob, raw >= ob), "comparison of", raw.hex(), ob.hex())
    d = {a: 1}
    d[b] = 2
    check_eq(len(d), len({raw, ob}), "distinct keys")
    check_eq(d[MobID(bytes_le=raw)], 2 if raw == ob else 1, "lookup by an equal id")
    src = bytearray(raw)
    e = MobID(bytes_le=src)
    src[3] ^= 255
    same_mobid(e, raw, "after the bytes given were changed")
    cur = raw
    for f, s in sets:
        cur = apply_set(e, cur, f, s)
        same_mobid(e, cur, "after setting %s" % f)
        ctx.event("set")
    same_mobid(a, raw, "an id not edited")
    m1, m2 = MobID.new(), MobID.new()
    check(m1 != m2, "two new ids are equal")
    check_eq(bytes(m1.bytes_le[:11]), bytes([6, 10, 43, 52, 1, 1, 1, 5, 1, 1, 15]), "label of a new id")
    check_eq(m1.length, 0x13, "length byte of a new id")
    same_mobid(MobID(m1.urn), bytes(m1.bytes_le), "a new id through its text")
    if raw.strip(b"\0"):
        ctx.nontrivial()
    if swapped(raw):
        ctx.event("half swapped")


def ref_mobtext(text):
    t = text.lower()
    for item in ("urn:smpte:umid:", ".", "-", "0x"):
        t = t.replace(item, "")
    if len(t) == 64 and set(t) <= HEX:
        return from_text(bytes.fromhex(t))
    return None


def run_badmobid(v, ctx):
    from aaf2.mobid import MobID
    raw, sel, muts, n, num, keep = v
    text = mutate(text_form(raw, sel), muts)
    want = ref_mobtext(text)
    m = MobID(bytes_le=keep)
    for make in (lambda: MobID(text), lambda: setattr(m, "urn", text)):
        try:
            got = make()
        except (ValueError, AssertionError):
            check(want is None, "MobID refuses", repr(text))
            same_mobid(m, keep, "the id refused text was assigned to")
        else:
            check(want is not None, "MobID accepts", repr(text))
            same_mobid(got or m, want, "MobID of %r" % text)
    ctx.nontrivial(want is None)
    if n != 32 and n:
        check(raises((ValueError,), MobID, bytes_le=bytes(n)), "MobID accepts", n, "bytes")
    if not 0 <= num < 1 << 256:
        check(raises((ValueError, OverflowError), MobID, int=num), "MobID accepts the integer", num)


bignum = st.one_of(st.integers(-3, 3), st.integers(-(1 << 260), 1 << 260),
                   st.sampled_from([1 << 128, (1 << 128) - 1, 1 << 256, (1 << 256) - 1, -1]))
TARGETS = [
    Target("auid", st.tuples(rawbytes(16), st.lists(st.integers(0, 31), max_size=4), edit, st.one_of(st.none(), rawbytes(16))),
           run_auid, 12000, 400000),
    Target("badauid", st.tuples(rawbytes(16), st.integers(0, 31), st.lists(mut, min_size=1, max_size=3), st.integers(0, 40), bignum),
           run_badauid, 8000, 300000),
    Target("mobid", st.tuples(mobbytes, st.lists(st.integers(0, 31), max_size=4), edit, st.lists(setop, max_size=5)),
           run_mobid, 8000, 300000),
    Target("badmobid", st.tuples(mobbytes, st.integers(0, 31), st.lists(mut, min_size=1, max_size=3), st.integers(0, 70), bignum,
                                 mobbytes), run_badmobid, 6000, 200000),
]

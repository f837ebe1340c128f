"""X01: linking an MXF file brings its packages into the AAF file as they are."""
import contextlib
import datetime
import io
import os
import random
import struct
import uuid
from fractions import Fraction
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, raises
from vlib import aafgen, aafref
from vlib.mxfgen import Writer, swapped, UL

PROPERTY = "X01"
RULE = ("MXF files written by the check's own writer from a generated package tree - material and source packages, tracks with any "
        "nesting of sequences, clips, timecodes, fillers, pulldowns, scope references and essence groups, every descriptor class "
        "the library knows, comments and attributes, optional properties present or not; sets in any order, both length forms, "
        "alignment grids, fill, unknown sets and tags, tags the primer does not list (other files linked before), essence and a footer with the metadata repeated. The mobs linked are "
        "compared with the tree, at once and after saving and reopening. Non-trivial: at least two packages and a nested segment.")
ASSUMPTIONS = ["the header metadata is complete and valid, with the properties AAF requires", "usage codes are written in AAF order, as Avid does",
               "ids are plain, not half swapped"]

KINDS = {"Picture": "01030202-0100-0000-060e-2b3404010101", "Sound": "01030202-0200-0000-060e-2b3404010101",
         "Timecode": "01030201-0100-0000-060e-2b3404010101", "DescriptiveMetadata": "01030201-1000-0000-060e-2b3404010101",
         "Auxiliary": "01030203-0100-0000-060e-2b3404010105", "Edgecode": "d2bb2af0-d234-11d2-89ee-006097116212",
         "LegacyPicture": "6f3c8ce1-6cef-11d2-807d-006008143e6f"}
USAGE = {"Usage_SubClip": "0d010102-0101-0500-060e-2b3404010101", "Usage_LowerLevel": "0d010102-0101-0800-060e-2b3404010101",
         "Usage_Template": "0d010102-0101-0900-060e-2b3404010101"}
LAYOUTS = ["FullFrame", "SeparateFields", "OneField", "MixedFields", "SegmentedFrame"]
CODES = {"CompRed": 0x52, "CompGreen": 0x47, "CompBlue": 0x42, "CompAlpha": 0x41, "CompFill": 0x46, "CompNone": 0x30}
FILE_DESC = ["CDCI", "RGBA", "PCM", "AES3", "Sound", "MPEG2", "ANC"]
CLASS = {"CDCI": "CDCIDescriptor", "MPEG2": "CDCIDescriptor", "RGBA": "RGBADescriptor", "PCM": "PCMDescriptor", "AES3": "PCMDescriptor",
         "Sound": "PCMDescriptor", "ANC": "ANCDataDescriptor", "Multiple": "MultipleDescriptor", "Import": "ImportDescriptor", "Tape": "TapeDescriptor"}
MXF_GUID = "60eb8921-2a02-4406-891c-d9b6a6ae0645"
TEXT = ["", "a", "name", u"\u00e9\u4e2d", u"\U0001F600x", "a b/c", "x" * 100]


# ------------------------------------------------------------------ generation

def mobid(rnd):
    return UL("060a2b340101010501010d0013") + rnd.randbytes(3) + rnd.randbytes(7) + bytes([1 + rnd.randrange(255)]) + rnd.randbytes(8)


def big(rnd):
    return rnd.choice([0, 1, 2, 100, 2 ** 31, 2 ** 32 + 5, 2 ** 63 - 1, rnd.randrange(10 ** 6)])


def ratio(rnd):
    return rnd.choice([(25, 1), (30000, 1001), (24, 1), (48000, 1), (50, 2), (2 ** 31 - 1, 7), (0, 1)])


def segment(rnd, ids, depth):
    kind = rnd.choice(["SourceClip", "SourceClip", "Timecode", "Filler", "ScopeReference"] +
                      (["Sequence", "Pulldown", "EssenceGroup", "Sequence"] if depth else []))
    s = {"kind": kind, "data": rnd.choice(sorted(KINDS)), "length": rnd.choice([big(rnd), big(rnd), -1])}
    if kind == "SourceClip":
        s.update(mob=rnd.choice(ids + [bytes(32), mobid(rnd)]), slot=rnd.choice([0, 1, 2, 77, 2 ** 32 - 1]), start=rnd.choice([big(rnd), big(rnd), -5]))
        if rnd.random() < 0.1:
            s["data"] = "Unknown"
    elif kind == "Timecode":
        s.update(fps=rnd.choice([24, 25, 30, 60, 65535]), drop=rnd.random() < 0.5, start=rnd.choice([big(rnd), -3]))
    elif kind == "ScopeReference":
        s.update(scope=rnd.choice([0, 1, 2]), slot=rnd.choice([0, 1, 9]))
    elif kind == "Sequence":
        s["parts"] = [segment(rnd, ids, depth - 1) for _ in range(rnd.randrange(4))]
        if rnd.random() < 0.2:
            s["length"] = None
    elif kind == "EssenceGroup":
        s["parts"] = []
        for _ in range(rnd.randrange(1, 3)):
            p = segment(rnd, ids, 0)
            while p["kind"] != "SourceClip":
                p = segment(rnd, ids, 0)
            s["parts"].append(p)
    elif kind == "Pulldown":
        s.update(part=segment(rnd, ids, depth - 1), phase=rnd.choice([0, 1, 3, -1]), pkind=rnd.choice([0, 1, 2]), direction=rnd.choice([0, 1]))
    return s


def descriptor(rnd, kind):
    d = {"kind": kind}
    o = lambda: rnd.random() < 0.5
    u = lambda: rnd.choice([0, 1, 8, 1080, 1920, 2 ** 31 - 1, rnd.randrange(5000)])
    if kind in ("Import", "Tape"):
        return d
    d["SampleRate"] = ratio(rnd)
    if o():
        d["Length"] = rnd.choice([big(rnd), -1])
    if o():
        d["LinkedSlotID"] = u()
    if kind in ("CDCI", "MPEG2", "RGBA"):
        d.update(StoredWidth=u(), StoredHeight=u(), ImageAspectRatio=ratio(rnd), FrameLayout=rnd.randrange(5),
                 VideoLineMap=rnd.choice([[42, 0], [1, 2], [-1, 7], [21, 584]]))
        for k in ("SampledWidth", "SampledHeight"):
            if o():
                d[k] = u()
        if o():
            d["Compression"] = str(uuid.UUID(bytes=rnd.randbytes(16)))
        if o():
            d["FrameSampleSize"] = u()
        if kind == "RGBA":
            d["PixelLayout"] = [(rnd.choice(sorted(CODES)), rnd.choice([8, 10, 16])) for _ in range(rnd.randrange(8))]
        else:
            d.update(ComponentWidth=u(), HorizontalSubsampling=rnd.choice([1, 2, 4]))
            if o():
                d["VerticalSubsampling"] = rnd.choice([1, 2])
            if kind == "CDCI" and o():
                d["ResolutionID"] = u()
            d["Locator"] = ["file:///x/%d" % rnd.randrange(100) for _ in range(rnd.randrange(3))]
    elif kind in ("PCM", "AES3", "Sound"):
        d.update(BlockAlign=rnd.randrange(65536), AverageBPS=u(), Channels=u(), QuantizationBits=rnd.choice([8, 16, 24]), AudioSamplingRate=ratio(rnd))
    elif kind == "Multiple":
        d["parts"] = [descriptor(rnd, rnd.choice(FILE_DESC)) for _ in range(rnd.randrange(1, 4))]
        d.pop("LinkedSlotID", None)
    return d


def tags(rnd, depth=1):
    out = []
    for _ in range(rnd.choice([0, 0, 1, 2, 3])):
        t = {"name": rnd.choice(TEXT), "form": rnd.choice(["le", "be", "int", "other"] if depth < 9 else ["le"])}
        t["value"] = rnd.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31]) if t["form"] == "int" else rnd.choice(TEXT)
        t["attrs"] = tags(rnd, depth - 1) if depth and rnd.random() < 0.4 else []
        out.append(t)
    return out


def date(rnd):
    return [rnd.choice([1970, 2024, 2000]), rnd.randint(1, 12), rnd.randint(1, 28), rnd.randrange(24), rnd.randrange(60), rnd.randrange(60)]


def document(rnd, sources):
    ids = [mobid(rnd) for _ in range(sources + 1)]
    out = []
    for k, i in enumerate(ids):
        p = {"id": i, "kind": "MaterialPackage" if k == 0 else "SourcePackage", "slots": [], "comments": tags(rnd), "attrs": tags(rnd)}
        for opt, v in (("name", rnd.choice(TEXT[1:])), ("modified", date(rnd)), ("created", date(rnd)), ("usage", rnd.choice(sorted(USAGE))),
                       ("app", rnd.choice([0, 1, 5, -1]))):
            if rnd.random() < 0.6:
                p[opt] = v
        for n in range(rnd.randrange(1, 4)):
            t = {"kind": rnd.choice(["Track"] * 5 + ["StaticTrack", "EventTrack"]), "id": rnd.choice([n + 1, 100 + n]), "rate": ratio(rnd),
                 "origin": rnd.choice([0, 5, -5, big(rnd)]), "segment": segment(rnd, ids, 3)}
            if rnd.random() < 0.6:
                t["name"] = rnd.choice(TEXT)
            if rnd.random() < 0.5:
                t["number"] = rnd.choice([0, 1, 2 ** 32 - 1])
            p["slots"].append(t)
        if k:
            p["descriptor"] = descriptor(rnd, rnd.choice(FILE_DESC + ["Multiple", "Multiple", "Import", "Tape"]))
        out.append(p)
    if rnd.random() < 0.3:
        rnd.shuffle(out)
    return out


# ------------------------------------------------------------------ writing MXF

def u16s(t):
    return (t or "\0").encode("utf-16be")


def rat(r):
    return struct.pack(">LL", *r)


def write_segment(w, s):
    it = [(0x0201, swapped(KINDS[s["data"]]) if s["data"] in KINDS else w.rnd.randbytes(16))]
    if s["length"] is not None:
        it.append((0x0202, struct.pack(">q", s["length"])))
    k = s["kind"]
    if k == "SourceClip":
        it += [(0x1101, s["mob"]), (0x1102, struct.pack(">L", s["slot"])), (0x1201, struct.pack(">q", s["start"]))]
    elif k == "Timecode":
        it += [(0x1501, struct.pack(">q", s["start"])), (0x1502, struct.pack(">H", s["fps"])), (0x1503, bytes([s["drop"]]))]
    elif k == "ScopeReference":
        it += [(0x0e01, struct.pack(">L", s["scope"])), (0x0e02, struct.pack(">L", s["slot"]))]
    elif k == "Sequence":
        it.append((0x1001, w.refs([write_segment(w, p) for p in s["parts"]])))
    elif k == "EssenceGroup":
        it.append((0x0501, w.refs([write_segment(w, p) for p in s["parts"]])))
    elif k == "Pulldown":
        it += [(0x0d01, write_segment(w, s["part"])), (0x0d02, bytes([s["pkind"]])), (0x0d03, bytes([s["direction"]])), (0x0d04, struct.pack(">l", s["phase"]))]
    return w.set(k, it)


U32 = {"LinkedSlotID": 0x3006, "StoredWidth": 0x3203, "StoredHeight": 0x3202, "SampledHeight": 0x3208, "SampledWidth": 0x3209,
       "ComponentWidth": 0x3301, "HorizontalSubsampling": 0x3302, "VerticalSubsampling": 0x3308, "AverageBPS": 0x3d09, "Channels": 0x3d07,
       "QuantizationBits": 0x3d01}
RAT = {"SampleRate": 0x3001, "ImageAspectRatio": 0x320e, "AudioSamplingRate": 0x3d03}


def write_descriptor(w, d):
    it = []
    for k, v in d.items():
        if k in U32:
            it.append((U32[k], struct.pack(">L", v)))
        elif k in RAT:
            it.append((RAT[k], rat(v)))
        elif k == "Length":
            it.append((0x3002, struct.pack(">q", v)))
        elif k == "FrameLayout":
            it.append((0x320c, bytes([v])))
        elif k == "VideoLineMap":
            it.append((0x320d, struct.pack(">LLll", 2, 4, *v)))
        elif k == "Compression":
            it.append((0x3201, swapped(v)))
        elif k == "BlockAlign":
            it.append((0x3d0a, struct.pack(">H", v)))
        elif k in ("FrameSampleSize", "ResolutionID"):
            it.append((w.tag(k), struct.pack(">L", v)))
        elif k == "PixelLayout":
            it.append((0x3401, b"".join(bytes([CODES[c], n]) for c, n in v).ljust(16, b"\0")))
        elif k == "Locator":
            it.append((0x2f01, w.refs([w.set("NetworkLocator", [(0x4001, u16s(u))]) for u in v])))
        elif k == "parts":
            it.append((0x3f01, w.refs([write_descriptor(w, p) for p in v])))
    if w.rnd.random() < 0.2:
        it.append((w.tag("Dark"), w.rnd.randbytes(5)))
    unlisted(w, it)
    return w.set(d["kind"], it)


def unlisted(w, it):
    """items under tags the primer does not list"""
    if w.unlisted:
        for k in range(w.rnd.randrange(4)):
            it.append((w.tag("unlisted%d" % w.rnd.randrange(6)), w.rnd.randbytes(4)))


def write_tag(w, t):
    f = t["form"]
    if f == "le":
        v = b"L" + uuid.UUID("01100200-0000-0000-060e-2b3401040101").bytes_le + t["value"].encode("utf-16le")
    elif f == "be":
        v = b"B" + uuid.UUID("01100200-0000-0000-060e-2b3401040101").bytes + t["value"].encode("utf-16be")
    elif f == "int":
        v = b"L" + uuid.UUID("01010700-0000-0000-060e-2b3401040101").bytes_le + struct.pack("<l", t["value"])
    else:
        v = b"L" + uuid.UUID(bytes=w.rnd.randbytes(16)).bytes + b"??"
    it = [(0x5001, u16s(t["name"])), (0x5003, v)]
    if t["attrs"]:
        it.append((w.tag("TaggedValueAttributeList"), w.refs([write_tag(w, x) for x in t["attrs"]])))
    return w.set("TaggedValue", it)


def stamp(d):
    return struct.pack(">HBBBBBB", *(d + [0]))


def write(doc, opts):
    rnd = random.Random(opts["seed"])
    w = Writer(rnd, opts["form"], opts["kag"], opts.get("dyn"))
    w.unlisted = opts.get("before") is not None
    packs = []
    for p in doc:
        it = [(0x4401, p["id"])]
        tr = []
        for t in p["slots"]:
            ti = [(0x4801, struct.pack(">L", t["id"])), (0x4803, write_segment(w, t["segment"]))]
            if t["kind"] == "Track":
                ti += [(0x4b01, rat(t["rate"])), (0x4b02, struct.pack(">q", t["origin"]))]
            if "name" in t:
                ti.append((0x4802, u16s(t["name"])))
            if "number" in t:
                ti.append((0x4804, struct.pack(">L", t["number"])))
            tr.append(w.set(t["kind"], ti))
        it.append((0x4403, w.refs(tr)))
        if "name" in p:
            it.append((0x4402, u16s(p["name"]) + (b"\0\0" if rnd.random() < 0.5 else b"")))
        if "modified" in p:
            it.append((0x4404, stamp(p["modified"])))
        if "created" in p:
            it.append((0x4405, stamp(p["created"])))
        if "usage" in p:
            it.append((0x4408, uuid.UUID(USAGE[p["usage"]]).bytes))
        if "app" in p:
            it.append((w.tag("AppCode"), struct.pack(">l", p["app"])))
        for key, tag in (("comments", 0x4406), ("attrs", None)):
            if p[key]:
                it.append((tag or w.tag("MobAttributeList"), w.refs([write_tag(w, t) for t in p[key]])))
        if "descriptor" in p:
            it.append((0x4701, write_descriptor(w, p["descriptor"])))
        unlisted(w, it)
        packs.append(w.set(p["kind"], it))
    ed = [w.set("EssenceData", [(0x2701, p["id"]), (0x3f07, struct.pack(">L", 1))]) for p in doc[1:2]]
    cs = w.set("ContentStorage", [(0x1901, w.refs(packs)), (0x1902, w.refs(ed))])
    ident = w.set("Identification", [(0x3c01, u16s("check"))])
    if rnd.random() < 0.3:
        w.set("Unknown", [(0x7777, b"abc")])
    w.set("Preface", [(0x3b03, cs), (0x3b09, opts["op"]), (0x3b06, w.refs([ident])), (0x3b05, struct.pack(">H", 259))])
    return w.file(opts["op"], essence=opts["essence"], repeat=opts["repeat"])


# ---------------------------------------------------------------------- oracle

def fr(v):
    return Fraction(v.numerator, v.denominator) if v.denominator else v


def qr(r):
    return (r[0], r[1])


def uid(b):
    """the bytes an AAF file has for a mob id"""
    return b[:16] + uuid.UUID(bytes=bytes(b[16:])).bytes_le


def check_segment(seg, s, what):
    cls = seg.classdef.class_name
    check_eq(cls, s["kind"], what)
    what += "/" + cls
    check_eq(seg.media_kind, s["data"], what + " data definition")
    check_eq(seg.length, s["length"] or 0, what + " length")
    if cls == "SourceClip":
        check_eq((bytes(seg.mob_id.bytes_le), seg.slot_id, seg.start), (uid(s["mob"]), s["slot"], s["start"]), what)
    elif cls == "Timecode":
        check_eq((seg.fps, seg.drop, seg.start), (s["fps"], s["drop"], s["start"]), what)
    elif cls == "ScopeReference":
        check_eq((seg["RelativeScope"].value, seg["RelativeSlot"].value), (s["scope"], s["slot"]), what)
    elif cls in ("Sequence", "EssenceGroup"):
        parts = list(seg["Components" if cls == "Sequence" else "Choices"])
        check_eq(len(parts), len(s["parts"]), what + " parts")
        for i, (a, b) in enumerate(zip(parts, s["parts"])):
            check_segment(a, b, what + "[%d]" % i)
    elif cls == "Pulldown":
        check_eq((seg["PhaseFrame"].value, as_enum(seg["PulldownKind"]), as_enum(seg["PulldownDirection"])), (s["phase"], s["pkind"], s["direction"]), what)
        check_segment(seg["InputSegment"].value, s["part"], what)


def as_enum(p):
    return p.data[0]


def check_descriptor(d, s, path, ama, what):
    check_eq(d.classdef.class_name, CLASS[s["kind"]], what + " descriptor")
    what += "/" + s["kind"]
    want = {k: v for k, v in s.items() if k not in ("kind", "Locator", "parts")}
    if s["kind"] not in ("Import", "Tape"):
        want.setdefault("Length", 0)
    if s["kind"] == "MPEG2":
        want["ResolutionID"] = 4076
    for k in list(U32) + list(RAT) + ["Compression", "BlockAlign", "FrameSampleSize", "ResolutionID", "PixelLayout", "VideoLineMap", "Length", "FrameLayout"]:
        p = d.get(k, None)
        v = p.value if p is not None else None
        if k not in want:
            check(v is None, lambda: "%s: %s is %r, the MXF file has none" % (what, k, v))
            continue
        if k in RAT:
            v = (v.numerator, v.denominator)
        elif k == "Compression":
            v = str(v)
        elif k == "PixelLayout":
            v = [(x["Code"], x["Size"]) for x in v][:len(want[k])]
        elif k == "FrameLayout":
            v = LAYOUTS.index(v)
        elif k == "VideoLineMap":
            v = list(v)
        check_eq(v, want[k], "%s %s" % (what, k))
    loc = d.get("Locator", None)
    urls = [x["URLString"].value for x in (loc.value or [])] if loc is not None else []
    mine = "file://" + path
    given = s.get("Locator", [])
    check_eq([u for u in urls if u != mine], given, what + " locators of the MXF file")
    if s["kind"] in ("PCM", "AES3", "Sound", "RGBA", "Multiple", "Import") or given or (ama and s["kind"] in ("CDCI", "MPEG2")):
        check(mine in urls, what + ": no locator leads to the MXF file")
    if ama and s["kind"] not in ("ANC", "Import", "Tape"):
        check_eq(str(d["MediaContainerGUID"].value), MXF_GUID, what + " container of a linked file")
    if s["kind"] == "Multiple":
        parts = list(d["FileDescriptors"])
        check_eq(len(parts), len(s["parts"]), what + " file descriptors")
        for a, b in zip(parts, s["parts"]):
            check_descriptor(a, b, path, ama, what)


def tag_list(p):
    out = []
    for t in (p.value or []) if p is not None else []:
        out.append((t.name, t.value, tag_list(t.get("TaggedValueAttributeList", None))))
    return out


def want_tags(ts):
    return [(t["name"], t["value"], want_tags(t["attrs"])) for t in ts if t["form"] != "other"]


def verify(f, doc, path, ama, what):
    from aaf2.mobid import MobID
    for p in doc:
        w = what + " " + p["kind"]
        m = f.content.mobs.get(MobID(bytes_le=bytearray(uid(p["id"]))), None)
        check(m is not None, w + ": not found by its id")
        check_eq(m.classdef.class_name, {"MaterialPackage": "MasterMob", "SourcePackage": "SourceMob"}[p["kind"]], w)
        if "name" in p:
            check_eq(m.name, p["name"], w + " name")
        for k, key in (("LastModified", "modified"), ("CreationTime", "created")):
            if key in p:
                check_eq(m[k].value, datetime.datetime(*p[key]), w + " " + k)
        for k, key in (("UsageCode", "usage"), ("AppCode", "app")):
            v = m.get(k, None)
            check_eq(v.value if v is not None else None, p.get(key), w + " " + k)
        check_eq(tag_list(m.get("UserComments", None)), want_tags(p["comments"]), w + " comments")
        check_eq(tag_list(m.get("MobAttributeList", None)), want_tags(p["attrs"]), w + " attributes")
        tracks = [t for t in p["slots"] if t["kind"] == "Track"]
        slots = list(m.slots)
        check_eq([s.slot_id for s in slots], [t["id"] for t in tracks], w + " slots")
        for s, t in zip(slots, tracks):
            ws = "%s slot %d" % (w, t["id"])
            check_eq(s.name or "", t.get("name", ""), ws + " name")
            check_eq((s.edit_rate.numerator, s.edit_rate.denominator, s.origin), t["rate"] + (t["origin"],), ws + " edit rate and origin")
            n = s.get("PhysicalTrackNumber", None)
            check_eq(n.value if n is not None else None, t.get("number"), ws + " physical track")
            check_segment(s.segment, t["segment"], ws)
        if "descriptor" in p:
            check_descriptor(m.descriptor, p["descriptor"], path, ama, w)


@st.composite
def cases(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "sources": draw(st.integers(1, 3)), "form": draw(st.sampled_from([1, 4, 8])),
            "kag": draw(st.sampled_from([1, 1, 16, 512])), "essence": draw(st.sampled_from([0, 10, 5000])), "repeat": draw(st.booleans()),
            "how": draw(st.sampled_from(["link", "link", "ama"])), "disk": draw(st.sampled_from([True, False, False])), "twice": draw(st.booleans()),
            "before": draw(st.one_of(st.none(), st.integers(0, 10 ** 6))), "dyn": draw(st.sampled_from([None, 0x8000])),
            "present": draw(st.integers(0, 4)), "op": draw(st.sampled_from([1, 2, 3]))}


def depth(s):
    return 1 + max([depth(p) for p in s.get("parts", [])] + ([depth(s["part"])] if "part" in s else []) + [0])


def run(value, ctx):
    import aaf2
    from aaf2.mobid import MobID
    rnd = random.Random(value["seed"])
    doc = document(rnd, value["sources"])
    op = UL("060e2b34040101%02x0d0102011000000000" % value["op"])[:16].ljust(16, b"\0")
    data = write(doc, dict(value, op=op))
    path = ctx.path("link.mxf")
    io.open(path, "wb").write(data)
    ama = value["how"] == "ama"
    if value["before"] is not None:
        # another file with its own tags was linked before
        prev = random.Random(value["before"])
        with io.open(ctx.path("before.mxf"), "wb") as b:
            b.write(write(document(prev, 2), {"seed": value["before"], "form": 4, "kag": 1, "essence": 0, "repeat": False, "op": op, "dyn": value["dyn"]}))
        with aaf2.file.AAFFile(None, "wb+") as g:
            g.content.link_external_mxf(ctx.path("before.mxf"))
    out = None
    if value["disk"]:
        out = ctx.path("x.aaf")
        io.open(out, "wb").write(aafgen.template(4096))
        f = aaf2.open(out, "rw")
    else:
        f = aaf2.file.AAFFile(None, "wb+")

    def link():
        if ama:
            with contextlib.redirect_stdout(io.StringIO()):
                return f.content.create_ama_link(path, {})
        return f.content.link_external_mxf(path)

    ok = False
    try:
        keep = None
        if value["present"] < len(doc):
            # one of the packages is in the file already and stays what it is
            keep = doc[value["present"]]
            m = f.create.MasterMob("mine")
            m.mob_id = MobID(bytes_le=bytearray(uid(keep["id"])))
            f.content.mobs.append(m)
        new = [p for p in doc if p is not keep]
        got = link()
        check_eq([bytes(m.mob_id.bytes_le) for m in got], [uid(p["id"]) for p in new], "mobs that linking returned")
        check(all(f.content.mobs.get(m.mob_id) is m for m in got), "the mobs returned are not those in the file")
        verify(f, new, path, ama, "linked")
        if value["twice"]:
            check_eq(list(link()), [], "linking the file again")
            verify(f, new, path, ama, "linked again")
        check_eq(len(list(f.content.mobs)), len(doc), "mobs in the file")
        if keep is not None:
            m = f.content.mobs.get(MobID(bytes_le=bytearray(uid(keep["id"]))))
            check_eq((m.name, len(list(m.slots))), ("mine", 0), "a mob that was there")
        if out:
            want = aafgen.whole(f)
            f.close()
            try:
                _, have = aafref.load(io.open(out, "rb").read())
            except aafref.BadAAF as e:
                raise Violation("the saved file is not valid: %s" % e)
            aafgen.same(have, want, "independent reader")
            f = aaf2.open(out, "r")
            verify(f, new, path, ama, "reopened")
        check(io.open(path, "rb").read() == data, "linking changed the MXF file")
        for p in new:
            for t in p["slots"]:
                ctx.event(t["segment"]["kind"])
            if "descriptor" in p:
                ctx.event(p["descriptor"]["kind"])
        ctx.nontrivial(len(new) >= 2 and any(depth(t["segment"]) >= 2 for p in new for t in p["slots"]))
        ok = True
    finally:
        if out and f.mode == "rb":
            f.close()
        elif out and not ok:
            f.__exit__(Exception, None, None)


OPS = {"OP1a": "0101", "OP1b": "0102", "OP1c": "0103", "OP2a": "0201", "OP3c": "0303", "OPAtom": "1000", None: "7f00"}


def patterns(value, ctx):
    import aaf2
    from aaf2 import mxf
    name, version, seed, prefix = value
    rnd = random.Random(seed)
    op = UL("060e2b34040101%02x0d010201" % version + OPS[name] + "0000")
    if prefix:
        op = bytes([op[0] ^ prefix]) + op[1:]
    doc = document(rnd, 1)
    path = ctx.path("p.mxf")
    io.open(path, "wb").write(write(doc, {"seed": seed, "form": 4, "kag": 1, "essence": 0, "repeat": False, "op": op}))
    want = None if prefix or name is None else name
    check_eq(mxf.MXFFile(path).operation_pattern, want, "operational pattern")
    f = _F.setdefault("f", None) or aaf2.file.AAFFile(None, "wb+")
    _F["f"] = f
    if want != "OPAtom":
        n = len(list(f.content.mobs))
        check(raises(Exception, lambda: f.content.link_external_mxf(path)), "a file that is no OPAtom was linked")
        check_eq(len(list(f.content.mobs)), n, "mobs after the refusal")
        ctx.nontrivial()


_F = {}
TARGETS = [Target("link", lambda tier: cases(), run, quick=500, thorough=8000),
           Target("pattern", lambda tier: st.tuples(st.sampled_from(sorted(OPS, key=str)), st.sampled_from([1, 2, 3]), st.integers(0, 10 ** 6),
                                                    st.sampled_from([0, 0, 0, 1, 128])), patterns, quick=150, thorough=2000)]

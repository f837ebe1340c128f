"""E01: media that is imported comes back bit for bit, described as what it is."""
import io
import os
import random
import struct
from fractions import Fraction
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, raises
from vlib import aafgen, aafref

PROPERTY = "E01"
RULE = ("Media files written by the check's own writers - WAV (plain and extensible, 1 to 8 channels, 16 and 24 bits, any rate, "
        "other chunks around the data), DNxHD and DNxHR streams of every compression id, raw frames of any pixel layout - "
        "are imported, several into one file, from source and master mobs, with and without tape, length and essence. Essence "
        "bytes, descriptor, slots and clips are compared with what the media says, at once and after saving and reopening, and "
        "audio is exported and read by the check's own reader. Non-trivial: stored essence with at least two frames.")
ASSUMPTIONS = ["raw video and DNx streams end with a whole frame", "wav files are complete"]

DNXHD = {1235: 917504, 1237: 606208, 1238: 917504, 1241: 917504, 1242: 606208, 1243: 917504, 1244: 606208, 1250: 458752,
         1251: 458752, 1252: 303104, 1253: 188416, 1256: 1835008, 1258: 212992, 1259: 417792, 1260: 835584}
DNXHR = {1270: (57344, 255), 1271: (28672, 255), 1272: (28672, 255), 1273: (18944, 255), 1274: (5888, 255)}
RATES = [["i", 25], ["i", 24], ["i", 1], ["i", 60], ["t", "30000/1001"], ["t", "24000/1001"], ["t", "25"], ["t", "23.976"], ["f", 30.0], ["f", 12.5],
         ["q", 24000, 1001], ["q", 60000, 1001], ["q", 1, 2], ["a", 30000, 1001], ["a", 50, 2], ["i", 48000], ["i", 7]]


def rate(r):
    """(the value handed in, the fraction it means, the terms stored or None)"""
    from aaf2.rational import AAFRational
    if r[0] == "i":
        return r[1], Fraction(r[1])
    if r[0] == "t":
        return r[1], Fraction(r[1])
    if r[0] == "f":
        return r[1], Fraction(r[1])
    if r[0] == "q":
        return Fraction(r[1], r[2]), Fraction(r[1], r[2])
    return AAFRational("%d/%d" % (r[1], r[2])), Fraction(r[1], r[2])


# ----------------------------------------------------------------------- media

def chunk(cid, data, pad=b"\0"):
    return cid + struct.pack("<L", len(data)) + data + (pad if len(data) % 2 else b"")


def wav_bytes(w):
    """a wav file and its sample bytes"""
    rnd = random.Random(w["seed"])
    width, ch = w["width"], w["channels"]
    frames = rnd.randbytes(w["frames"] * width * ch)
    bps = w["rate"] * ch * width
    fmt = struct.pack("<HHLLHH", 0xFFFE if w["ext"] else 1, ch, w["rate"], bps, ch * width, w["bits"])
    if w["ext"]:
        fmt += struct.pack("<HHL", 22, w["bits"], 0) + bytes.fromhex("0100000000001000800000aa00389b71")
    body = b""
    for k in w["before"]:
        body += chunk([b"LIST", b"JUNK", b"bext", b"fact"][k % 4], rnd.randbytes(k))
    body += chunk(b"fmt ", fmt)
    for k in w["between"]:
        body += chunk([b"LIST", b"JUNK", b"bext", b"fact"][k % 4], rnd.randbytes(k))
    body += chunk(b"data", frames)
    for k in w["after"]:
        body += chunk([b"LIST", b"JUNK", b"id3 ", b"cue "][k % 4], rnd.randbytes(k))
    return b"RIFF" + struct.pack("<L", len(body) + 4) + b"WAVE" + body, frames


def read_wav(data):
    """(channels, width, rate, block, bytes) of a plain wav file"""
    check(data[:4] == b"RIFF" and data[8:12] == b"WAVE", "the exported file is no wav file")
    check_eq(struct.unpack("<L", data[4:8])[0], len(data) - 8, "size in the RIFF header")
    pos, got = 12, {}
    while pos + 8 <= len(data):
        cid, n = data[pos:pos + 4], struct.unpack("<L", data[pos + 4:pos + 8])[0]
        check(pos + 8 + n <= len(data), "chunk beyond the end of the exported file")
        got[cid] = data[pos + 8:pos + 8 + n]
        pos += 8 + n + n % 2
    tag, ch, sr, bps, block, bits = struct.unpack("<HHLLHH", got[b"fmt "][:16])
    check_eq((tag, bps, block), (1, sr * ch * bits // 8, ch * bits // 8), "format of the exported file")
    return ch, bits // 8, sr, got[b"data"]


def dnx_size(cid, w, h):
    if cid in DNXHD:
        return DNXHD[cid]
    num, den = DNXHR[cid]
    n = -(-h // 16) * -(-w // 16) * num // den
    return max(8192, (n + 2048) // 4096 * 4096)


def dnx_frame(d, rnd):
    w, h, cid = d["size"][0], d["size"][1], d["cid"]
    head = bytearray(rnd.randbytes(640))
    if cid in DNXHD:
        head[:5] = bytes.fromhex("0000028001")
    else:
        head[:5] = struct.pack(">HHB", 0, 0x280 + 4 * (d["off"] % 1981), 3)
    head[5] = (head[5] & ~2) | (2 if d["interlaced"] else 0)
    head[24:28] = struct.pack(">HH", h, w)
    head[33] = (head[33] & 0x1F) | {8: 1, 10: 2, 12: 3}[d["bits"]] << 5
    head[40:44] = struct.pack(">L", cid)
    head[44] &= 0xBF
    return bytes(head) + rnd.randbytes(dnx_size(cid, w, h) - 640)


def dnx_bytes(d):
    rnd = random.Random(d["seed"])
    return [dnx_frame(d, rnd) for _ in range(d["frames"])]


# -------------------------------------------------------------------- strategies

def wav(draw):
    width = draw(st.sampled_from([2, 3]))
    ch = draw(st.sampled_from([1, 1, 2, 2, 3, 6, 8]))
    r = draw(st.sampled_from([48000, 44100, 8000, 96000, 100, 7, 1, 32000, 22050]))
    top = 3 * r if r <= 100 else 60000 // (width * ch)
    frames = draw(st.one_of(st.integers(0, max(3, top)), st.sampled_from([0, 1, 2, r if r <= 8000 else 2, 2 * r if r <= 100 else 3])))
    odd = st.lists(st.integers(0, 40), max_size=2)
    return {"kind": "wav", "width": width, "channels": ch, "rate": r, "frames": frames, "seed": draw(st.integers(0, 999)),
            "ext": draw(st.booleans()), "bits": width * 8, "before": draw(odd), "between": draw(odd), "after": draw(odd)}


def dnx(draw):
    cid = draw(st.sampled_from([1253, 1274, 1273, 1272, 1271, 1270, 1252, 1258] * 4 + sorted(DNXHD)))
    size = draw(st.sampled_from([[1920, 1080], [1280, 720], [960, 540], [1440, 1080]])) if cid in DNXHD else \
        draw(st.tuples(st.integers(1, 700), st.integers(1, 500)).map(list) | st.sampled_from([[1920, 1080], [960, 540]]))
    return {"kind": "dnx", "cid": cid, "size": list(size), "interlaced": draw(st.booleans()), "bits": draw(st.sampled_from([8, 10, 12])),
            "frames": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 999)), "off": draw(st.integers(0, 1980)),
            "tail": draw(st.sampled_from([0, 0, 0, 1, 639]))}


def raw(draw):
    layout = draw(st.lists(st.tuples(st.sampled_from(["CompRed", "CompGreen", "CompBlue", "CompAlpha", "CompFill"]), st.sampled_from([8, 8, 10, 16, 1, 5])),
                           min_size=1, max_size=5))
    return {"kind": "raw", "layout": [list(x) for x in layout], "size": [draw(st.integers(1, 90)), draw(st.integers(1, 90))],
            "frames": draw(st.integers(0, 4)), "seed": draw(st.integers(0, 999))}


@st.composite
def imports(draw, tier):
    items = []
    for _ in range(draw(st.integers(1, 3 if tier == "quick" else 6))):
        m = draw(st.sampled_from([wav, wav, dnx, raw]))(draw)
        items.append([m, draw(st.sampled_from(["source", "master"])) if m["kind"] != "raw" else "source",
                      draw(st.sampled_from(RATES)), draw(st.booleans()), draw(st.sampled_from([None, None, 0, 1, 5, 100000])),
                      draw(st.sampled_from([False, False, False, True])), draw(st.integers(0, 10 ** 6))])
    return {"items": items, "disk": draw(st.booleans()), "reuse": draw(st.booleans())}


# ------------------------------------------------------------------------- oracle

def frac(v):
    return Fraction(v.numerator, v.denominator)


def props(d, want, what):
    for k, v in want.items():
        got = d[k].value
        if isinstance(v, Fraction):
            got = frac(got)
        elif hasattr(got, "unique_key") and not isinstance(v, str):
            got = got.unique_key
        check_eq(got, v, "%s %s" % (what, k))


def expected(m, r, length):
    """what the media says: essence bytes, descriptor class, its values, length of the clip"""
    from aaf2.auid import AUID
    if m["kind"] == "wav":
        data, frames = wav_bytes(m)
        ch, w, sr, n = m["channels"], m["width"], m["rate"], m["frames"]
        d = {"Channels": ch, "BlockAlign": ch * w, "SampleRate": Fraction(sr), "AudioSamplingRate": Fraction(sr), "AverageBPS": sr * ch * w,
             "QuantizationBits": 8 * w, "Length": n}
        return data, frames, "PCMDescriptor", d, length or int(n * r / sr), "Sound"
    if m["kind"] == "dnx":
        fr = dnx_bytes(m)
        w, h = m["size"]
        low = "0d" if m["cid"] >= 1270 else "0a"
        d = {"SampleRate": r, "StoredWidth": w, "StoredHeight": h, "ComponentWidth": m["bits"], "HorizontalSubsampling": 2,
             "FrameLayout": "SeparateFields" if m["interlaced"] else "FullFrame", "FrameSampleSize": len(fr[0]), "VideoLineMap": [42, 0],
             "ImageAspectRatio": Fraction(w, h), "Compression": AUID("04010202-71%02x-0000-060e-2b34040101%s" % (m["cid"] - 1234, low)),
             "CodecDefinition": AUID("8ef593f6-9521-4344-9ede-b84e8cfdc7da"),
             "ContainerFormat": AUID("4313b571-d8ba-11d2-809b-006008143e6f"), "Length": m["frames"]}
        return b"".join(fr) + b"\0" * m["tail"], b"".join(fr), "CDCIDescriptor", d, length or m["frames"], "Picture"
    rnd = random.Random(m["seed"])
    w, h = m["size"]
    size = (w * h * sum(b for _, b in m["layout"]) + 7) // 8
    pad = -size % 8192
    fr = [rnd.randbytes(size) for _ in range(m["frames"])]
    d = {"SampleRate": r, "StoredWidth": w, "StoredHeight": h, "ImageAlignmentFactor": 8192, "FrameLayout": "FullFrame", "ImageAspectRatio": Fraction(w, h),
         "PixelLayout": [{"Code": c, "Size": b} for c, b in m["layout"]] + [{"Code": "CompNull", "Size": 0}] * (8 - len(m["layout"])), "FrameSampleSize": size + pad, "Length": len(fr), "VideoLineMap": [42, 0],
         "ImageSize": len(fr) * (size + pad), "ContainerFormat": AUID("4313b571-d8ba-11d2-809b-006008143e6f")}
    return b"".join(fr), b"".join(x + bytes(pad) for x in fr), "RGBADescriptor", d, len(fr), "Picture"


class Item(object):
    pass


def verify(f, it, what):
    from aaf2 import mobs
    src = f.content.mobs.get(it.source)
    check(isinstance(src, mobs.SourceMob), "%s: the source mob is gone" % what)
    check_eq(src.descriptor.classdef.class_name, it.cls, what + " descriptor class")
    props(src.descriptor, it.desc, what)
    if it.cls == "RGBADescriptor":
        check_eq(list(src.descriptor.pixel_layout), it.desc["PixelLayout"], what + " pixel_layout")
    check_eq(src.descriptor.length, it.desc["Length"], what + " descriptor.length")
    e = src.essence
    if it.stored is None:
        check(e is None, what + ": offline media has essence data")
        check(it.source not in f.content.essencedata, what + ": offline media has essence data")
    else:
        check(e is not None and e.mob_id == it.source and e.mob is src, what + ": essence data and mob do not belong together")
        check(f.content.essencedata.get(it.source) is e, what + ": essence data not found by mob id")
        got = e.open("r").read()
        check(bytes(got) == it.stored, lambda: "%s: essence holds %d bytes, the media %d (first difference at %s)" % (
            what, len(got), len(it.stored), next((i for i, (a, b) in enumerate(zip(got, it.stored)) if a != b), "the end")))
    slots = list(src.slots)
    check_eq([s.slot_id for s in slots], [1], what + " slot ids")
    s = slots[0]
    check_eq((frac(s.edit_rate), s.media_kind, s.segment.length, s.length), (it.rate, it.kind, it.length, it.length), what + " slot of the source mob")
    if it.tape:
        tm, start = it.tape
        check_eq((s.segment.mob_id, s.segment.slot_id, s.segment.start), (tm, 1, start), what + " tape clip")
        check(s.segment.mob is f.content.mobs.get(tm), what + ": the clip does not lead to the tape")
    else:
        check(s.segment.mob is None, what + ": a clip without tape leads somewhere")
    if it.master is not None:
        mm = f.content.mobs.get(it.master)
        ms = mm.slot_at(it.mslot)
        check_eq((frac(ms.edit_rate), ms.media_kind, ms.segment.length, ms.segment.start), (it.rate, it.kind, it.length, 0), what + " slot of the master mob")
        check(ms.segment.mob is src and ms.segment.slot is s, what + ": the master's clip does not lead to the imported slot")


def export(f, it, ctx, what):
    if it.cls != "PCMDescriptor" or it.stored is None:
        return
    path = ctx.path("out.wav")
    f.content.mobs.get(it.source).export_audio(path)
    data = io.open(path, "rb").read()
    check_eq(read_wav(data)[:3], (it.desc["Channels"], it.desc["QuantizationBits"] // 8, int(it.desc["SampleRate"])), what + ": exported format")
    check(read_wav(data)[3] == it.stored, what + ": exported samples differ")


def run(value, ctx):
    import aaf2
    path = None
    if value["disk"]:
        path = ctx.path("e.aaf")
        io.open(path, "wb").write(aafgen.template(4096))
        f = aaf2.open(path, "rw")
    else:
        f = aaf2.file.AAFFile(None, "wb+")
    done, tapes, master = [], {}, None
    try:
        for k, (m, how, r, tape, length, offline, seed) in enumerate(value["items"]):
            what = "import %d (%s)" % (k, m["kind"])
            given, r = rate(r)
            it = Item()
            if m["kind"] == "raw":
                offline = length = None
            none_rate = m["kind"] == "wav" and seed % 4 == 0
            if none_rate:
                given, r = None, Fraction(m["rate"])
            media, stored, it.cls, it.desc, it.length, it.kind = expected(m, r, length)
            it.stored, it.rate, it.master, it.tape = (None if offline else stored), r, None, None
            src = ctx.path("m%d.bin" % k)
            io.open(src, "wb").write(media)
            clip = None
            if tape:
                if it.kind not in tapes or seed % 3 == 0:
                    tape_mob = tapes[it.kind] = f.create.SourceMob()
                    f.content.mobs.append(tape_mob)
                    fps = 24 + seed % 7
                    s, tc = tape_mob.create_tape_slots("tape %d" % k, given or 25, fps, drop_frame=bool(seed % 2), media_kind=it.kind.lower(),
                                                       length=[None, 7][seed % 2])
                    check_eq((tape_mob.name, s.slot_id, tc.slot_id, s.media_kind, tc.media_kind), ("tape %d" % k, 1, 2, it.kind, "Timecode"), "tape slots")
                    er = frac(s.edit_rate)
                    check_eq((er, s.segment.length), (r if given is not None else Fraction(25), int(er * 43200)), "rate and 12 hours of tape")
                    check_eq((frac(tc.edit_rate), tc.segment.fps, tc.segment.drop, tc.segment.start, tc.segment.length),
                             (er, fps, bool(seed % 2), 0, [fps * 43200, 7][seed % 2]), "timecode slot of the tape")
                tape_mob = tapes[it.kind]
                clip = tape_mob.create_source_clip(1, seed)
                check_eq(clip.media_kind, it.kind, "media kind of the tape clip")
                it.tape = (tape_mob.mob_id, seed)
            kw = {}
            if length is not None:
                kw["length"] = length
            if offline:
                kw["offline"] = True
            if how == "master":
                if master is None or not value["reuse"]:
                    master = f.create.MasterMob("master %d" % k)
                    f.content.mobs.append(master)
                    if seed % 2:
                        master.create_picture_slot(25)
                ids = [s.slot_id for s in master.slots]
                fn = master.import_audio_essence if m["kind"] == "wav" else master.import_dnxhd_essence
                slot = fn(src, given, clip, **kw)
                check(slot.slot_id not in ids and master.slot_at(slot.slot_id) is slot, what + ": the new slot of the master has no id of its own")
                it.master, it.mslot, it.source = master.mob_id, slot.slot_id, slot.segment.mob_id
            else:
                mob = f.create.SourceMob("source %d" % k)
                f.content.mobs.append(mob)
                if m["kind"] == "wav":
                    slot = mob.import_audio_essence(src, given, clip, **kw)
                elif m["kind"] == "dnx":
                    slot = mob.import_dnxhd_essence(src, given, clip, **kw)
                else:
                    slot = mob.import_rawvideo_essence(src, given, m["size"][0], m["size"][1], [{"Code": c, "Size": b} for c, b in m["layout"]], tape=clip)
                check(slot is mob.slot_at(1), what + ": not the slot of the mob was returned")
                it.source = mob.mob_id
            check_eq(io.open(src, "rb").read() == media, True, what + " left the media as it was")
            os.unlink(src)
            done.append(it)
            if it.stored is not None and it.desc["Length"] >= 2:
                ctx.nontrivial()
            ctx.event(m["kind"] + ("/" + how))
        for k, it in enumerate(done):
            verify(f, it, "item %d" % k)
        for k, it in enumerate(done):
            export(f, it, ctx, "item %d" % k)
        if path:
            want = aafgen.whole(f)
            f.close()
            try:
                _, got = aafref.load(io.open(path, "rb").read())
            except aafref.BadAAF as e:
                raise Violation("the saved file is not valid: %s" % e)
            aafgen.same(got, want, "independent reader")
            f = aaf2.open(path, "r")
            for k, it in enumerate(done):
                verify(f, it, "reopened, item %d" % k)
            for k, it in enumerate(done):
                export(f, it, ctx, "reopened, item %d" % k)
    finally:
        try:
            f.close() if path is None or f.mode == "rb" else f.__exit__(Exception, None, None)
        except Exception:
            pass


# ------------------------------------------------------------------------ parsing

@st.composite
def headers(draw):
    return {"d": dnx(draw), "broken": draw(st.sampled_from([None, None, "prefix", "prefix", "bits", "short"])), "n": draw(st.integers(0, 639)),
            "byte": draw(st.integers(0, 4)), "x": draw(st.integers(1, 255))}


def header(value, ctx):
    from aaf2 import video
    d = dict(value["d"], frames=2)
    frames = dnx_bytes(d)
    h = frames[0]
    b = value["broken"]
    if b is None:
        for part in (h, h[:640], bytearray(h)):
            check_eq(tuple(video.read_dnx_frame_header(bytes(part))), (d["cid"], d["size"][0], d["size"][1], d["bits"], d["interlaced"]), "frame header")
        check_eq(video.dnx_frame_size(d["cid"], d["size"][0], d["size"][1]), len(h), "frame size")
        check(list(video.iter_dnx_stream(io.BytesIO(b"".join(frames) + bytes(d["tail"])))) == frames, "the packets are not the frames of the stream")
        ctx.nontrivial()
        return
    if b == "short":
        bad = h[:value["n"]]
        check(raises(ValueError, lambda: video.read_dnx_frame_header(bad)), "a short header was accepted")
        return
    bad = bytearray(h)
    if b == "bits":
        bad[33] = (bad[33] & 0x1F) | [0, 4, 5, 6, 7][value["n"] % 5] << 5
    else:
        bad[value["byte"]] ^= value["x"]
        v = bytes(bad[:5])
        off = v[2] * 256 + v[3]
        if v == bytes.fromhex("0000028001") or (v[:2] == b"\0\0" and v[4] == 3 and 0x280 <= off <= 0x2170 and off % 4 == 0):
            return
    check(raises(ValueError, lambda: video.read_dnx_frame_header(bytes(bad))), "a broken header was accepted")
    check(raises(ValueError, lambda: list(video.iter_dnx_stream(io.BytesIO(bytes(bad))))), "a broken stream was accepted")
    ctx.nontrivial()


TARGETS = [Target("imports", lambda tier: imports(tier), run, quick=280, thorough=4000),
           Target("dnx headers", lambda tier: headers(), header, quick=900, thorough=8000)]

"""A01: a link to external media describes the media and chains its three mobs."""
import io
import os
import random
import struct
import urllib.parse
from fractions import Fraction
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib import aafgen, aafref
from checks import e01

PROPERTY = "A01"
RULE = ("Media descriptions as ffprobe gives them - wav, aiff and QuickTime, any number and order of video, audio and data streams, "
        "frame rates, sizes, pixel formats, codecs and profiles, channels - with paths of any characters and wav and aiff files from the "
        "check's own writers. The three mobs, their slots, clips, descriptors, locators and comments are compared with the "
        "description, several links in one file, at once and after saving and reopening. Non-trivial: at least two slots.")
ASSUMPTIONS = ["paths are absolute", "a QuickTime file has at least one stream of picture or sound"]

DEPTH = {"": 8, "p10le": 10, "p12le": 12, "p16be": 16, "p10": 10}
SUB = {"420": (2, 2), "422": (2, 1), "444": (1, 1)}
BITS = {"s16": 16, "s32": 32, "flt": 32, "dbl": 64, "u8p": 8, "s16p": 16, "s32p": 32, "fltp": 32, "dblp": 64, "s64": 64, "s64p": 64}
AVC = {"Baseline": "0131-1001-060e-2b340401010d", "Constrained Baseline": "0131-1101-060e-2b340401010d", "Main": "0131-2001-060e-2b340401010d",
       "Extended": "0131-3001-060e-2b340401010d", "High": "0131-4001-060e-2b340401010d", "High 10": "0131-5001-060e-2b340401010d",
       "High 10 Intra": "0132-2001-060e-2b340401010a", "High 4:2:2": "0131-6001-060e-2b340401010d", "High 4:2:2 Intra": "0132-3001-060e-2b340401010a"}
PLAIN = "04010202-0000-0000-060e-2b3404010101"
NAMES = ["clip", "a b", u"caf\u00e9 \u4e2d", "x.y.z", "100%#1?", "~tilde", "UPPER", "semi;colon&amp", "-"]


@st.composite
def media(draw):
    kind = draw(st.sampled_from(["wav", "aiff", "mov", "mov", "mov"]))

    def audio():
        r = draw(st.sampled_from([48000, 44100, 96000, 8000]))
        n = draw(st.integers(1, 10 ** 6))
        return {"codec_type": "audio", "codec_name": draw(st.sampled_from(["pcm_s16le", "aac"])), "sample_rate": str(r), "duration_ts": n,
                "channels": draw(st.sampled_from([1, 2, 2, 6, 8])), "bit_rate": str(draw(st.integers(1, 10 ** 7))),
                "sample_fmt": draw(st.sampled_from(sorted(BITS)))}

    def video():
        v = {"codec_type": "video", "codec_name": draw(st.sampled_from(["h264", "h264", "mjpeg", "prores", "mpeg4"])),
             "width": draw(st.sampled_from([1920, 1, 640, 3840])), "height": draw(st.sampled_from([1080, 1, 480])),
             "avg_frame_rate": draw(st.sampled_from(["25/1", "30000/1001", "24000/1001", "50/2", "60/1"])), "nb_frames": str(draw(st.integers(1, 10 ** 6))),
             "pix_fmt": "yuv" + draw(st.sampled_from(sorted(SUB))) + "p" + draw(st.sampled_from(sorted(DEPTH)))[1:]}
        p = draw(st.sampled_from(sorted(AVC) + ["High 4:4:4", "Whatever", None]))
        if p:
            v["profile"] = p
        return v
    if kind == "mov":
        streams = draw(st.lists(st.sampled_from([audio, video, None]), min_size=1, max_size=5))
        streams = [s() if s else {"codec_type": "data"} for s in streams]
        if all(s["codec_type"] == "data" for s in streams):
            streams.append(audio())
        fmt = {"format_name": "mov,mp4,m4a,3gp,3g2,mj2", "format_long_name": "QuickTime / MOV"}
        wav = None
    else:
        streams = [audio()]
        wav = {"width": draw(st.sampled_from([2, 3])), "channels": streams[0]["channels"], "rate": int(streams[0]["sample_rate"]), "frames": draw(st.integers(0, 50)),
               "seed": draw(st.integers(0, 999)), "ext": draw(st.booleans()), "before": draw(st.lists(st.integers(0, 40), max_size=2)),
               "between": draw(st.lists(st.integers(0, 40), max_size=2)), "after": [1]}
        wav["bits"] = wav["width"] * 8
        fmt = {"format_name": kind, "format_long_name": "WAV / WAVE (Waveform Audio)" if kind == "wav" else "Audio IFF"}
    ext = {"wav": [".wav", ".WAV", ".bwf"], "aiff": [".aif", ".aiff"], "mov": [".mov", ".mp4", ".MOV", ""]}[kind]
    return {"kind": kind, "meta": {"streams": streams, "format": fmt}, "wav": wav, "name": draw(st.sampled_from(NAMES)), "ext": draw(st.sampled_from(ext)),
            "dir": draw(st.sampled_from(["", "sub dir", u"\u00fc#1"])), "aifc": draw(st.booleans()), "viawav": draw(st.booleans())}


def aiff(m):
    """an AIFF file and what of it belongs into the summary"""
    rnd = random.Random(m["wav"]["seed"])

    def chunk(cid, data):
        return cid + struct.pack(">L", len(data)) + data + b"\0" * (len(data) % 2)
    comm = rnd.randbytes(18 + (6 if m["aifc"] else 0))
    body = b"".join(chunk(b"MARK", rnd.randbytes(n)) for n in m["wav"]["before"])
    sig = b"AIFC" if m["aifc"] else b"AIFF"
    rest = chunk(b"SSND", rnd.randbytes(99))
    size = struct.pack(">L", 4 + len(body) + 8 + len(comm) + len(rest))
    return b"FORM" + size + sig + body + chunk(b"COMM", comm) + rest, b"FORM" + size + sig + b"COMM" + struct.pack(">L", len(comm)) + comm


def wav_summary(data):
    i = 12
    while data[i:i + 4] != b"fmt ":
        n = struct.unpack("<L", data[i + 4:i + 8])[0]
        i += 8 + n + n % 2
    n = struct.unpack("<L", data[i + 4:i + 8])[0]
    return data[:12] + data[i:i + 8 + n]


def fr(v):
    return Fraction(v.numerator, v.denominator)


def urls(d):
    return [x["URLString"].value for x in d["Locator"].value]


def check_stream(d, s, url, what):
    if s["codec_type"] == "audio":
        check_eq(d.classdef.class_name, "PCMDescriptor", what)
        r = Fraction(s["sample_rate"])
        check_eq((fr(d["SampleRate"].value), fr(d["AudioSamplingRate"].value), d["Channels"].value, d["QuantizationBits"].value, d["Length"].value),
                 (r, r, s["channels"], BITS[s["sample_fmt"]], s["duration_ts"]), what + " sound")
    else:
        check_eq(d.classdef.class_name, "CDCIDescriptor", what)
        fmt = s["pix_fmt"]
        h, v = SUB[fmt[3:6]]
        bits = DEPTH[fmt[6:] if fmt[6:] in DEPTH else ""]
        comp = PLAIN
        if s["codec_name"] == "mjpeg":
            comp = "0e040201-0205-0100-060e-2b3404010101"
        elif s["codec_name"] == "h264" and s.get("profile") in AVC:
            comp = "04010202-" + AVC[s["profile"]]
        check_eq((d["ComponentWidth"].value, d["HorizontalSubsampling"].value, d["VerticalSubsampling"].value, d["StoredWidth"].value, d["StoredHeight"].value,
                  fr(d["SampleRate"].value), d["Length"].value, str(d["Compression"].value), fr(d["ImageAspectRatio"].value), d["FrameLayout"].value),
                 (bits, h, v, s["width"], s["height"], Fraction(s["avg_frame_rate"]), int(s["nb_frames"]), comp, Fraction(s["width"], s["height"]), "FullFrame"),
                 what + " picture")
    check_eq(urls(d), [url], what + " locator")


def verify(f, L, what):
    m, ids = L["m"], L["ids"]
    master, source, tape = [f.content.mobs.get(i) for i in ids]
    check_eq([x.classdef.class_name for x in (master, source, tape)], ["MasterMob", "SourceMob", "SourceMob"], what)
    check_eq([x.name for x in (master, source, tape)], [m["name"], m["name"] + " <SOURCE MOB>", m["name"] + " <TAPE MOB>"], what + " names")
    streams = m["meta"]["streams"]
    pic = next((s for s in streams if s["codec_type"] == "video"), None)
    snd = next((s for s in streams if s["codec_type"] == "audio"), None)
    want = []
    if pic:
        want.append(("Picture", Fraction(pic["avg_frame_rate"]), int(pic["nb_frames"]), None))
    if snd:
        want += [("Sound", Fraction(snd["sample_rate"]), snd["duration_ts"], n + 1) for n in range(snd["channels"])]
    below = None
    for mob in (tape, source, master):
        slots = list(mob.slots)
        check_eq([(s.media_kind, fr(s.edit_rate), s.length) for s in slots], [w[:3] for w in want], "%s slots of %s" % (what, mob.name))
        for i, s in enumerate(slots):
            comps = list(s.segment.components)
            check_eq([(c.classdef.class_name, c.length, c.start, c.media_kind) for c in comps], [("SourceClip", want[i][2], 0, want[i][0])], what + " clip")
            if below is None:
                check(comps[0].mob is None, what + ": the tape's clip leads somewhere")
            else:
                check(comps[0].mob is below and comps[0].slot is list(below.slots)[i], what + ": the clip does not lead to the slot below")
                n = s.get("PhysicalTrackNumber", None)
                check_eq(n.value if n is not None else None, want[i][3], what + " physical track")
        below = mob
    check_eq(tape.descriptor.classdef.class_name, "ImportDescriptor", what + " tape")
    check_eq(list(source.comments.items()), [("Video", pic["codec_name"])] if pic else [], what + " comments")
    d = source.descriptor
    if m["kind"] != "mov":
        check_eq(d.classdef.class_name, {"wav": "WAVEDescriptor", "aiff": "AIFCDescriptor"}[m["kind"]], what + " descriptor")
        check_eq((fr(d["SampleRate"].value), d["Length"].value, urls(d)), (Fraction(snd["sample_rate"]), snd["duration_ts"], [L["url"]]), what + " descriptor")
        check_eq(bytes(bytearray(d["Summary"].value)), L["summary"], what + " summary")
        check_eq(str(d["ContainerFormat"].value.auid), "4313b571-d8ba-11d2-809b-006008143e6f", what + " container")
        return len(want)
    media = [s for s in streams if s["codec_type"] != "data"]
    if len(media) == 1:
        check_stream(d, media[0], L["url"], what)
        return len(want)
    check_eq(d.classdef.class_name, "MultipleDescriptor", what + " descriptor")
    check_eq((fr(d["SampleRate"].value), d["Length"].value, urls(d)), (want[0][1], want[0][2], [L["url"]]), what + " descriptor")
    parts = list(d["FileDescriptors"])
    check_eq(len(parts), len(media), what + " file descriptors")
    for a, b in zip(parts, media):
        check_stream(a, b, L["url"], what)
    return len(want)


def run(value, ctx):
    import aaf2
    links, disk = value
    out = None
    if disk:
        out = ctx.path("x.aaf")
        io.open(out, "wb").write(aafgen.template(4096))
        f = aaf2.open(out, "rw")
    else:
        f = aaf2.file.AAFFile(None, "wb+")
    done, n = [], 0
    ok = False
    try:
        for k, m in enumerate(links):
            folder = ctx.path("d%d" % k) + ("/" + m["dir"] if m["dir"] else "")
            os.makedirs(folder, exist_ok=True)
            path = folder + "/" + m["name"] + m["ext"]
            if not m["ext"] and "." in m["name"]:
                path += ".mov"
            L = {"m": m, "url": "file://" + urllib.parse.quote(path)}
            if m["kind"] == "wav":
                data = e01.wav_bytes(m["wav"])[0]
                L["summary"] = wav_summary(data)
            elif m["kind"] == "aiff":
                data, L["summary"] = aiff(m)
            if m["kind"] != "mov":
                io.open(path, "wb").write(data)
            meta = {"streams": [dict(s) for s in m["meta"]["streams"]], "format": dict(m["meta"]["format"], filename=path)}
            if m["kind"] == "wav" and m["viawav"]:
                got = f.content.link_external_wav(meta)
            else:
                got = f.content.create_ama_link(path, meta)
            check_eq(len(got), 3, "mobs returned")
            check_eq(meta, {"streams": m["meta"]["streams"], "format": dict(m["meta"]["format"], filename=path)}, "the description after linking")
            L["ids"] = [x.mob_id for x in got]
            check(all(f.content.mobs.get(x.mob_id) is x for x in got), "the mobs returned are not in the file")
            done.append(L)
            ctx.event(m["kind"])
        check_eq(len(list(f.content.mobs)), 3 * len(done), "mobs in the file")
        for k, L in enumerate(done):
            n = max(n, verify(f, L, "link %d" % k))
        if out:
            want = aafgen.whole(f)
            f.close()
            try:
                _, have = aafref.load(io.open(out, "rb").read())
            except aafref.BadAAF as e:
                raise Violation("the saved file is not valid: %s" % e)
            aafgen.same(have, want, "independent reader")
            f = aaf2.open(out, "r")
            for k, L in enumerate(done):
                verify(f, L, "reopened, link %d" % k)
        ctx.nontrivial(n >= 2)
        ok = True
    finally:
        if out and f.mode == "rb":
            f.close()
        elif out and not ok:
            f.__exit__(Exception, None, None)


TARGETS = [Target("links", lambda tier: st.tuples(st.lists(media(), min_size=1, max_size=3), st.sampled_from([True, False])), run, quick=450, thorough=6000)]

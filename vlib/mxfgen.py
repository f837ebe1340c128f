"""Writes small MXF files from the SMPTE 377 layout; independent of the library."""
import random
import struct
import uuid

UL = bytes.fromhex
HEADER, BODY, FOOTER = UL("060e2b34020501010d01020101020400"), UL("060e2b34020501010d01020101030400"), UL("060e2b34020501010d01020101040400")
PRIMER = UL("060e2b34020501010d01020101050100")
FILL = UL("060e2b34010101020301021001000000")
ESSENCE = UL("060e2b34010201010d01030115010500")
SETS = {"Preface": 0x2f, "ContentStorage": 0x18, "MaterialPackage": 0x36, "SourcePackage": 0x37, "Track": 0x3b, "StaticTrack": 0x3a,
        "EventTrack": 0x39, "Sequence": 0x0f, "SourceClip": 0x11, "Timecode": 0x14, "Pulldown": 0x0c, "Filler": 0x09,
        "ScopeReference": 0x0d, "EssenceGroup": 0x05, "Multiple": 0x44, "CDCI": 0x28, "RGBA": 0x29, "ANC": 0x5c, "MPEG2": 0x51, "PCM": 0x48,
        "AES3": 0x47, "Sound": 0x42, "Import": 0x4a, "Tape": 0x2e, "NetworkLocator": 0x32, "EssenceData": 0x23, "TaggedValue": 0x3f,
        "Identification": 0x30, "Unknown": 0x7e}
# properties without a fixed local tag: (AAF id, a tag of our choice)
DYNAMIC = {"FrameSampleSize": "ce2aca50-51ab-11d3-a024-006094eb75cb", "ResolutionID": "ce2aca4d-51ab-11d3-a024-006094eb75cb",
           "AppCode": "96c46992-4f62-11d3-a022-006094eb75cb", "MobAttributeList": "60958183-47b1-11d4-a01c-0004ac969f50",
           "TaggedValueAttributeList": "60958185-47b1-11d4-a01c-0004ac969f50", "Dark": "12345678-1111-2222-3333-444455556666"}


def swapped(auid):
    """the label an AAF id is written as: its halves change places"""
    b = uuid.UUID(auid).bytes
    return b[8:] + b[:8]


def ber(n, form):
    if form == 1 and n < 128:
        return bytes([n])
    size = {1: 4, 4: 4, 8: 9, 3: 4, 5: 5}.get(form, 4)
    size -= 1
    return bytes([0x80 | size]) + n.to_bytes(size, "big")


class Writer(object):
    def __init__(self, rnd, form=4, kag=1, dyn=None):
        self.rnd, self.form, self.kag = rnd, form, kag
        self.sets = []
        self.tags = {}
        self.dyn = dyn or 0x8000 + rnd.randrange(0x7000)

    def id(self):
        return self.rnd.randbytes(16)

    def tag(self, name):
        if name not in self.tags:
            self.tags[name] = self.dyn
            self.dyn += 1 + self.rnd.randrange(3)
        return self.tags[name]

    def set(self, kind, items, iid=None):
        """items: (tag, bytes); returns the instance id"""
        iid = iid or self.id()
        items = [(0x3c0a, iid)] + list(items)
        first, rest = items[:1], items[1:]
        self.rnd.shuffle(rest)
        items = first + rest if self.rnd.random() < 0.7 else rest + first
        key = UL("060e2b34025301010d010101010100" + "00")
        key = key[:14] + bytes([SETS[kind]]) + b"\0"
        body = b"".join(struct.pack(">HH", t, len(d)) + d for t, d in items)
        self.sets.append((key, body))
        return iid

    @staticmethod
    def refs(ids):
        return struct.pack(">LL", len(ids), 16) + b"".join(ids)

    def klv(self, key, body, form=None):
        return key + ber(len(body), self.form if form is None else form) + body

    def file(self, op, index=0, essence=0, repeat=False):
        """the bytes of a whole file with the sets written so far"""
        rnd = self.rnd
        listed = [(n, t) for n, t in self.tags.items() if not n.startswith("unlisted")]
        prim = b"".join(struct.pack(">H", t) + (swapped(DYNAMIC[n])) for n, t in listed)
        primer = self.klv(PRIMER, struct.pack(">LL", len(listed), 18) + prim)
        sets = list(self.sets)
        if rnd.random() < 0.5:
            rnd.shuffle(sets)
        blocks = [primer] + [self.klv(k, b) for k, b in sets]
        for _ in range(rnd.randrange(3)):
            blocks.insert(rnd.randint(1, len(blocks)), self.klv(FILL, bytes(rnd.randrange(40))))
        meta = b"".join(blocks)
        meta += self.pad(len(meta))
        containers = [swapped("0d010301-0201-0101-060e-2b3404010101")] * rnd.randrange(3)

        def pack(key, this, prev, foot, hbc, ibc, sid):
            body = struct.pack(">HHLQQQQQLQL", 1, 2, self.kag, this, prev, foot, hbc, ibc, 0, 0, sid) + op + self.refs(containers)
            k = self.klv(key, body, 4)
            return k + self.pad(len(k))

        head_len = len(pack(HEADER, 0, 0, 0, 0, 0, 0))
        out = b""
        ess = b""
        if essence:
            ess = self.klv(ESSENCE, rnd.randbytes(essence))
            ess += self.pad(len(ess))
        b_at = head_len + len(meta)
        f_at = b_at + len(pack(BODY, 0, 0, 0, 0, 0, 1)) + len(ess)
        out = pack(HEADER, 0, 0, f_at, len(meta), 0, 0) + meta
        out += pack(BODY, b_at, 0, f_at, 0, 0, 1) + ess
        fm = meta if repeat else b""
        out += pack(FOOTER, f_at, b_at, f_at, len(fm), 0, 0) + fm
        return out

    def pad(self, n):
        if self.kag == 1 or n % self.kag == 0:
            return b""
        room = -n % self.kag
        while room < 20:
            room += self.kag
        return FILL + ber(room - 20, 4) + bytes(room - 20)

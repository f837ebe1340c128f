"""Independent reader, validator and writer of the compound file format
(MS-CFB), written from the format's specification.  Shares no code with aaf2."""
import struct

MAGIC = b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1"
DIFSECT, FATSECT, ENDOFCHAIN, FREESECT = 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF
NOSTREAM = 0xFFFFFFFF
RANGE_LOCK_OFFSET = 0x7FFFFF00


class Invalid(Exception):
    pass


class _Bytes(object):
    def __init__(self, data):
        self.data = bytes(data)
        self.size = len(self.data)

    def pread(self, n, pos):
        return self.data[pos:pos + n]


def cfb_key(name):
    """Directory ordering of the specification: length in UTF-16 code units,
    then upper-cased code units."""
    units = name.encode("utf-16le", "surrogatepass")
    up = "".join(c.upper() if len(c.upper()) == 1 else c for c in name)
    ub = up.encode("utf-16be", "surrogatepass")
    return (len(units), ub)


class Entry(object):
    __slots__ = ("id", "name", "type", "color", "left", "right", "child", "clsid", "start", "size", "flags", "ctime", "mtime")


class Parsed(object):
    """tree: path -> ('d', clsid) or ('f', clsid, bytes|None)"""
    def __init__(self):
        self.tree = {}
        self.entries = []
        self.problems = []
        self.stats = {}
        self.chains = {}         # regular streams: path -> sector ids


def parse(data, strict=True, with_data=True, max_problems=20, check_rb=False):
    """Parse a container.  Raises Invalid when it cannot be read at all; lists
    structural problems in result.problems."""
    f = data if hasattr(data, "pread") else _Bytes(data)
    size = f.size
    P = Parsed()

    def bad(msg):
        if len(P.problems) < max_problems:
            P.problems.append(msg)

    h = f.pread(512, 0)
    if len(h) < 512 or h[:8] != MAGIC:
        raise Invalid("bad header")
    (minor, major, order, shift, mshift) = struct.unpack_from("<HHHHH", h, 24)
    if order != 0xFFFE:
        raise Invalid("byte order %x" % order)
    ss = 1 << shift
    if ss not in (512, 4096):
        raise Invalid("sector size %d" % ss)
    if mshift != 6:
        raise Invalid("mini sector shift %d" % mshift)
    (ndir, nfat, dirstart, tsig, cutoff, mfstart, nmf, dfstart, ndf) = struct.unpack_from("<9I", h, 40)
    if cutoff != 4096:
        bad("mini stream cutoff %d" % cutoff)
    P.stats["sector_size"] = ss
    P.stats["major"] = major
    if major not in (3, 4) or (major == 3 and ss != 512):
        bad("version %d with sectors of %d bytes" % (major, ss))
    nsect = max(0, (size + ss - 1) // ss - 1)      # sectors present in the file

    def sector(sid):
        d = f.pread(ss, (sid + 1) * ss)
        if len(d) < ss:
            d = d + bytes(ss - len(d))
        return d

    # ---- DIFAT
    difat = list(struct.unpack_from("<109I", h, 76))
    owner = {}

    def own(sid, who):
        if sid >= nsect:
            bad("%s uses sector %d beyond the end of the file (%d sectors)" % (who, sid, nsect))
        if sid in owner:
            bad("sector %d belongs to %s and to %s" % (sid, owner[sid], who))
        owner[sid] = who

    sid = dfstart
    seen = set()
    count = 0
    difat_sectors = []
    while sid not in (ENDOFCHAIN, FREESECT) and count < max(ndf, 1 if ndf else 0):
        if sid in seen or sid >= nsect:
            raise Invalid("DIFAT chain broken at %d" % sid)
        seen.add(sid)
        difat_sectors.append(sid)
        own(sid, "DIFAT")
        t = struct.unpack("<%dI" % (ss // 4), sector(sid))
        difat.extend(t[:-1])
        sid = t[-1]
        count += 1
    if count != ndf:
        bad("DIFAT chain has %d sectors, header says %d" % (count, ndf))
    if ndf and sid not in (ENDOFCHAIN, FREESECT):
        bad("DIFAT chain does not end (next %d)" % sid)

    # ---- FAT
    fat = []
    fat_sids = []
    gap = False
    for sid in difat:
        if sid in (FREESECT, ENDOFCHAIN):
            gap = True
            continue
        if gap:
            bad("gap in the DIFAT")
            gap = False
        if sid >= nsect:
            raise Invalid("FAT sector %d beyond the end of the file" % sid)
        own(sid, "FAT")
        fat_sids.append(sid)
        fat.extend(struct.unpack("<%dI" % (ss // 4), sector(sid)))
    if len(fat_sids) != nfat:
        bad("DIFAT lists %d FAT sectors, header says %d" % (len(fat_sids), nfat))
    for sid in fat_sids:
        if sid >= len(fat) or fat[sid] != FATSECT:
            bad("FAT sector %d is not marked FATSECT" % sid)
    for sid in difat_sectors:
        if sid >= len(fat) or fat[sid] != DIFSECT:
            bad("DIFAT sector %d is not marked DIFSECT" % sid)

    def chain(start, who, table, limit_owner=True):
        res = []
        got = set()
        sid = start
        while sid != ENDOFCHAIN:
            if sid >= len(table):
                bad("%s: chain entry %#x out of range" % (who, sid))
                return res
            if sid in got:
                bad("%s: cyclic chain at %d" % (who, sid))
                return res
            got.add(sid)
            res.append(sid)
            if limit_owner:
                own(sid, who)
            nxt = table[sid]
            if nxt in (FREESECT, FATSECT, DIFSECT):
                bad("%s: chain runs into %#x after %d" % (who, nxt, sid))
                return res
            sid = nxt
        return res

    # ---- directory
    dirchain = chain(dirstart, "directory", fat)
    if not dirchain:
        raise Invalid("no directory")
    if major >= 4 and ndir != len(dirchain):
        bad("directory has %d sectors, header says %d" % (len(dirchain), ndir))
    entries = []
    for sid in dirchain:
        d = sector(sid)
        for o in range(0, ss, 128):
            e = Entry()
            e.id = len(entries)
            raw = d[o:o + 128]
            (nlen, typ, col, left, right, child) = struct.unpack_from("<HBBIII", raw, 64)
            e.type, e.color, e.left, e.right, e.child = typ, col, left, right, child
            e.clsid = raw[80:96]
            (e.flags, e.ctime, e.mtime, e.start, e.size) = struct.unpack_from("<IQQIQ", raw, 96)
            if ss == 512 and major < 4:
                e.size &= 0xFFFFFFFF
            if typ == 0:
                e.name = None
                if nlen or any(raw[:64]):
                    bad("unused directory entry %d is not empty" % e.id)
            else:
                if nlen > 64 or nlen < 2 or nlen % 2:
                    bad("directory entry %d: name length %d" % (e.id, nlen))
                    nlen = 64
                nm = raw[:max(nlen - 2, 0)]
                if raw[max(nlen - 2, 0):nlen] != b"\0\0":
                    bad("directory entry %d: name is not NUL terminated at %d bytes" % (e.id, nlen))
                e.name = nm.decode("utf-16le", "surrogatepass")
                if any(0xd800 <= ord(c) < 0xe000 for c in e.name):
                    bad("directory entry %d: half a surrogate pair in the name" % e.id)
                if "\0" in e.name:
                    bad("directory entry %d: NUL in the name" % e.id)
                if col not in (0, 1):
                    bad("directory entry %d: color %d" % (e.id, col))
                if typ not in (1, 2, 5):
                    bad("directory entry %d: type %d" % (e.id, typ))
            entries.append(e)
    P.entries = entries
    root = entries[0]
    if root.type != 5:
        raise Invalid("entry 0 is not the root")
    P.root_clsid = root.clsid

    # ---- mini FAT
    minifat = []
    mfchain = []
    if mfstart not in (ENDOFCHAIN, FREESECT):
        mfchain = chain(mfstart, "mini FAT", fat)
        for sid in mfchain:
            minifat.extend(struct.unpack("<%dI" % (ss // 4), sector(sid)))
    if len(mfchain) != nmf:
        bad("mini FAT has %d sectors, header says %d" % (len(mfchain), nmf))
    mini = []
    if root.start not in (ENDOFCHAIN, FREESECT):
        mini = chain(root.start, "mini stream", fat)
    if len(mini) != (root.size + ss - 1) // ss:
        bad("mini stream: %d sectors for %d bytes" % (len(mini), root.size))

    mini_owner = {}

    def mini_chain(start, who):
        res = []
        sid = start
        while sid != ENDOFCHAIN:
            if sid >= len(minifat):
                bad("%s: mini chain entry %#x out of range" % (who, sid))
                return res
            if sid in mini_owner:
                bad("mini sector %d belongs to %s and to %s" % (sid, mini_owner[sid], who))
                return res
            mini_owner[sid] = who
            if (sid + 1) * 64 > root.size:
                bad("%s: mini sector %d beyond the mini stream (%d bytes)" % (who, sid, root.size))
            res.append(sid)
            nxt = minifat[sid]
            if nxt in (FREESECT, FATSECT, DIFSECT):
                bad("%s: mini chain runs into %#x" % (who, nxt))
                return res
            sid = nxt
        return res

    # ---- tree
    reached = {0}
    P.stats["regular"] = P.stats["mini"] = P.stats["storages"] = 0
    P.stats["max_siblings"] = 0

    def walk_storage(e, path):
        """iterative in-order traversal of a storage's sibling tree"""
        if e.child == NOSTREAM:
            return []
        stack = []
        order = []
        cur = e.child
        depth_of = {}

        def visit(nid):
            if nid >= len(entries):
                bad("%s: child id %d out of range" % (path or "/", nid))
                return None
            if nid in reached:
                bad("%s: directory entry %d reached twice" % (path or "/", nid))
                return None
            x = entries[nid]
            if x.type not in (1, 2):
                bad("%s: directory entry %d has type %d" % (path or "/", nid, x.type))
                return None
            reached.add(nid)
            return x
        node = visit(cur)
        # explicit in-order
        while stack or node is not None:
            while node is not None:
                stack.append(node)
                node = visit(node.left) if node.left != NOSTREAM else None
            node = stack.pop()
            order.append(node)
            node = visit(node.right) if node.right != NOSTREAM else None
        for a, b in zip(order, order[1:]):
            if not cfb_key(a.name) < cfb_key(b.name):
                bad("%s: siblings %r and %r are not in directory order" % (path or "/", a.name, b.name))
        P.stats["max_siblings"] = max(P.stats["max_siblings"], len(order))
        if check_rb:
            check_redblack(entries, e.child, path, bad)
        return order

    todo = [(root, "")]
    while todo:
        e, path = todo.pop()
        for c in walk_storage(e, path):
            p = path + "/" + c.name
            if p in P.tree:
                bad("duplicate path %s" % p)
            if c.type == 1:
                P.stats["storages"] += 1
                P.tree[p] = ("d", c.clsid)
                todo.append((c, p))
                continue
            if c.child != NOSTREAM:
                bad("stream %s has a child" % p)
            content = None
            if c.size == 0:
                if c.start not in (ENDOFCHAIN, FREESECT, 0):
                    bad("empty stream %s has start sector %d" % (p, c.start))
                content = b""
            elif c.size < cutoff:
                P.stats["mini"] += 1
                ch = mini_chain(c.start, p)
                if len(ch) != (c.size + 63) // 64:
                    bad("stream %s: %d mini sectors for %d bytes" % (p, len(ch), c.size))
                if with_data:
                    parts = []
                    for m in ch:
                        off = m * 64
                        i, o = divmod(off, ss)
                        if i >= len(mini):
                            bad("stream %s: outside the mini stream" % p)
                            break
                        parts.append(f.pread(64, (mini[i] + 1) * ss + o).ljust(64, b"\0"))
                    content = b"".join(parts)[:c.size]
            else:
                P.stats["regular"] += 1
                ch = chain(c.start, p, fat)
                P.chains[p] = ch
                if len(ch) != (c.size + ss - 1) // ss:
                    bad("stream %s: %d sectors for %d bytes" % (p, len(ch), c.size))
                if with_data:
                    content = b"".join(sector(s) for s in ch)[:c.size]
            P.tree[p] = ("f", c.clsid, content)

    for e in entries:
        if e.type != 0 and e.id not in reached:
            bad("directory entry %d (%r) is not reachable" % (e.id, e.name))
    # ---- leaks
    rl = RANGE_LOCK_OFFSET // ss - 1
    for sid, v in enumerate(fat):
        if v == FREESECT or sid in owner:
            continue
        if sid == rl and v == ENDOFCHAIN:
            continue
        if sid >= nsect and v == FREESECT:
            continue
        bad("sector %d is marked used (%#x) but belongs to nothing" % (sid, v))
    for sid, v in enumerate(minifat):
        if v != FREESECT and sid not in mini_owner:
            bad("mini sector %d is marked used (%#x) but belongs to nothing" % (sid, v))
    if rl in owner and size > RANGE_LOCK_OFFSET:
        bad("the range lock sector belongs to %s" % owner[rl])
    P.stats["fat_sectors"] = len(fat_sids)
    P.stats["difat_sectors"] = len(difat_sectors)
    P.stats["sectors"] = nsect
    return P


def check_redblack(entries, top, path, bad):
    if top == NOSTREAM:
        return
    if entries[top].color == 0:
        bad("%s: the sibling tree has a red root" % (path or "/"))
    # iterative black heights
    heights = {}
    stack = [(top, 0)]
    while stack:
        nid, st = stack.pop()
        e = entries[nid]
        if st == 0:
            stack.append((nid, 1))
            for c in (e.left, e.right):
                if c != NOSTREAM:
                    if e.color == 0 and entries[c].color == 0:
                        bad("%s: red %r has a red child %r" % (path or "/", e.name, entries[c].name))
                    stack.append((c, 0))
        else:
            l = heights.get(e.left, 1) if e.left != NOSTREAM else 1
            r = heights.get(e.right, 1) if e.right != NOSTREAM else 1
            if l != r:
                bad("%s: black heights %d and %d under %r" % (path or "/", l, r, e.name))
            heights[nid] = max(l, r) + (1 if e.color == 1 else 0)


# ------------------------------------------------------------------ writer

def build(tree, sector_size=4096, perm=None, shape=None, dir_perm=None, dir_gaps=0,
          free_gaps=0, colors="rb", major=None, root_clsid=b"\0" * 16, root_name="Root Entry",
          mini_perm=None, mini_gaps=0, trail_free=True, empty_start=ENDOFCHAIN, size_hi=None):
    """Write a container.

    tree: dict path -> ('d', clsid) | ('f', clsid, bytes); parents must be present.
    perm(n): a permutation of range(n) used to place sectors; mini_perm, dir_perm alike.
    shape(names): for each sibling list (sorted), returns the nested (left, i, right) tree.
    """
    ss = sector_size
    perm = perm or (lambda n: list(range(n)))
    mini_perm = mini_perm or (lambda n: list(range(n)))
    dir_perm = dir_perm or (lambda n: list(range(n)))
    shape = shape or balanced
    paths = sorted(tree)
    # directory ids: 0 is the root
    n = len(paths)
    ids = {}
    slots = dir_perm(n + dir_gaps)
    for i, p in enumerate(paths):
        ids[p] = 1 + slots[i]
    ndirents = 1 + n + dir_gaps
    children = {"": []}
    for p in paths:
        if tree[p][0] == "d":
            children[p] = []
    for p in paths:
        children[p.rsplit("/", 1)[0]].append(p)

    links = {}           # id -> [left, right]
    color = {}
    child = {}
    for parent, kids in children.items():
        kids = sorted(kids, key=lambda p: cfb_key(p.rsplit("/", 1)[1]))
        pid = 0 if parent == "" else ids[parent]
        if not kids:
            child[pid] = NOSTREAM
            continue
        t = shape(len(kids))
        cols = rb_colors(t) if colors == "rb" else colors(t) if callable(colors) else None

        def place(t):
            if t is None:
                return NOSTREAM
            l, i, r = t
            me = ids[kids[i]]
            links[me] = (place(l), place(r))
            color[me] = 1 if cols is None else cols[i]
            return me
        child[pid] = place(t)

    # streams
    mini_streams = []
    big = []
    for p in paths:
        if tree[p][0] == "f" and len(tree[p][2]):
            (mini_streams if len(tree[p][2]) < 4096 else big).append(p)
    # mini sectors
    nmini = sum((len(tree[p][2]) + 63) // 64 for p in mini_streams)
    total_mini = nmini + (mini_gaps if nmini else 0)
    mslots = mini_perm(total_mini)
    ministream = bytearray(64 * total_mini)
    per_mf = ss // 4
    nmf = (total_mini + per_mf - 1) // per_mf
    minifat = [FREESECT] * (nmf * per_mf)
    starts = {}
    k = 0
    for p in mini_streams:
        d = tree[p][2]
        cnt = (len(d) + 63) // 64
        ch = [mslots[k + j] for j in range(cnt)]
        k += cnt
        starts[p] = ch[0]
        for j, m in enumerate(ch):
            piece = d[j * 64:(j + 1) * 64]
            ministream[m * 64:m * 64 + len(piece)] = piece
            minifat[m] = ch[j + 1] if j + 1 < cnt else ENDOFCHAIN
    used = [m for m, v in enumerate(minifat) if v != FREESECT]
    last = (max(used) + 1) if used else 0
    ministream = ministream[:last * 64]

    # logical sectors: list of (chain name, payload)
    chains = []
    per_dir = ss // 128
    ndirsect = (ndirents + per_dir - 1) // per_dir
    chains.append(("dir", ndirsect))
    if nmf:
        chains.append(("minifat", nmf))
    nms = (len(ministream) + ss - 1) // ss
    if nms:
        chains.append(("mini", nms))
    for p in big:
        chains.append((p, (len(tree[p][2]) + ss - 1) // ss))
    ndata = sum(c for _, c in chains) + free_gaps
    # FAT and DIFAT sizes
    nfat = 1
    while True:
        ndf = max(0, (nfat - 109 + (per_mf - 2)) // (per_mf - 1))
        if (ndata + nfat + ndf) <= nfat * per_mf:
            break
        nfat += 1
    total = ndata + nfat + ndf
    places = perm(total)
    it = iter(places)
    fat = [FREESECT] * (nfat * per_mf)
    loc = {}
    fat_sids = [next(it) for _ in range(nfat)]
    df_sids = [next(it) for _ in range(ndf)]
    for s in fat_sids:
        fat[s] = FATSECT
    for s in df_sids:
        fat[s] = DIFSECT
    for name, cnt in chains:
        ch = [next(it) for _ in range(cnt)]
        loc[name] = ch
        for j, s in enumerate(ch):
            fat[s] = ch[j + 1] if j + 1 < cnt else ENDOFCHAIN
    used = [i for i, v in enumerate(fat) if v != FREESECT]
    nsect = (max(used) + 1)
    out = bytearray((nsect + 1) * ss)

    def put(sid, data):
        out[(sid + 1) * ss:(sid + 1) * ss + len(data)] = data

    # directory entries
    dirbuf = bytearray(ndirsect * ss)

    def put_entry(i, name, typ, col, l, r, c, clsid, start, size):
        nm = name.encode("utf-16le")
        if size_hi is not None and ss == 512 and major in (None, 3):
            # version 3: the upper half of the size is to be ignored
            size |= size_hi(i) << 32
        struct.pack_into("<64sHBBIII16sIQQIQ", dirbuf, i * 128, nm, len(nm) + 2, typ, col, l, r, c,
                         clsid, 0, 0, 0, start, size)
    for i in range(ndirsect * per_dir):
        struct.pack_into("<III", dirbuf, i * 128 + 68, NOSTREAM, NOSTREAM, NOSTREAM)
    put_entry(0, root_name, 5, 1, NOSTREAM, NOSTREAM, child[0], root_clsid,
              loc["mini"][0] if nms else ENDOFCHAIN, len(ministream))
    for p in paths:
        i = ids[p]
        nm = p.rsplit("/", 1)[1]
        l, r = links[i]
        if tree[p][0] == "d":
            put_entry(i, nm, 1, color[i], l, r, child[i], tree[p][1], 0, 0)
        else:
            d = tree[p][2]
            if not d:
                st = empty_start
            elif p in starts:
                st = starts[p]
            else:
                st = loc[p][0]
            put_entry(i, nm, 2, color[i], l, r, NOSTREAM, tree[p][1], st, len(d))
    for j, s in enumerate(loc["dir"]):
        put(s, dirbuf[j * ss:(j + 1) * ss])
    for j, s in enumerate(loc.get("minifat", [])):
        put(s, struct.pack("<%dI" % per_mf, *minifat[j * per_mf:(j + 1) * per_mf]))
    for j, s in enumerate(loc.get("mini", [])):
        put(s, ministream[j * ss:(j + 1) * ss])
    for p in big:
        for j, s in enumerate(loc[p]):
            put(s, tree[p][2][j * ss:(j + 1) * ss])
    for j, s in enumerate(fat_sids):
        put(s, struct.pack("<%dI" % per_mf, *fat[j * per_mf:(j + 1) * per_mf]))
    difat = fat_sids + [FREESECT] * max(0, 109 - len(fat_sids))
    head, rest = difat[:109], difat[109:]
    for j, s in enumerate(df_sids):
        part = rest[j * (per_mf - 1):(j + 1) * (per_mf - 1)]
        part = part + [FREESECT] * (per_mf - 1 - len(part))
        part.append(df_sids[j + 1] if j + 1 < ndf else ENDOFCHAIN)
        put(s, struct.pack("<%dI" % per_mf, *part))
    if major is None:
        major = 4 if ss == 4096 else 3
    hdr = bytearray(512)
    hdr[:8] = MAGIC
    struct.pack_into("<HHHHH", hdr, 24, 0x3E, major, 0xFFFE, 12 if ss == 4096 else 9, 6)
    struct.pack_into("<9I", hdr, 40, ndirsect if major >= 4 else 0, nfat, loc["dir"][0], 0, 4096,
                     loc["minifat"][0] if nmf else ENDOFCHAIN, nmf,
                     df_sids[0] if ndf else ENDOFCHAIN, ndf)
    struct.pack_into("<109I", hdr, 76, *head)
    out[:512] = hdr
    return bytes(out)


def balanced(n, lo=0):
    if n <= 0:
        return None
    m = n // 2
    return (balanced(m, lo), lo + m, balanced(n - m - 1, lo + m + 1))


def left_spine(n):
    t = None
    for i in range(n):
        t = (t, i, None)
    return t


def right_spine(n):
    t = None
    for i in reversed(range(n)):
        t = (None, i, t)
    return t


def from_insert_order(order):
    """plain BST built by inserting order (a permutation of range(n))"""
    root = None
    for k in order:
        if root is None:
            root = [None, k, None]
            continue
        cur = root
        while True:
            side = 0 if k < cur[1] else 2
            if cur[side] is None:
                cur[side] = [None, k, None]
                break
            cur = cur[side]

    def tup(t):
        return None if t is None else (tup(t[0]), t[1], tup(t[2]))
    return tup(root)


def rb_colors(t):
    """Colour a (balanced) tree so that it is a valid red-black tree: nodes on
    the incomplete deepest level are red.  Returns None when impossible."""
    def depth(t):
        return 0 if t is None else 1 + max(depth(t[0]), depth(t[2]))
    d = depth(t)

    def mindepth(t):
        return 0 if t is None else 1 + min(mindepth(t[0]), mindepth(t[2]))
    full = mindepth(t)
    cols = {}

    def go(t, lvl):
        if t is None:
            return
        cols[t[1]] = 0 if (lvl == d and d > full and lvl > 1) else 1
        go(t[0], lvl + 1)
        go(t[2], lvl + 1)
    go(t, 1)
    return cols


def random_rb(n, rnd):
    """A random valid red-black tree of n nodes: (tree, {index: 1 black / 0 red})."""
    max_b, max_a = [0], [1]
    while max_b[-1] < n:
        max_b.append(1 + 2 * max_a[-1])
        max_a.append(2 * max_b[-1] + 1)

    def min_b(h):
        return 2 ** h - 1
    cols = {}

    def split(n, lo_, hi_):
        a = max(lo_, n - 1 - hi_)
        b = min(hi_, n - 1 - lo_)
        return rnd.randint(a, b)

    def gen(lo, n, h, may_red):
        if n == 0:
            return None
        black_ok = h > 0 and min_b(h) <= n <= max_b[h]
        red_ok = may_red and 2 * min_b(h) + 1 <= n <= max_a[h]
        red = red_ok and (not black_ok or rnd.random() < 0.5)
        if red:
            k = split(n, min_b(h), max_b[h])
            t = (gen(lo, k, h, False), lo + k, gen(lo + k + 1, n - 1 - k, h, False))
        else:
            k = split(n, min_b(h - 1), max_a[h - 1])
            t = (gen(lo, k, h - 1, True), lo + k, gen(lo + k + 1, n - 1 - k, h - 1, True))
        cols[lo + k] = 0 if red else 1
        return t
    hs = [h for h in range(len(max_b)) if min_b(h) <= n <= max_b[h]]
    t = gen(0, n, rnd.choice(hs), False)
    return t, cols


def build_huge(sector_size, nbig, rangelock_marked=True):
    """A sparse container whose only stream, /big, occupies nbig sectors of
    zeros, FAT and DIFAT included, without writing the data. Returns a
    SparseFile and the sector ids of /big."""
    from .memfile import SparseFile
    ss = sector_size
    per = ss // 4
    rl = RANGE_LOCK_OFFSET // 4096 - 1 if ss == 4096 else -1
    f = SparseFile()
    fat_sids, df_sids = [], []
    fat = []
    ids = []
    sid = 0
    dirsid = None
    import array
    fat = array.array("I")
    prev = None
    while len(ids) < nbig or dirsid is None:
        if sid >= len(fat):
            fat.extend([FREESECT] * per)
            fat_sids.append(sid)
            fat[sid] = FATSECT
            sid += 1
            need = max(0, (len(fat_sids) - 109 + (per - 2)) // (per - 1))
            if need > len(df_sids):
                df_sids.append(sid)
                fat[sid] = DIFSECT
                sid += 1
            continue
        if sid == rl:
            if rangelock_marked:
                fat[sid] = ENDOFCHAIN
        elif dirsid is None:
            dirsid = sid
            fat[sid] = ENDOFCHAIN
        else:
            if prev is not None:
                fat[prev] = sid
            ids.append(sid)
            fat[sid] = ENDOFCHAIN
            prev = sid
        sid += 1

    def put(s, data):
        f.seek((s + 1) * ss)
        f.write(data)
    for j, s in enumerate(fat_sids):
        put(s, struct.pack("<%dI" % per, *fat[j * per:(j + 1) * per]))
    rest = fat_sids[109:]
    for j, s in enumerate(df_sids):
        part = rest[j * (per - 1):(j + 1) * (per - 1)]
        part = part + [FREESECT] * (per - 1 - len(part))
        part.append(df_sids[j + 1] if j + 1 < len(df_sids) else ENDOFCHAIN)
        put(s, struct.pack("<%dI" % per, *part))
    d = bytearray(ss)

    def entry(i, name, typ, child, start, size):
        nm = name.encode("utf-16le")
        struct.pack_into("<64sHBBIII16sIQQIQ", d, i * 128, nm, len(nm) + 2, typ, 1, NOSTREAM, NOSTREAM, child,
                         b"\0" * 16, 0, 0, 0, start, size)
    for i in range(ss // 128):
        struct.pack_into("<III", d, i * 128 + 68, NOSTREAM, NOSTREAM, NOSTREAM)
    entry(0, "Root Entry", 5, 1 if nbig else NOSTREAM, ENDOFCHAIN, 0)
    if nbig:
        entry(1, "big", 2, NOSTREAM, ids[0], nbig * ss)
    put(dirsid, d)
    hdr = bytearray(512)
    hdr[:8] = MAGIC
    struct.pack_into("<HHHHH", hdr, 24, 0x3E, 4, 0xFFFE, 12 if ss == 4096 else 9, 6)
    struct.pack_into("<9I", hdr, 40, 1, len(fat_sids), dirsid, 0, 4096, ENDOFCHAIN, 0,
                     df_sids[0] if df_sids else ENDOFCHAIN, len(df_sids))
    head = (fat_sids + [FREESECT] * 109)[:109]
    struct.pack_into("<109I", hdr, 76, *head)
    f.seek(0)
    f.write(hdr)
    f.truncate((sid + 1) * ss)
    return f, ids

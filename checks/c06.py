"""C06: damaged and truncated containers end in data or in an error."""
import random
import resource
import struct

from hypothesis import strategies as st
from vlib import cfbref, runner
from vlib.cfbmodel import data_of, sizes, NAMES
from vlib.memfile import MemFile
from vlib.runner import Target, Violation, check, check_eq
from checks.c04 import make_tree, layout

PROPERTY = "C06"
RULE = ("A valid container is laid out by our own writer (C04's layouts), or an AAF file is written, and damaged: cut short at "
        "any byte; header fields, allocation table entries, directory entry fields and bytes overwritten with plausible "
        "sector and entry numbers, the format's special values or noise; or only the data, chain or size of one stream. It is "
        "opened for reading and read in full, or opened for editing, edited and closed, in 20 s of CPU, 300 MB and a file that "
        "counts writes. A cut container that our parser takes with its missing bytes as zeros must be read as exactly that; "
        "one it takes after the damage, as exactly what it then holds; with one stream damaged every other stream must be read "
        "as before. Non-trivial: the damage changes at least one byte that is in use.")
ASSUMPTIONS = ["any exception other than MemoryError counts as an error report"]

CPU = 20.0
MEMORY = 300 << 20
small = st.integers(0, 2**32 - 1)


class Budget(object):
    """CPU time and address space for what is done with a damaged file."""

    def __enter__(self):
        with open("/proc/self/statm") as f:
            used = int(f.read().split()[0]) * resource.getpagesize()
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        new = used + MEMORY
        if self.old[0] > 0:
            new = min(new, self.old[0])
        resource.setrlimit(resource.RLIMIT_AS, (new, self.old[1]))
        runner._arm(CPU)
        return self

    def __exit__(self, t, e, tb):
        resource.setrlimit(resource.RLIMIT_AS, self.old)
        if t is not None and issubclass(t, MemoryError):
            raise Violation("more than %d MB of memory for a file of a few hundred KB" % (MEMORY >> 20))
        return False


def tree_spec():
    entry = st.tuples(st.integers(0, 30), st.sampled_from(NAMES), st.sampled_from("dfff"), sizes())
    many = st.tuples(st.integers(0, 30), st.integers(1, 40), st.sampled_from("df"))
    return st.tuples(
        st.sampled_from([512, 512, 4096]),
        st.tuples(st.lists(entry, min_size=1, max_size=14), st.lists(many, max_size=1)),
        st.tuples(small, st.sampled_from(["balanced", "left", "right", "order", "rb", "zigzag"]),
                  st.booleans(), st.booleans(), st.booleans(), st.integers(0, 4), st.integers(0, 3), st.integers(0, 3)))


def opened(data, mode="rb"):
    from aaf2.cfb import CompoundFileBinary
    f = MemFile(data, readonly=mode == "rb")
    return f, CompoundFileBinary(f, mode)


def read_streams(cfb, found):
    """path -> bytes or the exception; entries are visited in a walk"""
    seen = 0
    for root, storages, streams in cfb.walk():
        for s in streams:
            seen += 1
            if seen > 5000:
                return
            p = s.path()
            try:
                found[p] = bytes(s.open().read())
            except MemoryError:
                raise
            except Exception as e:
                found[p] = e
        for s in storages:
            s.path()


def must_equal(data, tree, what):
    """The container is read as exactly this tree."""
    with Budget():
        f, c = opened(data)
        got = {}
        for root, storages, streams in c.walk():
            for s in storages:
                got[s.path()] = ("d",)
            for s in streams:
                got[s.path()] = ("f", bytes(s.open().read()))
    want = {p: ("d",) if e[0] == "d" else ("f", e[2]) for p, e in tree.items()}
    check_eq(sorted(got), sorted(want), what, "entries")
    for p in want:
        check_eq(got[p], want[p], what, p)


def survive(data, what):
    """Reading it all ends; returns what was read."""
    found = {}
    f = None
    try:
        with Budget():
            f, c = opened(data)
            read_streams(c, found)
            c.close()
    except MemoryError:
        raise
    except Violation:
        raise
    except Exception as e:
        found["!"] = e
    check(f is None or f.writes == 0, what, "- reading wrote to the file")
    return found


# --- cut short -----------------------------------------------------------------

def run_cut(v, ctx):
    (ss, spec, lay), where, fine = v
    tree = make_tree(spec)
    data, rb = layout(tree, ss, lay)
    n = len(data) // ss
    cut = min(len(data) - 1, (where * n // 1000 + 1) * ss + (fine if fine < ss else 0)) if where < 980 else len(data) * (where - 979) // 22
    got = survive(data[:cut], "cut at %d" % cut)
    try:
        P = cfbref.parse(data[:cut] + bytes(len(data) - cut))
    except cfbref.Invalid:
        P = None
    if P is not None and not P.problems:
        must_equal(data[:cut], P.tree, "container cut at %d of %d" % (cut, len(data)))
        ctx.event("intact tables")
        if any(e[0] == "f" and e[2] != tree[p][2] for p, e in P.tree.items()):
            ctx.event("data missing")
            ctx.nontrivial()
    else:
        ctx.event("refused" if "!" in got else "partly read")
        ctx.nontrivial()


# --- any damage ------------------------------------------------------------------

SPECIAL = [0, 1, 2, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC, 0xFFFFFFFA, 0x7FFFFFFF]
HEADER = [24, 26, 28, 30, 32, 40, 44, 48, 52, 56, 60, 64, 68, 72, 76, 80, 84]
ENTRY = [0, 2, 64, 66, 67, 68, 68, 72, 72, 76, 76, 76, 80, 96, 100, 116, 116, 120, 120, 124]
hit = st.tuples(st.sampled_from(["fat", "fat", "fat", "minifat", "dir", "dir", "dir", "hdr", "difat", "bytes", "zero", "same"]),
                small, small, small)


def damage(data, ss, hits):
    b = bytearray(data)
    nsec = len(b) // ss - 1
    words = struct.unpack_from("<9I", data, 40)
    fats = [s for s in struct.unpack_from("<109I", data, 76) if s < nsec]

    def value(w):
        k = w % 8
        w >>= 3
        if k == 0:
            return SPECIAL[w % len(SPECIAL)]
        if k == 1:
            return w & 0x1FFFFFFF
        if k == 2:
            return nsec + w % 4
        if k == 3:
            return w % 16
        return w % max(1, nsec)

    def put(o, w):
        if 0 <= o <= len(b) - 4:
            struct.pack_into("<I", b, o, w)

    def chain(sid):
        out = []
        while sid < nsec and sid not in out:
            out.append(sid)
            t = fats[sid // (ss // 4)] if sid // (ss // 4) < len(fats) else None
            if t is None:
                break
            sid = struct.unpack_from("<I", data, (t + 1) * ss + sid % (ss // 4) * 4)[0]
        return out
    dirs = chain(words[2])
    minis = chain(words[5])
    for kind, i, j, w in hits:
        if kind == "fat" and fats:
            e = i % nsec
            put((fats[e // (ss // 4) % len(fats)] + 1) * ss + e % (ss // 4) * 4, value(w))
        elif kind == "minifat" and minis:
            put((minis[i % len(minis)] + 1) * ss + j % (ss // 4) * 4, value(w))
        elif kind == "dir" and dirs:
            e = i % (len(dirs) * ss // 128)
            o = (dirs[e * 128 // ss] + 1) * ss + e * 128 % ss
            f = ENTRY[j % len(ENTRY)]
            if f in (66, 67):
                b[o + f] = w % 7
            elif f == 64:
                struct.pack_into("<H", b, o + f, w % 70)
            elif f in (68, 72, 76):
                put(o + f, value(w) if w % 3 == 0 else w // 3 % (len(dirs) * ss // 128))
            else:
                put(o + f, value(w))
        elif kind == "hdr":
            f = HEADER[j % len(HEADER)]
            if f < 40:
                struct.pack_into("<H", b, f, w % 20)
            else:
                put(f, value(w))
        elif kind == "difat":
            put(76 + 4 * (i % 109), value(w))
        elif kind == "bytes":
            b[i % len(b)] = w & 255
        elif kind == "zero":
            o = i % len(b) // 64 * 64
            b[o:o + 64] = bytes(len(b[o:o + 64]))
        elif kind == "same":
            # one sector becomes a copy of another
            s, t = i % nsec, j % nsec
            b[(s + 1) * ss:(s + 2) * ss] = data[(t + 1) * ss:(t + 2) * ss]
            del b[len(data):]
    return bytes(b)


def run_damage(v, ctx):
    (ss, spec, lay), hits = v
    tree = make_tree(spec)
    data, rb = layout(tree, ss, lay)
    bad = damage(data, ss, hits)
    got = survive(bad, "damaged container")
    ctx.nontrivial(bad != data)
    try:
        P = cfbref.parse(bad)
    except cfbref.Invalid:
        ctx.event("not a container any more")
        return
    ctx.event("refused" if "!" in got else "read")
    if any(isinstance(x, Exception) for x in got.values()) and "!" not in got:
        ctx.event("some streams refused")
    if not P.problems and ss == 1 << bad[30]:
        ctx.event("valid after damage")
        must_equal(bad, P.tree, "damaged container that is still valid")


# --- one stream -------------------------------------------------------------------

def run_one(v, ctx):
    (ss, spec, lay), which, kind, a, w = v
    tree = make_tree(spec)
    data, rb = layout(tree, ss, lay)
    P = cfbref.parse(data)
    names = sorted(p for p, e in tree.items() if e[0] == "f" and e[2])
    big = [p for p in names if p in P.chains]
    if not names:
        return
    path = (big or names)[which % len(big or names)] if kind in ("data", "chain") else names[which % len(names)]
    ent = [e for e in P.entries if e.name == path.rsplit("/", 1)[1] and e.size == len(tree[path][2]) and e.type == 2]
    if len(ent) != 1:
        return
    b = bytearray(data)
    nsec = len(data) // ss - 1
    want = None
    if kind == "data" and path in P.chains:
        i = a % len(tree[path][2])
        b[(P.chains[path][i // ss] + 1) * ss + i % ss] ^= 1 + w % 255
        want = bytearray(tree[path][2])
        want[i] ^= 1 + w % 255
    elif kind == "chain" and path in P.chains:
        s = P.chains[path][a % len(P.chains[path])]
        t = struct.unpack_from("<109I", data, 76)[s // (ss // 4)]
        struct.pack_into("<I", b, (t + 1) * ss + s % (ss // 4) * 4,
                         [SPECIAL[w // 4 % len(SPECIAL)], w % nsec, P.chains[path][w % len(P.chains[path])], nsec + w % 9][w % 4])
    else:
        dirs = struct.unpack_from("<I", data, 48)[0]
        o = data.find(path.rsplit("/", 1)[1].encode("utf-16le").ljust(64, b"\0"))
        while o >= 0 and (o % 128 or struct.unpack_from("<Q", data, o + 120)[0] != ent[0].size):
            o = data.find(path.rsplit("/", 1)[1].encode("utf-16le").ljust(64, b"\0"), o + 1)
        if o < 0:
            return
        if kind == "start":
            struct.pack_into("<I", b, o + 116, [SPECIAL[w // 4 % len(SPECIAL)], w % nsec, nsec + w % 9, w][w % 4])
        else:
            struct.pack_into("<Q" if ss > 512 else "<I", b, o + 120,
                             [w, w % 5000, len(tree[path][2]) + w % 9000, 1 << w % (40 if ss > 512 else 31)][w % 4])
    got = survive(bytes(b), "container with %s of %s damaged" % (kind, path))
    check("!" not in got, "damage to the", kind, "of", path, "stops all reading:", got.get("!"))
    check_eq(sorted(got), sorted(p for p, e in tree.items() if e[0] == "f"), "streams found with", kind, "of", path, "damaged")
    for p in got:
        if p != path:
            check(not isinstance(got[p], Exception), "stream", p, "cannot be read after damage to", path, repr(got[p]))
            check_eq(got[p], tree[p][2], "stream", p, "after damage to the", kind, "of", path)
    if want is not None:
        check_eq(got[path], bytes(want), "stream with a damaged byte")
    ctx.event(kind + (" refused" if isinstance(got[path], Exception) else " read"))
    ctx.nontrivial(bytes(b) != data)


# --- editing -----------------------------------------------------------------------

def run_edit(v, ctx):
    (ss, spec, lay), hits, ops = v
    tree = make_tree(spec)
    data, rb = layout(tree, ss, lay)
    bad = damage(data, ss, hits)
    done = failed = 0
    paths = sorted(tree) + ["/", "/new"]
    try:
        with Budget():
            f, c = opened(bad, "rb+")
            for k, i, j, n in ops:
                p, q = paths[i % len(paths)], paths[j % len(paths)]
                try:
                    if k == "write":
                        s = c.open(p, "w")
                        s.write(data_of(n, i))
                    elif k == "append":
                        s = c.open(p, "rw")
                        s.seek(0, 2)
                        s.write(data_of(n, i))
                    elif k == "cut":
                        s = c.open(p, "rw")
                        s.seek(min(n, 100000))
                        s.truncate()
                    elif k == "remove":
                        c.remove(p)
                    elif k == "rmtree":
                        c.rmtree(p)
                    elif k == "move":
                        c.move(p, q + "x")
                    elif k == "mkdir":
                        c.makedir(p + "d")
                    else:
                        list(c.listdir(p))
                    done += 1
                except MemoryError:
                    raise
                except Exception:
                    failed += 1
            c.close()
    except MemoryError:
        raise
    except Violation:
        raise
    except Exception:
        ctx.event("refused")
    if done:
        ctx.event("edited")
    if failed:
        ctx.event("edit refused")
    ctx.nontrivial(bad != data)


# --- AAF ----------------------------------------------------------------------------

_aaf = {}


def aaf_bytes(seed, ss, path):
    key = (seed % 6, ss)
    if key not in _aaf:
        import aaf2
        rnd = random.Random(key[0])
        with aaf2.open(path, "w", sector_size=ss) as f:
            mobs = []
            for i in range(rnd.randint(1, 4)):
                m = f.create.SourceMob("m%d" % i)
                m.descriptor = f.create.ImportDescriptor()
                f.content.mobs.append(m)
                for j in range(rnd.randint(0, 3)):
                    s = m.create_sound_slot(25)
                    for k in range(rnd.randint(0, 3)):
                        s.segment.components.append(mobs[0].create_source_clip(1, length=3) if mobs and rnd.random() < .5
                                                    else f.create.Filler("sound", k))
                if len(m.slots):
                    mobs.append(m)
                m.comments["c"] = "x" * i
            e = f.create.EssenceData()
            e.mob_id = m.mob_id
            f.content.essencedata.append(e)
            e.open("w").write(data_of(6000, seed))
        with open(path, "rb") as f:
            _aaf[key] = f.read()
    return _aaf[key]


def visit(obj, budget, depth=0):
    """Read everything of an object."""
    import aaf2
    for p in list(obj.properties()):
        budget[0] -= 1
        if budget[0] < 0:
            return
        try:
            v = p.value
        except MemoryError:
            raise
        except Exception:
            continue
        if "Weak" in type(p).__name__:
            try:
                list(v) if hasattr(v, "__iter__") else None
            except MemoryError:
                raise
            except Exception:
                pass
            continue
        if isinstance(v, aaf2.core.AAFObject):
            items = [v]
        elif hasattr(v, "open"):
            try:
                v.open().read()
            except MemoryError:
                raise
            except Exception:
                pass
            continue
        elif isinstance(v, (str, bytes, bytearray, dict, int, float)) or not hasattr(v, "__iter__"):
            continue
        else:
            items = v
        try:
            for x in items:
                if isinstance(x, aaf2.core.AAFObject) and depth < 12:
                    visit(x, budget, depth + 1)
        except MemoryError:
            raise
        except Exception:
            pass


def run_aaf(v, ctx):
    import aaf2
    seed, ss, kind, hits, edits = v
    data = aaf_bytes(seed, ss, ctx.path("base.aaf"))
    if kind == "container":
        bad = damage(data, ss, hits)
    else:
        # well formed container, damaged streams of the object layer
        P = cfbref.parse(data)
        tree = dict(P.tree)
        names = sorted(p for p, e in tree.items() if e[0] == "f" and e[2] and "Data" not in p)
        for where, i, w in edits:
            special = [p for p in names if "index" in p or "referenced" in p]
            p = special[where % len(special)] if where % 3 == 0 else names[where % len(names)]
            d = bytearray(tree[p][2])
            if not d:
                continue
            o = i % len(d)
            if w % 5 == 0:
                del d[o:]
            elif w % 5 == 1:
                d[o] = w >> 3 & 255
            elif w % 5 == 2:
                d[o:o + 2] = struct.pack("<H", [0, 0xFFFF, w >> 3 & 0xFFFF, w % 40][w % 4])
            elif w % 5 == 3:
                d[o:o + 4] = struct.pack("<I", [0, 0xFFFFFFFF, w, 1 << w % 32][w % 4])
            else:
                d += bytes(d[:o])
            tree[p] = ("f", tree[p][1], bytes(d))
        bad = cfbref.build(tree, sector_size=ss, root_clsid=P.root_clsid)
    name = ctx.path("bad.aaf")
    with open(name, "wb") as f:
        f.write(bad)
    try:
        with Budget():
            with aaf2.open(name, "r") as f:
                budget = [20000]
                visit(f.root, budget)
                ctx.event("opened")
                for m in f.content.mobs:
                    try:
                        list(m.dependant_mobs())
                    except MemoryError:
                        raise
                    except Exception:
                        ctx.event("mob refused")
    except MemoryError:
        raise
    except Violation:
        raise
    except Exception as e:
        ctx.event("refused")
    with open(name, "rb") as f:
        check(f.read() == bad, "reading a damaged file changed it")
    ctx.nontrivial(bad != data)


edit_op = st.tuples(st.sampled_from(["write", "append", "cut", "remove", "rmtree", "move", "mkdir", "list"]),
                    st.integers(0, 40), st.integers(0, 40), sizes())
TARGETS = [
    Target("cut", st.tuples(tree_spec(), st.integers(0, 999), st.one_of(st.just(0), st.integers(0, 511), st.integers(0, 4095))),
           run_cut, 1500, 60000),
    Target("one stream", st.tuples(tree_spec(), small, st.sampled_from(["data", "chain", "chain", "start", "size"]), small, small),
           run_one, 2500, 80000),
    Target("damage", st.tuples(tree_spec(), st.one_of(st.lists(hit, min_size=1, max_size=2), st.lists(hit, min_size=1, max_size=12))),
           run_damage, 3000, 100000),
    Target("edit", st.tuples(tree_spec(), st.one_of(st.lists(hit, min_size=1, max_size=2), st.lists(hit, min_size=1, max_size=12)),
                             st.lists(edit_op, min_size=1, max_size=8)), run_edit, 1500, 60000),
    Target("aaf", st.tuples(small, st.sampled_from([512, 4096]), st.sampled_from(["container", "objects", "objects"]),
                            st.lists(hit, min_size=1, max_size=3), st.lists(st.tuples(small, small, small), min_size=1, max_size=3)),
           run_aaf, 600, 20000),
]

"""C05: allocation tables grow past every boundary without losing data."""
from hypothesis import strategies as st
from vlib.runner import Target, Violation, HarnessError, check, check_eq
from vlib.cfbmodel import Box, data_of, ZERO16
from vlib.memfile import SparseFile
from vlib import cfbref

PROPERTY = "C05"
RULE = ("Target 'grow': histories over a few large streams in a 512-byte-sector container whose sizes are aimed a few "
        "sectors around the points where a FAT sector, the 109-entry header list, and DIFAT sectors fill up; the file "
        "is fully re-parsed and compared at each close. Target 'huge': sparse 4096-byte-sector containers made by the "
        "reference writer just below the 109-FAT-sector point or the 2 GB range-lock sector, then grown, shrunk and "
        "edited by the library and re-parsed. Non-trivial: the number of FAT (or DIFAT) sectors changed during the "
        "history, or the file reached the boundary the case aims at.")
ASSUMPTIONS = ["the range lock sector (the one holding offset 0x7FFFFF00) must never hold stream data in 4096-byte-sector files",
               "huge files are held in a sparse in-memory file object"]

FATS = [1, 2, 3, 60, 108, 109, 110, 111, 235, 236, 237, 238, 362, 363, 364]
stream_i = st.integers(0, 3)
gop = st.one_of(
    st.tuples(st.just("aim"), stream_i, st.sampled_from(FATS), st.integers(-4, 4), st.sampled_from([0, 1, 511, 512, 300])),
    st.tuples(st.just("aim"), stream_i, st.sampled_from([109, 110, 236, 237, 363, 364, 491]), st.integers(-3, 3), st.sampled_from([0, 1, 511])),
    st.tuples(st.just("append"), stream_i, st.integers(0, 3000)),
    st.tuples(st.just("chunks"), stream_i, st.integers(1, 12), st.integers(400, 6000)),
    st.tuples(st.just("patch"), stream_i, st.integers(0, 1000), st.integers(1, 9000)),
    st.tuples(st.just("trunc"), stream_i, st.integers(0, 1000)),
    st.tuples(st.just("remove"), stream_i),
    st.tuples(st.just("dirs"), st.integers(1, 30)),
    st.tuples(st.just("small"), st.integers(1, 40)),
    st.tuples(st.just("reopen"),),
)


def grow_case(tier):
    return st.lists(gop, min_size=2, max_size=9 if tier == "quick" else 20)


def run_grow(ops, ctx):
    ss = 512
    box = Box(ss)
    per = ss // 4
    counts = set()
    ndir = nsmall = 0

    def validate():
        box.close()
        P = cfbref.parse(box.bytes(), check_rb=True)
        check(not P.problems, "invalid container:", "; ".join(P.problems[:4]))
        box.compare_parsed(P)
        counts.add((P.stats["fat_sectors"], P.stats["difat_sectors"]))
        if P.stats["difat_sectors"]:
            ctx.event("difat-%d" % P.stats["difat_sectors"])
        box.reopen("rb+")
        box.compare_tree(contents=False)

    def ensure(p):
        if p not in box.handles:
            box.do_open(p, "rw")
    for o in ops:
        k = o[0]
        if k == "reopen":
            validate()
        elif k == "dirs":
            for j in range(o[1]):
                p = "/d%d" % ndir
                ndir += 1
                box.cfb.makedir(p)
                box.model[p] = ["d", ZERO16, None]
        elif k == "small":
            for j in range(o[1]):
                p = "/m%d" % nsmall
                nsmall += 1
                d = data_of(j * 7 % 300, j)
                box.cfb.open(p, "w").write(d)
                box.model[p] = ["f", ZERO16, bytearray(d)]
        else:
            p = "/big%d" % o[1]
            if k == "remove":
                if p in box.model:
                    box.close_handles(p)
                    box.cfb.remove(p)
                    del box.model[p]
                continue
            ensure(p)
            size = len(box.model[p][2])
            if k == "aim":
                nfat = o[2]
                others = sum((len(m[2]) + ss - 1) // ss for q, m in box.model.items() if m[0] == "f" and q != p)
                overhead = nfat + max(0, (nfat - 109 + 126) // 127) + 2 + ndir // 4
                want = max(0, nfat * per - overhead - others + o[3]) * ss - o[4]
                if want > size:
                    box.do_seek(p, 0, 2)
                    box.do_write(p, data_of(want - size, o[3] + 7))
                elif want >= 0:
                    box.do_truncate(p, want)
            elif k == "append":
                box.do_seek(p, 0, 2)
                box.do_write(p, data_of(o[2], 3))
            elif k == "chunks":
                box.do_seek(p, 0, 2)
                for j in range(o[2]):
                    box.do_write(p, data_of(o[3], j))
            elif k == "patch":
                box.do_seek(p, size * o[2] // 1000, 0)
                box.do_write(p, data_of(o[3], 9))
            elif k == "trunc":
                box.do_truncate(p, size * o[2] // 1000)
    validate()
    for p in box.streams():
        ensure(p)
        box.do_seek(p, 0, 0)
        box.do_read(p, None)
    ctx.nontrivial(max(c[0] for c in counts) > 1)


# ---------------------------------------------------------------- sparse

hop = st.one_of(
    st.tuples(st.just("append"), st.sampled_from(["/big", "/other"]), st.integers(1, 12 * 4096)),
    st.tuples(st.just("append"), st.sampled_from(["/big", "/other"]), st.integers(1, 4096)),
    st.tuples(st.just("cut"), st.just("/big"), st.integers(0, 12 * 4096)),
    st.tuples(st.just("patch"), st.sampled_from(["/big", "/other"]), st.integers(0, 20 * 4096), st.integers(1, 9000)),
    st.tuples(st.just("dirs"), st.integers(1, 50)),
    st.tuples(st.just("small"), st.integers(1, 12)),
    st.tuples(st.just("drop"), st.just("/other")),
    st.tuples(st.just("reopen"),),
)


def huge_case(boundary):
    def make(tier):
        return st.tuples(st.just(boundary), st.integers(-12, 3), st.booleans(),
                         st.lists(hop, min_size=1, max_size=6 if tier == "quick" else 14))
    return make


BOUND = {"fat109": 109 * 1024 - 109 - 1, "rangelock": cfbref.RANGE_LOCK_OFFSET // 4096 - 1 - 512 - 1 - 1}


def run_huge(value, ctx):
    boundary, delta, marked, ops = value
    from aaf2.cfb import CompoundFileBinary
    ss = 4096
    nbig = BOUND[boundary] + delta
    f, ids = cfbref.build_huge(ss, nbig, marked)
    model = {"/big": SparseFile()}                   # sparse content model
    model["/big"].truncate(nbig * ss)
    dirs = []
    before = None

    def put(path, pos, data):
        model[path].seek(pos)
        model[path].write(data)

    def validate():
        P = cfbref.parse(f, with_data=False)
        check(not P.problems, "invalid container:", "; ".join(P.problems[:4]))
        check_eq(sorted(P.tree), sorted(list(model) + dirs), "paths in the file")
        for path, m in model.items():
            e = [x for x in P.entries if x.type == 2 and x.name == path[1:]][0]
            check_eq(e.size, m.size, "size of", path)
            ch = P.chains.get(path)
            if ch is None:
                continue
            pages = set(m.pages) | {0, len(ch) - 1, len(ch) // 2}
            for pg in pages:
                if pg < len(ch):
                    n = min(ss, m.size - pg * ss)
                    check_eq(f.pread(n, (ch[pg] + 1) * ss), m.pread(n, pg * ss), "sector %d of" % pg, path)
        return P.stats["fat_sectors"], P.stats["difat_sectors"]
    try:
        before = validate()
    except Exception as e:
        raise HarnessError("reference writer: %r" % e)
    cfb = CompoundFileBinary(f, "rb+")
    n = 0
    for o in ops:
        k = o[0]
        if k == "reopen":
            cfb.close()
            validate()
            cfb = CompoundFileBinary(f, "rb+")
            continue
        if k == "dirs":
            for j in range(o[1]):
                p = "/d%d" % n
                n += 1
                cfb.makedir(p)
                dirs.append(p)
            continue
        if k == "small":
            for j in range(o[1]):
                p = "/s%d" % n
                n += 1
                d = data_of(50 + 300 * j, j)
                cfb.open(p, "w").write(d)
                model[p] = SparseFile()
                put(p, 0, d)
            continue
        p = o[1]
        if k == "drop":
            if p in model:
                cfb.remove(p)
                del model[p]
            continue
        if p not in model:
            model[p] = SparseFile()
        m = model[p]
        s = cfb.open(p, "rw")
        if k == "append":
            s.seek(0, 2)
            d = data_of(o[2], len(ops))
            put(p, m.size, d)
            s.write(d)
        elif k == "patch":
            pos = max(0, m.size - o[2])
            d = data_of(o[3], 5)
            put(p, pos, d)
            s.seek(pos)
            s.write(d)
        else:
            m.truncate(max(0, m.size - o[2]))
            s.truncate(m.size)
        check_eq(s.dir.byte_size, m.size, "size of", p)
    # read the interesting parts back through the library
    for p, m in model.items():
        s = cfb.open(p, "r")
        check_eq(s.dir.byte_size, m.size, "size of", p)
        for pos in {0, max(0, m.size - 9000)} | {q * ss for q in sorted(m.pages)[:4]}:
            if pos > m.size:
                continue
            s.seek(pos)
            check_eq(bytes(s.read(9000)), m.pread(9000, pos), "content at %d of" % pos, p)
    cfb.close()
    after = validate()
    if after != before:
        ctx.event("tables-grew")
    if f.size > cfbref.RANGE_LOCK_OFFSET:
        ctx.event("past-range-lock")
    ctx.nontrivial(after != before or f.size > cfbref.RANGE_LOCK_OFFSET)


TARGETS = [
    Target("grow", grow_case, run_grow, quick=240, thorough=6000),
    Target("huge-difat", huge_case("fat109"), run_huge, quick=96, thorough=2400),
    Target("huge-rangelock", huge_case("rangelock"), run_huge, quick=24, thorough=480),
]

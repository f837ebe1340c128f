"""C02: the directory namespace behaves like a tree of named entries."""
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq
from vlib.cfbmodel import Box, data_of, sizes, NAMES, ZERO16
from vlib import cfbref

PROPERTY = "C02"
RULE = ("A case is a sector size and a history of makedir/makedirs/create/touch/remove/rmtree/move/metadata/bulk/"
        "query/reopen operations over names from a fixed pool (including 31-character, mixed-case and non-ASCII names), "
        "a third of them aimed at paths where the operation must be refused. "
        "Non-trivial: at least 8 operations took effect, among them a move or a removal, and the container was reopened.")

BAD_NAMES = ["q" * 33, "\u4e2d" * 33]
names = st.sampled_from(NAMES)
dir_i = st.integers(0, 40)
any_i = st.integers(0, 60)
cid = st.one_of(st.none(), st.binary(min_size=16, max_size=16))

op = st.one_of(
    st.tuples(st.just("makedir"), dir_i, names, cid),
    st.tuples(st.just("makedir"), dir_i, names, cid),
    st.tuples(st.just("create"), dir_i, names, sizes(9000)),
    st.tuples(st.just("create"), dir_i, names, st.integers(0, 200)),
    st.tuples(st.just("touch"), dir_i, names),
    st.tuples(st.just("submakedir"), dir_i, names, cid),
    st.tuples(st.just("makedirs"), dir_i, st.lists(names, min_size=1, max_size=4)),
    st.tuples(st.just("remove"), any_i),
    st.tuples(st.just("rmtree"), any_i),
    st.tuples(st.just("move"), any_i, dir_i, names),
    st.tuples(st.just("move"), any_i, dir_i, names),
    st.tuples(st.just("moveinto"), any_i, dir_i),
    st.tuples(st.just("case"), any_i),
    st.tuples(st.just("meta"), any_i, cid, st.integers(0, 2**32 - 1), st.integers(0, 2**64 - 1), st.integers(0, 2**64 - 1)),
    st.tuples(st.just("query"), any_i, names),
    st.tuples(st.just("badname"), any_i, dir_i, st.integers(0, 1)),
    st.tuples(st.just("rebalance"), dir_i),
    st.tuples(st.just("listall"),),
    st.tuples(st.just("reopen"),),
)
bulk = st.tuples(st.just("bulk"), dir_i, st.integers(5, 160), st.sampled_from([1, 3, 7, 11, 13, 53]),
                 st.sampled_from(["d", "f"]), st.booleans())
unbulk = st.tuples(st.just("unbulk"), dir_i, st.integers(1, 160), st.sampled_from([1, 3, 7, 11, 13, 53]))


def case(tier):
    m = 40 if tier == "quick" else 100
    return st.tuples(st.sampled_from([4096, 512]), st.one_of(
        st.lists(op, min_size=1, max_size=8),
        st.lists(op, min_size=15, max_size=m),
        st.lists(op, min_size=25, max_size=m)))


def bulk_case(tier):
    mixed = st.one_of(bulk, unbulk, unbulk, op)
    return st.tuples(st.sampled_from([4096, 512]),
                     st.lists(mixed, min_size=3, max_size=12 if tier == "quick" else 30))


class Hist(object):
    def __init__(self, box, ctx):
        self.box = box
        self.ctx = ctx
        self.meta = {}
        self.effects = 0
        self.marks = set()

    def pick_dir(self, i):
        s = self.box.storages()
        return s[i % len(s)]

    def pick_any(self, i):
        p = sorted(self.box.model)
        # one in a few picks names something that does not exist
        if not p or i % 7 == 6:
            return "/nonexistent%d" % i
        return p[i % len(p)]

    def refused(self, what, fn, *args):
        before = None
        try:
            fn(*args)
        except Exception:
            self.marks.add("refused")
            return
        raise Violation("%s was accepted" % what)

    # -- may the entry be created?
    def creatable(self, parent, name):
        m = self.box.model
        if parent != "" and (parent not in m or m[parent][0] != "d"):
            return False
        return not self.box.clash(parent + "/" + name)

    def drop(self, path):
        for p in self.box.subtree(path):
            del self.box.model[p]
            self.meta.pop(p, None)

    def apply(self, o):
        box, m, cfb = self.box, self.box.model, self.box.cfb
        kind = o[0]
        if kind in ("makedir", "create", "touch", "submakedir"):
            parent = self.pick_dir(o[1])
            if o[1] % 9 == 8:               # below a stream, or below nothing
                s = box.streams()
                parent = s[o[1] % len(s)] if s else "/missing"
            path = parent + "/" + o[2]
            ok = self.creatable(parent, o[2])
            from aaf2.auid import AUID
            if kind == "makedir":
                c = None if o[3] is None else AUID(bytes_le=o[3])
                if not ok:
                    return self.refused("makedir(%r)" % path, cfb.makedir, path, c)
                e = cfb.makedir(path, c)
                check(e.isdir(), "makedir returned a non-directory")
                m[path] = ["d", o[3] or ZERO16, None]
            elif kind == "submakedir":
                if parent != "" and (parent not in m or m[parent][0] != "d"):
                    return
                d = cfb.find(parent or "/")
                c = None if o[3] is None else AUID(bytes_le=o[3])
                if not ok:
                    return self.refused("makedir(%r)" % path, d.makedir, o[2], c)
                e = d.makedir(o[2], c)
                m[path] = ["d", o[3] or ZERO16, None]
            elif kind == "create":
                if path in m and m[path][0] == "f":
                    s = cfb.open(path, "w")
                    m[path][1] = ZERO16
                elif not ok:
                    return self.refused("open(%r, 'w')" % path, cfb.open, path, "w")
                else:
                    s = cfb.open(path, "w")
                    m[path] = ["f", ZERO16, bytearray()]
                d = data_of(o[3], len(m))
                s.write(d)
                m[path][2][:] = d
                e = s.dir
            else:
                if parent != "" and (parent not in m or m[parent][0] != "d"):
                    return
                d = cfb.find(parent or "/")
                if path in m:
                    e = d.touch(o[2])
                    check_eq(e.path(), path, "touch of an existing entry")
                    return
                if not ok:
                    return self.refused("touch(%r)" % path, d.touch, o[2])
                e = d.touch(o[2])
                m[path] = ["f", ZERO16, bytearray()]
            check_eq(e.path(), path, "path of the new entry")
            check_eq(e.name, o[2], "name of the new entry")
            self.effects += 1
        elif kind == "makedirs":
            base = self.pick_dir(o[1])
            cur = base
            good = True
            for n in o[2]:
                p = cur + "/" + n
                if p in m:
                    if m[p][0] != "d":
                        good = False
                        break
                elif not self.creatable(cur, n):
                    good = False
                    break
                cur = p
            path = base + "".join("/" + n for n in o[2])
            if not good:
                # only check full refusal when nothing would be created before the obstacle
                if cur == base and not (path in m):
                    self.refused("makedirs(%r)" % path, cfb.makedirs, path)
                return
            e = cfb.makedirs(path)
            cur = base
            for n in o[2]:
                cur += "/" + n
                m.setdefault(cur, ["d", ZERO16, None])
            check_eq(e.path(), path, "makedirs result")
            self.effects += 1
        elif kind == "remove":
            p = self.pick_any(o[1])
            if o[1] % 13 == 12:
                return self.refused("remove('/')", cfb.remove, "/")
            if p not in m or (m[p][0] == "d" and box.kids(p)):
                return self.refused("remove(%r)" % p, cfb.remove, p)
            cfb.remove(p)
            self.drop(p)
            self.marks.add("remove")
            self.effects += 1
        elif kind == "rmtree":
            p = self.pick_any(o[1])
            if o[1] % 13 == 12:
                return self.refused("rmtree('/')", cfb.rmtree, "/")
            if p not in m or m[p][0] != "d":
                return self.refused("rmtree(%r)" % p, cfb.rmtree, p)
            if len(box.subtree(p)) > 2:
                self.marks.add("rmtree-deep")
            cfb.rmtree(p)
            self.drop(p)
            self.marks.add("remove")
            self.effects += 1
        elif kind in ("move", "moveinto", "case"):
            src = self.pick_any(o[1])
            if kind == "case":
                base, nm = src.rsplit("/", 1)
                dst = base + "/" + (nm.swapcase())
                if len(nm.swapcase()) != len(nm) or cfbref.cfb_key(nm) != cfbref.cfb_key(nm.swapcase()):
                    return
            else:
                dparent = self.pick_dir(o[2])
                dst = dparent + "/" + (o[3] if kind == "move" else src.rsplit("/", 1)[1])
            arg = dst if kind != "moveinto" else dparent + "/"
            inside = dst == src or dst.startswith(src + "/")
            if src not in m or inside or dst in m or box.clash(dst, ignore=src):
                return self.refused("move(%r, %r)" % (src, arg), cfb.move, src, arg)
            old = cfb.find(src)
            e = cfb.move(src, arg)
            for p in sorted(box.subtree(src)):
                q = dst + p[len(src):]
                m[q] = m.pop(p)
                if p in self.meta:
                    self.meta[q] = self.meta.pop(p)
            check_eq(e.path(), dst, "path after move")
            check_eq(e.name, dst.rsplit("/", 1)[1], "name after move")
            check(cfb.find(src) is None, "source still found after move", src)
            if m[dst][0] == "d" and len(box.subtree(dst)) > 1:
                self.marks.add("move-subtree")
            self.marks.add("move")
            self.effects += 1
        elif kind == "meta":
            p = self.pick_any(o[1])
            if p not in m:
                return
            from aaf2.auid import AUID
            e = cfb.find(p)
            e.class_id = None if o[2] is None else AUID(bytes_le=o[2])
            e.flags, e.create_time, e.modify_time = o[3], o[4], o[5]
            m[p][1] = o[2] or ZERO16
            self.meta[p] = (o[3], o[4], o[5])
        elif kind == "query":
            p = self.pick_any(o[1])
            e = cfb.find(p)
            check_eq(cfb.exists(p), p in m, "exists", p)
            check_eq(e is not None, p in m, "find", p)
            q = p + "/" + o[2]
            check_eq(cfb.exists(q), q in m, "exists", q)
            if p not in m:
                self.refused("open of a missing stream", cfb.open, p, "r")
                self.refused("listdir of a missing path", cfb.listdir, p)
            elif m[p][0] == "d":
                self.refused("open of a storage", cfb.open, p, "r")
                check_eq((e.get(o[2]) is not None), q in m, "get", q)
                check_eq(sorted(x.name for x in e.listdir()), sorted(k.rsplit("/", 1)[1] for k in box.kids(p)), "listdir", p)
                check_eq(sorted(cfb.listdir_dict(p)), sorted(k.rsplit("/", 1)[1] for k in box.kids(p)), "listdir_dict", p)
            else:
                self.refused("listdir of a stream", cfb.listdir, p)
                check_eq(bytes(cfb.open(p).read()), bytes(m[p][2]), "content", p)
        elif kind == "badname":
            bad = BAD_NAMES[o[3]]
            parent = self.pick_dir(o[2])
            src = self.pick_any(o[1])
            self.refused("a too long name", cfb.makedir, parent + "/" + bad)
            if src in m:
                self.refused("move to a too long name", cfb.move, src, parent + "/" + bad)
        elif kind == "rebalance":
            d = self.pick_dir(o[1])
            cfb.find(d or "/").rebalance_children_tree()
        elif kind == "bulk":
            _, di, n, stride, what, ascending = o
            d = self.pick_dir(di)
            for j in range(n):
                k = (j * stride) % 199 if ascending else (198 - (j * stride) % 199)
                name = "k%03d" % k
                p = d + "/" + name
                if not self.creatable(d, name):
                    continue
                if what == "d":
                    cfb.makedir(p)
                    m[p] = ["d", ZERO16, None]
                else:
                    dd = data_of(k, k)
                    cfb.open(p, "w").write(dd)
                    m[p] = ["f", ZERO16, bytearray(dd)]
            self.marks.add("bulk")
            self.effects += 5
        elif kind == "unbulk":
            _, di, n, stride = o
            d = self.pick_dir(di)
            kids = box.kids(d)
            for j in range(min(n, len(kids))):
                p = kids[(j * stride) % len(kids)]
                if p in m and not box.kids(p):
                    cfb.remove(p)
                    self.drop(p)
            if kids:
                self.marks.add("bulk-remove")
                self.marks.add("remove")
        elif kind == "listall":
            self.full()
        elif kind == "reopen":
            self.reopen()

    def full(self, cfb=None):
        cfb = cfb or self.box.cfb
        self.box.compare_tree(cfb)
        for p, v in self.meta.items():
            e = cfb.find(p)
            check_eq((e.flags, e.create_time, e.modify_time), v, "flags and times of", p)
        # bottom-up walk visits each storage after its descendants
        seen = []
        for root, storages, streams in cfb.walk(topdown=False):
            for s in storages:
                if len(list(s.listdir())):
                    check(s.path() in seen, "bottom-up walk lists", s.path(), "before visiting it")
            seen.append(root.path())

    def reopen(self):
        self.box.close()
        P = self.box.parse()
        self.box.compare_parsed(P)
        self.full(self.box.reopen("rb"))
        self.box.reopen("rb+")
        self.marks.add("reopen")


def run(value, ctx):
    ss, ops = value
    box = Box(ss)
    h = Hist(box, ctx)
    for o in ops:
        h.apply(o)
    h.full()
    mid = "reopen" in h.marks
    h.reopen()
    h.full()
    for x in h.marks:
        ctx.event(x)
    ctx.nontrivial(h.effects >= 8 and bool(h.marks & {"move", "remove"}) and mid)


def run_bulk(value, ctx):
    ss, ops = value
    box = Box(ss)
    h = Hist(box, ctx)
    for o in ops:
        h.apply(o)
    h.reopen()
    for x in h.marks:
        ctx.event(x)
    ctx.nontrivial("bulk" in h.marks and "bulk-remove" in h.marks)


TARGETS = [
    Target("namespace", case, run, quick=5000, thorough=60000),
    Target("bulk", bulk_case, run_bulk, quick=600, thorough=8000),
]

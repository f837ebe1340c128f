"""U01: the comments of a mob are an ordered mapping that keeps what it is given."""
import io
import random
from hypothesis import strategies as st
from vlib.runner import Target, Violation, check, check_eq, raises
from vlib import aafgen, aafref

PROPERTY = "U01"
RULE = ("Histories on the comments of several mobs: setting new and present names, appending tags (a second of one name included), "
        "reading, missing names, refused values, removing, replacing the list, copies of mobs, saving and reopening; after every "
        "step items, lookups and membership are compared with a list of pairs, and after saving the independent reader's list. "
        "Non-trivial: a name set again, or the file reopened.")
ASSUMPTIONS = ["names and texts hold no NUL"]

TEXT = ["", "a", "A", "name", "Name ", u"\u00e9\u4e2d", u"\U0001F600", "x" * 300, "1", "_ATTR", "a b"]


def val(rnd):
    from aaf2.rational import AAFRational
    k = rnd.randrange(5)
    if k < 2:
        return rnd.choice(TEXT + ["t%d" % rnd.randrange(1000)])
    if k < 4:
        return rnd.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rnd.randint(-10 ** 6, 10 ** 6)])
    return AAFRational(rnd.randint(-1000, 1000), rnd.randint(1, 1000))


def lit(v):
    from aaf2.rational import AAFRational
    if isinstance(v, AAFRational):
        return ("ind", "Rational", (v.numerator, v.denominator))
    if isinstance(v, int):
        return ("ind", "aafInt32", v)
    return ("ind", "aafString", v)


def same(a, b):
    from aaf2.rational import AAFRational
    if isinstance(a, AAFRational) != isinstance(b, AAFRational) or isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, AAFRational):
        return (a.numerator, a.denominator) == (b.numerator, b.denominator)
    return a == b


def run(value, ctx):
    import aaf2
    ops, seed, disk = value
    rnd = random.Random(seed)
    path = None
    if disk:
        path = ctx.path("u.aaf")
        io.open(path, "wb").write(aafgen.template(4096))
        f = aaf2.open(path, "rw")
    else:
        f = aaf2.file.AAFFile(None, "wb+") if "f" not in _F else _F["f"]
        _F["f"] = f
    mobs = []               # [mob, pairs, attached]
    tags = []
    try:
        for what, i, j in ops:
            if what == "mob" or not mobs:
                m = f.create.from_name(rnd.choice(["CompositionMob", "MasterMob"]))
                att = i % 3 > 0
                if att:
                    f.content.mobs.append(m)
                mobs.append([m, [], att])
                continue
            M = mobs[i % len(mobs)]
            m, pairs = M[0], M[1]
            names = [n for n, _ in pairs]
            C = m.comments
            if what == "set":
                n, v = rnd.choice(TEXT + names), val(rnd)
                C[n] = v
                if n in names:
                    ctx.nontrivial()
                    k = names.index(n)
                    pairs[k] = (n, v)
                else:
                    pairs.append((n, v))
            elif what == "append":
                n, v = rnd.choice(TEXT + names), val(rnd)
                t = f.create.TaggedValue(n, v)
                C.append(t)
                pairs.append((n, v))
            elif what == "typed":
                n, v = rnd.choice(TEXT + names), rnd.randint(-2 ** 31, 2 ** 31 - 1)
                C.append(f.create.TaggedValue(n, v, rnd.choice(["aafInt32", f.metadict.lookup_typedef("aafInt32")])))
                pairs.append((n, v))
            elif what == "tag" and pairs:
                n = rnd.choice(names)
                t = C.get(n)
                check_eq(t.name, n, "name of the tag")
                v = val(rnd)
                t.value = v
                pairs[names.index(n)] = (n, v)
            elif what == "retag" and pairs:
                n, new = rnd.choice(names), rnd.choice(TEXT)
                C.get(n).name = new
                k = names.index(n)
                pairs[k] = (new, pairs[k][1])
            elif what == "bad":
                n = rnd.choice(TEXT + names)
                check(raises((Exception,), C.__setitem__, n, rnd.choice([object(), 2 ** 31, -2 ** 31 - 1, [1], {}])), "a comment that has no type is taken")
            elif what == "remove" and pairs:
                k = j % len(pairs)
                m["UserComments"].pop(k)
                del pairs[k]
            elif what == "replace":
                new = [(rnd.choice(TEXT), val(rnd)) for _ in range(j % 4)]
                m["UserComments"].value = [f.create.TaggedValue(n, v) for n, v in new]
                M[1] = pairs = new
            elif what == "copy":
                c = m.copy()
                from aaf2.mobid import MobID
                c.mob_id = MobID.new()
                f.content.mobs.append(c)
                mobs.append([c, list(pairs), True])
            elif what == "reopen" and path:
                ctx.nontrivial()
                ids = [x[0].mob_id for x in mobs if x[2]]
                f.close()
                stored(path, mobs)
                f = aaf2.open(path, "rw")
                mobs = [[f.content.mobs[k], x[1], True] for k, x in zip(ids, [x for x in mobs if x[2]])]
            else:
                continue
            for k, (m, pairs, att) in enumerate(mobs):
                agree(m, pairs, k, what)
    finally:
        if path:
            f.close()
        else:
            for m, _, att in mobs:
                if att:
                    f.content.mobs.pop(m.mob_id)
    if path:
        stored(path, mobs)


_F = {}


def agree(m, pairs, k, what):
    C = m.comments
    got = list(C.items())
    check_eq([n for n, _ in got], [n for n, _ in pairs], "names of the comments of mob %d after %s" % (k, what))
    for (n, a), (_, b) in zip(got, pairs):
        check(same(a, b), "comment", n, "is", a, "want", b, "after", what)
    seen = set()
    for n, v in pairs:
        check(n in C, n, "is not in the comments")
        if n not in seen:
            seen.add(n)
            check(same(C[n], v), "comments[%r] is" % n, C[n], "want", v)
            check(same(C.get(n).value, v), "comments.get(%r)" % n)
            check_eq(C.get(n).value_typedef.type_name, lit(v)[1], "type of the comment")
    for n in ("absent", "AbSent"):
        check(n not in C, "a comment nobody made")
        check(C.get(n) is None and C.get(n, 7) == 7, "a comment nobody made is got")
        check(raises((IndexError, KeyError), lambda: C[n]), "a comment nobody made is read")


def stored(path, mobs):
    try:
        A, tree = aafref.load(io.open(path, "rb").read())
    except aafref.BadAAF as e:
        raise Violation("the saved file is not valid: %s" % e)
    root = tree[1]["Header"][1][1]["Content"][1][1]["Mobs"][1]
    left = sorted(repr([(t[1]["Name"][1], t[1].get("Value", (0, None))[1]) for t in m[1].get("UserComments", ("ov", []))[1]]) for m in root.values())
    want = sorted(repr([(n, lit(v)) for n, v in pairs]) for _, pairs, att in mobs if att)
    check_eq(left, want, "comments in the bytes")


ii = st.integers(0, 60)
TARGETS = [Target("comments", st.tuples(st.lists(st.tuples(st.sampled_from(["mob", "mob"] + ["set"] * 5 + ["append", "append", "typed", "tag", "retag", "bad", "remove",
                                                                                                  "replace", "copy", "reopen", "reopen"]), ii, ii), min_size=4, max_size=18),
                                        st.integers(0, 1 << 20), st.sampled_from([False, False, True])), run, 1500, 40000)]

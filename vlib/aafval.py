"""Forms in which the library takes typed values, and values it must refuse.

form(S, tid, lit, rnd)  an API value that denotes the literal `lit`
bad(S, tid, rnd, g)     a value no reading of the type allows
S is a Schema (or a stand-in with .A.types); literals are those of aafref.decode.
"""
import copy
import datetime
import random
import uuid
from fractions import Fraction
from math import gcd

from . import aafgen, aafmodel, aafref
from .runner import HarnessError


class Schema2(object):
    """a Schema whose types are a planner's"""
    def __init__(self, S, types):
        self.A = copy.copy(S.A)
        self.A.types = types

    to_api = aafgen.Schema.to_api
    type_named = aafgen.Schema.type_named

    def zero(self, tid):
        return self.A.decode(tid, bytes(self.A.size_of(tid)))


def is_zero(S, tid, lit):
    try:
        return S.zero(tid) == lit
    except aafref.BadAAF:
        return False


def form(S, tid, lit, rnd):
    from aaf2.auid import AUID
    from aaf2.mobid import MobID
    from aaf2.rational import AAFRational
    t = S.A.types[tid]
    k = t["kind"]
    if k == "rename":
        return form(S, t["elem"], lit, rnd)
    if tid == aafref.BOOLEAN:
        return rnd.choice([lit, int(lit)])
    if k == "enum":
        vals = [v for v, n in t["values"].items() if n == lit]
        return rnd.choice([lit, lit, vals[0]]) if len(vals) == 1 else lit
    if k == "extenum":
        if isinstance(lit, dict):
            return AUID(lit["auid"])
        vals = [v for v, n in t["values"].items() if n == lit]
        same = [n for n in t["values"].values() if n.lower() == lit.lower()]
        c = [lit]
        if len(vals) == 1:
            c += [AUID(vals[0]), uuid.UUID(vals[0])]
        if len(same) == 1:
            c += [s for s in (lit.upper(), lit.lower(), lit.swapcase()) if s.lower() == lit.lower()]
        return rnd.choice(c)
    if tid == aafref.MOBIDTYPE:
        return MobID(bytes_le=bytearray.fromhex(lit["mobid"]))
    if tid == aafref.AUIDTYPE:
        return rnd.choice([AUID(lit["auid"]), uuid.UUID(hex=lit["auid"])])
    if tid == aafref.RATIONAL:
        n, d = lit
        c = [AAFRational(n, d)]
        if d > 0:
            c.append("%d/%d" % (n, d))
            if gcd(n, d) == 1:
                c.append(Fraction(n, d))
        if d == 1:
            c += [n, str(n), float(n)]
        return rnd.choice(c)
    if tid in (aafgen.TIMESTAMP, aafgen.DATESTRUCT, aafgen.TIMESTRUCT) and rnd.random() < 0.6:
        return S.to_api(tid, lit)
    if k == "record":
        names = [n for n, _ in t["fields"]]
        if rnd.random() < 0.3:
            rnd.shuffle(names)
        types = dict(t["fields"])
        return {n: form(S, types[n], lit[n], rnd) for n in names}
    if k in ("int", "string", "char"):
        return lit
    if k in ("var", "fixed", "set"):
        items = list(lit[1]) if k == "set" else list(lit)
        e = t["elem"]
        ek = S.A.types[e]["kind"]
        if e == aafref.CHARACTER:
            return rnd.choice([list, tuple])(items)
        if k == "fixed":
            while items and is_zero(S, e, items[-1]) and rnd.random() < 0.7:
                items.pop()
        if ek == "int" and S.A.types[e]["size"] == 1 and not S.A.types[e]["signed"] and k == "var" and rnd.random() < 0.5:
            return rnd.choice([bytes, bytearray])(items)
        vs = [form(S, e, x, rnd) for x in items]
        if k == "set":
            # the same element is written the same way: equal values, one element
            if rnd.random() < 0.4 and vs:
                return vs + [rnd.choice(vs)]
            return rnd.choice([list, set, tuple, frozenset])(vs)
        if ek == "int":
            return rnd.choice([list, tuple])(vs)
        return rnd.choice([list, tuple, iter, lambda v: (x for x in v)])(vs)
    if k in ("indirect", "opaque"):
        return S.to_api(S.type_named(lit[1]), lit[2])
    raise HarnessError("no form of %s" % t["name"])


def bad(S, tid, rnd, depth=0):
    """(what, value), or None when every value is allowed"""
    from aaf2.auid import AUID
    from aaf2.mobid import MobID
    from aaf2.rational import AAFRational
    t = S.A.types[tid]
    k = t["kind"]
    g = aafmodel.Gen(S, rnd)

    def good(x):
        return form(S, x, g.data(x), rnd)
    if tid == aafref.BOOLEAN:
        return None
    if k == "rename":
        return bad(S, t["elem"], rnd, depth)
    if k == "int":
        n = t["size"] * 8
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if t["signed"] else (0, (1 << n) - 1)
        return rnd.choice([("below the range", lo - 1), ("above the range", hi + 1), ("far out of range", 1 << 70),
                           ("text", "1"), ("a fraction", 1.5), ("a list", [1])])
    if k == "enum":
        free = [v for v in (max(t["values"]) + 1, min(t["values"]) - 1)]
        return rnd.choice([("an unknown element", "no such element"), ("an unknown number", rnd.choice(free)),
                           ("a changed name", sorted(t["values"].values())[0] + "x" * 40), ("a list", ["x"])])
    if k == "extenum":
        return rnd.choice([("an unknown element", "no such element"), ("an unknown id", AUID(rnd.randbytes(16).hex())),
                           ("a number", 5), ("a list", [AUID(rnd.randbytes(16).hex())])])
    if tid == aafref.MOBIDTYPE:
        return rnd.choice([("an AUID", AUID(rnd.randbytes(16).hex())), ("a UUID", uuid.UUID(bytes=rnd.randbytes(16))), ("text", "x"),
                           ("a number", 5)])
    if tid == aafref.AUIDTYPE:
        return rnd.choice([("a MobID", MobID(bytes_le=rnd.randbytes(32))), ("text", "x"), ("a number", 5)])
    if tid == aafref.RATIONAL:
        return rnd.choice([("text", "x"), ("a numerator too large", AAFRational(1 << 31, 1)), ("a denominator too large", "1/%d" % (1 << 31)),
                           ("a zero denominator", "1/0"), ("a list", [1, 2]), ("a float out of range", 1e30), ("not a number", float("nan"))])
    if k == "string":
        return rnd.choice([("a number", 5), ("bytes", b"x"), ("a list", [1]), ("half a character", "a\ud800")])
    if k == "record":
        if depth < 4 and rnd.random() < 0.8:
            fs = list(t["fields"])
            rnd.shuffle(fs)
            for n, x in fs:
                b = bad(S, x, rnd, depth + 1)
                if b is not None:
                    v = {m: good(y) for m, y in t["fields"]}
                    v[n] = b[1]
                    return ("field %s is %s" % (n, b[0]), v)
        v = {m: good(y) for m, y in t["fields"]}
        del v[rnd.choice(sorted(v))]
        return rnd.choice([("a missing field", v), ("text", "x"), ("a number", 5), ("a list", [1])])
    if k in ("var", "fixed", "set"):
        e = t["elem"]
        if e == aafref.CHARACTER:
            return rnd.choice([("a number", 5), ("numbers", ["x", 5]), ("a broken text", ["a", "b\udc00"])])
        if k == "fixed" and rnd.random() < 0.5:
            return ("too many elements", [good(e) for _ in range(t["count"] + rnd.randint(1, 3))])
        if depth < 4 and rnd.random() < 0.8:
            b = bad(S, e, rnd, depth + 1)
            if b is not None:
                n = rnd.randint(0, (t["count"] if k == "fixed" else 4) - 1)
                v = [good(e) for _ in range(n)]
                v.insert(rnd.randint(0, n), b[1])
                return ("an element is %s" % b[0], v)
        return ("a number", 5)
    if k in ("indirect", "opaque"):
        return rnd.choice([("an object", object()), ("a list", [1]), ("bytes", b"x"), ("a number too large", 1 << 40)])
    return None

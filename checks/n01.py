"""N01: AAFRational is a Fraction that keeps its terms as given."""
import copy
import math
import operator
import pickle
from decimal import Decimal
from fractions import Fraction
from hypothesis import strategies as st
from vlib.runner import Target, check, check_eq, short

PROPERTY = "N01"
RULE = ("Generated pairs of terms (small, around the 32-bit limits, with common factors, negative denominators, zero) and "
        "texts, floats, decimals and nested rationals, given to AAFRational in every form. Target 'terms': the terms are kept; "
        "target 'value': comparison, hashing, arithmetic, rounding and conversion of two generated numbers give what Fraction "
        "gives for the same values; target 'float': floats become rationals of 32-bit terms within half a unit of the best "
        "denominator; target 'text': texts Fraction accepts, with the same value, others refused. Non-trivial: the terms are not "
        "already in lowest form, or the float or text is not a whole number.")
ASSUMPTIONS = ["0/0, which files contain, reads as 0/1"]

small = st.integers(-12, 12)
term = st.one_of(small, st.integers(-1001, 30000), st.sampled_from([24000, 1001, 30000, 0x7fffffff, -0x80000000, 0x7ffffffe, 48000]),
                 st.integers(-(1 << 31), (1 << 31) - 1))
factor = st.sampled_from([1, 1, 2, 3, 7, 1000, -1, -2])
pair = st.tuples(term, term, factor).map(lambda t: (t[0] * t[2], t[1] * t[2]))


def rational(n, d):
    from aaf2.rational import AAFRational
    return AAFRational(n, d)


def terms(r):
    return r.numerator, r.denominator


def same_value(r, want, *what):
    """r is a rational number of the value `want`, and behaves as one."""
    check(r.denominator != 0, *(what + ("has denominator 0",)))
    check_eq(Fraction(r.numerator, r.denominator), want, *what)


def run_terms(v, ctx):
    from aaf2.rational import AAFRational
    (n, d), (m, e) = v
    if d == 0:
        try:
            r = AAFRational(n, 0)
        except ZeroDivisionError:
            check(n != 0, "0/0 is refused")
        else:
            check(n == 0, n, "/ 0 is accepted as", short(r))
            check_eq(terms(r), (0, 1), "0/0")
        ctx.event("zero denominator")
        return
    r = AAFRational(n, d)
    check(isinstance(r, Fraction), "not a Fraction")
    check_eq(terms(r), (n, d), "terms of AAFRational(%d, %d)" % (n, d))
    check_eq(str(r), "%d/%d" % (n, d) if d != 1 else str(n), "str")
    check_eq(terms(AAFRational(r)), (n, d), "terms of a copy")
    if d > 0:
        check_eq(terms(AAFRational("%d/%d" % (n, d))), (n, d), "terms of a text")
        check_eq(terms(AAFRational(str(r))), (n, d), "terms through str")
        check_eq(terms(AAFRational(" %+d/%d\n" % (n, d))), (n, d), "terms of a text with sign and spaces")
    check_eq(terms(AAFRational(n)), (n, 1), "terms of an int")
    check_eq(terms(AAFRational(str(n))), (n, 1), "terms of a text without denominator")
    f = Fraction(n, d)
    check_eq(terms(AAFRational(f)), (f.numerator, f.denominator), "terms of a Fraction")
    for name, c in (("copy", copy.copy(r)), ("deepcopy", copy.deepcopy(r)), ("pickle", pickle.loads(pickle.dumps(r)))):
        check_eq((type(c).__name__, terms(c)), ("AAFRational", (n, d)), name)
    if e:
        s = AAFRational(m, e)
        if m:
            same_value(AAFRational(r, s), Fraction(n, d) / Fraction(m, e), "AAFRational of two rationals")
            same_value(AAFRational(f, s), Fraction(n, d) / Fraction(m, e), "AAFRational of two rationals")
        same_value(AAFRational(n, s) if m else s, Fraction(n) / Fraction(m, e) if m else Fraction(0), "AAFRational(int, rational)")
    same_value(AAFRational(Decimal(n) / 8), Fraction(n, 8), "AAFRational of a decimal")
    ctx.nontrivial(math.gcd(n, d) != 1 or d < 0)


CMP = ["eq", "ne", "lt", "le", "gt", "ge"]
ARITH = ["add", "sub", "mul", "truediv", "floordiv", "mod"]


def outcome(fn):
    try:
        return "ok", fn()
    except (ZeroDivisionError, OverflowError, TypeError, ValueError) as e:
        return type(e).__name__, None


def same_outcome(got, want, *what):
    check_eq(got[0], want[0], *(what + ("outcome",)))
    if want[0] != "ok":
        return
    g, w = got[1], want[1]
    if isinstance(w, tuple):
        for a, b in zip(g, w):
            same_outcome(("ok", a), ("ok", b), *what)
        return
    if isinstance(w, Fraction):
        check(isinstance(g, Fraction), *(what + ("is a %s" % type(g).__name__,)))
        same_value(g, w, *what)
        check(g == w and w == g and hash(g) == hash(w), *(what + ("%r does not equal %r" % (g, w),)))
    elif isinstance(w, float) and w != w:
        check(g != g, *what)
    else:
        check_eq((type(g), g), (type(w), w), *what)


def operand(spec, n, d, m, e):
    """(real operand, model operand)"""
    if spec == "rational":
        return rational(m, e), Fraction(m, e)
    if spec == "fraction":
        return Fraction(m, e), Fraction(m, e)
    if spec == "int":
        return m, m
    if spec == "float":
        return m / e, m / e
    if spec == "same":
        return rational(n * m, d * m) if m else rational(n, d), Fraction(n, d)
    return Fraction(n, d), Fraction(n, d)


def run_value(v, ctx):
    (n, d), (m, e), spec, p, digits = v
    if d == 0 or e == 0:
        return
    r, f = rational(n, d), Fraction(n, d)
    o, q = operand(spec, n, d, m, e)
    for name in CMP:
        op = getattr(operator, name)
        check_eq(op(r, o), op(f, q), "%s(%r, %r)" % (name, r, o))
        check_eq(op(o, r), op(q, f), "%s(%r, %r)" % (name, o, r))
    if f == q:
        check_eq(hash(r), hash(o), "hash of equal numbers", repr(r), repr(o))
        check_eq({r: 1}.get(o), 1, "lookup by an equal number")
        ctx.event("equal")
    for name in ARITH + ["divmod"]:
        op = divmod if name == "divmod" else getattr(operator, name)
        same_outcome(outcome(lambda: op(r, o)), outcome(lambda: op(f, q)), "%s(%r, %r)" % (name, r, o))
        same_outcome(outcome(lambda: op(o, r)), outcome(lambda: op(q, f)), "%s(%r, %r)" % (name, o, r))
    same_outcome(outcome(lambda: r ** p), outcome(lambda: f ** p), "%r ** %d" % (r, p))
    ex = rational(p * (m or 1), m or 1)
    if abs(n) < 100:
        same_outcome(outcome(lambda: r ** ex), outcome(lambda: f ** p), "%r ** %r" % (r, ex))
        same_outcome(outcome(lambda: n ** ex), outcome(lambda: n ** Fraction(p)), "%r ** %r" % (n, ex))
    for name, fn in (("neg", operator.neg), ("pos", operator.pos), ("abs", abs), ("bool", bool), ("float", float), ("int", int),
                     ("trunc", math.trunc), ("floor", math.floor), ("ceil", math.ceil), ("round", round),
                     ("round to digits", lambda x: round(x, digits)), ("hash", hash),
                     ("limit_denominator", lambda x: x.limit_denominator(1 + abs(m)))):
        same_outcome(outcome(lambda: fn(r)), outcome(lambda: fn(f)), "%s(%r)" % (name, r))
    check_eq(terms(r), (n, d), "terms after use")
    check_eq(sum([r, r]), f + f, "sum")
    ctx.nontrivial(math.gcd(n, d) != 1 or d < 0)


floats = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False, width=32),
    st.floats(-3e9, 3e9), st.floats(-1, 1), st.floats(1e6, 1e12), st.floats(-1e-6, 1e-6),
    st.tuples(st.integers(-30000, 30000), st.integers(1, 1001)).map(lambda t: t[0] / t[1]),
    st.tuples(st.sampled_from([2.0 ** 31, 2.0 ** 31 - 1, -2.0 ** 31, 2.0 ** 32, 2.0 ** 30]), st.integers(-3, 3)).map(lambda t: t[0] + t[1] / 2))


def run_float(v, ctx):
    from aaf2.rational import AAFRational
    x, (n, d) = v
    r = AAFRational(x)
    exact = Fraction(x)
    check(r.denominator > 0, "AAFRational(%r) has denominator %d" % (x, r.denominator))
    size = max(1, math.ceil(abs(exact)))
    lim = 0x7FFFFFFF
    if size <= lim:
        check(abs(r.numerator) <= lim and r.denominator <= lim, "AAFRational(%r) = %s does not fit 32 bits" % (x, short(terms(r))))
    bound = Fraction(1, 2 * max(1, lim // size))
    got = Fraction(r.numerator, r.denominator)
    check(abs(got - exact) <= bound, "AAFRational(%r) = %s is off by %.3g" % (x, terms(r), float(abs(got - exact))))
    y = AAFRational(n / d)
    check_eq(Fraction(y.numerator, y.denominator), Fraction(n, d), "AAFRational(%d / %d)" % (n, d))
    ctx.nontrivial(x != int(x))
    if abs(x) > 0x7fffffff:
        ctx.event("beyond 32 bits")


digits = st.text(alphabet="0123456789", min_size=1, max_size=6)
udigits = st.lists(digits, min_size=1, max_size=2).map("_".join)
sign = st.sampled_from(["", "", "-", "+"])
text = st.one_of(
    st.tuples(sign, udigits).map("".join),
    st.tuples(sign, udigits, st.just("/"), udigits).map("".join),
    st.tuples(sign, udigits, st.just("."), st.one_of(st.just(""), udigits)).map("".join),
    st.tuples(sign, st.just("."), udigits).map("".join),
    st.tuples(sign, udigits, st.just("."), udigits, st.sampled_from(["e", "E"]), sign, st.integers(0, 12).map(str)).map("".join),
    st.tuples(sign, digits, st.just("e"), sign, st.integers(0, 12).map(str)).map("".join),
    st.text(alphabet="0123456789/.-+eE_ n", max_size=8))
pad = st.sampled_from(["", "", " ", "\n", "\t "])


def run_text(v, ctx):
    from aaf2.rational import AAFRational
    t = v[1] + v[0] + v[2]
    want = outcome(lambda: Fraction(t))
    got = outcome(lambda: AAFRational(t))
    if want[0] == "ZeroDivisionError" and got[0] == "ok":
        check_eq(terms(got[1]), (0, 1), "AAFRational(%r)" % t)
        return
    check_eq(got[0], want[0], "outcome of AAFRational(%r)" % t)
    if want[0] == "ok":
        same_value(got[1], want[1], "AAFRational(%r)" % t)
        ctx.nontrivial(want[1].denominator != 1 or "." in t or "e" in t)


num = st.tuples(st.integers(-30000, 30000), st.integers(1, 1001))
TARGETS = [
    Target("terms", st.tuples(pair, pair), run_terms, 10000, 300000),
    Target("value", st.tuples(pair, pair, st.sampled_from(["rational", "fraction", "int", "float", "same", "lowest"]), st.integers(-3, 4),
                              st.integers(-3, 5)), run_value, 9000, 300000),
    Target("float", st.tuples(floats, num), run_float, 8000, 300000),
    Target("text", st.tuples(text, pad, pad), run_text, 8000, 300000),
]

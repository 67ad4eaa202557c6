"""Floating-point expressions over integers that the format represents exactly up to one correctly rounded quotient.

f64 represents every integer up to 2^53. A product of such integers below 2^53 is exact. For integers n >= 0, d > 0 with
n <= 2^50 the nearest double of n/d differs from it by less than 1/(2d), and every integer and half integer is a double
or further than that from n/d; so rounding, truncating or flooring the double gives the value for the exact quotient."""
import struct
from fractions import Fraction
from term import *

EXACT = const(1 << 53)
LIM = const(1 << 50)


def rat(x, ctx):
    """(n, d, exact): the exact quotient x is the nearest double of; None if not of that form"""
    if isinstance(x, Poly):
        x = ("fl", "i2f", x)
    if not (isinstance(x, tuple) and x and x[0] == "fl"):
        return None
    op = x[1]
    if op == "i2f":
        p = x[2]
        if ctx.ge0(p) and ctx.ge0(EXACT - p):
            return p, ONE, True
        return None
    if op == "const":
        b = bytes.fromhex(x[2])
        f = Fraction(struct.unpack("<d" if len(b) == 8 else "<f", b)[0])
        if f < 0 or f > 1 << 52:
            return None
        return const(f.numerator), const(f.denominator), True
    if op in ("Mul", "Div", "Add", "Sub"):
        l, r = rat(x[2], ctx), rat(x[3], ctx)
        if l is None or r is None or not (l[2] and r[2]):
            return None
        a, b, c, d = l[0], l[1], r[0], r[1]
        if op == "Mul":
            n, m = a * c, b * d
        elif op == "Div":
            n, m = a * d, b * c
            if not ctx.ge0(m - 1):
                return None
        elif op == "Add":
            n, m = a * d + c * b, b * d
        else:
            n, m = a * d - c * b, b * d
            if not ctx.ge0(n):
                return None
        if not (ctx.ge0(LIM - n) and ctx.ge0(EXACT - m)):
            return None
        ex = m == ONE
        mc = m.is_const()
        if mc and not ex:
            k = m.cval()
            ex = k & (k - 1) == 0 if isinstance(k, int) else False
        return n, m, bool(ex)
    if op in ("round", "floor", "ceil", "trunc"):
        r = rat(x[2], ctx)
        if r is None:
            return None
        n, m, _ = r
        if op == "round":
            return mk_quo(n * 2 + m, m * 2, ctx), ONE, True
        if op == "ceil":
            return mk_quo(n + m - 1, m, ctx), ONE, True
        return mk_quo(n, m, ctx), ONE, True
    return None


def to_int(x, lo, hi, ctx):
    """x as an integer type with range lo..hi (the conversion truncates and saturates)"""
    r = rat(x, ctx)
    if r is None:
        return None
    q = r[0] if r[1] == ONE else mk_quo(r[0], r[1], ctx)
    if ctx.ge0(const(hi) - q):
        return q
    return mk_min(q, const(hi), ctx)


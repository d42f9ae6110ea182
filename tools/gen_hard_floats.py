#!/usr/bin/env python3
"""Writes harness/hard_floats.inc: for every power of ten the decimal numbers w * 10^q, w < 2^64, which are the closest known to the
middle between two neighbouring floats / doubles, from both sides. These are the inputs for which every bit of the conversion matters.
Run by hand, the result is committed."""
import os
from fractions import Fraction

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def first_in(a, m, lo, hi):
    """smallest t >= 0 with lo <= a * t mod m <= hi, or None (0 <= lo <= hi < m)"""
    # iterative version of the well known recursion
    def rec(a, m, lo, hi):
        if lo == 0:
            return 0
        a %= m
        if a == 0:
            return None
        if 2 * a > m:
            return rec(m - a, m, m - hi, m - lo)
        t = -(-lo // a)
        if a * t <= hi:
            return t
        # now there is no multiple of a in [lo, hi]
        y = rec(-m % a, a, lo % a, hi % a) if lo % a <= hi % a else None
        if y is None:
            return None
        return -(-(lo + m * y) // a)
    return rec(a, m, lo, hi)


def hardest(alpha, lo_w, hi_w, below):
    """w in [lo_w, hi_w) with frac(w * alpha) nearest to 1/2 from the given side, but not equal"""
    p, q = alpha.numerator, alpha.denominator
    best = None
    # halve the window while something is found
    k = 3
    while k < 140:
        d = q >> k
        if d == 0:
            break
        half = Fraction(q, 2)
        if below:
            l, h = int(half - d), (q - 1) // 2
        else:
            l, h = q // 2 + 1, int(half + d)
        if l > h:
            break
        # shift so that w = lo_w + t
        off = (lo_w * p) % q
        l2, h2 = (l - off) % q, (h - off) % q
        if l2 > h2:
            t = 0
        else:
            t = first_in(p % q, q, l2, h2)
        if t is None or lo_w + t >= hi_w:
            break
        w = lo_w + t
        r = (w * p) % q
        assert l <= r <= h, (l, r, h)
        best = w
        # continue with a window smaller than this distance
        dist = abs(Fraction(r, q) - Fraction(1, 2))
        k += 1
        while k < 200 and Fraction(1, 2 ** k) > dist:
            k += 1
    return best


def family(bits, min_exp, max_exp, q_range):
    out = []
    for q in q_range:
        ten = Fraction(10) ** q
        for lo_w in (1 << 63, 10 ** 18, 10 ** 16) + ((10 ** 14, 10 ** 11, 10 ** 9, 10 ** 7, 10 ** 5, 1000) if q > (280 if bits == 53 else 15) else ()):
            hi_w = min(lo_w * 2, (1 << 64) - 1)
            # exponent of the last bit
            v = ten * lo_w
            e = (v.numerator.bit_length() - v.denominator.bit_length())
            while Fraction(2) ** e > v:
                e -= 1
            while Fraction(2) ** (e + 1) <= v:
                e += 1
            ulp = max(e - bits + 1, min_exp)
            if e > max_exp or e < min_exp - 2:
                continue
            # the part of the range inside of the binade
            lim = Fraction(2) ** (e + 1) / ten
            hi = min(hi_w, int(lim))
            alpha = ten / Fraction(2) ** ulp
            for below in (True, False):
                w = hardest(alpha, lo_w, hi, below)
                if w is not None and hi > lo_w:
                    out.append((w, q))
    return out


dd = family(53, -1074, 1023, range(-342, 309))
ff = family(24, -149, 127, range(-65, 39))
with open(os.path.join(V, "harness", "hard_floats.inc"), "w") as f:
    f.write("// made by tools/gen_hard_floats.py\n")
    for name, l in (("hard_doubles", dd), ("hard_singles", ff)):
        f.write("const struct { uint64_t w; int q; } %s[] = {\n" % name)
        for w, q in l:
            f.write("\t{%dull, %d},\n" % (w, q))
        f.write("};\n")
print(len(dd), len(ff))

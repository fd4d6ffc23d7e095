"""What tokens mean as numbers, and how numbers are written: an oracle independent of the library
under test (exact rational arithmetic; numpy only for shortest decimal texts)."""
import re
import struct
from fractions import Fraction
from functools import lru_cache

import numpy as np

NUM = re.compile(rb"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z")
COUNT = re.compile(rb"\+?\d+\Z")
# Spellings whose meaning the properties leave open (infinities and NaN).
WEIRD = re.compile(rb"[+-]?(inf|nan)", re.I)


def _round(q, mant, emin, emax):
    """Round Fraction q >= 0 to a binary float (mant bits, min exponent of the last bit, max exponent).
    Returns (integer significand, exponent of the last bit) or None for overflow."""
    if q == 0:
        return 0, emin
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length() - mant
    while True:
        ex = max(e, emin)
        num, den = (n << -ex, d) if ex < 0 else (n, d << ex)
        m, r = divmod(num, den)
        if m >= (1 << mant):
            e = ex + 1
            continue
        if m < (1 << (mant - 1)) and ex > emin:
            e = ex - 1
            continue
        if 2 * r > den or (2 * r == den and m & 1):
            m += 1
            if m == (1 << mant):
                m >>= 1
                ex += 1
        if ex > emax:
            return None
        return m, ex


def parse_exact(tok):
    """Fraction of a decimal token, and its sign."""
    t = tok.decode()
    neg = t.startswith("-")
    t = t.lstrip("+-")
    m = re.match(r"(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?\Z", t)
    a, b, e = m.group(1), m.group(2), int(m.group(3) or 0)
    digits = (a + b).lstrip("0")
    if not digits:
        return neg, Fraction(0)
    exp = e - len(b)
    if len(digits) + exp > 400:  # overflows binary64 as well
        return neg, Fraction(10) ** 400
    if len(digits) + exp < -420:
        return neg, Fraction(1, 10**420)
    return neg, Fraction(int(digits)) * Fraction(10) ** exp


@lru_cache(maxsize=200000)
def f32_bits(tok):
    """Bits (hex) of the single-precision number a token denotes, or "bad"."""
    if not NUM.match(tok):
        return "bad"
    neg, q = parse_exact(tok)
    r = _round(q, 24, -149, 104)
    if r is None:
        bits = 0x7F800000
    else:
        m, ex = r
        bits = m if m < (1 << 23) else ((ex + 150) << 23) | (m & 0x7FFFFF)
    return "%08x" % (bits | (0x80000000 if neg else 0))


def f64_value(tok):
    neg, q = parse_exact(tok)
    r = _round(q, 53, -1074, 971)
    if r is None:
        return neg, None
    m, ex = r
    return neg, Fraction(m) * Fraction(2) ** ex


@lru_cache(maxsize=20000)
def frame_time(tok):
    """(ok, nanoseconds as text) of a frame time token."""
    if not NUM.match(tok):
        return False, ""
    neg, v = f64_value(tok)
    if v is None or (neg and v != 0):
        return False, ""
    ns = v * 1000000000
    n, r = divmod(ns.numerator, ns.denominator)
    if 2 * r > ns.denominator or (2 * r == ns.denominator and n & 1):
        n += 1
    if n >= (1 << 64) * 1000000000:
        return False, ""
    return True, str(n)


@lru_cache(maxsize=20000)
def count(tok):
    if not COUNT.match(tok) or int(tok) >= 1 << 64:
        return {"ok": False, "n": 0, "d": ""}
    n = int(tok)
    return {"ok": True, "n": n if n < 1 << 30 else -1, "d": str(n)}


@lru_cache(maxsize=200000)
def attrs(tok):
    """f: bits; u: decimal digits of a count and n: the count if TLC can hold it, else -1;
    t: nanoseconds of a frame time.  "bad" where the token is not such a number."""
    ok, ns = frame_time(tok)
    u = count(tok)
    return {"f": f32_bits(tok), "u": u["d"] if u["ok"] else "bad", "n": u["n"], "t": ns if ok else "bad"}


def esc(b):
    """The text by which the specification knows these bytes: one printable character per byte."""
    return "".join(chr(c) if 32 < c < 127 else chr(256 + c) for c in b)


SEP = re.compile(rb"[\t\n\x0c\r :]+")
WS = re.compile(rb"[\t\n\x0c\r ]+")
EXOTIC = re.compile(
    rb"\x0b|\xc2\x85|\xc2\xa0|\xe1\x9a\x80|\xe2\x80[\x80-\x8a\xa8\xa9\xaf]|\xe2\x81\x9f|\xe3\x80\x80")


def tokens(data):
    return {t for t in SEP.split(data) if t} | {t for t in WS.split(data) if t}


def table(data):
    """Attributes of every token of the input, however it is split, and whether the meaning of the
    input is left open (Unicode white space, infinities or NaN)."""
    toks = tokens(data)
    weird = bool(EXOTIC.search(data)) or any(WEIRD.match(t) for t in toks)
    return {esc(t): attrs(t) for t in toks}, weird


# --- writing numbers -------------------------------------------------------------------------

def f32_from_bits(h):
    return np.frombuffer(struct.pack("<I", int(h, 16)), dtype="<f4")[0]


def exact32(h):
    """(negative, Fraction) of finite bits."""
    b = int(h, 16)
    e, m = (b >> 23) & 255, b & 0x7FFFFF
    v = Fraction(m) * Fraction(2) ** -149 if e == 0 else Fraction(m | 1 << 23) * Fraction(2) ** (e - 150)
    return b >> 31 == 1, v


def finite(h):
    return (int(h, 16) >> 23) & 255 != 255


def fixed(neg, v, p):
    """v >= 0 with exactly p fractional digits, ties to even on the exact value."""
    s = v * 10**p
    n, r = divmod(s.numerator, s.denominator)
    if 2 * r > s.denominator or (2 * r == s.denominator and n & 1):
        n += 1
    d = str(n).rjust(p + 1, "0")
    body = d if p == 0 else d[:-p] + "." + d[-p:]
    return ("-" if neg else "") + body


def fixed_texts(neg, v, p):
    """The acceptable texts of a number with p fractional digits: nothing says which way ties go, or
    whether what rounds to zero keeps its sign."""
    a = fixed(neg, v, p)
    out = [a]
    s = v * 10**p
    n, r = divmod(s.numerator, s.denominator)
    if 2 * r == s.denominator:
        out += [fixed(neg, Fraction(n + k, 10**p), p) for k in (0, 1)]
    out += [x[1:] for x in out if x[0] == "-" and not x.strip("-0.")]
    return sorted(set(out))


@lru_cache(maxsize=200000)
def texts32(h, p=None):
    """All acceptable texts of a single-precision number."""
    if not finite(h):
        b = int(h, 16)
        if b & 0x7FFFFF:
            return ["NaN", "nan"]
        return [("-" if b >> 31 else "") + x for x in ("inf", "infinity", "Infinity")]
    if p is not None:
        return fixed_texts(*exact32(h), p)
    neg, v = exact32(h)
    return as_short(text32(h), neg, v, lambda x: f32_bits(x) == h)


def as_short(t, neg, v, same):
    """All texts as short as t that read back to the same value v."""
    out = [t]
    if v:
        p = len(t.split(".")[1]) if "." in t else 0
        zeros = len(t) - len(t.rstrip("0")) if not p else 0
        unit = Fraction(10**zeros, 10**p)
        q = Fraction(t.lstrip("-"))
        out += [x for x in (fixed(neg, q + k * unit, p) for k in (-1, 1)) if len(x) == len(t) and same(x.encode())]
        if zeros:
            out += [fixed(neg, v, 0)]
    return sorted(set(out))


@lru_cache(maxsize=20000)
def texts_time(ns, p=None):
    """All acceptable texts of a frame time: of the exact number of seconds, or of the double nearest to it."""
    q = Fraction(int(ns), 10**9)
    if p is None:
        exact = fixed(False, q, 9).rstrip("0").rstrip(".")
        f = secs64(ns)
        return sorted(set(as_short(text_time(ns), False, Fraction(f), lambda x: float(x) == f) + [exact]))
    return sorted(set(fixed_texts(False, q, p) + fixed_texts(False, Fraction(secs64(ns)), p)))


def positional(sci):
    """Scientific notation, written out."""
    m = re.match(r"(-?)(\d)\.?(\d*)e([+-]\d+)\Z", sci)
    digits, e = (m.group(2) + m.group(3)).rstrip("0") or "0", int(m.group(4))
    if digits == "0":
        return m.group(1) + "0"
    k = len(digits) - 1 - e  # fractional digits
    if k <= 0:
        return m.group(1) + digits + "0" * -k
    digits = digits.rjust(k + 1, "0")
    return m.group(1) + digits[:-k] + "." + digits[-k:]


@lru_cache(maxsize=200000)
def text32(h, p=None):
    if not finite(h):
        b = int(h, 16)
        return "NaN" if b & 0x7FFFFF else ("-inf" if b >> 31 else "inf")
    neg, v = exact32(h)
    if p is not None:
        return fixed(neg, v, p)
    return positional(np.format_float_scientific(f32_from_bits(h), unique=True, trim="-"))


def secs64(ns):
    """Duration::as_secs_f64 of nanoseconds (decimal text)."""
    s, n = divmod(int(ns), 1000000000)
    return float(s) + float(n) / 1e9


@lru_cache(maxsize=20000)
def text_time(ns, p=None):
    f = secs64(ns)
    if p is not None:
        return fixed(False, Fraction(f), p)
    return positional(np.format_float_scientific(np.float64(f), unique=True, trim="-"))

"""Value model: pairs of (TLV, expected Python value) built without the library."""

from __future__ import annotations

import math
from fractions import Fraction

from .ber import NULL, int_content, oid_content, text, tlv

# -- boundary pools
I64 = sorted(
    {
        s * (1 << k) + d
        for k in (0, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 62, 63)
        for d in (-2, -1, 0, 1, 2)
        for s in (1, -1)
        if -(1 << 63) <= s * (1 << k) + d < (1 << 63)
    }
)
U64 = sorted({(1 << k) + d for k in range(0, 65) for d in (-2, -1, 0, 1) if 0 <= (1 << k) + d < (1 << 64)})
U32 = [x for x in U64 if x < 1 << 32]
ARCS = sorted({0, 1, 2, 39, 40, 63, 64, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 2**21 - 1, 2**21, 2**21 + 1, 2**28 - 1, 2**28, 2**28 + 1, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1})


class Exc:
    """Exception value of a varbind."""

    def __init__(self, name: str, tag: int):
        self.name = name
        self.tlv = bytes((tag, 0))

    def __repr__(self) -> str:
        return self.name


NO_SUCH_OBJECT = Exc("noSuchObject", 0x80)
NO_SUCH_INSTANCE = Exc("noSuchInstance", 0x81)
END_OF_MIB = Exc("endOfMibView", 0x82)
EXCS = (NO_SUCH_OBJECT, NO_SUCH_INSTANCE, END_OF_MIB)


def uint_content(v: int) -> bytes:
    """Unsigned application types are INTEGERs on the wire: leading zero when needed."""
    return int_content(v)


def rand_arcs(rng, min_len=2, max_len=14, big=0.3):
    n = rng.randint(min_len, max_len)
    first = rng.randint(0, 2)
    second = rng.randint(0, 39)
    return (first, second, *(rand_arc(rng, big) for _ in range(n - 2)))


WIDE = (40, 47, 48, 79, 80, 100, 175, 176, 999, 16303, 16304, 2**28 - 81, 2**32 - 81)


def any_arcs(rng, min_len=2, max_len=14, big=0.3):
    """As rand_arcs, and the second arc of 2.x is not limited."""
    a = rand_arcs(rng, min_len, max_len, big)
    if a[0] == 2 and rng.random() < 0.4:
        return (2, rng.choice(WIDE), *a[2:])
    return a


def rand_arc(rng, big=0.3):
    if rng.random() < big:
        return rng.choice(ARCS)
    if rng.random() < 0.2:
        return rng.randrange(1 << rng.randint(1, 32))
    return rng.randint(0, 300)


def rand_bytes(rng, n=None):
    if n is None:
        n = rng.choice((0, 1, 2, 3, 5, 8, 16, 30, 60, 127, 128, 129, 200))
    return rng.randbytes(n)


def wrapped_bytes(rng):
    """Octets which look like an encoding: nothing of them may be interpreted."""
    b = rng.randbytes(rng.choice((0, 1, 2, 4, 5, 8)))
    k = rng.randrange(9)
    if k == 0:
        return tlv(rng.choice((1, 2, 4, 5, 6, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x30)), b)
    if k == 1:  # Opaque Float, Double, I64, U64
        t, n = rng.choice(((0x78, 4), (0x79, 8), (0x7A, 8), (0x76, 8), (0x70, rng.randint(0, 5))))
        return bytes((0x9F, t, n)) + rng.randbytes(n)
    if k == 2:
        return tlv(0x44, tlv(4, b))
    if k == 3:  # text with edges a decoder may be tempted to trim
        body = rng.choice((b"router", b"0x0a", b"12", b"1.3.6.1", b""))
        if rng.random() < 0.4:
            body = bytes(rng.randint(32, 126) for _ in range(rng.choice((15, 31, 40, 63, 100, 126, 254))))
        return rng.choice((b"", b"", b"\0", b" ", b"\n", b"\xef\xbb\xbf", b'"')) + body + rng.choice((b"\0", b"\0", b"\0\0\0", b" ", b"\r\n", b"\n", b"\xff", b""))
    if k == 4:
        return bytes(rng.choice((1, 2, 3, 4, 8, 16, 128, 255)))
    if k == 5:
        return b"\xff" * rng.choice((1, 2, 4, 8, 127, 128))
    if k == 6:  # DateAndTime, IpAddress, MAC like
        return rng.choice((b"\x07\xe8\x02\x1d\x17\x3b\x3b\x09+\x02\x00", b"\x7f\0\0\1", b"\0\1\2\3\4\5", b"\x20\x01\x0d\xb8" + bytes(11) + b"\1"))
    if k == 7:
        return "".join(rng.choice("\u00e9\u4e2d\U0001f600\u0416a") for _ in range(rng.randint(1, 6))).encode(rng.choice(("utf-8", "utf-16-le")))
    return tlv(0x30, tlv(6, oid_content((1, 3, 6, 1))) + tlv(4, b))


def form(rng):
    """Length form: mostly minimal; up to 126 length octets (X.690 8.1.3.5)."""
    k = rng.random()
    if k < 0.95:
        return rng.choice((0, 0, 0, 0, 0, 1, 2, 3, 4))
    if k < 0.99:
        return rng.choice((5, 6, 7, 8, 9, 10, 15, 16, 17))
    return rng.choice((20, 31, 32, 33, 63, 64, 65, 100, 126))


# -- REAL --------------------------------------------------------------------
class Real:
    """Expected REAL: exact rational (or special)."""

    def __init__(self, exact=None, special=None):
        self.exact = exact
        self.special = special

    def __repr__(self):
        return f"Real({self.special if self.special is not None else self.exact})"

    def nearest(self) -> float:
        e = self.exact
        try:
            return e.numerator / e.denominator
        except OverflowError:
            return math.inf if e > 0 else -math.inf

    def ok(self, v) -> bool:
        if type(v) is not float:
            return False
        if self.special is not None:
            if self.special == "nan":
                return math.isnan(v)
            return v == self.special and math.copysign(1, v) == math.copysign(1, self.special)
        w = self.nearest()
        if v == w:
            return True
        if math.isinf(w) or math.isnan(v) or math.isinf(v):
            # the boundary of the range: within one ulp of the largest finite
            return v in (math.nextafter(w, 0), w) if not math.isnan(v) else False
        if Fraction(w) == self.exact:
            return False  # representable exactly: no rounding allowed
        return v in (math.nextafter(w, math.inf), math.nextafter(w, -math.inf))


def exp_octets(e: int, n: int) -> bytes:
    return e.to_bytes(n, "big", signed=True)


def real_binary(sign: int, base: int, f: int, n: int, e: int, elen: int, longform: bool = False, mpad: int = 0) -> bytes:
    first = 0x80 | (0x40 if sign < 0 else 0) | ({2: 0, 8: 1, 16: 2}[base] << 4) | (f << 2)
    m = bytes(mpad) + n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    if longform:
        return bytes((first | 3, elen)) + exp_octets(e, elen) + m
    return bytes((first | (elen - 1),)) + exp_octets(e, elen) + m


def real_binary_value(sign, base, f, n, e) -> Real:
    bits = {2: 1, 8: 3, 16: 4}[base]
    p = e * bits + f
    if n == 0:
        return Real(Fraction(0))
    # far outside of the range of double
    top = p + n.bit_length()
    if top > 1100:
        return Real(special=math.inf * sign)
    if top < -1200:
        return Real(Fraction(sign, 1 << 1300))
    return Real(Fraction(sign * n) * (Fraction(1 << p) if p >= 0 else Fraction(1, 1 << -p)))


def rand_real(rng):
    """(content octets, Real)"""
    k = rng.random()
    if k < 0.12:
        return rng.choice(
            (
                (b"", Real(special=0.0)),
                (b"\x40", Real(special=math.inf)),
                (b"\x41", Real(special=-math.inf)),
                (b"\x42", Real(special="nan")),
                (b"\x43", Real(special=-0.0)),
            )
        )
    if k < 0.5:
        # decimal
        nr = rng.randint(1, 3)
        sgn = rng.choice(("", "", "+", "-"))
        ip = "".join(rng.choice("0123456789") for _ in range(rng.choice((1, 1, 2, 3, 5, 9, 17, 25))))
        s = ip
        if nr >= 2:
            mark = rng.choice("..,")
            fp = "".join(rng.choice("0123456789") for _ in range(rng.choice((0, 1, 1, 2, 4, 9, 20))))
            s = ip + mark + fp
            if fp and rng.random() < 0.1:
                s = mark + fp
        if nr == 3:
            s += rng.choice("Ee") + rng.choice(("", "+", "-")) + str(rng.choice((0, 1, 2, 3, 7, 15, 22, 30, 100, 290)))
        sp = " " * rng.choice((0, 0, 0, 1, 3))
        txt = sgn + s
        v = Fraction(txt.replace(",", ".").lower() if not txt.replace(",", ".").endswith(".") else txt[:-1]) if nr != 3 else _dec(txt)
        r = Real(v)
        if v == 0 and sgn == "-":
            r = Real(Fraction(0))
        return bytes((nr,)) + (sp + txt).encode(), r
    sign = rng.choice((1, -1))
    base = rng.choice((2, 2, 8, 16))
    f = rng.randint(0, 3)
    nb = rng.choice((1, 2, 7, 8, 9, 16, 24, 31, 32, 33, 40, 52, 53, 54, 60, 63, 64, 65, 72, 100, 127, 128, 130, 200))
    n = rng.getrandbits(nb) | (1 << (nb - 1)) | (1 if rng.random() < 0.5 else 0)
    lf = rng.random() < 0.15
    elen = rng.choice((1, 1, 1, 2, 2, 3)) if not lf else rng.choice((1, 2, 3, 4, 5, 8))
    if elen == 1:
        e = rng.choice((0, 1, -1, 127, -128, 5, -5, rng.randint(-128, 127)))
    else:
        e = rng.choice((0, 1, -1, 127, -128, 128, -129, 200, -200, 1000, -1000, -1060, rng.randint(-1200, 1100)))
        if rng.random() < 0.05:
            e = rng.choice((1, -1)) * ((1 << (8 * elen - 1)) - 1)
    return real_binary(sign, base, f, n, e, elen, lf, rng.choice((0, 0, 0, 1, 9))), real_binary_value(sign, base, f, n, e)


def _dec(txt: str) -> Fraction:
    t = txt.replace(",", ".").lower()
    m, _, e = t.partition("e")
    if m.endswith("."):
        m = m[:-1]
    return Fraction(m) * (Fraction(10) ** int(e))


# -- generic values ------------------------------------------------------------
KINDS = (
    "int", "counter32", "gauge32", "timeticks", "uinteger32", "counter64", "octets", "opaque", "descriptor",
    "ip", "oid", "bool", "real", "null",
)  # fmt: skip
U_TAGS = {"counter32": 0x41, "gauge32": 0x42, "timeticks": 0x43, "uinteger32": 0x47}


def rand_value(rng, kind=None, f=None, max_bytes=None):
    """(kind, tlv, expected)."""
    kind = kind or rng.choice(KINDS)
    f = form(rng) if f is None else f
    if kind == "int":
        v = rng.choice(I64) if rng.random() < 0.6 else rng.getrandbits(rng.randint(1, 63)) * rng.choice((1, -1))
        return kind, tlv(2, int_content(v), f), v
    if kind in U_TAGS:
        v = rng.choice(U32) if rng.random() < 0.6 else rng.getrandbits(32)
        return kind, tlv(U_TAGS[kind], uint_content(v), f), v
    if kind == "counter64":
        v = rng.choice(U64) if rng.random() < 0.6 else rng.getrandbits(64)
        return kind, tlv(0x46, uint_content(v), f), v
    if kind in ("octets", "opaque", "descriptor"):
        b = rand_bytes(rng) if rng.random() < 0.7 else wrapped_bytes(rng)
        if max_bytes is not None:
            b = b[:max_bytes]
        return kind, tlv({"octets": 4, "opaque": 0x44, "descriptor": 7}[kind], b, f), b
    if kind == "ip":
        b = rng.choice((b"\0\0\0\0", b"\xff\xff\xff\xff", rng.randbytes(4), b"\x7f\x80\x01\x00"))
        return kind, tlv(0x40, b, f), ".".join(str(x) for x in b)
    if kind == "oid":
        a = any_arcs(rng)
        return kind, tlv(6, oid_content(a), f), text(a)
    if kind == "bool":
        b = rng.choice((0, 1, 0x7F, 0x80, 0xFF, rng.randrange(256)))
        return kind, tlv(1, bytes((b,)), f), b != 0
    if kind == "real":
        c, r = rand_real(rng)
        return kind, tlv(9, c, f), r
    if kind == "null":
        return kind, tlv(5, b"", f), None
    raise ValueError(kind)


def same(expected, got) -> bool:
    """Type-exact comparison."""
    if isinstance(expected, Real):
        return expected.ok(got)
    return type(expected) is type(got) and expected == got


def describe(v) -> str:
    s = repr(v)
    return s if len(s) < 200 else s[:200] + "..."


NULL_TLV = NULL

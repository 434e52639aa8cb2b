"""Hostile message generation: TLV trees with overridable headers, and byte mutations."""

from __future__ import annotations

from . import values
from .ber import enc_len

TAGS = (
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0A, 0x0C, 0x0D, 0x10, 0x1E, 0x1F, 0x30, 0x31, 0x3F, 0x40, 0x41, 0x42, 0x43, 0x44,
    0x45, 0x46, 0x47, 0x5F, 0x60, 0x80, 0x81, 0x82, 0x83, 0x9F, 0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0xBF, 0xC0, 0xE0, 0xFF,
)  # fmt: skip
RAW_LENS = (
    b"\x00", b"\x01", b"\x02", b"\x7f", b"\x80", b"\x81", b"\x82", b"\x83", b"\x84", b"\x88", b"\x89", b"\xfe", b"\xff",
    b"\x81\x00", b"\x81\x7f", b"\x81\x80", b"\x81\xff", b"\x82\x00\x01", b"\x82\x0f\xf0", b"\x82\xff\xff", b"\x83\xff\xff\xff",
    b"\x84\x00\x00\x00\x02", b"\x84\x7f\xff\xff\xff", b"\x84\x80\x00\x00\x00", b"\x84\xff\xff\xff\xff",
    b"\x88\x7f\xff\xff\xff\xff\xff\xff\xff", b"\x88\x80\x00\x00\x00\x00\x00\x00\x00", b"\x88\xff\xff\xff\xff\xff\xff\xff\xff",
    b"\x88\xff\xff\xff\xff\xff\xff\xff\xf0", b"\x89\x01\x00\x00\x00\x00\x00\x00\x00\x05", b"\x90" + b"\x00" * 15 + b"\x03", b"\x8f" + b"\xff" * 15,
)  # fmt: skip
RAW_TAGS = (b"\x1f", b"\x1f\x80", b"\x1f\x81", b"\x1f\x02", b"\x1f\x1f", b"\x1f\xff\x7f", b"\x1f\x80\x80\x80\x80\x80\x02", b"\x3f\x10", b"\xbf\x02", b"\xff\xff\xff", b"\x1f" + b"\xff" * 20, b"\x1f\x82\x04", b"\x5f\x01")


class Node:
    __slots__ = ("tag", "kids", "content", "rawlen", "form", "nested")

    def __init__(self, tag, content=None, kids=None, nested=False):
        self.tag = tag if isinstance(tag, bytes) else bytes((tag,))
        self.content = content
        self.kids = kids
        self.rawlen = None
        self.form = 0
        self.nested = nested

    def body(self) -> bytes:
        if self.kids is not None:
            return b"".join(k.enc() for k in self.kids)
        return self.content

    def enc(self) -> bytes:
        b = self.body()
        ln = self.rawlen if self.rawlen is not None else enc_len(len(b), self.form)
        return self.tag + ln + b

    def walk(self):
        yield self
        for k in self.kids or ():
            yield from k.walk()


def _one(data: bytes, p: int, end: int):
    if p + 2 > end or data[p] & 0x1F == 0x1F:
        return None
    tag = data[p]
    ln = data[p + 1]
    q = p + 2
    form = 0
    if ln & 0x80:
        k = ln & 0x7F
        if k == 0 or k > 4 or q + k > end:
            return None
        ln = int.from_bytes(data[q : q + k], "big")
        q += k
        form = k
    if q + ln > end:
        return None
    return tag, form, q, q + ln


def parse(data: bytes, p: int = 0, end: int | None = None, v3: bool = False):
    """Parses well-formed data to the list of nodes, or None."""
    end = len(data) if end is None else end
    r = []
    while p < end:
        h = _one(data, p, end)
        if h is None:
            return None
        tag, form, s, e = h
        n = Node(tag, data[s:e])
        n.form = form
        if tag & 0x20:
            k = parse(data, s, e, v3)
            if k is not None:
                n.kids = k
        elif tag == 4 and v3 and e - s > 2 and data[s] == 0x30:
            # Nested usm parameters
            k = parse(data, s, e)
            if k is not None and len(k) == 1:
                n.kids = k
        r.append(n)
        p = e
    return r


def tree_mutate(rng, data: bytes, v3: bool = False, n: int | None = None) -> bytes:
    """Mutates the TLV structure. Parents' lengths stay consistent unless chosen."""
    t = parse(data, v3=v3)
    if not t:
        return byte_mutate(rng, data)
    for _ in range(n or rng.choice((1, 1, 1, 2, 3))):
        nodes = [x for r in t for x in r.walk()]
        x = rng.choice(nodes)
        k = rng.randrange(12)
        if k == 0:
            x.tag = bytes((rng.choice(TAGS),))
        elif k == 1:
            x.tag = rng.choice(RAW_TAGS)
        elif k in (2, 3):
            x.rawlen = rng.choice(RAW_LENS)
        elif k == 4:
            # Off-by-some length
            x.rawlen = enc_len(max(0, len(x.body()) + rng.choice((-3, -2, -1, 1, 2, 3, 5, 20, 127))), rng.choice((0, 1, 2)))
        elif k == 5:
            x.form = rng.choice((1, 2, 3, 4, 8, 9, 126))
        elif k == 6:
            x.kids, x.content = None, rand_content(rng)
        elif k == 7:
            x.kids, x.content = None, b""
        elif k == 8 and x.kids:
            i = rng.randrange(len(x.kids))
            x.kids.insert(i, x.kids[rng.randrange(len(x.kids))])
        elif k == 9 and x.kids:
            del x.kids[rng.randrange(len(x.kids))]
        elif k == 10 and x.kids:
            x.kids.insert(rng.randrange(len(x.kids) + 1), Node(rng.choice(TAGS), rand_content(rng)))
        elif k == 11:
            if x.kids:
                rng.shuffle(x.kids)
            else:
                c = x.content
                x.content = rng.choice((c[:-1], c[1:], c + b"\0", b"\xff" + c, c + c, byte_mutate(rng, c)))
    return b"".join(x.enc() for x in t)


def rand_content(rng) -> bytes:
    k = rng.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return rng.choice((b"\x80", b"\xff", b"\x00", b"\x7f", b"\x30\x00", b"\x30", b"\x0d\x00", b"\x06\x00", b"\xff" * 5, b"\x8f\xff\xff\xff\x7f", b"\x9f\xff\xff\xff\x7f", b"\x2b\x80", b"\x2b\x80\x80\x80\x80\x80\x01"))
    if k == 2:
        return rng.randbytes(rng.choice((8, 9, 10, 16)))
    if k == 3:
        return bytes((rng.randrange(256),)) * rng.choice((1, 4, 9, 20, 200))
    if k == 4:
        return hostile_value(rng)
    return rng.randbytes(rng.choice((1, 1, 2, 3, 4, 5, 7, 12, 40)))


def byte_mutate(rng, data: bytes) -> bytes:
    b = bytearray(data)
    for _ in range(rng.choice((1, 1, 2, 3, 8))):
        k = rng.randrange(7)
        if not b:
            return rng.randbytes(rng.randint(0, 4))
        i = rng.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[i] = rng.choice((0, 1, 0x7F, 0x80, 0x81, 0x84, 0xFF, rng.randrange(256)))
        elif k == 2:
            del b[i:]
        elif k == 3:
            del b[i : i + rng.choice((1, 1, 2, 5))]
        elif k == 4:
            b[i:i] = rng.randbytes(rng.choice((1, 1, 2, 5)))
        elif k == 5:
            j = rng.randrange(len(b))
            b[i:i] = b[j : j + rng.randint(1, 12)]
        else:
            b += rng.randbytes(rng.choice((1, 2, 10)))
    return bytes(b)


REAL_FIRST = tuple(range(256))


def hostile_value(rng) -> bytes:
    """Value TLV with the plausible tag and hostile contents."""
    k = rng.randrange(10)
    if k < 3:
        tag = rng.choice((0x01, 0x02, 0x04, 0x05, 0x06, 0x07, 0x09, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x80, 0x81, 0x82))
        n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 130))
        return bytes((tag,)) + enc_len(n) + rng.randbytes(n)
    if k < 6:
        # REAL
        first = rng.randrange(256)
        kk = rng.randrange(5)
        if kk == 0:
            c = b""
        elif kk == 1:
            c = bytes(rng.choice(b"0123456789+-.,eE \x00\xff") for _ in range(rng.randint(0, 40)))
        elif kk == 2:
            c = rng.choice((b"inf", b"nan", b"1e999999999", b"-", b"+", b".", b",", b"e", b"1e", b" ", b"9" * 400, b"1" + b"0" * 310, b"\xc3\xa9", b"\xff\xfe", b"1_0", b"0x10", b"infinity"))
            first = rng.choice((1, 2, 3))
        elif kk == 3:
            ln = rng.choice((0, 1, 2, 3, 8, 9, 127, 128, 255))
            c = bytes((ln,)) + rng.randbytes(rng.choice((0, 1, ln, ln + 1, ln + 20)) if ln < 200 else 5)
            first |= 0x83
        else:
            c = rng.choice((b"\x7f\xff\xff", b"\x80\x00\x00", b"\xff", b"\x7f\xff")) + rng.randbytes(rng.choice((0, 1, 8, 16, 17, 100)))
            first |= 0x80
        c = bytes((first,)) + c if rng.random() < 0.97 else b""
        return b"\x09" + enc_len(len(c)) + c
    if k == 6:
        n = rng.choice((1, 2, 5, 6, 10, 130))
        c = bytes(rng.choice((0x80, 0xFF, 0x8F, 0x00, 0x7F, 0x2B, 0x78)) for _ in range(n))
        return b"\x06" + enc_len(len(c)) + c
    if k == 7:
        return rng.choice(RAW_TAGS) + rng.choice(RAW_LENS) + rng.randbytes(rng.randint(0, 6))
    if k == 8:
        return bytes((rng.choice(TAGS),)) + rng.choice(RAW_LENS) + rng.randbytes(rng.randint(0, 6))
    return values.rand_value(rng)[1]


def hostile_name(rng, last) -> bytes:
    k = rng.randrange(8)
    if k == 0:
        return b"\x06\x00"
    if k == 1:
        c = bytes(rng.choice((0x80, 0xFF, 0x8F, 0x00, 0x7F, 0x2B)) for _ in range(rng.randint(1, 12)))
        return b"\x06" + enc_len(len(c)) + c
    if k in (2, 3, 4):
        # relative
        c = bytes(rng.choice((0x00, 0x01, 0x02, 0x03, 0x27, 0x28, 0x7F, 0x80, 0x81, 0xFF)) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 6, 12))))
        return b"\x0d" + enc_len(len(c)) + c
    if k == 5:
        return bytes((rng.choice(TAGS),)) + rng.choice(RAW_LENS)
    if k == 6:
        return b""
    return b"\x06" + enc_len(len(last)) + last

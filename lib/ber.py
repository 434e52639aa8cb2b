"""Independent BER codec (X.690): an encoder with selectable length forms and a strict
decoder which accepts only minimal definite-length encodings.

Shares nothing with the library under test.
"""

from __future__ import annotations

import functools


class Malformed(Exception):
    """Strict decoder refused the input."""


# ---- encoder -------------------------------------------------------------


def enc_len(n: int, form: int = 0) -> bytes:
    """form 0: minimal; k>0: long form with k length octets (as many as needed)."""
    if form == 0 and n < 128:
        return bytes((n,))
    need = max(1, (n.bit_length() + 7) // 8)
    k = max(form, need)
    return bytes((0x80 | k,)) + n.to_bytes(k, "big")


def tlv(tag: int, content: bytes, form: int = 0) -> bytes:
    return bytes((tag,)) + enc_len(len(content), form) + content


def int_content(v: int) -> bytes:
    """Minimal two's complement."""
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def enc_int(v: int, tag: int = 2, form: int = 0) -> bytes:
    return tlv(tag, int_content(v), form)


_SMALL = [bytes((v,)) for v in range(128)]


def arc(v: int) -> bytes:
    if v < 128:
        return _SMALL[v]
    r = [v & 0x7F]
    v >>= 7
    while v:
        r.append(0x80 | (v & 0x7F))
        v >>= 7
    return bytes(reversed(r))


def oid_content(arcs) -> bytes:
    """arcs: sequence of at least 2 integers."""
    return _oid_content(tuple(arcs))


@functools.lru_cache(8192)
def _oid_content(arcs) -> bytes:
    return arc(arcs[0] * 40 + arcs[1]) + b"".join([arc(a) for a in arcs[2:]])


def enc_oid(arcs, form: int = 0) -> bytes:
    return tlv(6, oid_content(arcs), form)


def text(arcs) -> str:
    return ".".join(str(a) for a in arcs)


def arcs_of(s: str) -> tuple:
    return tuple(int(x) for x in s.split("."))


def seq(*parts: bytes, form: int = 0) -> bytes:
    return tlv(0x30, b"".join(parts), form)


def ostr(b: bytes, form: int = 0) -> bytes:
    return tlv(4, b, form)


NULL = b"\x05\x00"

# ---- strict decoder ------------------------------------------------------


class Reader:
    """Strict reader over [pos, end) of buf. Only minimal definite lengths."""

    __slots__ = ("buf", "pos", "end")

    def __init__(self, buf: bytes, pos: int = 0, end: int | None = None):
        self.buf = buf
        self.pos = pos
        self.end = len(buf) if end is None else end

    def header(self) -> tuple[int, int]:
        """Returns tag, length; position is moved to the content."""
        b, p = self.buf, self.pos
        if p + 2 > self.end:
            raise Malformed(f"truncated header at {p}")
        tag = b[p]
        if tag & 0x1F == 0x1F:
            raise Malformed("long-form tag")
        ln = b[p + 1]
        p += 2
        if ln & 0x80:
            k = ln & 0x7F
            if k == 0:
                raise Malformed(f"indefinite length at {p - 1}")
            if p + k > self.end:
                raise Malformed("truncated length")
            ln = int.from_bytes(b[p : p + k], "big")
            if ln < 128 or (k > 1 and b[p] == 0):
                raise Malformed(f"length {ln} at {p - 1} is not minimal")
            p += k
        if p + ln > self.end:
            raise Malformed(f"length {ln} at {p} runs past the enclosing element")
        self.pos = p
        return tag, ln

    def expect(self, tag: int) -> tuple[int, int]:
        """Returns (start, end) of the content and moves behind."""
        at = self.pos
        t, ln = self.header()
        if t != tag:
            raise Malformed(f"tag {t:#x} instead of {tag:#x} at {at}")
        s = self.pos
        self.pos = s + ln
        return s, s + ln

    def sub(self, tag: int) -> "Reader":
        s, e = self.expect(tag)
        return Reader(self.buf, s, e)

    def integer(self) -> int:
        s, e = self.expect(2)
        c = self.buf[s:e]
        if not c:
            raise Malformed("empty INTEGER")
        if len(c) > 1 and (
            (c[0] == 0 and c[1] < 0x80) or (c[0] == 0xFF and c[1] >= 0x80)
        ):
            raise Malformed("INTEGER is not minimal")
        return int.from_bytes(c, "big", signed=True)

    def octets(self) -> bytes:
        s, e = self.expect(4)
        return bytes(self.buf[s:e])

    def oid(self) -> tuple:
        s, e = self.expect(6)
        return dec_oid(self.buf[s:e])

    def null(self) -> None:
        s, e = self.expect(5)
        if s != e:
            raise Malformed("NULL with contents")

    @property
    def eof(self) -> bool:
        return self.pos == self.end

    def done(self) -> None:
        if self.pos != self.end:
            raise Malformed(f"{self.end - self.pos} trailing octets at {self.pos}")

    def peek(self) -> int:
        if self.pos >= self.end:
            raise Malformed("no tag")
        return self.buf[self.pos]


def dec_oid(c: bytes) -> tuple:
    return _dec_oid(bytes(c))


@functools.lru_cache(8192)
def _dec_oid(c: bytes) -> tuple:
    if not c:
        raise Malformed("empty OID")
    subs = []
    v = 0
    start = True
    for x in c:
        if start and x == 0x80:
            raise Malformed("OID subidentifier is not minimal")
        start = False
        v = (v << 7) | (x & 0x7F)
        if x < 0x80:
            subs.append(v)
            v = 0
            start = True
    if not start:
        raise Malformed("truncated OID")
    f = subs[0]
    first = min(f // 40, 2)
    return (first, f - 40 * first, *subs[1:])

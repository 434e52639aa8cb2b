"""RFC 3416 agent over a finite MIB."""

from __future__ import annotations

from bisect import bisect_right

from . import msg, values
from .values import END_OF_MIB


class Mib:
    """entries: sorted list of (arcs, tlv, expected)."""

    def __init__(self, entries):
        self.entries = sorted(entries, key=lambda x: x[0])
        self.keys = [x[0] for x in self.entries]

    def next(self, arcs):
        i = bisect_right(self.keys, tuple(arcs))
        return self.entries[i] if i < len(self.entries) else None

    def below(self, base):
        """Entries strictly below the base."""
        n = len(base)
        return [e for e in self.entries if len(e[0]) > n and e[0][:n] == tuple(base)]


class MibAgent:
    """Builds varbinds and status of the reply.

    cap: agent-side cap on repetitions, caps: the cap changes from reply to reply (busy
    agents, size limits). fill: number of endOfMibView repetitions sent
    after the end: RFC 3416 allows to stop at the first one or to go on.
    """

    def __init__(self, mib: Mib, version: str, cap: int = 1000, fill: bool = True, max_bytes: int = 3600, form: int = 0):
        self.mib, self.version, self.cap, self.fill, self.max_bytes, self.form = mib, version, cap, fill, max_bytes, form
        self.requests = 0
        self.caps = None

    def respond(self, req):
        """(varbinds, error-status, error-index)"""
        self.requests += 1
        f = self.form
        if req.pdu_tag == msg.GETNEXT:
            vbs = []
            for n, o in enumerate(req.oids):
                e = self.mib.next(o)
                if e is None:
                    if self.version == "v1":
                        # noSuchName, varbinds of the request
                        return [msg.vb(x) for x in req.oids], 2, n + 1
                    vbs.append(msg.vb(o, END_OF_MIB.tlv))
                else:
                    vbs.append(msg.vb(e[0], e[1], f, f))
            return vbs, 0, 0
        if req.pdu_tag == msg.GETBULK:
            vbs = []
            size = 0
            cur = req.oids[0]
            cap = self.caps[self.requests % len(self.caps)] if self.caps else self.cap
            for _ in range(max(0, min(req.f3, cap))):
                e = self.mib.next(cur)
                if e is None:
                    b = msg.vb(cur, END_OF_MIB.tlv)
                    if vbs and size + len(b) > self.max_bytes:
                        break
                    vbs.append(b)
                    size += len(b)
                    if not self.fill:
                        break
                    continue
                b = msg.vb(e[0], e[1], f, f)
                if vbs and size + len(b) > self.max_bytes:
                    break
                vbs.append(b)
                size += len(b)
                cur = e[0]
            return vbs, 0, 0
        vbs = []
        for o in req.oids:
            i = bisect_right(self.mib.keys, tuple(o)) - 1
            if i >= 0 and self.mib.keys[i] == tuple(o):
                vbs.append(msg.vb(o, self.mib.entries[i][1]))
            else:
                vbs.append(msg.vb(o, values.NO_SUCH_INSTANCE.tlv))
        return vbs, 0, 0


def real_value(rng, max_bytes=40):
    """Value which is data: no NULL."""
    while True:
        k, t, e = values.rand_value(rng, None if rng.random() < 0.5 else "int", max_bytes=max_bytes)
        if e is not None:
            return t, e


def rand_mib(rng, base, n, max_bytes=40):
    """Random MIB around the base: inside, before, after, and at the base itself."""
    keys = set()
    base = tuple(base)
    m = rng.choice((0, 1, 2, 3, 10, n))
    pool = [base]
    while len(keys) < n:
        x = rng.random()
        if x < 0.55:
            # inside: children of base or of other inside entries
            p = rng.choice(pool)
            if rng.random() < 0.04:  # string index
                hi = rng.choice((127, 255, 255, 2**32 - 1))
                m2 = rng.choice((10, 32, 64, 100, 115))
                p = (*p, m2, *(rng.randint(0, hi) for _ in range(max(0, min(m2, 118 - len(p))))))
            a = (*p, rng.choice((0, 1, 2, 127, 128, 129, 16383, 16384, 2**21 - 1, 2**21, 2**28, 2**32 - 1, rng.randint(0, 300))))
            if len(a) <= 128:
                if len(a) < 60 or rng.random() < 0.2:
                    pool.append(a)
                keys.add(a)
        elif x < 0.7 and len(pool) > 1:
            a = rng.choice(pool[1:])
            b = (*a[:-1], min(a[-1] + rng.choice((1, 1, 2, 128, 16384)), 2**32 - 1))
            if len(b) > len(base):
                keys.add(b)
        elif x < 0.78 and len(base) > 2:
            # sibling with similar number: prefix of text or octets
            s = rng.choice((base[-1] * 10, base[-1] * 10 + 1, base[-1] + 1, base[-1] - 1, base[-1] + 128, base[-1] // 10, base[-1] ^ 1))
            if 0 <= s < 2**32:
                keys.add((*base[:-1], s, *(() if rng.random() < 0.5 else (rng.randint(0, 3),))))
        elif x < 0.82:
            keys.add(base)
        elif x < 0.88 and len(base) > 3:
            keys.add(base[: rng.randint(2, len(base) - 1)])
        else:
            keys.add(values.rand_arcs(rng, 2, 8))
        if m == 0 and rng.random() < 0.2:
            break
    r = []
    for k in keys:
        t, e = real_value(rng, max_bytes)
        r.append((k, t, e))
    return Mib(r)


def rand_base(rng):
    """Root of the walk."""
    x = rng.random()
    if x < 0.1:
        return (rng.randint(0, 2), rng.randint(0, 39))
    if x < 0.45:
        return (1, 3, 6, 1, 2, 1, rng.choice((1, 2, 12, 127, 128)))
    if x < 0.6:  # row of a table with a long index
        hi = rng.choice((1, 127, 255, 2**32 - 1))
        return (1, 3, 6, 1, *(rng.randint(0, hi) for _ in range(rng.choice((4, 12, 24, 30, 60, 64, 110)))))
    return values.rand_arcs(rng, 2, 9)


def dense_mib(rng, base, n):
    """Table of n short entries, so hundreds of them fit one datagram."""
    step = rng.choice((1, 1, 1, 2, 3))
    first = rng.choice((0, 1, 1, 100, 120))
    r = []
    for k in range(n):
        v = rng.choice((k & 0x7F, k, 0, 1))
        r.append(((*base, first + k * step), values.tlv(2, values.int_content(v)), v))
    if rng.random() < 0.5 and base[-1] < 2**32 - 1:
        r.append(((*base[:-1], base[-1] + 1, 1), values.tlv(2, b"\1"), 1))
    return Mib(r)


def rand_caps(rng):
    """None or the caps of consecutive replies."""
    if rng.random() < 0.6:
        return None
    top = rng.choice((2, 3, 8, 20))
    return [rng.randint(1, top) for _ in range(rng.choice((2, 3, 7, 31)))]

"""C06: a walk never leaves its subtree, never goes backwards, always ends."""

from __future__ import annotations

from lib import common, expect, msg, values
from lib.ber import enc_int, oid_content, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import AsyncSession, SnmpError, SyncSession
from lib.mib import rand_base
from lib.net import AsyncAgent, Out, aoutcome, outcome
from lib.values import END_OF_MIB, NO_SUCH_INSTANCE, NO_SUCH_OBJECT, NULL_TLV

PROP = "C06"
NODATA = (END_OF_MIB.tlv, NO_SUCH_INSTANCE.tlv, NO_SUCH_OBJECT.tlv, NULL_TLV)


def inside(base, a):
    return len(a) >= len(base) and a[: len(base)] == base


class Spec:
    """Online specification of one walk.

    vb: (arcs, data or None). `reply()` is told what the agent has replied and what the
    iterator has made of it: the items it yields from this reply, and how it has ended
    (None when it is going to ask again).
    """

    def __init__(self, ctx, base, op, info):
        self.ctx, self.base, self.op = ctx, tuple(base), op
        self.last = tuple(base)
        self.log = []
        self.info = info

    def bad(self, why):
        self.ctx.fail(why, base=text(self.base), op=self.op, log=self.log[-40:], **self.info)

    def request(self, req):
        if len(req.oids) != 1 or tuple(req.oids[0]) != self.last:
            self.log.append(f"request {[text(x) for x in req.oids]}")
            self.bad(f"follow-up request must be for the last accepted OID {text(self.last)}")

    def reply(self, vbs, items, end: Out | None):
        self.log.append(
            f"reply {[(text(a), 'data ' + str(v) if v is not None else 'no data') for a, v in vbs]} -> yielded {[x[0] if isinstance(x, tuple) else x for x in items]}, "
            + ("goes on" if end is None else f"ended {end!r}")
        )
        ctx = self.ctx
        if end is not None and end.exc is not None and not isinstance(end.exc, (StopIteration, StopAsyncIteration, SnmpError)):
            self.bad(f"the walk has ended with {end!r}")
        # -- what is yielded
        pos = 0
        for x in items:
            if not isinstance(x, tuple) or len(x) != 2:
                self.bad(f"{x!r} is yielded")
            a = tuple(int(k) for k in x[0].split("."))
            if not inside(self.base, a):
                self.bad(f"{x[0]} is outside of the subtree")
            if not a > self.last and not (a == self.base == self.last):
                self.bad(f"{x[0]} is not after {text(self.last)}")
            while pos < len(vbs) and not (vbs[pos][0] == a and vbs[pos][1] is not None and vbs[pos][1] == x[1]):
                pos += 1
            if pos >= len(vbs):
                self.bad(f"{x[0]} = {x[1]!r} was not received (in this order)")
            pos += 1
            self.last = a
        ctx.count("items yielded", len(items))
        # -- when it has to end and when it must not
        data = [(a, v) for a, v in vbs if v is not None]
        if not data:
            ctx.count("reply without data")
            if end is None:
                self.bad("the reply carries no data values, but the walk goes on")
            if items:
                self.bad("items out of nowhere")
            return
        if end is None and not items:
            self.bad("nothing is accepted from the reply, but the walk goes on")
        if self.op == "getnext" and len(vbs) != 1:
            ctx.count("getnext reply with several varbinds")
            return
        # accepted prefix, computed from the state before the reply
        last = self.before
        n = 0
        stop = None
        for a, v in data:
            if not inside(self.base, a):
                stop = "outside"
                break
            if not a > last:
                stop = "base" if a == self.base == last else "order"
                break
            last = a
            n += 1
        ctx.count(f"reply stop: {stop}")
        got = [x[0] for x in items]
        want = [text(a) for a, _ in data[:n]]
        if got[: len(want)] != want and not (len(got) < len(want) and end is not None and isinstance(end.exc, SnmpError)):
            if not (stop is None and got == want):
                self.bad(f"accepted {got}, expected {want}")
        if stop is None:
            if end is not None:
                self.bad("the walk has ended though every item of the reply is within the subtree and in order")
        elif stop == "outside":
            if end is None:
                self.bad("the walk goes on after an out-of-subtree OID")
            if len(got) > len(want):
                self.bad("items after the out-of-subtree OID are yielded")

    def arm(self):
        self.before = self.last


def encode(vbs, nodata):
    return [msg.vb(a, enc_int(v) if v is not None else nodata[n % len(nodata)]) for n, (a, v) in enumerate(vbs)]


def ll_step(ctx, r, it, op, spec, vbs, nodata):
    """One request/reply. Returns False at the end."""
    o, d = r.link.request(*common.SEND(r.sock, op, None, it))
    if not o.ok or d is None:
        ctx.fail(f"request is not sent: {o!r}", cfg=repr(r.cfg))
    req = expect.parse(ctx, d, r.cfg)
    spec.request(req)
    spec.arm()
    r.link.feed(r.agent.reply(req, encode(vbs, nodata)))
    o = r.recv(op, it)
    items, end = ll_items(op, o)
    spec.reply(vbs, items, end)
    return end is None


def ll_items(op, o):
    if not o.ok:
        return [], o
    if op == "getnext":
        return [o.value], None
    items = []
    for x in o.value:
        if x is None:
            return items, Out(None)
        items.append(x)
    return items, None if items else Out(None)


# -- hostile agents


def names(rng, base, last):
    """Name for the next varbind: before, at, after, outside."""
    x = rng.random()
    b = list(base)
    if x < 0.45:
        # forward
        if len(last) == len(base) or rng.random() < 0.5:
            return (*last, rng.choice((0, 1, 5, 127, 128, 16384, 2**32 - 1)))
        return (*last[:-1], min(last[-1] + rng.choice((1, 2, 128, 16384, 2**21)), 2**32 - 1))
    if x < 0.55:
        return last
    if x < 0.62:
        return base
    if x < 0.72 and len(last) > len(base):
        # backward within the subtree
        k = rng.randrange(3)
        if k == 0:
            return last[:-1] if len(last) > len(base) + 1 else (*base, 0)
        if k == 1 and last[-1]:
            return (*last[:-1], rng.choice((last[-1] - 1, last[-1] >> 1, last[-1] >> 7, 0)))
        return (*base, 0)
    if x < 0.8:
        return (*base[:-1], rng.choice((max(base[-1] - 1, 0), min(base[-1] + 1, 2**32 - 1), min(base[-1] * 10, 2**32 - 1), base[-1] ^ 128)), 1) if len(base) > 2 else (rng.randint(0, 2), rng.randint(0, 39), 1)
    if x < 0.86:
        return base[: rng.randint(2, len(base))]
    if x < 0.93 and len(base) > 2:
        return (*base[:-1], min(base[-1] + 1, 2**32 - 1))
    return values.rand_arcs(rng, 2, 10)


def hostile_reply(rng, base, last, op, tok, p=0.5):
    n = 1 if op == "getnext" else rng.choice((0, 1, 1, 2, 3, 5, 10, rng.choice((20, 130, 260, 400))))
    if op == "getnext" and rng.random() < 0.1:
        n = rng.choice((0, 2, 3))
    r = []
    cur = last
    size = 0
    plain = rng.random() < p  # well-behaved reply
    for _ in range(n):
        if plain:
            a = (*cur, rng.choice((0, 1, 127, 128))) if len(cur) == len(base) or (len(cur) < 127 and rng.random() < 0.5) else (*cur[:-1], min(cur[-1] + rng.choice((1, 128, 16384)), 2**32 - 1))
            if not a > cur:
                a = (*cur, 1)
            if len(a) < 60 and rng.random() < 0.04:
                a = (*a, *(rng.randint(0, 2**32 - 1) for _ in range(rng.choice((10, 30, 60)))))
        else:
            a = names(rng, base, cur)
            if len(a) > 128:
                a = a[:128]
            if len(a) < 60 and rng.random() < 0.05:  # string index
                hi = rng.choice((127, 255, 2**32 - 1))
                a = (*a, *(rng.randint(0, hi) for _ in range(rng.choice((20, 40, 60, 64, 65)))))
        size += len(oid_content(a)) + 16
        if size > 3400:
            break
        tok[0] += 1
        v = None if rng.random() < (0.05 if plain else 0.2) else tok[0]
        r.append((a, v))
        if v is not None and inside(base, a) and a > cur:
            cur = a
    return r


def k_ll(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    op = "getnext" if r.cfg.version == "v1" else rng.choice(("getnext", "getbulk"))
    base = rand_base(rng)
    it = common.it(base, rng.choice((1, 2, 10, 50)) if op == "getbulk" else None)
    spec = Spec(ctx, base, op, {"cfg": repr(r.cfg), "client": "ll"})
    tok = [1000]
    nodata = NODATA if r.cfg.version != "v1" else (NULL_TLV,)
    n = 0
    steps, p = (12, 0.5) if rng.random() < 0.995 else (600, 0.999)
    for _ in range(steps):
        vbs = hostile_reply(rng, base, spec.last, op, tok, p)
        nd = [rng.choice(nodata) for _ in range(3)]
        n += 1
        if not ll_step(ctx, r, it, op, spec, vbs, nd):
            break
    ctx.evals(n - 1)
    ctx.count(f"walk {op}")
    ctx.count(f"cfg {name}")
    ctx.sig(name[:3], op, tuple(s[:200] for s in spec.log[:3]))
    ctx.sample({"cfg": name, "op": op, "base": text(base), "log": spec.log[:6]})


# -- exhaustive: all replies over the small universe

B = (1, 3, 5)
SYM = [
    (B, 1), ((*B, 1), 1), ((*B, 2), 1), ((*B, 2, 0), 1), ((*B, 128), 1), ((*B, 16384), 1),
    ((1, 3, 4), 1), ((1, 3, 6), 1), ((1, 3, 50), 1), ((1, 3), 1), ((*B, 1), None), ((*B, 3), None), ((1, 3, 6), None),
]  # fmt: skip
S = len(SYM)
BULKS = [()] + [(a,) for a in range(S)] + [(a, b) for a in range(S) for b in range(S)] + [(a, b, c) for a in range(S) for b in range(S) for c in range(S)]
STEP = 16
N_BULK = (len(BULKS) + STEP - 1) // STEP


def k_small_bulk(ctx, rng, i):
    """Every first reply of 0..3 varbinds, then every reply of one."""
    for first in BULKS[i * STEP : (i + 1) * STEP]:
        for second in (None, *rng.sample(range(S), 3)):
            r = common.rig(ctx, "v2c", rng, 0)
            spec = Spec(ctx, B, "getbulk", {"cfg": "v2c", "client": "ll"})
            it = common.it(B, 3)
            if ll_step(ctx, r, it, "getbulk", spec, [SYM[x] for x in first], (rng.choice(NODATA),)) and second is not None:
                ll_step(ctx, r, it, "getbulk", spec, [SYM[second]], (rng.choice(NODATA),))
            ctx.evals(1)
        ctx.sig("bulk", first)
        ctx.count("exhaustive bulk replies")


def k_small_next(ctx, rng, i):
    """Every sequence of three replies of one varbind."""
    a = i % S
    for b in range(S):
        for c in range(S):
            ver = ("v1", "v2c")[(b + c + i // S) % 2]
            r = common.rig(ctx, ver, rng, 0)
            spec = Spec(ctx, B, "getnext", {"cfg": ver, "client": "ll"})
            it = common.it(B)
            nd = (NULL_TLV,) if ver == "v1" else (rng.choice(NODATA),)
            for x in (a, b, c):
                if not ll_step(ctx, r, it, "getnext", spec, [SYM[x]], nd):
                    break
            ctx.evals(1)
            ctx.sig("next", ver, a, b, c)
            ctx.count("exhaustive getnext sequences")


# -- clients: the consumer sees the items one by one, so the walk is replayed through the
#    log of requests and replies


class Script:
    def __init__(self, ctx, rng, cfg, base, op):
        self.ctx, self.rng, self.cfg, self.base, self.op = ctx, rng, cfg, tuple(base), op
        self.agent = msg.Agent(cfg)
        self.replies = []
        self.reqs = []
        self.bad = []
        self.tok = [1000]
        self.cur = tuple(base)
        self.n = rng.randint(1, 8) if rng.random() < 0.97 else rng.randint(50, 300)

    def handler(self, d):
        try:
            req = msg.parse_request(d, self.cfg)
        except msg.Malformed:
            self.bad.append(d)
            return []
        self.reqs.append(req)
        if len(self.reqs) > self.n:
            vbs = []  # the end
        else:
            vbs = hostile_reply(self.rng, self.base, tuple(req.oids[0]) if req.oids else self.base, self.op, self.tok, 0.5 if self.n < 10 else 0.99)
        self.replies.append(vbs)
        nodata = NODATA if self.cfg.version != "v1" else (NULL_TLV,)
        return [self.agent.reply(req, encode(vbs, [self.rng.choice(nodata) for _ in range(3)]))]

    def judge(self, got, end, client):
        """got: [(number of replies at the moment, item)]"""
        ctx = self.ctx
        if self.bad:
            expect.parse(ctx, self.bad[0], self.cfg)
        spec = Spec(ctx, self.base, self.op, {"cfg": repr(self.cfg), "client": client})
        for n, (req, vbs) in enumerate(zip(self.reqs, self.replies)):
            spec.request(req)
            spec.arm()
            items = [x for k, x in got if k == n + 1]
            spec.reply(vbs, items, end if n + 1 == len(self.reqs) else None)
        ctx.count(f"{client} {self.op}")
        ctx.evals(len(self.reqs) - 1)
        ctx.sig(client, self.cfg.name, tuple(s[:200] for s in spec.log[:3]))


def k_sync(ctx, rng, i):
    cfg = common.make_cfg(rng.choice(ALL_CFG), rng)
    op = "getnext" if cfg.version == "v1" else rng.choice(("getnext", "getbulk"))
    base = rand_base(rng)
    sc = Script(ctx, rng, cfg, base, op)
    ta = common.thread_agent(ctx)
    ta.use(sc.handler)
    s = cfg.session(SyncSession, ta.port, timeout=10.0, max_repetitions=rng.choice((1, 5, 50)))
    got = []

    def run():
        for x in (s.getnext if op == "getnext" else s.getbulk)(text(base)):
            got.append((len(sc.replies), x))
            if len(got) > 10000:
                raise RuntimeError("the walk does not stop")

    o = outcome(run)
    ta.check()
    sc.judge(got, o, "sync")


def k_async(ctx, rng, i):
    cfg = common.make_cfg(rng.choice(ALL_CFG), rng)
    op = "getnext" if cfg.version == "v1" else rng.choice(("getnext", "getbulk"))
    base = rand_base(rng)
    sc = Script(ctx, rng, cfg, base, op)
    got = []

    async def main():
        ag = AsyncAgent(sc.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=10.0, max_repetitions=rng.choice((1, 5, 50)))

            async def run():
                async for x in (s.getnext if op == "getnext" else s.getbulk)(text(base)):
                    got.append((len(sc.replies), x))
                    if len(got) > 10000:
                        raise RuntimeError("the walk does not stop")

            o = await aoutcome(run())
            ag.check()
            return o
        finally:
            ag.close()

    sc.judge(got, common.aio(ctx).run(main()), "async")


# -- names which are no OIDs: incomplete subelements, subelements beyond 2**32 - 1, no
#    octets at all, RELATIVE-OIDs


def octets(v: int, pad: int = 0) -> bytes:
    r = [v & 0x7F]
    v >>= 7
    while v:
        r.append(0x80 | (v & 0x7F))
        v >>= 7
    r += [0x80] * pad
    return bytes(reversed(r))


def numeric(c: bytes):
    """Arcs of the contents octets, None when they are incomplete."""
    if not c or c[-1] & 0x80:
        return None
    r, v = [], 0
    for x in c:
        v = (v << 7) | (x & 0x7F)
        if not x & 0x80:
            r.append(v)
            v = 0
    first = min(r[0] // 40, 2)
    return (first, r[0] - 40 * first, *r[1:])


def odd_name(rng, base, last):
    """Contents octets; most of them a strict checker would refuse."""
    x = rng.random()
    c = oid_content(last if rng.random() < 0.7 else base)
    if x < 0.2:  # incomplete last subelement
        return c + octets(rng.choice((5, 127, 128, 2**20, 2**31, 2**40)) << 7)[:-1] if rng.random() < 0.8 else c[:-1] + bytes((c[-1] | 0x80,))
    if x < 0.7:  # subelement beyond 2**32 - 1
        n = rng.choice((32, 32, 35, 42, 63, 64, 64, 65, 70, 96, 128, 200))
        k = (1 << n) + rng.choice((0, 1, 2, 5, 127, 128, 16384, rng.getrandbits(32), (1 << n) - 1))
        a = last if rng.random() < 0.5 and len(last) > len(base) else (*base, 0)
        p = rng.randint(0, 2)
        if p == 0:  # instead of the last one
            return oid_content(a[:-1]) + octets(k)
        if p == 1:
            return oid_content(a) + octets(k)
        # within the name, also within the part which looks like the base
        q = rng.randint(2, len(a) - 1)
        return oid_content(a[:q]) + octets((1 << n) + a[q]) + b"".join(octets(v) for v in a[q + 1 :]) + bytes((1,))
    if x < 0.75:
        return b""
    if x < 0.8:
        return c[: rng.randint(0, len(c))]
    a = names(rng, base, last)
    return oid_content(a[:128])


def k_odd(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    op = "getnext" if r.cfg.version == "v1" else rng.choice(("getnext", "getbulk"))
    base = tuple(rand_base(rng))
    it = common.it(base, 10 if op == "getbulk" else None)
    last, tok, log = base, 1000, []

    def bad(why):
        ctx.fail(why, cfg=repr(r.cfg), op=op, base=text(base), log=log[-12:])

    for step in range(10):
        o, d = r.link.request(*common.SEND(r.sock, op, None, it))
        if not o.ok or d is None:
            bad(f"request is not sent: {o!r}")
        req = expect.parse(ctx, d, r.cfg)
        if len(req.oids) != 1 or tuple(req.oids[0]) != last:
            log.append(f"request {[text(x) for x in req.oids]}")
            bad(f"follow-up request must be for the last accepted OID {text(last)}")
        recv, vbs = [], []
        rel = False
        for _ in range(1 if op == "getnext" else rng.choice((1, 1, 2, 3, 5))):
            tok += 1
            x = rng.random()
            if x < 0.3:
                a = (*last, 1) if last == base else (*last[:-1], min(last[-1] + tok - 1000, 2**32 - 1))
                c, tag = oid_content(a), 6
            elif x < 0.92:
                c, tag = odd_name(rng, base, last), 6
            else:
                rel, tag = True, 13
                c = octets(rng.choice((0, 1, 5, 2**32, 2**64 + 5))) if rng.random() < 0.7 else rng.randbytes(rng.randint(0, 6))
            recv.append((tag, c, tok))
            vbs.append(msg.vb(tlv(tag, c), enc_int(tok)))
        r.link.feed(r.agent.reply(req, vbs))
        o = r.recv(op, it, blocks=True)
        items, end = ll_items(op, o)
        log.append(f"reply {[(t, c.hex(), v) for t, c, v in recv]} -> {items!r}, {end!r}")
        if end is not None and isinstance(end.exc, BlockingIOError):
            ctx.count("odd names: reply is dropped")
            break
        if end is not None and end.exc is not None and not isinstance(end.exc, (StopIteration, StopAsyncIteration, SnmpError)):
            bad(f"the walk has ended with {end!r}")
        pos = 0
        for x in items:
            a = tuple(int(k) for k in x[0].split("."))
            if not inside(base, a):
                bad(f"{x[0]} is outside of the subtree")
            if not a > last and not (a == base == last):
                bad(f"{x[0]} is not after {text(last)}")
            while pos < len(recv) and recv[pos][2] != x[1]:
                pos += 1
            if pos >= len(recv):
                bad(f"{x[0]} = {x[1]!r} was not received (in this order)")
            t, c, _ = recv[pos]
            if t == 6 and numeric(c) != a:
                bad(f"{x[0]} is yielded, the name received is {c.hex()}")
            pos += 1
            last = a
        ctx.count("odd names: items yielded", len(items))
        ctx.evals(1)
        if end is not None:
            ctx.count("odd names: " + ("refused" if isinstance(end.exc, SnmpError) else "end of the walk"))
            break
        if not items:
            bad("nothing is accepted from the reply, but the walk goes on")
    ctx.count(f"odd names: {op}")
    ctx.sig("odd", name[:3], op, tuple(s[:200] for s in log[:2]))


KINDS = {
    "odd": Kind(k_odd, 15_000, 500_000),
    "small_bulk": Kind(k_small_bulk, N_BULK, N_BULK),
    "small_next": Kind(k_small_next, 2 * S, 2 * S),
    "ll": Kind(k_ll, 40_000, 1_500_000),
    "sync": Kind(k_sync, 5_000, 100_000),
    "async": Kind(k_async, 5_000, 100_000),
}

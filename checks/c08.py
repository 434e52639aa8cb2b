"""C08: the OID sent is the OID asked for; invalid OID text is refused."""

from __future__ import annotations

import re

from lib import common, expect, msg, values
from lib.ber import Malformed, Reader, arc, oid_content, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import AsyncSession, SyncSession
from lib.net import AsyncAgent, aoutcome, outcome

PROP = "C08"
DIGITS = re.compile(r"[0-9]+(?:\.[0-9]+)+\Z")
CANON = re.compile(r"(?:0|[1-9][0-9]*)(?:\.(?:0|[1-9][0-9]*))+\Z")
MAX = 2**32 - 1
REFUSED = "refused"


def denotes(s: str):
    """Arcs of dotted-decimal text (at least two), None when it denotes nothing."""
    if not DIGITS.match(s):
        return None
    a = tuple(int(x) for x in s.split("."))
    if a[0] > 2 or (a[0] < 2 and a[1] > 39):
        return None
    return a


def verdict(s: str):
    """(must_accept, allowed arcs or None): what may appear on the wire."""
    a = denotes(s)
    if a is None:
        # Decorations which do not change what is denoted: refused or understood
        t = s.strip(" \t\r\n")
        t = t[1:] if t.startswith(".") else t
        t = t[:-1] if t.endswith(".") else t
        t = ".".join(x[1:] if x.startswith("+") else x for x in t.split("."))
        return False, denotes(t)
    # Long ones may not fit the buffer (C17)
    must = bool(CANON.match(s)) and a[1] <= 39 and max(a) <= MAX and len(content(a)) <= 3000
    return must, a


def content(a) -> bytes:
    return arc(a[0] * 40 + a[1]) + b"".join(arc(x) for x in a[2:])


def wire_oids(ctx, d, cfg, s):
    """Raw contents of the OIDs on the wire."""
    req = expect.parse(ctx, d, cfg, text=s)
    r = Reader(req.scoped) if cfg.version == "v3" else Reader(req.raw)
    r = r.sub(0x30)
    if cfg.version == "v3":
        r.octets()
        r.octets()
    else:
        r.integer()
        r.octets()
    p = r.sub(req.pdu_tag)
    for _ in range(3):
        p.integer()
    v = p.sub(0x30)
    res = []
    while not v.eof:
        x = v.sub(0x30)
        b, e = x.expect(6)
        res.append(bytes(x.buf[b:e]))
        x.null()
    return req, res


def attempt(r, op, s, others=()):
    """Ask for the OID through one of the entries. Returns (outcome, datagram)."""
    sock = r.sock
    if op == "get":
        return r.link.request(sock.send_get, s)
    if op == "get_many":
        return r.link.request(sock.send_get_many, [*others, s])

    def run():
        it = common.it(s, 5 if op == "getbulk" else None)
        (sock.send_get_next if op == "getnext" else sock.send_get_bulk)(it)

    return r.link.request(run)


def judge(ctx, cfg, s, op, o, d, n=0, client="ll"):
    """n: the OIDs before it in the request."""
    must, arcs = verdict(s)
    info = {"text": s, "cfg": cfg.name, "op": op, "client": client}
    if not o.ok and d is None:
        ctx.count(f"refused: {type(o.exc).__name__}")
        if not isinstance(o.exc, Exception):
            ctx.fail(f"refused with {type(o.exc).__name__}: {o.exc}", **info)
        if must:
            ctx.fail(f"valid OID is refused: {o!r}", **info)
        return REFUSED
    if not o.ok:
        ctx.fail(f"refused with {o!r}, but something is sent", datagram=d.hex(), **info)
    if d is None:
        ctx.fail("neither refused nor sent", **info)
    req, raw = wire_oids(ctx, d, cfg, s)
    if len(raw) != n + 1:
        ctx.fail("number of OIDs differs", datagram=d.hex(), **info)
    if arcs is None:
        ctx.fail(f"text which denotes no OID is sent as {raw[n].hex()}", datagram=d.hex(), **info)
    if raw[n] != content(arcs):
        ctx.fail(f"sent as {raw[n].hex()}, it is {content(arcs).hex()}", datagram=d.hex(), **info)
    ctx.count("sent exactly")
    return req


def echo(ctx, r, op, req, s, it=None):
    """The agent sends the OID back: as the name and as the value."""
    a = verdict(s)[1]
    if not CANON.match(s):
        s = text(a)
    raw = tlv(6, content(a))
    if len(raw) > 1800:
        return
    r.link.feed(r.agent.reply(req, [msg.vb(raw, raw)]))
    o = r.recv("get_many")
    ctx.count("echoed")
    if not o.ok or o.value != {s: s}:
        ctx.fail(f"OID received from the agent is rendered as {o!r}", text=s, sent=raw.hex(), cfg=r.cfg.name)


# -- generators

EDGE = sorted({b + d for b in (0, 2**7, 2**14, 2**21, 2**28, 2**31, 2**32, 2**35, 2**63, 2**64, 2**128) for d in (-2, -1, 0, 1, 2) if b + d >= 0} | {2**64 + 6, 2**32 + 6, 39, 40, 41})


def rand_text(rng):
    k = rng.random()
    if k < 0.03:
        # beyond of what SMI allows, and around of what the buffer holds
        n = rng.choice((rng.randint(20, 140), 127, 128, 129, 130, 255, 256, 257, rng.randint(140, 1500)))
        return text(values.rand_arcs(rng, n, n, rng.choice((0, 0, 0.3, 1))))
    if k < 0.35:
        return text(values.rand_arcs(rng, 2, rng.choice((2, 3, 8, 20))))
    if k < 0.5:
        a = list(values.rand_arcs(rng, 2, 8))
        a[rng.randrange(len(a))] = rng.choice(EDGE)
        return text(a)
    if k < 0.58:
        return text((rng.choice((0, 1, 2, 3, 4, 6, 255, 256)), rng.choice((0, 39, 40, 41, 47, 48, 79, 80, 127, 128, 175, 176, 215, 216, 255, 256, 999)), *(rng.choice(EDGE) for _ in range(rng.randint(0, 3)))))
    if k < 0.66:
        # leading zeros
        p = text(values.rand_arcs(rng, 2, 8)).split(".")
        i = rng.randrange(len(p))
        p[i] = "0" * rng.choice((1, 2, 10, 30)) + p[i]
        return ".".join(p)
    if k < 0.9:
        # broken text
        s = list(text(values.rand_arcs(rng, 1 if False else 2, 6)))
        for _ in range(rng.choice((1, 1, 2))):
            x = rng.choice((" ", "\t", "\n", "\0", ".", "..", "-", "+", "-1", "x", "a", "e5", "0x1", "_", ",", ";", ":", "/", "\u0661", "\u0967", "\uff11", "\u00b2", "\u2460", "\U0001d7d8", "é", "1_0", "%", "*", '"', "٫"))
            if rng.random() < 0.5:
                s.insert(rng.choice((0, len(s), rng.randint(0, len(s)))), x)
            else:
                s[rng.randrange(len(s))] = x
        return "".join(s)
    if k < 0.95:
        return rng.choice(("", ".", "..", "0", "1", "2", "3", "1.", ".1", "1.3.", ".1.3", "iso.3.6", "sysDescr.0", "1..3", "0.0", "2.39", "1.3.6.1.2.1.1.5.0 ", "-1.3", "1.-3", "1.3.6.-1", "1,3", "1.3.6.18446744073709551617", "١.٣", "1.3.6.1e2", "1.3.6.0b1", "None", "1 .3", "1. 3", "1.3\x00.6"))
    return "".join(rng.choice("0123456789...") for _ in range(rng.randint(0, 30)))


def short_text(rng):
    """So the echo (twice) fits the buffer."""
    while len(t := rand_text(rng)) > 3000:
        pass
    return t


OPS = ("get", "get_many", "getnext", "getbulk")


def k_text(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    n = 10
    for _ in range(n):
        s = rand_text(rng)
        op = rng.choice(OPS[:3] if r.cfg.version == "v1" else OPS)
        others = [text(values.rand_arcs(rng, 2, 6)) for _ in range(rng.randint(0, 3))] if op == "get_many" else []
        o, d = attempt(r, op, s, others)
        res = judge(ctx, r.cfg, s, op, o, d, len(others))
        if d is None and (x := r.link.peer.recv()) is not None:
            ctx.fail("refused, but something is sent", text=s, datagram=x.hex(), cfg=name, op=op)
        if res is not REFUSED and not others and op in ("get", "get_many"):
            echo(ctx, r, op, res, s)
        ctx.sig(s, op)
        ctx.count(f"entry {op}")
        ctx.sample({"text": s, "op": op, "cfg": name, "outcome": "refused" if res is REFUSED else "sent"})
    ctx.evals(n - 1)


def k_bulk(ctx, rng, i):
    """Many valid OIDs in one request: throughput for the accepted grammar."""
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    arcs = [values.rand_arcs(rng, 2, 12, 0.7) for _ in range(40)]
    ss = [text(a) for a in arcs]
    o, d = r.link.request(r.sock.send_get_many, ss)
    if not o.ok or d is None:
        ctx.fail(f"valid OIDs are refused: {o!r}", oids=ss, cfg=name)
    req, raw = wire_oids(ctx, d, r.cfg, ss)
    if raw != [oid_content(a) for a in arcs]:
        bad = [(s, x.hex()) for s, a, x in zip(ss, arcs, raw) if x != oid_content(a)]
        ctx.fail("OIDs on the wire differ", different=bad, count=len(raw), cfg=name)
    r.link.feed(r.agent.reply(req, [msg.vb(a, tlv(6, oid_content(a))) for a in arcs]))
    o = r.recv("get_many")
    if not o.ok or o.value != {s: s for s in ss}:
        ctx.fail("OIDs received from the agent are rendered differently", oids=ss, outcome=repr(o), cfg=name)
    ctx.evals(len(ss) - 1)
    ctx.count("valid OIDs sent and echoed", len(ss))
    for s in ss:
        ctx.sig("bulk", s)


GRID_N = 262


def k_grid(ctx, rng, i):
    """Exhaustive: both leading arcs in 0..261."""
    r = common.rig(ctx, "v2c", rng, 0)
    a = i % GRID_N
    for b in range(GRID_N):
        for s in (f"{a}.{b}", f"{a}.{b}.{(a * 7 + b) % 200}"):
            o, d = attempt(r, "get", s)
            res = judge(ctx, r.cfg, s, "get", o, d)
            if res is not REFUSED:
                echo(ctx, r, "get", res, s)
    ctx.evals(2 * GRID_N - 1)
    ctx.count("leading arcs pairs", GRID_N)
    ctx.sig("grid", i)


SWEEP = 1024


def k_arc(ctx, rng, i):
    """Sub-identifiers around every boundary of the encoding and of the range."""
    r = common.rig(ctx, "v2c", rng, 0)
    bounds = (2**7, 2**14, 2**21, 2**28, 2**32)
    b = bounds[i % len(bounds)]
    lo = max(0, b - SWEEP // 2)
    n = 0
    vals = [x for x in range(lo, b + SWEEP // 2)]
    good = [x for x in vals if x <= MAX]
    for k in range(0, len(good), 64):
        part = good[k : k + 64]
        ss = [f"1.3.{x}" if x % 2 else f"1.3.{x}.1" for x in part]
        o, d = r.link.request(r.sock.send_get_many, ss)
        if not o.ok or d is None:
            ctx.fail(f"valid OIDs are refused: {o!r}", oids=ss)
        req, raw = wire_oids(ctx, d, r.cfg, ss)
        want = [oid_content(tuple(int(y) for y in s.split("."))) for s in ss]
        if raw != want:
            ctx.fail("OIDs on the wire differ", different=[(s, x.hex()) for s, w, x in zip(ss, want, raw) if x != w][:5])
        r.link.feed(r.agent.reply(req, [msg.vb(tlv(6, w), tlv(6, w)) for w in want]))
        o = r.recv("get_many")
        if not o.ok or o.value != {s: s for s in ss}:
            ctx.fail("OIDs received from the agent are rendered differently", oids=ss, outcome=repr(o))
        n += len(part)
    for x in vals:
        if x > MAX:
            o, d = attempt(r, "get", f"1.3.{x}")
            judge(ctx, r.cfg, f"1.3.{x}", "get", o, d)
            n += 1
    ctx.evals(n - 1)
    ctx.count("arcs around the boundaries", n)
    ctx.sig("arc", i)


# -- clients


def k_sync(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)
    reqs = []

    def h(d):
        try:
            req = msg.parse_request(d, cfg)
        except Malformed:
            return []
        reqs.append(req)
        raw = [tlv(6, oid_content(a)) for a in req.oids]
        return [agent.reply(req, [msg.vb(x, x) for x in raw])]

    ta = common.thread_agent(ctx)
    ta.use(h)
    s = cfg.session(SyncSession, ta.port, timeout=10.0)
    for _ in range(4):
        t = short_text(rng)
        op = rng.choice(("get", "get_many", "getnext", "fetch"))
        n = len(ta.log)
        if op in ("get", "get_many"):
            o = outcome(s.get, t) if op == "get" else outcome(s.get_many, ["1.3.6.1", t])
        else:
            o = outcome(lambda: next(iter(getattr(s, op)(t))))
        ta.check()
        client(ctx, cfg, t, op, o, ta.log[n:], "sync")


def client(ctx, cfg, t, op, o, log, cl):
    info = {"text": t, "op": op, "cfg": repr(cfg), "client": cl}
    ctx.count(f"{cl} {op}")
    ctx.sig(cl, op, t)
    must, arcs = verdict(t)
    if len(log) > 1:
        ctx.fail(f"{len(log)} datagrams are sent", **info)
    if not log:
        if o.ok or not isinstance(o.exc, Exception):
            ctx.fail(f"nothing is sent: {o!r}", **info)
        if must:
            ctx.fail(f"valid OID is refused: {o!r}", **info)
        return
    req, raw = wire_oids(ctx, log[0], cfg, t)
    if arcs is None or raw[-1] != content(arcs):
        ctx.fail(f"sent as {raw[-1].hex()}", **info)
    if op in ("getnext", "fetch"):
        return  # the echoed name ends the walk
    c = text(arcs)
    if not o.ok:
        ctx.fail(f"echo is not delivered: {o!r}", **info)
    if (o.value if op == "get" else o.value.get(c)) != c:
        ctx.fail(f"echo is rendered as {o.value!r}", **info)


def k_async(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)

    def h(d):
        try:
            req = msg.parse_request(d, cfg)
        except Malformed:
            return []
        raw = [tlv(6, oid_content(a)) for a in req.oids]
        return [agent.reply(req, [msg.vb(x, x) for x in raw])]

    async def main():
        ag = AsyncAgent(h)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=10.0)
            for _ in range(4):
                t = short_text(rng)
                op = rng.choice(("get", "get_many", "getnext", "fetch"))
                n = len(ag.log)

                async def walk():
                    return await getattr(s, op)(t).__anext__()

                o = await aoutcome(s.get(t) if op == "get" else s.get_many(["1.3.6.1", t]) if op == "get_many" else walk())
                ag.check()
                client(ctx, cfg, t, op, o, ag.log[n:], "async")
        finally:
            ag.close()

    common.aio(ctx).run(main())


KINDS = {
    "grid": Kind(k_grid, GRID_N, GRID_N),
    "arc": Kind(k_arc, 5, 5),
    "text": Kind(k_text, 30_000, 900_000),
    "bulk": Kind(k_bulk, 4_000, 200_000),
    "sync": Kind(k_sync, 2_500, 50_000),
    "async": Kind(k_async, 2_500, 50_000),
}

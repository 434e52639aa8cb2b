"""C17: a request which does not fit is refused and not sent, one which fits is complete.

The buffer itself is in harness/src/bin/r_buffer.rs (plain, AddressSanitizer) and
harness_miri (Miri). Here: the size of the whole message, octet by octet.
"""

from __future__ import annotations

from checks.c15 import canonical
from lib import common, expect, host, msg, values
from lib.ber import NULL, enc_int, oid_content, ostr, seq, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import AsyncSession, SyncSession
from lib.msg import Cfg, VER
from lib.net import AsyncAgent, Link, aoutcome, outcome

PROP = "C17"
CAP = 4080
OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk")}
ID4 = 0x55667788  # 4 octets


def size_of(cfg, op, oids, maxrep, header, ids=ID4):
    """Size of the complete message whose identifiers have the width of `ids`.
    oids: or the size of all of the varbinds."""
    if isinstance(oids, int):
        vbs = bytes(oids)
    else:
        vbs = b"".join([seq(tlv(6, oid_content(o)), NULL) for o in oids])
    p = tlv(expect.PDU[op], enc_int(ids) + enc_int(0) + enc_int(maxrep or 0) + tlv(0x30, vbs))
    if cfg.version != "v3":
        return len(seq(enc_int(VER[cfg.version]), ostr(cfg.community.encode()), p))
    data = seq(ostr(cfg.engine_id), ostr(b""), p)
    if cfg.priv == "des":
        # Not less than that; how the last block is completed is not said
        data = ostr(data + bytes(-len(data) % 8))
    elif cfg.priv:
        data = ostr(data)
    usm = seq(ostr(cfg.engine_id), enc_int(header[0]), enc_int(header[1]), ostr(cfg.user.encode()), ostr(bytes(12 if cfg.auth else 0)), ostr(bytes(8 if cfg.priv else 0)))
    hdr = seq(enc_int(ids), enc_int(max_size(cfg)), ostr(b"\0"), enc_int(3))
    return len(seq(enc_int(3), hdr, ostr(usm), data))


MAX_SIZE = {}


def max_size(cfg):
    """What the library announces as msgMaxSize: its width matters only."""
    v = MAX_SIZE.get("v")
    if v is None:
        l = Link(Cfg("v3", user="u", engine_id=b"12345"))
        o, d = l.request(l.sock.send_get, "1.3.6")
        v = MAX_SIZE["v"] = msg.parse_outer(d)[0].max_size
        l.close()
    return v


def oid_of(n, rng):
    """OID of n contents octets."""
    a = [1, rng.randint(0, 39)]
    left = n - 1
    # the number of sub-identifiers is limited by 128
    w0 = rng.choice((1, 2, 3, 5, 5)) if n > 6 else 1
    while left > 0:
        w = min(5, max(w0, -(-left // (128 - len(a)))), left)
        low = 0 if w == 1 else 1 << (7 * (w - 1))
        a.append(low + int(rng.random() * (min(1 << (7 * w), 1 << 32) - low)))
        left -= w
    return tuple(a)


def oids_of(total, rng):
    """OIDs whose varbinds take `total` octets, or None."""
    r = []
    style = rng.random()
    while total > 129:
        c = rng.choice((1, 5, 20, 100, 119)) if style < 0.3 else rng.randint(60, 119) if style < 0.9 else rng.randint(1, 119)
        c = min(c, total - 6 - 7)
        r.append(oid_of(c, rng))
        total -= c + 6
    if 0 < total < 7:
        return None
    if total:
        r.append(oid_of(total - 6, rng))
    rng.shuffle(r)
    return r


def one(ctx, rng, r, op, oids, exact, what):
    """Make the request, judge it."""
    cfg = r.cfg
    header = getattr(r, "header", (0, 0))
    it = mr = None
    if op == "getbulk":
        mr = rng.choice((1, 20, 127, 128, 65536))
        it = common.it(oids[0], mr)
    elif op == "getnext":
        it = common.it(oids[0])
    arg = text(oids[0]) if op == "get" else [text(o) for o in oids]
    size = size_of(cfg, op, oids, mr, header)
    least = size if exact else size_of(cfg, op, oids, mr, header, 1)
    info = {"cfg": repr(cfg)[:300], "op": op, "size": size, "oids": len(oids), "sweep": what}
    if exact:
        import _shim

        _shim.clear()
        for _ in range(6):
            _shim.push(ID4)
    o, d = r.link.request(*common.SEND(r.sock, op, arg, it))
    if exact:
        _shim.clear()
    slack = 16 if cfg.priv else 0  # how the last block of the ciphertext is completed
    if not o.ok:
        ctx.count("refused")
        ctx.count(f"refused within 16 octets over the capacity: {size - CAP if 0 < size - CAP <= 16 else 'no'}") if 0 < size - CAP <= 16 else None
        if type(o.exc).__name__ != "PySnmpEncodeError" and not isinstance(o.exc, host.SnmpEncodeError):
            ctx.fail(f"request of {size} octets is refused with {o!r}", **info)
        if d is None:
            d = r.link.peer.recv()
        if d is not None:
            ctx.fail(f"request is refused with {o!r}, and {len(d)} octets are sent", datagram=d.hex(), **info)
        if size + slack <= CAP:
            ctx.fail(f"request of {size} octets fits {CAP}, it is refused: {o!r}", **info)
        return None
    if d is None:
        ctx.fail("nothing is sent", **info)
    if least > CAP:
        ctx.fail(f"request does not fit ({size} octets), {len(d)} octets are sent", datagram=d.hex(), **info)
    req = expect.parse(ctx, d, cfg, op=op, size=size, sweep=what)
    expect.check_request(ctx, req, cfg, op, oids, mr, header=header if cfg.version == "v3" else None, sweep=what)
    if canonical(req, cfg) != d:
        ctx.fail("the message is not the minimal encoding of its fields", datagram=d.hex(), **info)
    if exact and not slack and len(d) != size:
        ctx.fail(f"{len(d)} octets are sent instead of {size}", datagram=d.hex(), **info)
    if (x := r.link.peer.recv()) is not None:
        ctx.fail("more than one datagram is sent", datagrams=[d.hex(), x.hex()], **info)
    ctx.count("sent complete")
    if CAP - len(d) < 4:
        ctx.count(f"sent: {len(d)} octets")
    for b in (127, 128, 255, 256):
        if b in lengths(req):
            ctx.count(f"some level has {b} contents octets")
    return req


def lengths(req):
    """Contents lengths at the levels above the names."""
    n = []
    d = req.raw if getattr(req, "enc", None) is None else req.scoped
    p = 0
    for _ in range(2):
        if d[p] not in (0x30, 0x04):
            break
        k = d[p + 1]
        if k < 128:
            n.append(k)
            p += 2
        else:
            n.append(int.from_bytes(d[p + 2 : p + 2 + (k & 127)], "big"))
            p += 2 + (k & 127)
    vb = sum(len(seq(tlv(6, oid_content(o)), NULL)) for o in req.oids[:60])
    n.append(vb)
    for o in req.oids[:3]:
        c = len(oid_content(o))
        n += [c, len(tlv(6, oid_content(o))) + 2]
    return n


def answer(ctx, rng, r, req, op):
    """Now and then: reply, so that boots and time (and the buffers) change."""
    if r.cfg.version == "v3":
        r.agent.boots, r.agent.time = rng.choice((0, 1, 127, 128, 40000, 2**31 - 1)), rng.choice((0, 1, 127, 128, 40000, 2**31 - 1))
    n = (*(req.oids[0] if req.oids else (1, 3)), 1)
    it = common.it("1.3", 1 if op == "getbulk" else None)
    r.link.feed(r.agent.reply(req, [msg.vb(n[:20], ostr(rng.randbytes(rng.choice((1, 500)))))]))
    r.recv(op, it)
    r.header = (r.agent.boots, r.agent.time)


EXACT = {"plain": False, "det": True}
# -- the whole range of sizes by the names


def k_names(ctx, rng, i):
    """Every size of the varbinds; all of the configurations, together with names_exact."""
    total = i % 4100
    name = ALL_CFG[(i + i // 4100 + (4 if EXACT[ctx.variant] else 0)) % len(ALL_CFG)]
    r = common.rig(ctx, name, rng)
    oids = oids_of(total, rng)
    if oids is None:
        return
    op = "get_many"
    if len(oids) == 1:
        op = rng.choice(OPS[r.cfg.version])
    req = one(ctx, rng, r, op, oids, EXACT[ctx.variant], f"varbinds of {total} octets")
    ctx.sig("names", name, total, op)
    if req is not None and rng.random() < 0.2:
        answer(ctx, rng, r, req, op)
    ctx.sample({"cfg": name, "op": op, "varbinds": total, "names": len(oids), "outcome": "sent" if req else "refused"})


def edge(r, rng, op, over, header):
    """Names for the message of about CAP + over octets."""
    base = size_of(r.cfg, op, [], None, header)
    for t in range(max(0, CAP - base + over - 24), CAP - base + over + 40):
        if size_of(r.cfg, op, t, None, header) - CAP >= over:
            return oids_of(t, rng)
    return None


def k_edge(ctx, rng, i):
    """Messages within 20 octets of the capacity."""
    name = ALL_CFG[i % len(ALL_CFG)]
    over = (i // len(ALL_CFG)) % 41 - 20
    r = common.rig(ctx, name, rng)
    oids = edge(r, rng, "get_many", over, getattr(r, "header", (0, 0)))
    if oids is None:
        return
    req = one(ctx, rng, r, "get_many", oids, EXACT[ctx.variant], f"capacity {over:+d}")
    ctx.count("messages next to the capacity")
    ctx.sig("edge", name, over, len(oids))
    if req is not None and rng.random() < 0.3:
        answer(ctx, rng, r, req, "get_many")


def k_single(ctx, rng, i):
    """One name of every size through every operation."""
    name = ALL_CFG[i % len(ALL_CFG)]
    n = (i // len(ALL_CFG)) % 600 + 1
    r = common.rig(ctx, name, rng)
    for op in OPS[r.cfg.version]:
        req = one(ctx, rng, r, op, [oid_of(n, rng)], EXACT[ctx.variant], f"name of {n} octets")
        if req is not None and rng.random() < 0.1:
            answer(ctx, rng, r, req, op)
    ctx.evals(len(OPS[r.cfg.version]) - 1)
    ctx.sig("single", name, n)


# -- the fields which are set once: community, user, engine id


def k_field(ctx, rng, i):
    which = i % 4
    n = i // 4
    if EXACT[ctx.variant] and ctx.tier == "quick":
        n = n * 4 + rng.randrange(4)
    name = ("v1", "v2c", None, None)[which]
    if which < 2:
        n %= 4100
        cfg = Cfg(name, community="c" * n)
        what = f"community of {n} octets"
    else:
        name = ALL_CFG[2 + rng.randrange(len(ALL_CFG) - 2)]
        cfg = common.make_cfg(name, rng, "localized")
        if which == 2:
            n %= 4100
            cfg.user = "u" * n
            what = f"user of {n} octets"
        else:
            # scoped PDU and security parameters grow together
            n = n % 2060 if rng.random() < 0.5 else n % 300
            cfg.engine_id = rng.randbytes(n) if n else b"\x01"
            what = f"engine id of {n} octets"
    o = outcome(common.Rig, cfg)
    if not o.ok:
        # The session itself is refused: nothing is sent
        ctx.count(f"constructor refuses: {type(o.exc).__name__}")
        if not isinstance(o.exc, (host.SnmpError, ValueError)):
            ctx.fail(f"{what}: {o!r}")
        return
    r = o.value
    try:
        for op in rng.sample(OPS[cfg.version], 2):
            one(ctx, rng, r, op, [oid_of(rng.choice((1, 2, 5, 30)), rng)], EXACT[ctx.variant], what)
        oids = edge(r, rng, "get_many", rng.randint(-3, 3), (0, 0))
        if oids is not None:
            one(ctx, rng, r, "get_many", oids, EXACT[ctx.variant], what + ", the rest by names")
            ctx.evals(1)
        # After the refusal the buffers are in order
        one(ctx, rng, r, "get", [(1, 3, 6, 1)], EXACT[ctx.variant], what)
    finally:
        r.link.close()
    ctx.evals(2)
    ctx.sig("field", which, n, name)


# -- the capacity is reached at the very header of an element

LENS = (100, 126, 127, 128, 129, 160, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300)


def k_header(ctx, rng, i):
    """The first of the names, or the field before them, is `n` octets long, and
    the message is over the capacity by as much as there is before it, more or less."""
    name = ALL_CFG[i % len(ALL_CFG)]
    n = LENS[(i // len(ALL_CFG)) % len(LENS)]
    where = rng.choice(("name", "name", "community" if name in ("v1", "v2c") else rng.choice(("user", "engine"))))
    header = (0, 0)
    own = None
    if where == "name":
        r = common.rig(ctx, name, rng)
        header = getattr(r, "header", header)
    else:
        cfg = common.make_cfg(name, rng, "localized")
        if where == "engine":
            cfg.engine_id = rng.randbytes(n)
        else:
            setattr(cfg, where, "x" * n)
        o = outcome(common.Rig, cfg)
        if not o.ok:
            if not isinstance(o.exc, (host.SnmpError, ValueError)):
                ctx.fail(f"{where} of {n} octets: {o!r}")
            return
        r = own = o.value
    try:
        first = oid_of(n if where == "name" else rng.randint(1, 40), rng)
        vb = len(seq(tlv(6, oid_content(first)), NULL))
        front = size_of(r.cfg, "get_many", 0, None, header) - (0 if where == "name" else n)
        over = rng.randint(-3, front + 12)
        if r.cfg.priv and rng.random() < 0.5:
            # The scoped PDU itself is over
            over += front + 16
        base = size_of(r.cfg, "get_many", vb, None, header)
        for t in range(max(0, CAP - base + over - 24), CAP - base + over + 40):
            if size_of(r.cfg, "get_many", vb + t, None, header) - CAP >= over:
                break
        rest = oids_of(t, rng)
        if rest is None:
            return
        one(ctx, rng, r, "get_many", [first, *rest], EXACT[ctx.variant], f"{where} of {n} octets, capacity {over:+d}")
        one(ctx, rng, r, "get", [(1, 3, 6, 1)], EXACT[ctx.variant], "next")
    finally:
        if own:
            own.link.close()
    ctx.count("messages over the capacity at some header")
    ctx.sig("header", name, where, n, over)


# -- sessions


def k_session(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng, "localized")
    agent = msg.Agent(cfg, boots=1, time=1)
    jobs = []
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        if k < 0.3:
            total = rng.choice((0, 20, 200))
        elif k < 0.5:
            total = rng.randint(4200, 9000)
        else:
            total = CAP - size_of(cfg, "get_many", [], None, (1, 1)) + rng.randint(-30, 30)
        oids = oids_of(total, rng) or [(1, 3, 6)]
        jobs.append((oids, size_of(cfg, "get_many", oids, None, (1, 1)), size_of(cfg, "get_many", oids, None, (0, 0), 1)))
    seen = []

    def fn(req):
        seen.append(req)
        return [agent.reply(req, [msg.vb((1, 3, 6, 1, 5), enc_int(5))])]

    slack = 16 if cfg.priv else 0

    def judge(o, job, client):
        oids, size, least = job
        info = {"cfg": repr(cfg), "client": client, "size": size, "oids": len(oids)}
        if o.ok:
            if least > CAP:
                ctx.fail(f"request does not fit ({size} octets), it is performed: {o!r}", **info)
            if len(seen) != 1 or [tuple(x) for x in seen[0].oids] != oids:
                ctx.fail(f"{len(seen)} requests are sent, or another one", **info)
            ctx.count(f"{client}: sent")
        else:
            if not isinstance(o.exc, host.SnmpEncodeError):
                ctx.fail(f"request of {size} octets ends with {o!r}", **info)
            if seen:
                ctx.fail("refused request is sent", datagram=seen[0].raw.hex(), **info)
            if size + slack <= CAP:
                ctx.fail(f"request of {size} octets fits, it is refused: {o!r}", **info)
            ctx.count(f"{client}: refused")
        seen.clear()

    if i % 2:
        a = common.thread_agent(ctx)
        a.use(common.v3_handler(cfg, agent, fn))
        with cfg.session(SyncSession, a.port, timeout=20.0) as s:
            if cfg.version == "v3":
                s.refresh()
            for j in jobs:
                judge(outcome(s.get_many, [text(x) for x in j[0]]), j, "sync")
        a.check()
    else:

        async def run():
            a = AsyncAgent(common.v3_handler(cfg, agent, fn))
            try:
                async with cfg.session(AsyncSession, a.port, timeout=20.0) as s:
                    if cfg.version == "v3":
                        await s.refresh()
                    for j in jobs:
                        judge(await aoutcome(s.get_many([text(x) for x in j[0]])), j, "async")
                a.check()
            finally:
                a.close()

        common.aio(ctx).run(run())
    ctx.evals(len(jobs) - 1)
    ctx.sig("session", name, i % 2, tuple(j[1] for j in jobs))


NC = len(ALL_CFG)
KINDS = {
    "names": Kind(k_names, 4100 * 4, 4100 * NC * 20),
    "edge": Kind(k_edge, 41 * NC * 8, 41 * NC * 400),
    "single": Kind(k_single, 600 * NC, 600 * NC * 20),
    "field": Kind(k_field, 4100 * 4, 4100 * 4 * 20),
    "header": Kind(k_header, 9 * 17 * 40, 9 * 17 * 4000),
    "session": Kind(k_session, 1600, 60_000),
    "names_exact": Kind(k_names, 4100 * 5, 4100 * NC * 10, variant="det"),
    "edge_exact": Kind(k_edge, 41 * NC * 8, 41 * NC * 400, variant="det"),
    "field_exact": Kind(k_field, 4100, 4100 * 4 * 10, variant="det"),
    "asan_header": Kind(k_header, 9 * 17 * 4, 9 * 17 * 400, variant="asan"),
    "asan_edge": Kind(k_edge, 41 * NC * 2, 41 * NC * 100, variant="asan"),
    "asan_field": Kind(k_field, 2000, 4100 * 10, variant="asan"),
}
EXACT["asan"] = False

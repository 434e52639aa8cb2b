"""C01: no datagram can crash the client."""

from __future__ import annotations

from lib import common, msg, mutate, values
from lib.ber import Malformed, enc_int, enc_len, oid_content, ostr, seq, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import DOCUMENTED, AsyncSession, SyncSession
from lib.net import AsyncAgent, Out, aoutcome, outcome

PROP = "C01"
BASE = (1, 3, 6, 1, 2, 1)
OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk", "refresh")}


def judge(ctx, o: Out, **info):
    """The only acceptable endings."""
    if o.ok:
        ctx.count("ended: result")
        return
    ctx.count(f"ended: {type(o.exc).__name__}")
    if not isinstance(o.exc, DOCUMENTED):
        ctx.fail(f"undocumented {type(o.exc).__name__} surfaced: {o.exc}", **info)


# ---------------------------------------------------------------- generators


def good_vbs(rng, op):
    n = {"get": (1, 1, 1, 0), "getnext": (1,), "refresh": (0, 1)}.get(op, (0, 1, 2, 3, 6))
    n = rng.choice(n)
    r = []
    a = list(BASE)
    for i in range(n):
        a = [*BASE, *(list(a[len(BASE) :])[:2] or [0])]
        a[-1] += rng.randint(1, 200)
        v = rng.choice(values.EXCS).tlv if rng.random() < 0.15 else values.rand_value(rng, max_bytes=60)[1]
        r.append((tuple(a), v))
    return r


def hostile_vbs(rng, op):
    r = []
    last = oid_content(BASE + (rng.randint(0, 300),))
    for _ in range(rng.choice((1, 1, 1, 2, 3, 5))):
        k = rng.randrange(6)
        if k == 0:
            r.append(b"\x30\x00")
            continue
        name = mutate.hostile_name(rng, last) if rng.random() < 0.5 else tlv(6, last)
        val = mutate.hostile_value(rng) if rng.random() < 0.6 else rng.choice((b"", values.rand_value(rng, max_bytes=40)[1], values.NULL_TLV, rng.choice(values.EXCS).tlv))
        b = name + val
        if rng.random() < 0.1:
            b += rng.randbytes(rng.randint(1, 4))
        r.append(bytes((rng.choice((0x30, 0x30, 0x30, 0x30, 0x31, 0x10, 0xA2)),)) + enc_len(len(b)) + b)
    return r


def gen_pdu(rng, op, req_id):
    """PDU octets: mostly plausible, somewhere broken."""
    tag = msg.RESPONSE if rng.random() < 0.8 else rng.choice((0xA0, 0xA1, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA8, 0xA9, 0x82, 0xBF))
    k = rng.randrange(10)
    if k < 4:
        vbs = hostile_vbs(rng, op)
    else:
        vbs = [msg.vb(a, v, values.form(rng)) for a, v in good_vbs(rng, op)]
    es, ei = rng.choice(((0, 0), (0, 0), (2, 1), (5, 0), (-1, 2**40)))
    p = msg.pdu(tag, req_id, vbs, es, ei, values.form(rng) if rng.random() < 0.2 else 0)
    if k >= 7:
        p = mutate.tree_mutate(rng, p)
    elif k == 6:
        p = mutate.byte_mutate(rng, p)
    return p


WEIRD_INT = (b"\x02\x00", b"\x02\x01\xff", b"\x02\x05\x01\x00\x00\x00\x00", b"\x02\x08" + b"\x80" + b"\0" * 7, b"\x02\x08" + b"\x7f" + b"\xff" * 7, b"\x02\x09\x00" + b"\xff" * 8, b"\x02\x10" + b"\x11" * 16, b"\x02\x04\x7f\xff\xff\xff", b"\x05\x00", b"\x04\x01\x00", b"\x02\x84\x00\x00\x00\x01\x05")


def gen_v3(rng, rig, req, op):
    """v3 datagram, valid security where possible, hostile somewhere."""
    cfg, ag = rig.cfg, rig.agent
    scoped = msg.scoped_pdu(gen_pdu(rng, op, req.req_id), ag.engine_id, rng.choice((b"", b"", b"ctx", b"c" * 200)))
    k = rng.randrange(10)
    if k < 3:
        scoped = mutate.tree_mutate(rng, scoped)
    elif k == 3:
        scoped = mutate.byte_mutate(rng, scoped)
    elif k == 4:
        scoped = rng.choice((b"", b"\x30", b"\x30\x00", rng.randbytes(rng.randint(1, 40)), scoped[: rng.randint(0, len(scoped))]))
    elif k == 5:
        scoped += rng.randbytes(rng.randint(1, 20))
    d = {"msg_id": req.msg_id, "engine_id": ag.engine_id, "boots": ag.boots, "time": ag.time, "user": cfg.user.encode(), "flags": rng.choice((0, 4)), "mac": None}
    key = cfg.auth_key(ag.engine_id)
    if cfg.auth:
        d.update(auth_alg=cfg.auth, auth_key=key, mac="valid")
        d["flags"] |= 1
    salt = rng.randbytes(8)
    if cfg.priv:
        d.update(priv_alg=cfg.priv, priv_key=cfg.priv_key(ag.engine_id), encrypt=True, salt=salt)
        d["flags"] |= 2
    w = rng.randrange(12)
    if w == 0:
        d["flags"] = rng.randrange(256)
    elif w == 1:
        d["boots"], d["time"] = (rng.choice((0, -1, 2**31 - 1, 2**31, 2**32, 2**63 - 1, -(2**63))) for _ in range(2))
    elif w == 2:
        d["mac"] = rng.choice((None, b"", rng.randbytes(rng.choice((1, 11, 12, 13, 16, 20, 100))), bytes(12)))
    elif w == 3:
        # privacy parameters and ciphertext of any size
        d["priv_params"] = rng.randbytes(rng.choice((0, 1, 4, 7, 8, 9, 12, 16, 64)))
        if cfg.priv or rng.random() < 0.5:
            n = rng.choice((0, 1, 7, 8, 9, 15, 16, 17, 24, 100, 1000, 3600))
            d["data"] = ostr(rng.randbytes(n))
    elif w == 4:
        n = rng.choice((0, 1, 2, 7, 8, 15, 16, 17, 31, 3500, 3900))
        d["data"] = ostr(rng.randbytes(n))
    elif w == 5:
        d["data"] = rng.choice((b"", b"\x04", b"\x04\x00", b"\x04\x80", b"\x30", b"\x30\x80", b"\x24\x00", rng.randbytes(3), scoped))
    elif w == 6:
        d["engine_id"] = rng.choice((b"", rng.randbytes(5), rng.randbytes(200)))
    elif w == 7:
        d["user"] = rng.choice((b"", b"\xff\xfe", rng.randbytes(100)))
    elif w == 8:
        d["msg_id"] = rng.choice((0, -1, 2**31, 2**63 - 1, -(2**63), req.msg_id ^ 1))
    m = msg.v3_msg(scoped, **d)
    if w == 9:
        m = mutate.tree_mutate(rng, m, v3=True)
    elif w == 10:
        m = resigned(rng, cfg, key, m)
    return m, w


def resigned(rng, cfg, key, m):
    """Hostile USM integers under the valid MAC."""
    t = mutate.parse(m, v3=True)
    if not t:
        return m
    usm = t[0].kids[2] if t[0].kids and len(t[0].kids) > 2 else t[0]
    if not usm.kids or not usm.kids[0].kids:
        return m
    k = usm.kids[0].kids
    w = rng.choice(WEIRD_INT)
    k[rng.choice((1, 2))] = mutate.Node(w[:1], w[2:]) if not w[1] & 0x80 else k[1]
    if rng.random() < 0.3:
        k.append(mutate.Node(rng.choice(mutate.TAGS), rng.randbytes(3)))
    if not cfg.auth:
        return b"".join(x.enc() for x in t)
    marker = rng.randbytes(12)
    k[4] = mutate.Node(4, marker)
    m = b"".join(x.enc() for x in t)
    off = m.rfind(marker)
    from lib.crypto import hmac96

    return m[:off] + hmac96(cfg.auth, key, m[:off] + bytes(12) + m[off + 12 :]) + m[off + 12 :]


def gen_community(rng, rig, req, op):
    cfg = rig.cfg
    p = gen_pdu(rng, op, req.req_id)
    m = msg.community_msg(msg.VER[cfg.version], cfg.community.encode(), p, values.form(rng) if rng.random() < 0.2 else 0)
    w = rng.randrange(8)
    if w == 0:
        m = mutate.tree_mutate(rng, m)
    elif w == 1:
        m = mutate.byte_mutate(rng, m)
    elif w == 2:
        i = rng.choice(WEIRD_INT)
        m = seq(rng.choice((i, enc_int(msg.VER[cfg.version]))), ostr(rng.choice((cfg.community.encode(), rng.randbytes(3)))), rng.choice((p, i + p, p + i)))
    return m, w


def hostile(rng, rig, req, op):
    k = rng.random()
    if k < 0.03:
        return rng.randbytes(rng.choice((0, 1, 2, 3, 5, 10, 100, 1500, 4079, 4080, 4081, 9000))), "random"
    if k < 0.06:
        n = rng.choice((4000, 4070, 4076, 4079, 4080, 4081, 4200))
        return b"\x30" + enc_len(n - 4, 2) + rng.choice((b"\x02\x01\x01", b"\x02\x01\x03", b"\x30")) + rng.randbytes(n - 7), "big"
    if rig.cfg.version == "v3":
        return gen_v3(rng, rig, req, op)
    return gen_community(rng, rig, req, op)


# ---------------------------------------------------------------- kinds


def arg_for(op):
    return text(BASE) if op == "get" else [text(BASE), "1.3.6"]


def k_hostile(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    op = rng.choice(OPS[r.cfg.version])
    it = common.it(BASE, 10)
    try:
        o, req = r.send(op, arg_for(op), it)
    except Malformed:
        common.drop_rig(ctx, name)
        r = common.rig(ctx, name, rng)
        o, req = r.send(op, arg_for(op), it)
    if req is None:
        ctx.fail(f"request is refused: {o!r}")
    ds = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        d, w = hostile(rng, r, req, op)
        ds.append(d)
        ctx.sig(r.cfg.name, op, w, len(d).bit_length(), d[:12])
    ctx.count(f"cfg {name}")
    ctx.count(f"op {op}")
    ctx.count("datagrams", len(ds))
    ctx.evals(len(ds) - 1)
    ctx.sample({"cfg": name, "op": op, "datagrams": [d[:200].hex() for d in ds]})
    r.link.feed(*ds)
    for _ in ds:
        o = r.recv(op, it, blocks=True)
        judge(ctx, o, cfg=repr(r.cfg), op=op, datagrams=[d.hex() for d in ds])
        if isinstance(o.exc, BlockingIOError):
            break
    r.link.drain()
    if i % 4 == 0:
        # Session is still alive: the genuine reply is delivered
        it = common.it(BASE, 10)
        try:
            o, req = r.send("get", text(BASE))
        except Malformed:
            # The peer which owns the keys has told out-of-range boots/time
            ctx.count("session follows hostile engine parameters")
            common.drop_rig(ctx, name)
            return
        if req is None:
            ctx.fail(f"session is not usable after the datagrams: {o!r}", cfg=repr(r.cfg), op=op, datagrams=[d.hex() for d in ds])
        if r.cfg.version == "v3" and req.engine_id != r.agent.engine_id:
            ctx.count("session lost engine id")
            common.drop_rig(ctx, name)
            return
        r.link.feed(r.agent.reply(req, [msg.vb(BASE, enc_int(i))]))
        o = r.recv("get")
        judge(ctx, o, cfg=repr(r.cfg), op="get after", datagrams=[d.hex() for d in ds])
        ctx.count("genuine reply delivered after" if o.ok and o.value == i else "genuine reply not delivered after")


def k_nosend(ctx, rng, i):
    """Datagrams arriving before anything was asked for."""
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    if cfg.version == "v3" and rng.random() < 0.5:
        cfg.engine_id = b""
    r = common.Rig(cfg)
    op = rng.choice(OPS[cfg.version])
    it = common.it(BASE, 10)
    fake = msg.Req()
    fake.msg_id = fake.req_id = 0
    fake.user = cfg.user.encode()
    if cfg.version == "v3":
        r.agent.engine_id = cfg.engine_id or rng.choice((b"", b"\x80\0\0\0\1", rng.randbytes(32)))
    d, w = hostile(rng, r, fake, op)
    r.link.feed(d)
    o = r.recv(op, it, blocks=True)
    ctx.count(f"nosend cfg {name}")
    ctx.sig("nosend", name, op, w, d[:12])
    judge(ctx, o, cfg=repr(cfg), op=op, datagrams=[d.hex()])
    if cfg.version == "v3":
        o = outcome(r.sock.set_keys, "u", 1, b"password", 2, b"password")
        judge(ctx, o, cfg=repr(cfg), op="set_keys", datagrams=[d.hex()])
        o, dd = r.link.request(r.sock.send_get, "1.3.6")
        judge(ctx, o, cfg=repr(cfg), op="send_get", datagrams=[d.hex()])
    r.link.close()


SMALL = [b""] + [bytes((a,)) for a in range(256)] + [bytes((a, b)) for a in range(256) for b in range(256)]
STEP = 256


def k_small(ctx, rng, i):
    """Exhaustive: every datagram of 0..2 octets for every version."""
    name = ("v1", "v2c", "v3", "v3-sha1-aes")[i % 4]
    r = common.rig(ctx, name, rng, 0)
    ops = OPS[r.cfg.version]
    part = SMALL[(i // 4) * STEP : (i // 4 + 1) * STEP]
    for n, d in enumerate(part):
        op = ops[n % len(ops)]
        it = common.it(BASE, 10)
        r.link.feed(d)
        o = r.recv(op, it, blocks=True)
        judge(ctx, o, cfg=name, op=op, datagrams=[d.hex()])
    ctx.count("exhaustive 0..2 octet datagrams", len(part))
    ctx.evals(len(part) - 1)
    ctx.sig("small", i)


# -- the two client layers


def k_sync(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    ta = common.thread_agent(ctx)
    rig = common.Rig.__new__(common.Rig)
    rig.cfg, rig.agent = cfg, msg.Agent(cfg, boots=3, time=1000)
    op = rng.choice(OPS[cfg.version])
    sent = []

    def h(d):
        req = parse(d, cfg)
        if req is None:
            return []
        x, w = hostile(rng, rig, req, op)
        sent.append(x)
        return [x]

    ta.use(h)
    s = cfg.session(SyncSession, ta.port, timeout=0.03)
    fn = {
        "get": lambda: s.get(text(BASE)),
        "get_many": lambda: s.get_many([text(BASE)]),
        "getnext": lambda: [x for _, x in zip(range(4), s.getnext(text(BASE)))],
        "getbulk": lambda: [x for _, x in zip(range(40), s.getbulk(text(BASE)))],
        "refresh": lambda: s.refresh(),
    }[op]
    o = outcome(fn)
    ta.check()
    ctx.count(f"sync op {op}")
    ctx.sig("sync", name, op, sent[0][:8] if sent else b"")
    judge(ctx, o, client="sync", cfg=repr(cfg), op=op, datagrams=[x.hex() for x in sent])


def parse(d, cfg):
    try:
        return msg.parse_request(d, cfg)
    except Malformed:
        # Out-of-range boots/time told by the hostile peer
        return None


def k_async(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    rig = common.Rig.__new__(common.Rig)
    rig.cfg, rig.agent = cfg, msg.Agent(cfg, boots=3, time=1000)
    op = rng.choice(OPS[cfg.version])
    sent = []

    def h(d):
        req = parse(d, cfg)
        if req is None:
            return []
        x, w = hostile(rng, rig, req, op)
        sent.append(x)
        return [x]

    async def take(g, n):
        r = []
        async for x in g:
            r.append(x)
            if len(r) >= n:
                break
        return r

    async def main():
        ag = AsyncAgent(h)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=0.03)
            c = {
                "get": lambda: s.get(text(BASE)),
                "get_many": lambda: s.get_many([text(BASE)]),
                "getnext": lambda: take(s.getnext(text(BASE)), 4),
                "getbulk": lambda: take(s.getbulk(text(BASE)), 40),
                "refresh": lambda: s.refresh(),
            }[op]
            o = await aoutcome(c())
            ag.check()
            return o
        finally:
            ag.close()

    o = common.aio(ctx).run(main())
    ctx.count(f"async op {op}")
    ctx.sig("async", name, op, sent[0][:8] if sent else b"")
    judge(ctx, o, client="async", cfg=repr(cfg), op=op, datagrams=[x.hex() for x in sent])


# -- memory outside of the received bytes: the outcome must not depend on what the
#    reused buffers held before (needs fixed request ids: det variant)


def show(o: Out):
    return ("ok", repr(o.value)) if o.ok else (type(o.exc).__name__, str(o.exc))


def k_stale(ctx, rng, i):
    import _shim

    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    op = rng.choice(OPS[cfg.version])
    seed = rng.getrandbits(64)
    res = []
    d = None
    for fill in (b"\x00", b"\xff", b"\x02", None):
        _shim.clear()
        _shim.seed(seed)
        r = common.Rig(cfg)
        # Fill the pooled receive buffer and the private buffer of the cipher
        for _ in range(2):
            junk = fill * 4080 if fill else bytes((j * 131 + 7) & 255 for j in range(4080))
            r.link.feed(junk)
            outcome(r.sock.recv_get)
        if cfg.priv:
            o, req = r.send("get", "1.3.6.1")
            big = ostr((fill or b"\x5a") * 1200)
            r.link.feed(r.agent.reply(req, [msg.vb((1, 3, 6, 1), big)]))
            outcome(r.sock.recv_get)
        it = common.it(BASE, 10)
        _shim.clear()
        _shim.seed(seed + 1)
        o, req = r.send(op, arg_for(op), it)
        if req is None:
            ctx.fail(f"request is refused: {o!r}")
        if d is None:
            d, w = hostile(rng, r, req, op)
        r.link.feed(d)
        res.append(show(r.recv(op, it, blocks=True)))
        r.link.close()
    ctx.count("stale-buffer comparisons")
    ctx.count(f"stale {res[0][0]}")
    ctx.sig("stale", name, op, w, d[:16])
    if len(set(res)) != 1:
        ctx.fail("the outcome depends on bytes which were not received", cfg=repr(cfg), op=op, datagram=d.hex(), outcomes=res)


NAME_OCTETS = (0x00, 0x01, 0x02, 0x27, 0x28, 0x2B, 0x7F, 0x80, 0x81, 0xFF)


def short_name(rng, tag):
    c = bytes(rng.choice(NAME_OCTETS) for _ in range(rng.choice((0, 1, 1, 2, 2, 3, 4, 5, 8, 20))))
    if tag == 6 and rng.random() < 0.8:
        c = rng.choice((b"\x00", b"\x2b", b"\x7f", oid_content(BASE), b"\x2b\x81\x00", b"\x2b\x8f\xff\xff\xff\x7f")) + (c[:-1] + bytes((c[-1] & 0x7F,)) if c and rng.random() < 0.5 else b"")
    return bytes((tag,)) + enc_len(len(c)) + c


def k_names(ctx, rng, i):
    """Lists of short names, absolute and relative to the previous one, everything else is well-formed."""
    name = rng.choice(ALL_CFG) if i % 4 == 0 else "v2c"
    r = common.rig(ctx, name, rng)
    for _ in range(30):
        op = rng.choice(OPS[r.cfg.version])
        if op == "refresh":
            op = "get_many"
        it = common.it(BASE, 10)
        try:
            o, req = r.send(op, arg_for(op), it)
        except Malformed:
            # Earlier datagrams have told out-of-range boots/time
            common.drop_rig(ctx, name)
            r = common.rig(ctx, name, rng)
            o, req = r.send(op, arg_for(op), it)
        if req is None:
            ctx.fail(f"request is refused: {o!r}")
        n = 1 if op in ("get", "getnext") and rng.random() < 0.3 else rng.choice((2, 2, 2, 3, 4))
        vbs = [msg.vb(short_name(rng, 6 if k == 0 and rng.random() < 0.97 else rng.choice((6, 13, 13, 13))), enc_int(k)) for k in range(n)]
        r.link.feed(r.agent.reply(req, vbs))
        o = r.recv(op, it, blocks=True)
        judge(ctx, o, cfg=repr(r.cfg), op=op, varbinds=[v.hex() for v in vbs])
        ctx.count("name lists: delivered" if o.ok else "name lists: refused")
        ctx.sig("names", op, *vbs)
    ctx.evals(29)


KINDS = {
    "names": Kind(k_names, 4_000, 200_000),
    "names_asan": Kind(k_names, 600, 40_000, variant="asan"),
    "small": Kind(k_small, 4 * 258, 4 * 258),
    "hostile": Kind(k_hostile, 130_000, 6_000_000),
    "nosend": Kind(k_nosend, 8_000, 200_000),
    "sync": Kind(k_sync, 3_000, 60_000),
    "async": Kind(k_async, 3_000, 60_000),
    "stale": Kind(k_stale, 2_500, 100_000, variant="det"),
    "hostile_asan": Kind(k_hostile, 30_000, 1_500_000, variant="asan"),
    "nosend_asan": Kind(k_nosend, 2_000, 80_000, variant="asan"),
}

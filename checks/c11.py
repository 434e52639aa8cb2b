"""C11: encrypted payloads are exactly the scoped PDU under RFC 3414/3826."""

from __future__ import annotations

from checks import c02
from lib import common, crypto, expect, marathon, msg, v3hist, values
from lib.ber import Malformed, text
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SyncSession
from lib.net import AsyncAgent, Link, aoutcome, is_panic, outcome

PROP = "C11"
PRIV = [n for n in v3hist.V3 if n.count("-") == 2]


def judge(ctx, req, cfg, eid, op, oids, mr, fail):
    """Emitted message of the session with privacy."""
    d = req.raw.hex()
    if not req.flags & msg.F_PRIV:
        fail(f"msgData is not encrypted (flags {req.flags:#x})", datagram=d)
    if req.inner is not None:
        plain = None
        try:
            if len(req.priv_params) == 8 and getattr(req, "enc", None):
                plain = crypto.priv_decrypt(cfg.priv, cfg.priv_key(req.engine_id), req.priv_params, req.boots, req.time, req.enc[: len(req.enc) // 8 * 8]).hex()
        except Exception:  # noqa: BLE001
            pass
        fail(f"msgData does not decrypt to a scoped PDU: {req.inner}", datagram=d, decrypted=plain)

    def bad(why):
        fail(f"the decrypted scoped PDU is not of the request: {why}", datagram=d, scoped=req.scoped.hex(), wanted=[text(o) for o in oids][:40], op=op)

    if req.ctx_engine != eid:
        bad("contextEngineID differs")
    if req.ctx_name != b"":
        bad("contextName differs")
    expect.check_pdu(bad, req, op, oids, mr)
    ctx.count("payloads decrypted and compared")
    ctx.count(f"{op} {cfg.name}")
    ctx.count(f"padding of {len(req.pad)} octets, {cfg.priv}")
    ctx.sig("sent", cfg.name, cfg.priv_kt, op, len(req.enc), len(req.pad), req.boots.bit_length(), req.time.bit_length())


class H(v3hist.Hooks):
    def on_sent(self, h, req, op, oids, mr):
        if h.cur.priv:
            judge(h.ctx, req, h.cur, h.header[0], op, oids, mr, h.fail)
            if req.inner is None:
                h.ctx.sample({"cfg": repr(h.cur), "op": op, "scoped": req.scoped.hex()[:300], "pad": len(req.pad), "boots": req.boots, "time": req.time})

    def on_rejected(self, h, op, oids, o):
        if h.cur.priv and not is_panic(o):
            h.fail(f"a request which fits is refused: {o!r}", op=op, oids=[text(x) for x in oids][:40])

    def on_reply(self, h, op, vbs, o):
        if h.cur.priv:
            if op != "refresh":
                c02.judge(h.ctx, op, vbs, o, **h.info())
            elif not o.ok:
                h.fail(f"encrypted reply is not delivered: {o!r}")
            h.ctx.count("encrypted replies judged")
            h.ctx.sig("reply", h.cur.name, op, len(vbs), h.agent.boots.bit_length(), h.agent.time.bit_length())


def pad_of(rng, cfg, scoped_len):
    """Octets the agent pads with: any value will do."""
    if cfg.priv == "des":
        return rng.choice((b"", rng.randbytes(-scoped_len % 8), b"\xff" * (-scoped_len % 8), bytes([-scoped_len % 8] * (-scoped_len % 8))))
    return rng.choice((b"", b"", bytes(rng.randint(0, 15)), rng.randbytes(rng.randint(0, 15))))


def k_history(ctx, rng, i):
    v3hist.run(ctx, rng, PRIV[i % len(PRIV)], H(), rng.randint(4, 24), discover=rng.random() < 0.3)


def k_unanswered(ctx, rng, i):
    """Only sends: nothing may pile up."""
    h = v3hist.Hist(ctx, rng, PRIV[i % len(PRIV)], H())
    try:
        for _ in range(rng.choice((100, 200))):
            h.send(rng.choice(("get", "get", "getnext", "getbulk", "refresh")))
        h.genuine()
    except v3hist.Stop as e:
        ctx.count(f"history stopped: {e}")
    finally:
        h.close()
    ctx.evals(h.emitted - 1)


def rig(ctx, name, rng):
    return common.rig(ctx, name, rng)


def exchange(ctx, rng, name, op, base, vbs, what):
    r = rig(ctx, name, rng)
    cfg, ag = r.cfg, r.agent
    ag.boots, ag.time = v3hist.rand_time(rng), v3hist.rand_time(rng)
    it = common.it(base, 40) if op in ("getnext", "getbulk") else None
    o, d = r.link.request(*common.SEND(r.sock, op, text(base) if op == "get" else [text(base)], it))
    if not o.ok or d is None:
        ctx.fail(f"a request which fits is refused: {o!r}", cfg=repr(cfg))
    try:
        req = msg.parse_request(d, cfg)
    except Malformed as e:
        ctx.fail(f"msgData does not decrypt to a scoped PDU: {e}", datagram=d.hex(), cfg=repr(cfg))
    p = msg.pdu(msg.RESPONSE, req.req_id, [b for *_, b in vbs])
    salt = rng.choice((bytes(8), b"\xff" * 8, rng.randbytes(8), ag.boots.to_bytes(4, "big") + rng.randbytes(4)))
    f = values.form(rng)
    if f > 4 and len(p) > 2500:
        f = 4
    n = len(msg.scoped_pdu(p, ag.engine_id, f=f))
    if op == "get" and what == "value" and n > 3900:
        raise Inconclusive("too large")
    pad = pad_of(rng, cfg, n)
    reply = ag.wrap(req, p, f=f, salt=salt, pad=pad)
    r.link.feed(reply)
    o = r.recv(op, it)
    if is_panic(o):
        raise Inconclusive("panic")
    c02.judge(ctx, op, vbs, o, cfg=repr(cfg), reply=reply.hex(), salt=salt.hex(), boots=ag.boots, time=ag.time, pad=pad.hex())
    ctx.count("encrypted replies judged")
    ctx.count(f"reply of {n % (8 if cfg.priv == 'des' else 16)} octets in the last block, {cfg.priv}")
    ctx.sig("reply", name, op, len(reply), len(pad), ag.boots.bit_length(), ag.time.bit_length())


def k_replies(ctx, rng, i):
    op = rng.choice(c02.OPS)
    base, vbs = c02.gen(rng, op)
    exchange(ctx, rng, PRIV[i % len(PRIV)], op, base, vbs, "mixed")


def k_reply_sizes(ctx, rng, i):
    """Every length of the value, so every length of the plaintext."""
    name = PRIV[i % len(PRIV)]
    n = i // len(PRIV)
    n = n % 600 if i % 50 else rng.randint(600, 3700)
    b = rng.randbytes(n)
    a = (1, 3, 6, 1, 2, 1, 1, 1, 0)
    t = values.tlv(4, b)
    exchange(ctx, rng, name, "get", a, [(a, "octets", t, b, msg.vb(a, t))], "value")


def k_request_sizes(ctx, rng, i):
    """Every length of the request: from one OID up to what fits."""
    name = PRIV[i % len(PRIV)]
    r = rig(ctx, name, rng)
    n = (i // len(PRIV)) % 240
    oids = [values.rand_arcs(rng, 4, 9, 0.05) for _ in range(n)]
    oids.append((1, 3, *([1] * rng.randint(0, 16))))
    o, d = r.link.request(r.sock.send_get_many, [text(x) for x in oids])
    if not o.ok or d is None:
        total = sum(len(msg.vb(x)) for x in oids) + len(r.cfg.engine_id) * 2 + len(r.cfg.user.encode())
        if total < 3800:
            ctx.fail(f"a request which fits is refused: {o!r}", cfg=repr(r.cfg), oids=len(oids))
        ctx.count("does not fit")
        return
    emitted(ctx, d, r.cfg, "get_many", oids, None)


def emitted(ctx, d, cfg, op, oids, mr, **info):
    try:
        req, env = msg.parse_outer(d)
    except Malformed as e:
        ctx.fail(f"the datagram on the wire is malformed: {e}", cfg=repr(cfg), datagram=d.hex(), **info)
    try:
        msg.parse_inner(req, env, cfg)
        req.inner = None
    except Malformed as e:
        req.inner = str(e)
    judge(ctx, req, cfg, cfg.engine_id, op, oids, mr, lambda why, **kw: ctx.fail(why, cfg=repr(cfg), **kw, **info))
    return req


# -- sessions


class Srv:
    def __init__(self, rng, cfg, discover):
        self.rng, self.cfg, self.discover = rng, cfg, discover
        self.agent = msg.Agent(cfg, boots=v3hist.rand_time(rng), time=v3hist.rand_time(rng))
        self.anon = msg.Cfg("v3", user="", engine_id=b"")
        self.vbs = []
        self.log = []

    def handler(self, d):
        rng, ag = self.rng, self.agent
        req, env = msg.parse_outer(d)
        if self.discover and not req.engine_id:
            msg.parse_inner(req, env, self.anon)
            return [ag.report(req, secure=False)]
        self.log.append(d)
        try:
            msg.parse_inner(req, env, self.cfg)
        except Malformed:
            return []
        if rng.random() < 0.7:
            ag.boots, ag.time = v3hist.rand_time(rng), v3hist.rand_time(rng)
        if not req.oids:
            return [ag.report(req, oid=v3hist.TIME_OID, secure=True)]
        p = msg.pdu(msg.RESPONSE, req.req_id, [b for *_, b in self.vbs])
        return [ag.wrap(req, p, pad=pad_of(rng, self.cfg, len(msg.scoped_pdu(p, ag.engine_id))))]


def plan(rng):
    r = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(c02.OPS)
        base, vbs = c02.gen(rng, op, nmax=12)
        if op == "getbulk" and not vbs:
            continue
        r.append((op, base, vbs))
    return r


def check_log(ctx, srv, probes, calls, client):
    log = srv.log
    exp = [("refresh", [], None)] * probes + [(op, [base], 40 if op == "getbulk" else None) for op, base, _ in calls]
    for d, (op, oids, mr) in zip(log, exp):
        emitted(ctx, d, srv.cfg, op, oids, mr, client=client)


def k_sync(ctx, rng, i):
    cfg = common.make_cfg(PRIV[i % len(PRIV)], rng)
    srv = Srv(rng, cfg, rng.random() < 0.5)
    ta = common.thread_agent(ctx)
    ta.use(srv.handler)
    s = cfg.session(SyncSession, ta.port, discover=srv.discover, timeout=10.0)
    probes = 0
    done = []
    if srv.discover or rng.random() < 0.5:
        o = outcome(s.refresh)
        probes = 1
        if not o.ok:
            ta.check()
            check_log(ctx, srv, probes, done, "sync")
            raise Inconclusive(f"refresh: {o.kind}")
    for op, base, vbs in plan(rng):
        srv.vbs = vbs
        o = outcome(c02.walk_calls(op, s, base, vbs))
        done.append((op, base, vbs))
        ta.check()
        if len(srv.log) == probes + len(done):
            check_log(ctx, srv, probes, done, "sync")
        c02.judge(ctx, op, vbs, o, cfg=repr(cfg), client="sync")
        ctx.count("sync encrypted replies judged")
    ctx.evals(len(srv.log) + len(done) - 1)


def k_async(ctx, rng, i):
    cfg = common.make_cfg(PRIV[i % len(PRIV)], rng)
    srv = Srv(rng, cfg, rng.random() < 0.5)

    async def call(s, op, base, vbs):
        if op == "get":
            return await s.get(text(base))
        if op == "get_many":
            return await s.get_many([text(base)])
        if op == "getnext":
            return await s.getnext(text(base)).__anext__()
        g = s.getbulk(text(base), 40)
        return [await g.__anext__() for _ in vbs]

    async def main():
        ag = AsyncAgent(srv.handler)
        probes = 0
        done = []
        try:
            s = cfg.session(AsyncSession, ag.port, discover=srv.discover, timeout=10.0)
            if srv.discover or rng.random() < 0.5:
                o = await aoutcome(s.refresh())
                probes = 1
                if not o.ok:
                    ag.check()
                    check_log(ctx, srv, probes, done, "async")
                    raise Inconclusive(f"refresh: {o.kind}")
            for op, base, vbs in plan(rng):
                srv.vbs = vbs
                o = await aoutcome(call(s, op, base, vbs))
                done.append((op, base, vbs))
                ag.check()
                if len(srv.log) == probes + len(done):
                    check_log(ctx, srv, probes, done, "async")
                c02.judge(ctx, op, vbs, o, cfg=repr(cfg), client="async")
                ctx.count("async encrypted replies judged")
            ctx.evals(len(srv.log) + len(done) - 1)
        finally:
            ag.close()

    common.aio(ctx).run(main())


__all__ = ["Link"]

# -- long sessions


class M(marathon.Hooks):
    def sent(self, m, req, op, oids, mr):
        req.inner = None
        judge(m.ctx, req, m.cfg, m.cfg.engine_id, op, oids, mr, m.fail)

    def refused(self, m, op, o):
        if not is_panic(o):
            m.fail(f"a request which fits is refused: {o!r}", op=op)

    def malformed(self, m, op, d, e):
        m.fail(f"msgData does not decrypt to a scoped PDU: {e}", op=op, datagram=d.hex())

    def delivered(self, m, op, token, o):
        if not o.ok:
            m.fail(f"encrypted reply is not delivered: {o!r}", op=op)
        v = {"get": lambda: o.value, "get_many": lambda: next(iter(o.value.values())), "getnext": lambda: o.value[1], "getbulk": lambda: o.value[0][1], "refresh": lambda: token}[op]()
        if v != token:
            m.fail(f"{v!r} is delivered instead of {token}", op=op)


def k_marathon(ctx, rng, i):
    marathon.run(ctx, rng, PRIV[i % len(PRIV)], M(), 70_000 if ctx.tier == "thorough" else rng.choice((600, 5000)))


def k_several(ctx, rng, i):
    """Sessions of one process must not share anything."""
    v3hist.run_many(ctx, rng, PRIV, H, rng.randint(8, 40))


KINDS = {
    "history": Kind(k_history, 14_000, 300_000),
    "unanswered": Kind(k_unanswered, 80, 4_000),
    "replies": Kind(k_replies, 12_000, 400_000),
    "reply_sizes": Kind(k_reply_sizes, 7_200, 100_000),
    "request_sizes": Kind(k_request_sizes, 2_400, 60_000),
    "sync": Kind(k_sync, 1_500, 40_000),
    "async": Kind(k_async, 1_500, 40_000),
    "marathon": Kind(k_marathon, 12, 40),
    "several": Kind(k_several, 700, 40000),
}

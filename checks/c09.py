"""C09: every outgoing authenticated message carries a correct HMAC-96."""

from __future__ import annotations

from lib import common, crypto, marathon, msg, v3hist, values
from lib.ber import Malformed, text
from lib.driver import Kind
from lib.host import AsyncSession, SyncSession
from lib.net import AsyncAgent, Link, aoutcome, outcome
from lib.v3hist import V3

PROP = "C09"


def judge(ctx, req, cfg, fail, where):
    """The oracle: recompute over the datagram as received."""
    auth = bool(req.flags & msg.F_AUTH)
    if not cfg.auth:
        if auth:
            fail(f"auth flag is set without a key (flags {req.flags:#x})", datagram=req.raw.hex())
        if req.auth_params:
            fail("msgAuthenticationParameters is not empty without a key", datagram=req.raw.hex())
        ctx.count("messages without a key")
    else:
        if not auth:
            fail(f"auth flag is clear (flags {req.flags:#x})", datagram=req.raw.hex())
        if len(req.auth_params) != 12:
            fail(f"msgAuthenticationParameters has {len(req.auth_params)} octets", datagram=req.raw.hex())
        if not msg.mac_ok(req, cfg.auth, cfg.auth_key(req.engine_id)):
            z = req.raw[: req.auth_off] + bytes(12) + req.raw[req.auth_off + 12 :]
            fail(
                "msgAuthenticationParameters is not the HMAC of the message",
                datagram=req.raw.hex(),
                got=req.auth_params.hex(),
                wanted=crypto.hmac96(cfg.auth, cfg.auth_key(req.engine_id), z).hex(),
            )
        ctx.count("MACs recomputed")
        ctx.count(f"MACs {cfg.auth}")
    ctx.count(f"{where} {cfg.name}")
    ctx.sig(cfg.name, cfg.auth_kt, req.auth_off, len(req.raw), where)


class H(v3hist.Hooks):
    def on_sent(self, h, req, op, oids, mr):
        judge(h.ctx, req, h.cur, h.fail, f"ll {op}")
        h.ctx.sample({"cfg": repr(h.cur), "datagram": req.raw.hex()[:400], "mac": req.auth_params.hex()})


def k_history(ctx, rng, i):
    v3hist.run(ctx, rng, V3[i % len(V3)], H(), rng.randint(4, 24), discover=rng.random() < 0.3)


def k_sizes(ctx, rng, i):
    """Every total size: the offset of the field moves with the long forms of lengths."""
    name = V3[i % len(V3)]
    cfg = common.make_cfg(name, rng, "localized", engine_id=rng.randbytes(rng.choice((0, 1, 5, 12, 32, 60, 100, 127, 128, 200, 256))))
    cfg.user = v3hist.cfg_user(rng)
    link = Link(cfg)
    base = values.rand_arcs(rng, 2, 6)
    n = rng.randint(0, 250)
    done = 0
    oids = [text((*base, k % 128)) for k in range(n)]
    for pad in range(rng.choice((1, 4))):
        o, d = link.request(link.sock.send_get_many, [*oids, text((1, 3, *([1] * pad)))])
        if not o.ok:
            ctx.count("does not fit")
            break
        req = outer(ctx, d, cfg)
        judge(ctx, req, cfg, lambda why, **kw: ctx.fail(why, cfg=repr(cfg), **kw), "size")
        done += 1
    link.close()
    ctx.evals(done - 1)


def outer(ctx, d, cfg):
    try:
        return msg.parse_outer(d)[0]
    except Malformed as e:
        ctx.fail(f"the datagram on the wire is malformed: {e}", cfg=repr(cfg), datagram=d.hex())


# -- sessions


class Srv:
    """Agent of the session; keeps parsing apart from answering."""

    def __init__(self, rng, cfg, discover):
        self.rng, self.cfg, self.discover = rng, cfg, discover
        self.agent = msg.Agent(cfg, boots=v3hist.rand_time(rng), time=v3hist.rand_time(rng))
        self.anon = msg.Cfg("v3", user="", engine_id=b"")

    def handler(self, d):
        cfg = self.cfg
        try:
            req, env = msg.parse_outer(d)
            anon = self.discover and not req.engine_id
            msg.parse_inner(req, env, self.anon if anon else cfg)
        except Malformed:
            return []
        ag = self.agent
        ag.boots, ag.time = v3hist.rand_time(self.rng), v3hist.rand_time(self.rng)
        if anon:
            return [ag.report(req, secure=False)]
        if not req.oids:
            return [ag.report(req, oid=v3hist.TIME_OID, secure=True)]
        return [ag.reply(req, [msg.vb((*req.oids[0], 1), values.rand_value(self.rng, "int")[1])])]

    def judge(self, ctx, log, client):
        for d in log:
            req = outer(ctx, d, self.cfg)
            anon = self.discover and not req.engine_id
            cfg = self.anon if anon else self.cfg
            judge(ctx, req, cfg, lambda why, **kw: ctx.fail(why, cfg=repr(cfg), client=client, **kw), client)


def plan(rng):
    return [(rng.choice(("get", "get_many", "getnext", "getbulk", "refresh")), text(values.rand_arcs(rng, 2, 20))) for _ in range(rng.randint(1, 4))]


def k_sync(ctx, rng, i):
    cfg = common.make_cfg(V3[i % len(V3)], rng)
    srv = Srv(rng, cfg, rng.random() < 0.6)
    ta = common.thread_agent(ctx)
    ta.use(srv.handler)
    s = cfg.session(SyncSession, ta.port, discover=srv.discover, timeout=10.0)
    o = outcome(s.refresh) if srv.discover or rng.random() < 0.5 else None
    if o is None or not isinstance(o.exc, TimeoutError):
        for op, oid in plan(rng):
            f = getattr(s, op)
            if op == "refresh":
                o = outcome(f)
            elif op in ("get", "get_many"):
                o = outcome(f, oid if op == "get" else [oid])
            else:
                o = outcome(lambda: next(iter(f(oid))))
            if isinstance(o.exc, TimeoutError):
                break
    ta.check()
    srv.judge(ctx, ta.log, "sync")
    ctx.evals(len(ta.log) - 1)


def k_async(ctx, rng, i):
    cfg = common.make_cfg(V3[i % len(V3)], rng)
    srv = Srv(rng, cfg, rng.random() < 0.6)

    async def main():
        ag = AsyncAgent(srv.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, discover=srv.discover, timeout=10.0)
            o = await aoutcome(s.refresh()) if srv.discover or rng.random() < 0.5 else None
            if o is None or not isinstance(o.exc, TimeoutError):
                for op, oid in plan(rng):
                    f = getattr(s, op)
                    if op == "refresh":
                        o = await aoutcome(f())
                    elif op in ("get", "get_many"):
                        o = await aoutcome(f(oid if op == "get" else [oid]))
                    else:
                        o = await aoutcome(f(oid).__anext__())
                    if isinstance(o.exc, TimeoutError):
                        break
            ag.check()
            return ag.log
        finally:
            ag.close()

    log = common.aio(ctx).run(main())
    srv.judge(ctx, log, "async")
    ctx.evals(len(log) - 1)


# -- long sessions


class M(marathon.Hooks):
    def sent(self, m, req, op, oids, mr):
        judge(m.ctx, req, m.cfg, m.fail, f"long {op}")


def k_marathon(ctx, rng, i):
    marathon.run(ctx, rng, V3[i % len(V3)], M(), 70_000 if i % len(V3) == 1 or ctx.tier == "thorough" else rng.choice((600, 5000)))


def k_several(ctx, rng, i):
    """Sessions of one process must not share anything."""
    v3hist.run_many(ctx, rng, V3, H, rng.randint(8, 40))


KINDS = {
    "history": Kind(k_history, 14_000, 400_000),
    "sizes": Kind(k_sizes, 6_000, 200_000),
    "sync": Kind(k_sync, 2_000, 60_000),
    "async": Kind(k_async, 2_000, 60_000),
    "marathon": Kind(k_marathon, 14, 70),
    "several": Kind(k_several, 1500, 60000),
}

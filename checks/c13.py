"""C13: engine discovery and time sync follow the agent."""

from __future__ import annotations

import itertools

from lib import common, expect, marathon, msg, v3hist, values
from lib.ber import Malformed, text
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SyncSession
from lib.msg import Cfg
from lib.net import AsyncAgent, aoutcome, is_panic, outcome
from lib.v3hist import NOT_ACCEPTED, TIME_OID, rand_time

PROP = "C13"
KTS = ("password", "master", "localized")
# every combination of digest, cipher and key types
COMBOS = [("v3", None, None)]
for _a in ("md5", "sha1"):
    COMBOS += [(f"v3-{_a}", k, None) for k in KTS]
    for _p in ("des", "aes"):
        COMBOS += [(f"v3-{_a}-{_p}", k, q) for k, q in itertools.product(KTS, KTS)]
EID_LEN = range(5, 33)
V3S = v3hist.V3


def combo_cfg(rng, i) -> Cfg:
    name, ak, pk = COMBOS[i % len(COMBOS)]
    n = EID_LEN[(i // len(COMBOS)) % len(EID_LEN)]
    # also octets which look like TLVs, zeros, the high bit
    eid = rng.choice((rng.randbytes(n), rng.randbytes(n), common.edged(rng, n), bytes(n), b"\xff" * n, b"\x04\x82" * 16, b"\x80\x00\x1f\x88\x04" + b"x" * 27))[:n]
    c = common.make_cfg(name, rng, None, eid)
    for side, kt in (("auth", ak), ("priv", pk)):
        if kt:
            setattr(c, f"{side}_kt", kt)
            setattr(c, f"{side}_secret", rng.choice(common.PASSWORDS) if kt == "password" else common.rand_key(rng, msg.crypto.KEY_SIZE[c.auth]))
    return c


def judge(ctx, req, env, cfg, eid, header, fail, where):
    """Message of the session which knows the engine."""
    d = req.raw.hex()
    if req.engine_id != eid:
        fail(f"engine id {req.engine_id.hex()} instead of {eid.hex()}", datagram=d)
    if header is not None and (req.boots, req.time) != header:
        fail(f"engine boots/time {req.boots}/{req.time}, the most recent accepted message has {header[0]}/{header[1]}", datagram=d)
    if req.user != cfg.user.encode():
        fail(f"user {req.user!r} instead of {cfg.user!r}", datagram=d)
    why = msg.has_auth_error(req, cfg, eid)
    if why:
        fail(f"keys are not localized to the engine: {why}", datagram=d)
    if cfg.priv:
        try:
            r2, e2 = msg.parse_outer(req.raw)
            msg.parse_inner(r2, e2, priv=(cfg.priv, cfg.priv_key(eid)))
        except Malformed as e:
            fail(f"privacy key is not localized to the engine: {e}", datagram=d)
        if r2.ctx_engine != eid:
            fail(f"context engine id {r2.ctx_engine.hex()} instead of {eid.hex()}", datagram=d)
    elif req.ctx_engine != eid:
        fail(f"context engine id {req.ctx_engine.hex()} instead of {eid.hex()}", datagram=d)
    ctx.count("headers judged")
    ctx.count(f"{where} {cfg.name}")
    if header:
        ctx.sig(where, cfg.name, cfg.auth_kt, cfg.priv_kt if cfg.priv else "", len(eid), header[0].bit_length(), header[1].bit_length())


class H(v3hist.Hooks):
    def on_sent(self, h, req, op, oids, mr):
        eid, boots, time = h.header
        if not eid:
            return  # nothing is known yet
        if req.inner is not None and not h.cur.priv:
            h.fail(f"malformed: {req.inner}", datagram=req.raw.hex())
        judge(h.ctx, req, None, h.cur, eid, (boots, time), h.fail, f"ll discover={h.discover}")
        h.ctx.sample({"cfg": repr(h.cur), "discover": h.discover, "header": [eid.hex(), boots, time], "script": h.script[-3:]})

    def on_rejected(self, h, op, oids, o):
        if h.header[0] and not is_panic(o):
            h.fail(f"a request which fits is refused: {o!r}", op=op)


def k_history(ctx, rng, i):
    """Agents which change boots/time in every reply, between everything else."""
    cfg = combo_cfg(rng, i)
    h = v3hist.Hist(ctx, rng, cfg.name, H(), discover=rng.random() < 0.5, cfg=cfg)
    h.run(rng.randint(4, 24))
    ctx.evals(max(h.emitted - 1, 0))


def k_times(ctx, rng, i):
    """Long run of replies: every width of boots and time on every width."""
    cfg = combo_cfg(rng, i)
    h = v3hist.Hist(ctx, rng, cfg.name, H(), discover=False, cfg=cfg)
    try:
        for _ in range(20):
            h.send("get", (1, 3, 6, 1), [])
            h.agent.boots = rng.getrandbits(31) >> rng.randint(0, 31)
            h.agent.time = rng.getrandbits(31) >> rng.randint(0, 31)
            save = h.agent.boots, h.agent.time
            h.new_time = lambda p=0: None
            h.genuine()
            if (h.agent.boots, h.agent.time) != save:
                raise RuntimeError
    except v3hist.Stop as e:
        ctx.count(f"history stopped: {e}")
    finally:
        h.close()
    ctx.evals(h.emitted - 1)


# -- sessions of the API


class Srv:
    """One agent identity; remembers what it has sent in answer to each request."""

    def __init__(self, ctx, rng, cfg, discover, lossy):
        self.ctx, self.rng, self.cfg, self.discover = ctx, rng, cfg, discover
        self.agent = msg.Agent(cfg, boots=rand_time(rng), time=rand_time(rng))
        self.anon = Cfg("v3", user="", engine_id=b"")
        self.lossy = lossy
        self.log = []  # (datagram, header of the answer or None)
        self.op = "get"

    def handler(self, d):
        rng, ag, cfg = self.rng, self.agent, self.cfg
        entry = [d, None]
        self.log.append(entry)
        try:
            req, env = msg.parse_outer(d)
            anon = not req.engine_id
            msg.parse_inner(req, env, self.anon if anon and not req.flags else cfg)
        except Malformed:
            return []
        out = []
        # strangers with other boots/time
        for _ in range(rng.choice((0, 0, 1, 2))):
            b, t = rand_time(rng), rand_time(rng)
            k = rng.randrange(4)
            vb = [msg.vb((1, 3, 6, 1, 9), msg.enc_int(7))]
            kw = {"boots": b, "time": t}
            if k == 0:
                out.append(ag.reply(req, vb, msg_id=req.msg_id ^ 1, **kw))
            elif k == 1:
                out.append(ag.reply(req, vb, req_id=req.req_id ^ 1, **kw))
            elif k == 2:
                out.append(ag.reply(req, vb, user=req.user + b"x", **kw))
            elif anon:
                out.append(ag.report(req, msg_id=req.msg_id ^ 1, engine_id=rng.randbytes(9), **kw))
            else:
                out.append(ag.reply(req, vb, engine_id=rng.randbytes(len(ag.engine_id)), **kw))
        if rng.random() < 0.8:
            ag.boots, ag.time = rand_time(rng), rand_time(rng)
        if rng.random() < self.lossy:
            return out
        if anon:
            out.append(ag.report(req, secure=False, **common.rand_ctx(rng, req, ag.engine_id)))
        elif not req.oids:
            k = rng.randrange(3)
            if k == 0:
                out.append(ag.reply(req, []))
            else:
                out.append(ag.report(req, oid=TIME_OID, secure=True, **common.rand_ctx(rng, req, ag.engine_id)))
        elif rng.random() < 0.1:
            out.append(ag.report(req, oid=TIME_OID, secure=True, **common.rand_ctx(rng, req, ag.engine_id)))
        else:
            out.append(ag.reply(req, [msg.vb((*req.oids[0], 1), values.rand_value(rng, "int")[1])]))
        entry[1] = (ag.boots, ag.time)
        if rng.random() < 0.2:
            out.append(out[-1])  # duplicate
        return out

    def judge(self, client, calls):
        """calls: outcome per request in the log."""
        ctx = self.ctx
        header = (0, 0) if not self.discover else None
        known = not self.discover
        for n, ((d, answer), o) in enumerate(zip(self.log, calls)):
            def fail(why, **kw):
                ctx.fail(
                    why, cfg=repr(self.cfg), client=client, discover=self.discover, message=n,
                    log=[(a.hex(), b, x if isinstance(x, str) else repr(x)) for (a, b), x in zip(self.log, calls)], **kw,
                )  # fmt: skip

            try:
                req, env = msg.parse_outer(d)
                req.inner = None
                try:
                    msg.parse_inner(req, env, self.cfg)
                except Malformed as e:
                    req.inner = str(e)
            except Malformed as e:
                fail(f"malformed: {e}")
            if known:
                if req.inner is not None and not self.cfg.priv:
                    fail(f"malformed: {req.inner}", datagram=d.hex())
                # what a session without messages stamps is not specified
                judge(ctx, req, env, self.cfg, self.agent.engine_id, header if n else None, fail, f"{client} discover={self.discover}")
            if answer is not None and (o == "ok" or not isinstance(o.exc, (*NOT_ACCEPTED, TimeoutError))):
                header = answer
                known = True

    # The reports end a call with SnmpAuthError, which is an accepted message


def plan(rng):
    return [(rng.choice(("get", "get_many", "getnext", "getbulk", "refresh")), text(values.rand_arcs(rng, 2, 12))) for _ in range(rng.randint(1, 6))]


def align(srv, calls, n0, o):
    """Attribute the messages of one call to its outcome: all but the last one of a
    successful (or failed) call were answered in an accepted way."""
    new = len(srv.log) - n0
    for k in range(new):
        calls.append("ok" if k < new - 1 else o)


def setup_case(ctx, rng, i):
    cfg = combo_cfg(rng, i)
    lossy = 0.15 if rng.random() < 0.1 else 0.0
    return cfg, Srv(ctx, rng, cfg, rng.random() < 0.5, lossy), 0.15 if lossy else 3.0


def k_sync(ctx, rng, i):
    cfg, srv, timeout = setup_case(ctx, rng, i)
    ta = common.thread_agent(ctx)
    ta.use(srv.handler)
    s = cfg.session(SyncSession, ta.port, discover=srv.discover, timeout=timeout)
    calls: list = []
    ready = not srv.discover
    steps = [("enter" if rng.random() < 0.5 else "refresh", "")] if srv.discover or rng.random() < 0.5 else []
    steps += plan(rng)
    for op, oid in steps:
        if not ready:
            op = "refresh" if op != "enter" else op
        n0 = len(srv.log)
        if op == "enter":
            o = outcome(s.__enter__)
        elif op == "refresh":
            o = outcome(s.refresh)
        elif op in ("get", "get_many"):
            o = outcome(getattr(s, op), oid if op == "get" else [oid])
        else:
            o = outcome(lambda: next(iter(getattr(s, op)(oid))))
        ta.check()
        if is_panic(o):
            raise Inconclusive("panic")
        align(srv, calls, n0, o)
        if not ready and o.ok:
            ready = True
            if s.get_engine_id() != cfg.engine_id:
                ctx.fail(f"engine id {s.get_engine_id().hex()} is learned instead of {cfg.engine_id.hex()}", cfg=repr(cfg), client="sync")
        # refresh is needed by discovery only when keys were not set
        ready = ready or len(srv.log) and srv.log[-1][1] is not None and not srv.discover
        ctx.count(f"sync {op}: {o.kind if not o.ok else 'ok'}")
        if srv.discover and not ready and not isinstance(o.exc, TimeoutError):
            ctx.fail(f"discovery ends with {o!r}", cfg=repr(cfg), client="sync")
    srv.judge("sync", calls)
    ctx.evals(len(srv.log) - 1)


def k_async(ctx, rng, i):
    cfg, srv, timeout = setup_case(ctx, rng, i)

    async def main():
        ag = AsyncAgent(srv.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, discover=srv.discover, timeout=timeout)
            calls: list = []
            ready = not srv.discover
            steps = [("enter" if rng.random() < 0.5 else "refresh", "")] if srv.discover or rng.random() < 0.5 else []
            steps += plan(rng)
            for op, oid in steps:
                if not ready:
                    op = "refresh" if op != "enter" else op
                n0 = len(srv.log)
                if op == "enter":
                    o = await aoutcome(s.__aenter__())
                elif op == "refresh":
                    o = await aoutcome(s.refresh())
                elif op in ("get", "get_many"):
                    o = await aoutcome(getattr(s, op)(oid if op == "get" else [oid]))
                else:
                    o = await aoutcome(getattr(s, op)(oid).__anext__())
                ag.check()
                if is_panic(o):
                    raise Inconclusive("panic")
                align(srv, calls, n0, o)
                if not ready and o.ok:
                    ready = True
                    if s.get_engine_id() != cfg.engine_id:
                        ctx.fail(f"engine id {s.get_engine_id().hex()} is learned instead of {cfg.engine_id.hex()}", cfg=repr(cfg), client="async")
                ctx.count(f"async {op}: {o.kind if not o.ok else 'ok'}")
                if srv.discover and not ready and not isinstance(o.exc, TimeoutError):
                    ctx.fail(f"discovery ends with {o!r}", cfg=repr(cfg), client="async")
            return calls
        finally:
            ag.close()

    calls = common.aio(ctx).run(main())
    srv.judge("async", calls)
    ctx.evals(len(srv.log) - 1)


# -- long sessions


class M(marathon.Hooks):
    def sent(self, m, req, op, oids, mr):
        judge(m.ctx, req, None, m.cfg, m.cfg.engine_id, m.header if m.n_recv else None, m.fail, "long")


def k_marathon(ctx, rng, i):
    marathon.run(ctx, rng, V3S[i % len(V3S)], M(), 70_000 if ctx.tier == "thorough" else rng.choice((600, 3000)))


__all__ = ["expect"]

N = 2 * len(COMBOS)
def k_several(ctx, rng, i):
    """Sessions of one process must not share anything."""
    v3hist.run_many(ctx, rng, V3S, H, rng.randint(8, 40))


KINDS = {
    "history": Kind(k_history, 140 * N, 4_000 * N),
    "times": Kind(k_times, 14 * N, 400 * N),
    "sync": Kind(k_sync, 30 * N, 1_000 * N),
    "async": Kind(k_async, 30 * N, 1_000 * N),
    "marathon": Kind(k_marathon, 14, 70),
    "several": Kind(k_several, 1500, 60000),
}

"""C14: privacy salts never repeat and nothing confidential goes in clear."""

from __future__ import annotations

from lib import common, msg, v3hist, values
from lib.ber import Malformed, oid_content, text
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SyncSession
from lib.msg import Cfg
from lib.net import AsyncAgent, Link, aoutcome, is_panic, outcome

PROP = "C14"
PRIV = [n for n in v3hist.V3 if n.count("-") == 2]
W = 8  # run of octets which cannot match by chance


class Salts:
    """Online monitor of one key installation."""

    def __init__(self):
        self.seen = set()
        self.last = None
        self.failed = 0  # sends refused since the last message: each may take a salt
        self.n = 0
        self.start = None
        self.wraps = 0

    def feed(self, cfg, salt, boots, fail):
        if len(salt) != 8:
            fail(f"msgPrivacyParameters has {len(salt)} octets")
        if salt in self.seen:
            fail(f"salt {salt.hex()} is used again after {self.n} messages")
        self.seen.add(salt)
        if cfg.priv == "des":
            if salt[:4] != boots.to_bytes(4, "big"):
                fail(f"DES salt {salt.hex()} does not begin with engine boots {boots}")
            c, mod = int.from_bytes(salt[4:], "big"), 1 << 32
        else:
            c, mod = int.from_bytes(salt, "big"), 1 << 64
        if self.last is not None:
            step = (c - self.last) % mod
            if not 1 <= step <= 1 + self.failed:
                fail(f"the counter goes from {self.last:#x} to {c:#x} ({self.failed} refused sends in between)")
            if c < self.last:
                self.wraps += 1
        self.last = c
        self.failed = 0
        self.n += 1


def windows(b: bytes, w: int = W):
    return {b[i : i + w] for i in range(len(b) - w + 1)}


def in_clear(raw, req, oids, cfg, fail):
    """Runs of the scoped PDU outside of the ciphertext, or the ciphertext which is not."""
    for o in oids:
        c = oid_content(o)
        if len(c) >= W and c in raw:
            fail(f"OID {text(o)} is seen in the message")
    eid = req.engine_id
    # msgAuthoritativeEngineID is in clear by design: exactly once
    if len(eid) >= W and len(set(eid)) > 3 and v3hist.occurrences(raw, eid) != 1:
        fail("context engine id is seen in the message")


def judge(ctx, req, cfg, oids, salts: Salts, fail0, where, deep=True):
    raw = req.raw

    def fail(why):
        fail0(why, datagram=raw.hex()[:4000], flags=req.flags, salt=req.priv_params.hex(), boots=req.boots)

    if not req.flags & msg.F_PRIV:
        fail(f"priv flag is not set (flags {req.flags:#x})")
    try:
        env = msg.parse_outer(raw)[1]
        enc = env.octets()
        env.done()
    except Malformed as e:
        fail(f"msgData is not an OCTET STRING: {e}")
    salts.feed(cfg, req.priv_params, req.boots, fail)
    in_clear(raw, req, oids, cfg, fail)
    if deep and req.inner is None:
        # any run of the plaintext in what must be the ciphertext (the fields of the
        # header may coincide with it by value, so only OIDs and engine id count there)
        hit = [x for x in windows(req.scoped) & windows(enc) if len(set(x)) > 1]
        head = raw[: len(raw) - len(enc)]
        if req.engine_id:
            head = head.replace(req.engine_id, b"", 1)
        for o in oids:
            hit += [x for x in windows(oid_content(o)) & windows(head) if len(set(x)) > 3]
        if hit:
            fail(f"octets {hit[0].hex()} of the scoped PDU are seen in the message")
        ctx.count("messages searched for plaintext")
    if len(set(enc)) < min(4, len(enc) // 8):
        fail("msgData is not a ciphertext")
    ctx.count("salts judged")
    ctx.count(f"{where} {cfg.name}")


class H(v3hist.Hooks):
    def __init__(self):
        self.salts = Salts()
        self.all: set = set()  # of the session

    def on_install(self, h):
        if self.salts.n:
            h.ctx.sig(h.name, h.cur.name, min(self.salts.n, 50))
        self.salts = Salts()

    def on_refused(self, h):
        self.salts.failed += 1

    def on_rejected(self, h, op, oids, o):
        self.salts.failed += 1

    def on_sent(self, h, req, op, oids, mr):
        if not h.cur.priv:
            return
        judge(h.ctx, req, h.cur, oids, self.salts, h.fail, f"ll {op}")
        if req.priv_params in self.all:
            h.fail(f"salt {req.priv_params.hex()} was used before the keys were installed again", datagram=req.raw.hex())
        self.all.add(req.priv_params)
        h.ctx.sig(h.cur.name, op, len(req.raw), req.boots.bit_length(), self.salts.n > 1)
        h.ctx.sample({"cfg": repr(h.cur), "op": op, "salt": req.priv_params.hex(), "boots": req.boots, "n": self.salts.n})


def k_history(ctx, rng, i):
    v3hist.run(ctx, rng, PRIV[i % len(PRIV)], H(), rng.randint(6, 40), discover=rng.random() < 0.3)


def k_reinstall(ctx, rng, i):
    """Keys (the same or others) are installed again and again, engine boots stay."""
    x = H()
    h = v3hist.Hist(ctx, rng, PRIV[i % len(PRIV)], x)
    same = h.cfg
    try:
        for _ in range(rng.randint(2, 5)):
            for _ in range(rng.randint(1, 8)):
                h.send(rng.choice(("get", "getnext", "refresh")))
            if rng.random() < 0.2:
                h.refused()
            if rng.random() < 0.7:
                h.install(same)
            else:
                h.rekey(rng.choice(PRIV))
        h.send("get")
    except v3hist.Stop as e:
        ctx.count(f"history stopped: {e}")
    finally:
        h.close()
    ctx.count("sessions with several installations")
    ctx.evals(len(x.all) - 1)


# -- long sequences


def k_long(ctx, rng, i):
    """Up to 10^5 messages under one installation."""
    name = PRIV[i % len(PRIV)]
    cfg = common.make_cfg(name, rng, "localized", rng.randbytes(12))
    link = Link(cfg)
    ag = msg.Agent(cfg)
    salts = Salts()
    n = 200_000 if ctx.tier == "thorough" else 70_000
    oids = [(1, 3, 6, 1, 4, 1, 9, 9, *(rng.getrandbits(20) for _ in range(6))) for _ in range(16)]
    bulk = [common.it(o, 10) for o in oids]
    nxt = [common.it(o) for o in oids]
    try:
        for k in range(n):
            j = rng.randrange(16)
            x = rng.random()
            if x < 0.4:
                a, op = (link.sock.send_get, text(oids[j])), "get"
            elif x < 0.6:
                a, op = (link.sock.send_get_many, [text(oids[j])]), "get_many"
            elif x < 0.75:
                a, op = (link.sock.send_get_next, nxt[j]), "getnext"
            elif x < 0.9:
                a, op = (link.sock.send_get_bulk, bulk[j]), "getbulk"
            elif x < 0.98:
                a, op = (link.sock.send_refresh,), "refresh"
            elif x < 0.981:
                if not link.unreachable((link.sock.send_get, text(oids[j])), (link.sock.recv_get,), rng.random() < 0.5):
                    raise Inconclusive("the network does not report")
                salts.failed += 2
                ctx.count("unreachable agents")
                continue
            else:
                o, _ = link.request(link.sock.send_get, "1.3.bad")
                salts.failed += 1
                continue
            o, d = link.request(*a)
            if not o.ok:
                if is_panic(o):
                    raise Inconclusive("panic")
                salts.failed += 1
                continue
            try:
                req, env = msg.parse_outer(d)
            except Malformed as e:
                ctx.fail(f"malformed: {e}", datagram=d.hex())
            req.inner = "not parsed"
            judge(ctx, req, cfg, [oids[j]] if op != "refresh" else [], salts, lambda why, **kw: ctx.fail(why, cfg=repr(cfg), message=k, **kw), "long run", deep=False)
            if op in ("get", "refresh") and rng.random() < 0.002:
                # a reply: boots change
                msg.parse_inner(req, msg.parse_outer(d)[1], cfg)
                ag.boots, ag.time = v3hist.rand_time(rng), v3hist.rand_time(rng)
                link.feed(ag.reply(req, [msg.vb((1, 3), msg.enc_int(1))]))
                link.recv(*common.RECV(link.sock, op))
                ctx.count("replies in long runs")
    finally:
        link.close()
    ctx.evals(salts.n - 1)
    ctx.sig("long", name, salts.n)
    ctx.count("long runs")


# -- the counter over its end (det: the random source of the library is replaced)


def k_wrap(ctx, rng, i):
    import _shim

    name = PRIV[i % len(PRIV)]
    cfg = common.make_cfg(name, rng, "localized", rng.randbytes(12))
    link = Link(Cfg("v3", user="u", engine_id=cfg.engine_id))
    salts = Salts()
    back = rng.randint(0, 40)
    full = 32 if cfg.priv == "des" else 64
    start = rng.choice(((1 << full) - 1 - back, (1 << 64) - 1 - back, (1 << 16) - back, (1 << 8) - 1 - (back & 127), (1 << 24) - back, (1 << 31) - back, (1 << 32) - back, (1 << 48) - back, (1 << 63) - back, 0))
    _shim.clear()
    _shim.seed(rng.getrandbits(64))
    for _ in range(4):
        # whoever of the installation asks for it
        _shim.push(start & 0xFFFFFFFFFFFFFFFF)
    o = outcome(link.sock.set_keys, cfg.user, cfg.auth_code, cfg.auth_secret, cfg.priv_code, cfg.priv_secret)
    _shim.clear()
    if not o.ok:
        raise Inconclusive("set_keys")
    try:
        for k in range(90):
            oid = (1, 3, 6, 1, 4, 1, 9, 9, *(rng.getrandbits(20) for _ in range(4)))
            o, d = link.request(link.sock.send_get, text(oid))
            if not o.ok:
                if is_panic(o):
                    ctx.fail(f"sending after {k} messages ends with a crash: {o!r}", cfg=repr(cfg), start=start)
                ctx.fail(f"sending after {k} messages is refused: {o!r}", cfg=repr(cfg), start=start)
            try:
                req, env = msg.parse_outer(d)
            except Malformed as e:
                ctx.fail(f"malformed: {e}", datagram=d.hex())
            req.inner = "not parsed"
            judge(ctx, req, cfg, [oid], salts, lambda why, **kw: ctx.fail(why, cfg=repr(cfg), message=k, start=start, **kw), "near a boundary", deep=False)
    finally:
        link.close()
    ctx.evals(89)
    ctx.count("counters which have wrapped", salts.wraps)
    ctx.sig("wrap", name, start.bit_length(), back)


# -- sessions


class Srv:
    def __init__(self, rng, cfg, discover):
        self.rng, self.cfg, self.discover = rng, cfg, discover
        self.agent = msg.Agent(cfg, boots=v3hist.rand_time(rng), time=v3hist.rand_time(rng))
        self.log = []

    def handler(self, d):
        rng, ag = self.rng, self.agent
        req, env = msg.parse_outer(d)
        if self.discover and not req.engine_id:
            msg.parse_inner(req, env)
            return [ag.report(req, secure=False)]
        self.log.append(d)
        try:
            msg.parse_inner(req, env, self.cfg)
        except Malformed:
            return []
        if rng.random() < 0.5:
            ag.boots, ag.time = v3hist.rand_time(rng), v3hist.rand_time(rng)
        if rng.random() < 0.1:
            return []  # lost
        if not req.oids:
            return [ag.report(req, oid=v3hist.TIME_OID, secure=True)]
        return [ag.reply(req, [msg.vb((*req.oids[0], 1), values.rand_value(rng, "int")[1])])]


def plan(rng):
    return [(rng.choice(("get", "get_many", "getnext", "getbulk", "fetch", "refresh", "bad")), (1, 3, 6, 1, 4, 1, 9, 9, *(rng.getrandbits(20) for _ in range(4)))) for _ in range(rng.randint(2, 8))]


def check_log(ctx, srv, asked, client):
    salts = Salts()
    # refused calls may take a salt each
    salts.failed = 10
    for d in srv.log:
        try:
            req, env = msg.parse_outer(d)
        except Malformed as e:
            ctx.fail(f"malformed: {e}", datagram=d.hex(), client=client)
        req.inner = None
        try:
            msg.parse_inner(req, env, srv.cfg)
        except Malformed as e:
            req.inner = str(e)
        judge(ctx, req, srv.cfg, asked, salts, lambda why, **kw: ctx.fail(why, cfg=repr(srv.cfg), client=client, **kw), client)
        salts.failed = sum(1 for _ in asked)
    ctx.evals(len(srv.log) - 1)


def k_sync(ctx, rng, i):
    cfg = common.make_cfg(PRIV[i % len(PRIV)], rng)
    srv = Srv(rng, cfg, rng.random() < 0.5)
    ta = common.thread_agent(ctx)
    ta.use(srv.handler)
    s = cfg.session(SyncSession, ta.port, discover=srv.discover, timeout=0.02)
    if srv.discover:
        for _ in range(5):
            if outcome(s.refresh).ok:
                break
        else:
            raise Inconclusive("discovery")
    steps = plan(rng)
    for op, oid in steps:
        if op == "refresh":
            outcome(s.refresh)
        elif op == "bad":
            outcome(s.get, "1.3.bad")
        elif op in ("get", "get_many"):
            outcome(getattr(s, op), text(oid) if op == "get" else [text(oid)])
        else:
            outcome(lambda: next(iter(getattr(s, op)(text(oid)))))
    ta.check()
    check_log(ctx, srv, [o for _, o in steps], "sync")
    ctx.sig("sync", cfg.name, tuple(op for op, _ in steps))


def k_async(ctx, rng, i):
    cfg = common.make_cfg(PRIV[i % len(PRIV)], rng)
    srv = Srv(rng, cfg, rng.random() < 0.5)
    steps = plan(rng)

    async def main():
        ag = AsyncAgent(srv.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, discover=srv.discover, timeout=0.02)
            if srv.discover:
                for _ in range(5):
                    if (await aoutcome(s.refresh())).ok:
                        break
                else:
                    raise Inconclusive("discovery")
            for op, oid in steps:
                if op == "refresh":
                    await aoutcome(s.refresh())
                elif op == "bad":
                    await aoutcome(s.get("1.3.bad"))
                elif op in ("get", "get_many"):
                    await aoutcome(getattr(s, op)(text(oid) if op == "get" else [text(oid)]))
                else:
                    await aoutcome(getattr(s, op)(text(oid)).__anext__())
            ag.check()
        finally:
            ag.close()

    common.aio(ctx).run(main())
    check_log(ctx, srv, [o for _, o in steps], "async")
    ctx.sig("async", cfg.name, tuple(op for op, _ in steps))


def k_several(ctx, rng, i):
    """Sessions of one process must not share anything."""
    v3hist.run_many(ctx, rng, PRIV, H, rng.randint(8, 40))


KINDS = {
    "history": Kind(k_history, 9_000, 250_000),
    "reinstall": Kind(k_reinstall, 1_200, 40_000),
    "long": Kind(k_long, 8, 64),
    "sync": Kind(k_sync, 1_200, 40_000),
    "async": Kind(k_async, 1_200, 40_000),
    "wrap": Kind(k_wrap, 1_500, 40_000, variant="det"),
    "several": Kind(k_several, 1500, 60000),
}

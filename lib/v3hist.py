"""Random histories of v3 sessions on the low level: discovery, key installations,
requests of every type and size, refused requests, genuine replies, reports, and traffic
which must not be accepted. Monitors are attached as hooks."""

from __future__ import annotations

from . import common, msg, net, values
from .ber import Malformed, Reader, enc_int, oid_content, text
from .host import SnmpDecodeError
from .msg import Agent, Cfg

OPS = ("get", "get_many", "getnext", "getbulk", "refresh")
V3 = [n for n in common.ALL_CFG if n.startswith("v3")]
TIMES = (0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**23 - 1, 2**23, 2**24, 2**31 - 2, 2**31 - 1)
MAXREP = (0, 1, 10, 127, 128, 65535, 2**31 - 1)
NOT_ACCEPTED = (BlockingIOError, SnmpDecodeError)
TIME_OID = (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0)


class Stop(Exception):
    """The history cannot be continued (for a reason the monitor does not judge)."""


def rand_time(rng) -> int:
    return rng.choice(TIMES) if rng.random() < 0.6 else rng.getrandbits(rng.randint(1, 31))


def cfg_user(rng):
    x = rng.random()
    if x < 0.08:
        # resembles other parts of the message
        return rng.choice(("\0" * 12, "\x04\x0c" + "\0" * 12, "\x04\x08" + "\0" * 8, "0", "\0", "0\0" * 16, "A" * 12))
    if x < 0.6:
        return rng.choice(("user", "a", "admin-user-with-a-long-name", "юзер", "u" * 32))
    if x < 0.8:
        return "n" * rng.randint(1, 32)
    return "l" * rng.choice((64, 90, 100, 110, 127, 128, 200, 255, 256, 300))


class Hooks:
    def on_sent(self, h, req, op, oids, mr):
        """Emitted message."""

    def on_reply(self, h, op, vbs, o):
        """Outcome of the genuine reply."""

    def on_install(self, h):
        """Keys are installed."""

    def on_refused(self, h):
        """Send of a bad request is refused."""

    def on_rejected(self, h, op, oids, o):
        """Send of a good request is refused."""


class Hist:
    def __init__(self, ctx, rng, name, hooks, discover=False, kt=None, engine_id=None, long_user=True, cfg=None):
        self.ctx, self.rng, self.name, self.hooks = ctx, rng, name, hooks
        self.cfg = cfg or common.make_cfg(name, rng, kt, engine_id)
        if cfg is None and long_user:
            self.cfg.user = cfg_user(rng)
        self.eid = self.cfg.engine_id
        self.discover = discover
        self.cur = Cfg("v3", user="", engine_id=b"") if discover else self.cfg
        self.link = net.Link(self.cur)
        self.header = (self.cur.engine_id, 0, 0)
        self.agent = Agent(self.cfg, self.eid, rand_time(rng), rand_time(rng))
        self.pending = None
        self.old: list = []
        self.script: list[str] = []
        self.emitted = 0
        self.replies = 0
        self.mac_cache = None
        hooks.on_install(self)

    @property
    def sock(self):
        return self.link.sock

    def info(self):
        return {"cfg": repr(self.cfg), "installed": repr(self.cur), "discover": self.discover, "script": self.script[-30:]}

    def fail(self, why, **kw):
        self.ctx.fail(why, **kw, **self.info())

    def close(self):
        self.link.close()

    # -- emitting
    def _emit(self, op, oids, mr, it):
        arg = text(oids[0]) if op == "get" else [text(o) for o in oids]
        o, d = self.link.request(*common.SEND(self.sock, op, arg, it))
        if not o.ok:
            self.script.append(f"send {op} n={len(oids)} -> {o!r}")
            self.hooks.on_rejected(self, op, oids, o)
            return o, None
        if d is None:
            self.fail("nothing is sent", op=op)
        try:
            req, env = msg.parse_outer(d)
        except Malformed as e:
            self.fail(f"the datagram on the wire is malformed: {e}", op=op, datagram=d.hex())
        try:
            msg.parse_inner(req, env, self.cur)
            req.inner = None
        except Malformed as e:
            req.inner = str(e)
        self.script.append(f"send {op} n={len(oids)} {len(d)} octets")
        self.emitted += 1
        self.hooks.on_sent(self, req, op, oids, mr)
        if req.inner is not None:
            raise Stop("inner part is unreadable")
        return o, req

    def send(self, op=None, base=None, vbs=None, size=None):
        """A request which fits. size: wanted total of OID octets (get_many)."""
        from checks.c02 import gen

        rng = self.rng
        op = op or rng.choice(OPS)
        mr = it = None
        if vbs is None:
            base, vbs = gen(rng, op, nmax=12) if op != "refresh" else (None, [])
        if op == "refresh":
            oids = []
        elif op == "get_many" and size:
            oids, total = [], 0
            while True:
                a = values.rand_arcs(rng, 2, 30)
                n = len(oid_content(a)) + 12
                if total + n > size:
                    break
                oids.append(a)
                total += n
        elif op == "get_many":
            oids = [values.rand_arcs(rng, 2, 20) for _ in range(rng.choice((0, 1, 2, 5)))]
        else:
            oids = [base]
            if op == "get" and rng.random() < 0.3:
                oids = [values.rand_arcs(rng, 2, 100, 0.5)]
        if op == "getnext":
            it = common.it(oids[0])
        elif op == "getbulk":
            mr = rng.choice(MAXREP)
            it = common.it(oids[0], mr)
        o, req = self._emit(op, oids, mr, it)
        if req is None:
            return None
        if self.pending:
            self.old.append(self.pending[1])
            del self.old[:-4]
        self.pending = (op, req, it, vbs)
        return req

    def refused(self):
        """A request which cannot be encoded."""
        rng = self.rng
        k = rng.randrange(3)
        if k == 0:
            o = self.link.request(self.sock.send_get, rng.choice(("", "1", "1.3.bad", "3.1.2", "1.3.6.4294967296")))
        elif k == 1:
            o = self.link.request(self.sock.send_get_many, ["1.3.6", "1.x"])
        else:
            # overflows in the middle of serialization (of the private buffer, too)
            oids, total, need = [], 0, rng.choice((4081, 6000, 10000))
            while total < need:
                oids.append(values.rand_arcs(rng, 60, 60, 1.0))
                total += len(oid_content(oids[-1]))
            o = self.link.request(self.sock.send_get_many, [text(a) for a in oids])
        if o[0].ok:
            raise Stop("bad request is not refused")  # C03, C17
        self.script.append(f"refused {k} -> {o[0].kind}")
        self.ctx.count("refused sends")
        self.hooks.on_refused(self)

    def unreachable(self):
        """The agent's port is unreachable: two requests (or one) are lost."""
        late = self.rng.random() < 0.5
        if not self.link.unreachable((self.sock.send_get, text(values.rand_arcs(self.rng, 2, 20))), (self.sock.recv_get,), late):
            raise Stop("the network does not report")
        self.script.append(f"unreachable, reported by {'send' if late else 'recv'}")
        self.ctx.count("unreachable agents")
        self.pending = None
        for _ in range(2):
            self.hooks.on_refused(self)

    # -- receiving
    def feed_recv(self, d, what, blocks):
        """Feed the datagram, receive with the pending operation."""
        op, req, it, vbs = self.pending
        self.link.feed(d)
        if op in ("getnext", "getbulk") and it is None:
            it = common.it((1, 3, 6), 10)
        o = self.link.recv(*common.RECV(self.sock, op, it), blocks=blocks)
        if net.is_panic(o):
            raise Stop("panic")
        acc = not isinstance(o.exc, NOT_ACCEPTED)
        self.script.append(f"{what} boots/time {self.agent.boots}/{self.agent.time} -> {o!r:.60} {'accepted' if acc else 'not accepted'}")
        return o, acc

    def new_time(self, p=0.7):
        if self.rng.random() < p:
            self.agent.boots = rand_time(self.rng)
        if self.rng.random() < p:
            self.agent.time = rand_time(self.rng)

    def genuine(self, **kw):
        """Genuine reply with (probably) new boots and time."""
        if self.pending is None:
            return
        op, req, it, vbs = self.pending
        rng = self.rng
        self.new_time()
        vb = [b for *_, b in vbs]
        if op == "get" and rng.random() < 0.05:
            vb = [msg.vb(vbs[0][0] if vbs else (1, 3), values.NO_SUCH_OBJECT.tlv)]
            vbs = None
        f = values.form(rng)
        d = self.agent.reply(req, vb, f=f, **kw)
        if f > 4 and len(d) > 4000:  # must fit the buffer of the client
            d = self.agent.reply(req, vb, f=4, **kw)
        o, acc = self.feed_recv(d, "genuine reply", False)
        self.ctx.count("genuine replies")
        if vbs is not None:
            self.hooks.on_reply(self, op, vbs, o)
        if not acc:
            raise Stop("genuine reply is not accepted")
        self.replies += 1
        self.header = (self.header[0] or self.eid, self.agent.boots, self.agent.time)
        self.pending = None

    def report(self, secure):
        """Report which matches; whether it is accepted is judged by the outcome."""
        if self.pending is None:
            return
        op, req, it, vbs = self.pending
        self.new_time()
        o, acc = self.feed_recv(self.agent.report(req, oid=TIME_OID, secure=secure, **common.rand_ctx(self.rng, req, self.eid)), f"report secure={secure}", not secure)
        self.ctx.count(f"reports secure={secure} {'accepted' if acc else 'skipped'}")
        if acc:
            self.header = (self.header[0] or self.eid, self.agent.boots, self.agent.time)
            self.pending = None

    def noise(self):
        """Traffic which is not to be accepted, carries other boots/time."""
        if self.pending is None:
            return
        rng = self.rng
        op, req, it, vbs = self.pending
        save = self.agent.boots, self.agent.time
        self.new_time(1.0)
        k = rng.choice(("user", "msg_id", "req_id", "engine", "mac", "noauth", "garbage", "old", "report_msg_id", "truncated"))
        vb = [msg.vb((1, 3, 6, 1, 9), enc_int(7))]
        ag = self.agent
        auth = bool(self.cur.auth)
        if k == "user":
            d = ag.reply(req, vb, user=rng.choice((b"", b"other", req.user + b"x")) if req.user else b"other")
        elif k == "msg_id":
            d = ag.reply(req, vb, msg_id=(req.msg_id + rng.choice((1, -1, 256, 1 << 20))) & 0x7FFFFFFF)
        elif k == "report_msg_id":
            d = ag.report(req, msg_id=(req.msg_id ^ 1) & 0x7FFFFFFF)
        elif k == "req_id":
            d = ag.reply(req, vb, req_id=(req.req_id + rng.choice((1, -1, 256, 1 << 20))) & 0x7FFFFFFF)
        elif k == "engine" and self.header[0]:
            d = ag.reply(req, vb, engine_id=rng.choice((b"", self.eid[:-1], self.eid + b"\0", rng.randbytes(len(self.eid)))))
        elif k == "mac" and auth:
            d = ag.reply(req, vb, mac=rng.choice((rng.randbytes(12), bytes(12))))
        elif k == "noauth" and auth:
            d = ag.reply(req, vb, secure=False)
        elif k == "old" and self.old:
            d = ag.reply(rng.choice(self.old), vb)
        elif k == "truncated":
            d = ag.reply(req, vb)
            d = d[: rng.randrange(len(d))]
        else:
            d = rng.choice((rng.randbytes(rng.choice((1, 20, 500, 4080))), b"\xff" * 4080, b"\x30" * 100))
        o, acc = self.feed_recv(d, f"noise {k}", True)
        self.ctx.count(f"noise {k} {'ACCEPTED' if acc else 'not accepted'}")
        if acc:
            # not judged here (C04, C10), but the header follows what is accepted
            raise Stop("noise is accepted")
        ag.boots, ag.time = save

    # -- discovery and keys
    def run_discovery(self):
        rng = self.rng
        self.send("refresh")
        for _ in range(rng.choice((0, 0, 1, 2))):
            self.noise()
            if rng.random() < 0.5:
                self.send("refresh")
        self.new_time(1.0)
        op, req, it, vbs = self.pending
        o, acc = self.feed_recv(self.agent.report(req, secure=False, **common.rand_ctx(rng, req, self.eid)), "discovery report", False)
        if not acc:
            self.fail(f"the agent's first Report is not accepted: {o!r}")
        self.header = (self.eid, self.agent.boots, self.agent.time)
        self.pending = None
        got = self.sock.get_engine_id()
        if got != self.eid:
            self.fail(f"engine id {got.hex()} is learned instead of {self.eid.hex()}")
        self.install(self.cfg)
        self.ctx.count("discoveries")

    def install(self, cfg):
        self.sock.set_keys(
            cfg.user,
            cfg.auth_code,
            cfg.auth_secret if cfg.auth else b"",
            cfg.priv_code,
            cfg.priv_secret if cfg.priv else b"",
        )
        self.cfg = self.cur = cfg
        self.agent.cfg = cfg
        self.pending = None
        self.old = []
        self.script.append(f"set_keys {cfg!r}")
        self.ctx.count("set_keys")
        self.hooks.on_install(self)

    def rekey(self, name=None):
        c = common.make_cfg(name or self.rng.choice(V3), self.rng, None, self.eid)
        c.user = cfg_user(self.rng)
        self.install(c)

    # -- the whole
    def step(self):
        rng = self.rng
        x = rng.random()
        if x < 0.42 or self.pending is None and x < 0.8:
            big = rng.random()
            if big < 0.04:
                self.send("get_many", size=rng.randint(500, 3600))
            else:
                self.send()
        elif x < 0.70:
            self.genuine()
        elif x < 0.82:
            self.noise()
        elif x < 0.88:
            self.report(rng.random() < 0.6)
        elif x < 0.94:
            self.refused()
        elif x < 0.95:
            self.unreachable()
        elif x < 0.965:
            self.rekey()
        else:
            self.big_reply()

    def big_reply(self):
        """Leaves a lot in the pooled and private buffers."""
        if self.pending is None or self.pending[0] not in ("get", "get_many"):
            return
        op, req, it, _ = self.pending
        n = self.rng.randint(200, 3500)
        b = self.rng.randbytes(n)
        a = (1, 3, 6, 1, 2)
        t = msg.tlv(4, b)
        self.pending = (op, req, it, [(a, "octets", t, b, msg.vb(a, t))])
        self.genuine()

    def run(self, steps):
        try:
            if self.discover:
                self.run_discovery()
            for _ in range(steps):
                self.step()
        except Stop as e:
            self.ctx.count(f"history stopped: {e}")
        finally:
            self.close()


def run(ctx, rng, name, hooks, steps, **kw):
    h = Hist(ctx, rng, name, hooks, **kw)
    h.run(steps)
    ctx.evals(max(h.emitted - 1, 0))
    return h


def siblings(rng, names, n):
    """Configurations of n sessions of one process, which have something in common."""
    first = common.make_cfg(rng.choice(names), rng)
    out = [first]
    for _ in range(n - 1):
        c = common.make_cfg(first.name if rng.random() < 0.5 else rng.choice(names), rng, None, first.engine_id if rng.random() < 0.5 else None)
        if rng.random() < 0.6:
            c.user = first.user
        for side in ("auth", "priv"):
            kt, sec = getattr(first, f"{side}_kt", None), getattr(first, f"{side}_secret", b"")
            if rng.random() < 0.6 and c.auth and first.auth and sec and (kt == "password" or c.auth == first.auth):
                setattr(c, f"{side}_kt", kt)
                setattr(c, f"{side}_secret", sec)
        out.append(c)
    return out


def run_many(ctx, rng, names, hooks, steps, discover=0.4):
    """Several sessions of one process take their turns."""
    cs = siblings(rng, names, rng.randint(2, 4))
    hs = []
    try:
        for c in cs:
            hs.append(Hist(ctx, rng, c.name, hooks(), discover=rng.random() < discover, cfg=c))
        for h in hs:
            if h.discover:
                h.run_discovery()
        for _ in range(steps):
            h = rng.choice(hs)
            for _ in range(rng.choice((1, 1, 2))):
                h.step()
    except Stop as e:
        ctx.count(f"history stopped: {e}")
    finally:
        for h in hs:
            h.close()
    ctx.evals(max(sum(h.emitted for h in hs) - 1, 0))
    ctx.count("sessions which take turns in one process")
    ctx.sig("several", tuple(c.name for c in cs), tuple(c.engine_id == cs[0].engine_id for c in cs), tuple(c.user == cs[0].user for c in cs))


def occurrences(hay: bytes, needle: bytes) -> int:
    n = i = 0
    while (i := hay.find(needle, i)) >= 0:
        n += 1
        i += 1
    return n


__all__ = ["Hist", "Hooks", "Stop", "run", "Reader"]

"""Tens of thousands of request/reply cycles in one session: what depends on how many
messages the session has seen. Monitors are attached as hooks, everything is replayed by
the seed of the case."""

from __future__ import annotations

import random

from . import common, msg, net, values
from .ber import Malformed, enc_int, text

OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk", "refresh")}
STRANGERS = ("stale", "req_id", "garbage", "user")
STRANGERS3 = ("mac", "noauth", "msg_id", "engine")


class Hooks:
    def sent(self, m, req, op, oids, mr):
        """Emitted message."""

    def refused(self, m, op, o):
        """A request which fits is refused."""

    def lost(self, m):
        """Requests to the unreachable agent."""

    def malformed(self, m, op, d, e):
        """The datagram on the wire is malformed (or is not decrypted)."""

    def delivered(self, m, op, token, o):
        """Outcome after the genuine reply."""

    def stranger(self, m, k, o, d):
        """Outcome after traffic which is not to be accepted."""


class Marathon:
    def __init__(self, ctx, rng: random.Random, name: str, hooks, cycles: int):
        self.ctx, self.rng, self.hooks, self.cycles = ctx, rng, hooks, cycles
        self.cfg = common.make_cfg(name, rng, "localized" if name.startswith("v3") else None)
        self.rig = common.Rig(self.cfg)
        self.header = (0, 0)
        self.k = 0
        self.n_sent = self.n_recv = self.n_stranger = 0
        # a session of this sort may see mostly one kind of traffic
        self.p_answer = rng.choice((1.0, 0.97, 0.9, 0.5))
        self.p_stranger = rng.choice((0.0, 0.05, 0.3))
        self.p_dead = rng.choice((0.0, 0.002, 0.03))
        self.n_dead = 0
        self.p_time = rng.choice((0.0, 0.01, 0.5))
        self.ops = rng.choice((("get",), ("get", "getnext"), OPS[self.cfg.version], OPS[self.cfg.version]))

    def fail(self, why, **kw):
        self.ctx.fail(f"cycle {self.k} of the session: {why}", cfg=repr(self.cfg), cycle=self.k, sent=self.n_sent, received=self.n_recv, strangers=self.n_stranger, **kw)

    def run(self):
        try:
            self._run()
        finally:
            self.rig.link.close()
        c = self.ctx
        c.evals(self.n_sent + self.n_recv + self.n_stranger - 1)
        c.count("long sessions")
        c.count("messages sent in long sessions", self.n_sent)
        c.count("replies received in long sessions", self.n_recv)
        c.count("strangers in long sessions", self.n_stranger)
        c.count("requests to the unreachable port in long sessions", self.n_dead)
        c.sig("marathon", self.cfg.name, self.p_answer, self.p_stranger, self.p_time, self.ops)

    def _run(self):
        rng, r, cfg, hooks = self.rng, self.rig, self.cfg, self.hooks
        link, ag, sock = r.link, r.agent, r.sock
        pool = []
        for _ in range(64):
            a = values.rand_arcs(rng, 2, 12)
            pool.append((a, text(a)))
        v3 = cfg.version == "v3"
        strangers = STRANGERS + ((STRANGERS3 if cfg.auth else STRANGERS3[2:]) if v3 else ())
        prev = None
        for self.k in range(self.cycles):
            if self.k & 255 == 0:
                self.ctx.beat()
            op = rng.choice(self.ops)
            a, t = rng.choice(pool)
            if rng.random() < self.p_dead:
                self.n_dead += 1
                if not link.unreachable((sock.send_get, t), (sock.recv_get,), rng.random() < 0.5):
                    raise Lost("the network does not report")
                hooks.lost(self)
            oids, mr, it = [a], None, None
            if op == "refresh":
                oids = []
            elif op == "get_many":
                oids = [a, rng.choice(pool)[0]]
            elif op == "getnext":
                it = common.it(t)
            elif op == "getbulk":
                mr = rng.randint(1, 60)
                it = common.it(t, mr)
            o, d = link.request(*common.SEND(sock, op, t if op == "get" else [text(x) for x in oids], it))
            if not o.ok or d is None:
                hooks.refused(self, op, o)
                raise Lost(f"a request is refused: {o.kind}")
            self.n_sent += 1
            try:
                req = msg.parse_request(d, cfg)
            except Malformed as e:
                hooks.malformed(self, op, d, e)
                raise Lost(f"the datagram is malformed: {e}")
            hooks.sent(self, req, op, oids, mr)
            if v3 and rng.random() < self.p_time:
                ag.boots = rng.getrandbits(31) >> rng.randint(0, 31)
                ag.time = rng.getrandbits(31) >> rng.randint(0, 31)
            if rng.random() < self.p_stranger:
                self._stranger(rng.choice(strangers), req, prev, op, it)
            if rng.random() < self.p_answer:
                token = 1000 + self.k
                vbs = [] if op == "refresh" else [msg.vb((*oids[0], 1 + self.k), enc_int(token))]
                link.feed(ag.reply(req, vbs))
                o = r.recv(op, it)
                self.n_recv += 1
                hooks.delivered(self, op, token, o)
                if not o.ok:
                    raise Lost(f"genuine reply is not delivered: {o.kind}")
                self.header = (ag.boots, ag.time)
            prev = req

    def _stranger(self, k, req, prev, op, it):
        ag, rng = self.rig.agent, self.rng
        vb = [msg.vb((1, 3, 6, 1, 9), enc_int(7))]
        save = ag.boots, ag.time
        if self.cfg.version == "v3":
            ag.boots, ag.time = rng.getrandbits(31), rng.getrandbits(31)
        x = rng.choice((1, -1, 1 << 8, 1 << 16, 1 << 24, 1 << 30))
        if k == "stale" and prev is not None:
            d = ag.reply(prev, vb)
        elif k == "msg_id":
            d = ag.reply(req, vb, msg_id=(req.msg_id + x) & 0x7FFFFFFF)
        elif k == "user":
            d = ag.reply(req, vb, **({"user": req.user + b"x"} if self.cfg.version == "v3" else {"community": self.cfg.community.encode() + b"x"}))
        elif k == "engine":
            d = ag.reply(req, vb, engine_id=req.engine_id + b"x")
        elif k == "mac":
            d = ag.reply(req, vb, mac=rng.randbytes(12))
        elif k == "noauth":
            d = ag.reply(req, vb, secure=False)
        elif k == "garbage":
            d = ag.reply(req, vb)
            d = d[: rng.randrange(len(d))]
        else:
            d = ag.reply(req, vb, req_id=(req.req_id + x) & 0x7FFFFFFF)
        ag.boots, ag.time = save
        self.rig.link.feed(d)
        o = self.rig.recv(op, it, blocks=True)
        self.n_stranger += 1
        self.hooks.stranger(self, k, o, d)


class Lost(Exception):
    """The session cannot be continued; not what the monitor judges."""


def run(ctx, rng, name, hooks, cycles):
    m = Marathon(ctx, rng, name, hooks, cycles)
    try:
        m.run()
    except Lost as e:
        ctx.count(f"long session stopped: {e}")
    return m


__all__ = ["Hooks", "Lost", "Marathon", "run"]

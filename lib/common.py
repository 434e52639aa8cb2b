"""Shared pieces of the drivers."""

from __future__ import annotations

from . import crypto, host, msg, net
from .ber import text
from .msg import Agent, Cfg

V3_SEC = [(None, None), ("md5", None), ("sha1", None), ("md5", "des"), ("md5", "aes"), ("sha1", "des"), ("sha1", "aes")]
ALL_CFG = ["v1", "v2c"] + ["v3" + (f"-{a}" if a else "") + (f"-{p}" if p else "") for a, p in V3_SEC]


def rand_engine(rng) -> bytes:
    """Engine ids: random, and the ones which resemble other parts of the message."""
    n = rng.choice((5, 8, 11, 12, 17, 32))
    x = rng.random()
    if x < 0.74:
        return rng.randbytes(n)
    if x < 0.8:
        return edged(rng, n)
    if x < 0.88:
        # holds the placeholder of msgAuthenticationParameters
        z = rng.choice((b"", b"\x04\x0c")) + bytes(rng.choice((12, 12, 13, 16)))
        return (rng.randbytes(rng.randint(0, 9)) + z + rng.randbytes(rng.randint(0, 9)))[:32]
    if x < 0.92:
        return rng.choice((b"\xff", b"\x00", b"\x80", b"0")) * n
    if x < 0.96:
        # enterprise number, format, text
        return b"\x80\x00\x1f\x88\x04" + rng.choice((b"router", b"user", b"public\0", "юзер".encode()))
    return rng.choice((b"\x04\x00", b"\x30\x00", b"\x02\x01\x00", b"\x30\x82\x00\x10")) + rng.randbytes(n - 1 if n > 28 else n)


def edged(rng, n: int) -> bytes:
    """Octets which look padded: with zeros, spaces and so on at either end."""
    w = rng.choice((b"\0", b"\0", b"\0", b" ", b"\xff", b"\n", b"0", b"\x80"))
    b = rng.randbytes(n)
    k = rng.randint(1, max(1, n - 1))
    x = rng.random()
    if x < 0.4:
        return w * k + b[k:]
    if x < 0.8:
        return b[: n - k] + w * k
    if x < 0.9:
        return (w + b[1:-1] + w)[:n]
    k = rng.randrange(n)
    return b[:k] + w + b[k + 1 :]


def rand_key(rng, n: int) -> bytes:
    """Keys: random, and the ones which look like a key which is not set, a padding, a pad of HMAC."""
    x = rng.random()
    if x < 0.9:
        return rng.randbytes(n)
    if x < 0.97:
        return bytes((rng.choice((0, 0, 0, 0xFF, 0x36, 0x5C, 1, 0x80, 0x20, 0x30)),)) * n
    k = rng.randrange(1, n)
    return rng.choice((bytes(k) + rng.randbytes(n - k), rng.randbytes(n - k) + bytes(k), rng.randbytes(k) * 2))[:n].ljust(n, b"\1")


def rand_ctx(rng, req, eid: bytes) -> dict:
    """contextEngineID and contextName of a Report: nothing depends on them."""
    x = rng.random()
    if x < 0.75:
        return {}
    return {
        "ctx": rng.choice((b"", getattr(req, "ctx_engine", b""), rand_engine(rng), eid[:-1], eid + b"\0", eid[::-1])),
        "ctx_name": rng.choice((b"", b"", b"ctx", rng.randbytes(32))),
    }


def rand_name(rng, limit: int = 32) -> str:
    """Community or user name: any text is sent as it is."""
    x = rng.random()
    n = rng.randint(1, limit)
    if x < 0.35:
        # Blanks, line ends and other octets someone may wish to strip or split by
        w = rng.choice((" ", "\t", "\n", "\r\n", "\0", "  ", "\u00a0", "\ufeff", "/", "@", ":", ",", '"', "'", "%s", "\\x41", "#"))
        s = "".join(rng.choice("abcXYZ019_-") for _ in range(rng.randint(0, limit - 8)))
        k = rng.randint(0, len(s))
        return rng.choice((s + w, w + s, w + s + w, s[:k] + w + s[k:]))
    if x < 0.6:
        return "".join(chr(rng.randint(0, 127)) for _ in range(n))
    if x < 0.8:
        return "".join(rng.choice("aбß中😀\u0301 A") for _ in range(max(1, n // 4)))
    return rng.choice(("PUBLIC", "Public", "ADMIN", "Ünï", "0", "None", "default", "a" * limit)).ljust(1)


def make_cfg(name: str, rng, kt: str | None = None, engine_id: bytes | None = None) -> Cfg:
    """Random configuration of the named security level."""
    p = name.split("-")
    if p[0] != "v3":
        return quirks(Cfg(p[0], community=rng.choice(("public", "private", "", "c" * 40, "pu blic", "ключ")) if rng.random() < 0.75 else rand_name(rng, 60)), rng)
    auth = p[1] if len(p) > 1 else None
    priv = p[2] if len(p) > 2 else None
    if engine_id is None:
        engine_id = rand_engine(rng)
    c = Cfg("v3", user=rng.choice(("user", "a", "admin-user-with-a-long-name", "юзер")) if rng.random() < 0.8 else rand_name(rng), auth=auth, priv=priv, engine_id=engine_id)
    if auth:
        n = crypto.KEY_SIZE[auth]
        for side in ("auth", "priv"):
            k = kt or rng.choice(("master", "localized", "localized", "password"))
            setattr(c, f"{side}_kt", k)
            setattr(c, f"{side}_secret", rng.choice(PASSWORDS) if k == "password" else rand_key(rng, n))
    return quirks(c, rng)


def quirks(c: Cfg, rng) -> Cfg:
    """Ways to create the session which must not matter."""
    if rng.random() < 0.25:
        c.extra["tos"] = rng.choice((8, 16, 0x28, 184))
    if rng.random() < 0.15:
        c.extra["send_buffer"] = rng.choice((65536, 1 << 20, 1 << 28))
    if rng.random() < 0.15:
        c.extra["recv_buffer"] = rng.choice((65536, 1 << 20, 1 << 28))
    c.v6 = rng.random() < 0.2
    c.explicit = rng.random() < 0.6
    return c


PASSWORDS = (b"maplesyrup", b"x", b"12345678", b"a longer pass phrase, with spaces", b"\xd0\xba\xd0\xbb\xd1\x8e\xd1\x87")


class Rig:
    """Low level link + well-behaved agent for one configuration."""

    def __init__(self, cfg: Cfg):
        self.cfg = cfg
        self.link = net.Link(cfg)
        self.agent = Agent(cfg, boots=3, time=1234)

    @property
    def sock(self):
        return self.link.sock

    def send(self, op: str, arg, it=None):
        """Issue request. Returns outcome, parsed request (strict)."""
        o, d = self.link.request(*SEND(self.sock, op, arg, it))
        if not o.ok:
            return o, None
        return o, msg.parse_request(d, self.cfg)

    def recv(self, op: str, it=None, blocks: bool = False):
        return self.link.recv(*RECV(self.sock, op, it), blocks=blocks)


def SEND(sock, op, arg, it=None):
    if op == "get":
        return sock.send_get, arg
    if op == "get_many":
        return sock.send_get_many, arg
    if op == "getnext":
        return sock.send_get_next, it
    if op == "getbulk":
        return sock.send_get_bulk, it
    if op == "refresh":
        return (sock.send_refresh,)
    raise ValueError(op)


def RECV(sock, op, it=None):
    if op == "get":
        return (sock.recv_get,)
    if op == "get_many":
        return (sock.recv_get_many,)
    if op == "getnext":
        return sock.recv_get_next, it
    if op == "getbulk":
        # v1 sockets have no bulk
        return sock.recv_get_bulk, it
    if op == "refresh":
        return (sock.recv_refresh,)
    raise ValueError(op)


def rig(ctx, name: str, rng, fresh: float = 0.02) -> Rig:
    """Cached rig; sometimes replaced by a fresh one."""
    key = ("rig", name)
    r = ctx.cache.get(key)
    if r is None or rng.random() < fresh or r.link.drain() > 0:
        if r is not None:
            r.link.close()
        r = Rig(make_cfg(name, rng))
        ctx.cache[key] = r
    r.link.peer.drain()
    return r


def drop_rig(ctx, name: str) -> None:
    r = ctx.cache.pop(("rig", name), None)
    if r is not None:
        r.link.close()


def thread_agent(ctx) -> net.ThreadAgent:
    a = ctx.cache.get("tagent")
    if a is None:
        a = ctx.cache["tagent"] = net.ThreadAgent(lambda d: ())
    return a


def aio(ctx) -> net.AsyncHost:
    a = ctx.cache.get("aio")
    if a is None:
        a = ctx.cache["aio"] = net.AsyncHost()
    return a


def v3_handler(cfg: Cfg, agent: Agent, fn):
    """Agent which performs discovery and time sync and calls fn(req) for the rest."""

    def handler(d: bytes):
        req = msg.parse_request(d, cfg)
        if cfg.version == "v3" and (req.engine_id != agent.engine_id or not req.oids):
            return [discovery(cfg, agent, req)]
        return fn(req)

    return handler


def discovery(cfg: Cfg, agent: Agent, req) -> bytes:
    """Answer to the probe: usmStatsUnknownEngineIDs or usmStatsNotInTimeWindows."""
    if req.engine_id != agent.engine_id:
        return agent.report(req, secure=False)
    return agent.report(req, oid=(1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), secure=bool(req.flags & 1), priv_alg=cfg.priv, encrypt=bool(req.flags & 2)) if not (req.flags & 2) else agent.report(req, oid=(1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), secure=True)


def it(oid, maxrep=None):
    o = oid if isinstance(oid, str) else text(oid)
    return host.fast.GetIter(o) if maxrep is None else host.fast.GetIter(o, maxrep)

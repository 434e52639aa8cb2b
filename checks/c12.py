"""C12: USM keys are derived exactly as RFC 3414 A.2 prescribes."""

from __future__ import annotations

import hashlib

from lib import common, crypto, host, msg, v3hist
from lib.ber import Malformed, text
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SyncSession
from lib.msg import Cfg
from lib.net import AsyncAgent, Link, Peer, aoutcome, is_panic, outcome

PROP = "C12"
MB = 1 << 20
ALGS = (("md5", 1, 16), ("sha1", 2, 20))
HASH = {"md5": hashlib.md5, "sha1": hashlib.sha1}
OID = "1.3.6.1.2.1.1.1.0"


# -- the oracle, written from the text of A.2
def master(alg, password: bytes) -> bytes:
    h = HASH[alg]()
    reps, rem = divmod(MB, len(password))
    step = max(1, 65536 // len(password))
    big = password * step
    while reps >= step:
        h.update(big)
        reps -= step
    h.update(password * reps)
    h.update(password[:rem])
    return h.digest()


def local(alg, key: bytes, engine_id: bytes) -> bytes:
    return HASH[alg](key + engine_id + key).digest()


def key_classes():
    from gufo.snmp.user import Md5Key, Sha1Key

    return {"md5": Md5Key, "sha1": Sha1Key}


def rand_password(rng, n):
    k = rng.random()
    if k < 0.06:
        # The same ones again and again: other digest, other caller
        return rng.choice(common.PASSWORDS)
    if k < 0.5:
        return rng.randbytes(n)
    if k < 0.6:
        return bytes(n)
    if k < 0.8:
        return bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyz0123456789 ") for _ in range(min(n, 64))) * (n // 64 + 1) if n > 64 else b"maplesyrup!" * 8
    return (rng.randbytes(min(n, 300)) * (n // min(n, 300) + 1))[:n]


SPECIAL = sorted(
    {1 << k for k in range(21)}
    | {(1 << k) + d for k in range(2, 21) for d in (-1, 1)}
    | {3 << k for k in range(19)}
    | {MB - 2, MB - 1, MB, MB + 1, MB + 2, MB + 63, MB + 64, MB + 65, 2 * MB - 1, 2 * MB, 2 * MB + 1, MB // 2 + 1, MB // 3, MB // 3 + 1, 55, 56, 63, 64, 65, 119, 120, 1000, 10_000, 100_000, 999_999}
)


def length(rng, i):
    if i < 512:
        return i // 2 + 1
    i -= 512
    if i < 2 * len(SPECIAL):
        return SPECIAL[i // 2]
    return int(2 ** (rng.random() * 20.2)) or 1


def check_master(ctx, alg, code, size, p, via):
    o = outcome(host.fast.get_master_key, code, p) if via == "fast" else outcome(key_classes()[alg].get_master_key, p)
    if not o.ok:
        ctx.fail(f"get_master_key is refused: {o!r}", alg=alg, via=via, length=len(p), password=p[:200])
    want = master(alg, p)
    if type(o.value) is not bytes or o.value != want:
        ctx.fail("master key differs", alg=alg, via=via, length=len(p), password=p[:200], got=o.value, wanted=want)
    return want


def k_master(ctx, rng, i):
    alg, code, size = ALGS[i & 1]
    n = length(rng, i)
    p = rand_password(rng, n)
    m = check_master(ctx, alg, code, size, p, rng.choice(("fast", "class")))
    ctx.count("master keys compared")
    ctx.count("password " + ("divides 2^20" if MB % len(p) == 0 else "longer than 2^20" if len(p) > MB else "does not divide 2^20"))
    ctx.sig("master", alg, len(p))
    ctx.sample({"alg": alg, "password length": len(p), "master": m.hex()})


def k_localize(ctx, rng, i):
    """Every engine id length, many contents."""
    fn = host.fast.get_localized_key
    for n in range(33):
        for alg, code, size in ALGS:
            m = rng.choice((rng.randbytes(size), bytes(size), b"\xff" * size, rng.randbytes(size)))
            e = rng.choice((rng.randbytes(n), common.edged(rng, n), bytes(n), (b"\x80\0\x1f\x88\x80" * 7)[:n])) if n else b""
            o = outcome(fn, code, m, e) if rng.random() < 0.7 else outcome(key_classes()[alg].get_localized_key, m, e)
            if not o.ok:
                ctx.fail(f"get_localized_key is refused: {o!r}", alg=alg, master=m, engine_id=e)
            if type(o.value) is not bytes or o.value != local(alg, m, e):
                ctx.fail("localized key differs", alg=alg, master=m, engine_id=e, got=o.value, wanted=local(alg, m, e))
            ctx.sig("localized", alg, n, m[0], e[:1])
    # longer ones are legal octet strings, too
    for n in (rng.randint(33, 300), rng.choice((63, 64, 65, 127, 128, 1000, 5000))):
        alg, code, size = rng.choice(ALGS)
        m, e = rng.randbytes(size), rng.randbytes(n)
        o = outcome(fn, code, m, e)
        if not o.ok or o.value != local(alg, m, e):
            ctx.fail(f"localized key differs: {o!r}", alg=alg, master=m, engine_id=e, wanted=local(alg, m, e))
    ctx.evals(2 * 33 + 1)
    ctx.count("localized keys compared", 68)


# -- what the session uses


def keys_of(cfg: Cfg):
    """Expected keys, by the local oracle (not by lib.crypto's cache)."""

    def key(kt, secret):
        if kt == "password":
            return local(cfg.auth, master(cfg.auth, secret), cfg.engine_id)
        if kt == "master":
            return local(cfg.auth, secret, cfg.engine_id)
        return secret

    return key(cfg.auth_kt, cfg.auth_secret), key(cfg.priv_kt, cfg.priv_secret) if cfg.priv else None


def check_emitted(ctx, d, cfg, ak, pk, what):
    try:
        req, env = msg.parse_outer(d)
    except Malformed as e:
        ctx.fail(f"the datagram on the wire is malformed: {e}", cfg=repr(cfg), datagram=d.hex())
    if not msg.mac_ok(req, cfg.auth, ak):
        ctx.fail(f"{what}: the message is not authenticated by the derived key", cfg=repr(cfg), auth_key=ak, datagram=d.hex())
    if cfg.priv:
        try:
            msg.parse_inner(req, env, priv=(cfg.priv, pk))
        except Malformed as e:
            ctx.fail(f"{what}: the message does not decrypt under the derived key: {e}", cfg=repr(cfg), priv_key=pk, datagram=d.hex())
    ctx.count(f"{what}: {cfg.name}")
    return req


def rand_cfg(rng, i):
    auth = ("md5", "sha1")[i & 1]
    priv = (None, "des", "aes")[(i >> 1) % 3]
    size = crypto.KEY_SIZE[auth]
    n = (i // 6) % 33
    again = rng.random() < 0.15
    eid = rng.choice((b"\x80\0\0\0\1again", b"\x80\0\0\0\1agais", b"")) if again else common.edged(rng, n) if n and rng.random() < 0.25 else rng.randbytes(n)
    c = Cfg("v3", user="user", auth=auth, priv=priv, engine_id=eid)
    kts = ("password", "master", "localized")
    for side, kt in (("auth", kts[(i // 2) % 3] if rng.random() < 0.7 else rng.choice(kts)), ("priv", rng.choice(kts))):
        setattr(c, f"{side}_kt", kt)
        if kt == "password":
            x = rng.random()
            p = rng.randbytes(int(2 ** (rng.random() * 12)) or 1) if x < 0.9 else rng.randbytes(rng.choice((MB - 1, MB, MB + 1, MB // 2, 65537)))
            if rng.random() < 0.3:
                p = "пароль".encode()[: rng.randint(1, 12)]
            if again:
                # The same secrets meet both digests and other engines
                p = rng.choice(common.PASSWORDS)
            setattr(c, f"{side}_secret", p)
        else:
            setattr(c, f"{side}_secret", b"the same old key...."[:size] if again else rng.choice((rng.randbytes(size), rng.randbytes(size), bytes(size), b"\xff" * size)))
    return c


def peer(ctx):
    p = ctx.cache.get("peer")
    if p is None:
        p = ctx.cache["peer"] = Peer()
    return p


def k_session(ctx, rng, i):
    """Low level: keys given to the constructor, or installed with set_keys."""
    cfg = rand_cfg(rng, i)
    ak, pk = keys_of(cfg)
    p = peer(ctx)
    p.drain()
    how = rng.choice(("constructor", "set_keys", "set_keys after other keys"))
    start = cfg
    if how == "set_keys":
        start = Cfg("v3", user="", engine_id=cfg.engine_id)
    elif how != "constructor":
        start = common.make_cfg(rng.choice(v3hist.V3), rng, "localized", cfg.engine_id)
    link = Link(start, p)
    if how != "constructor":
        if rng.random() < 0.5:
            link.request(link.sock.send_get, OID)
        o = outcome(link.sock.set_keys, cfg.user, cfg.auth_code, cfg.auth_secret, cfg.priv_code, cfg.priv_secret if cfg.priv else b"")
        if not o.ok:
            ctx.fail(f"proper keys are refused: {o!r}", cfg=repr(cfg))
    for _ in range(2):
        o, d = link.request(link.sock.send_get, OID)
        if not o.ok or d is None:
            raise Inconclusive(f"request is refused: {o.kind}")
        req = check_emitted(ctx, d, cfg, ak, pk, how)
    # and the key which verifies and decrypts what comes back
    if cfg.engine_id:
        m = {"msg_id": req.msg_id, "flags": 3 if cfg.priv else 1, "engine_id": cfg.engine_id, "boots": 3, "time": 5, "user": b"user", "auth_alg": cfg.auth, "auth_key": ak}
        if cfg.priv:
            m.update(priv_alg=cfg.priv, priv_key=pk, salt=rng.randbytes(8), encrypt=True)
        else:
            msg.parse_inner(req, msg.parse_outer(d)[1])
        sp = msg.scoped_pdu(msg.pdu(msg.RESPONSE, req.req_id, [msg.vb((1, 3, 6, 1, 2, 1, 1, 1, 0), msg.enc_int(4321))]), cfg.engine_id)
        link.feed(msg.v3_msg(sp, **m))
        o = link.recv(link.sock.recv_get)
        if is_panic(o):
            raise Inconclusive("panic")
        if not o.ok or o.value != 4321:
            ctx.fail(f"reply under the derived keys is not delivered: {o!r}", cfg=repr(cfg), how=how, auth_key=ak, priv_key=pk)
        ctx.count("replies under the derived keys")
    ctx.sig("session", how, cfg.name, cfg.auth_kt, cfg.priv_kt, len(cfg.engine_id), min(len(cfg.auth_secret), 5000))
    ctx.sample({"cfg": repr(cfg)[:400], "how": how})
    ctx.evals(1)
    link.close()


# -- sessions of the API


def k_sync(ctx, rng, i):
    cfg = rand_cfg(rng, i)
    if not cfg.engine_id:
        cfg.engine_id = b"\x80\0\0\0\1"
    ak, pk = keys_of(cfg)
    discover = rng.random() < 0.5
    ta = common.thread_agent(ctx)
    seen = []
    ag = msg.Agent(cfg, boots=1, time=2)

    def h(d):
        req, env = msg.parse_outer(d)
        if discover and not req.engine_id:
            msg.parse_inner(req, env)
            return [ag.report(req, secure=False)]
        seen.append(d)
        return []

    ta.use(h)
    s = cfg.session(SyncSession, ta.port, discover=discover, timeout=0.03)
    outcome(s.refresh) if discover or rng.random() < 0.3 else outcome(s.get, OID)
    ta.check()
    if not seen:
        raise Inconclusive("nothing was sent")
    for d in seen:
        check_emitted(ctx, d, cfg, ak, pk, f"sync session discover={discover}")
    ctx.sig("sync", cfg.name, cfg.auth_kt, cfg.priv_kt, discover, len(cfg.engine_id))


def k_async(ctx, rng, i):
    cfg = rand_cfg(rng, i)
    if not cfg.engine_id:
        cfg.engine_id = b"\x80\0\0\0\1"
    ak, pk = keys_of(cfg)
    discover = rng.random() < 0.5
    seen = []
    ag = msg.Agent(cfg, boots=1, time=2)

    def h(d):
        req, env = msg.parse_outer(d)
        if discover and not req.engine_id:
            msg.parse_inner(req, env)
            return [ag.report(req, secure=False)]
        seen.append(d)
        return []

    async def main():
        a = AsyncAgent(h)
        try:
            s = cfg.session(AsyncSession, a.port, discover=discover, timeout=0.03)
            await aoutcome(s.refresh() if discover or rng.random() < 0.3 else s.get(OID))
            a._ready()
            a.check()
        finally:
            a.close()

    common.aio(ctx).run(main())
    if not seen:
        raise Inconclusive("nothing was sent")
    for d in seen:
        check_emitted(ctx, d, cfg, ak, pk, f"async session discover={discover}")
    ctx.sig("async", cfg.name, cfg.auth_kt, cfg.priv_kt, discover, len(cfg.engine_id))


# -- bad key material


def refused(ctx, o, what, **info):
    if o.ok:
        ctx.fail(f"{what} is not refused", **info)
    no_crash(ctx, o, what, **info)


def no_crash(ctx, o, what, **info):
    if o.exc is not None and not isinstance(o.exc, Exception):
        ctx.fail(f"{what} is a crash: {type(o.exc).__name__}: {o.exc}", **info)
    ctx.count(f"bad keys: {what.split(':')[0]}")


def k_bad_size(ctx, rng, i):
    """Every size 0..64 (and longer) x digest x cipher x {master, localized} x place."""
    n = i % 70
    if n > 64:
        n = rng.choice((65, 100, 128, 255, 256, 1000, 5000))
    place = ("constructor", "set_keys")[(i // 70) % 2]
    p = peer(ctx)
    eid = rng.randbytes(rng.choice((5, 12, 32)))
    for alg, code, size in ALGS:
        good = rng.randbytes(size)
        for kt in (1, 2):
            for priv in (0, 1, 2):
                for side in ("auth", "priv"):
                    if side == "priv" and not priv:
                        continue
                    x = rng.randbytes(n)
                    akt = kt if side == "auth" else rng.choice((1, 2))
                    pkt = kt if side == "priv" else rng.choice((1, 2))
                    a = (code | akt << 6, x if side == "auth" else good)
                    b = (priv | pkt << 6 if priv else 0, (x if side == "priv" else good) if priv else b"")
                    info = {"alg": alg, "key_type": kt, "priv": priv, "side": side, "size": n, "place": place}
                    what = f"{side} key of the wrong size"
                    if place == "constructor":
                        o = outcome(host.fast.SnmpV3ClientSocket, p.addr, eid, "user", *a, *b, 0, 0, 0, 0)
                    else:
                        old = common.make_cfg("v3-sha1-aes", rng, "localized", eid)
                        link = Link(old, p)
                        o = outcome(link.sock.set_keys, "user", *a, *b)
                        if n != size:
                            not_installed(ctx, link, old, p, info)
                    if n != size:
                        refused(ctx, o, what, **info)
                        ctx.sig("size", alg, kt, priv, side, n, place)
                    elif not o.ok:
                        ctx.fail(f"key of the right size is refused: {o!r}", **info)
        # the functions
        if n != size:
            for f in (lambda: host.fast.get_localized_key(code, rng.randbytes(n), eid), lambda: key_classes()[alg].get_localized_key(rng.randbytes(n), eid)):
                refused(ctx, outcome(f), "get_localized_key: master key of the wrong size", alg=alg, size=n)
    ctx.evals(2 * 2 * 5 - 1)


def not_installed(ctx, link, old, p, info):
    """Refused keys are not half-installed: the session stays as it was."""
    p.drain()
    o, d = link.request(link.sock.send_get, OID)
    if not o.ok or d is None:
        return
    try:
        req, env = msg.parse_outer(d)
    except Malformed as e:
        ctx.fail(f"after refused set_keys: malformed message: {e}", datagram=d.hex(), **info)
    if req.user != old.user.encode() or not msg.mac_ok(req, old.auth, old.auth_secret):
        ctx.fail("refused set_keys has changed user or authentication key", datagram=d.hex(), **info)
    try:
        msg.parse_inner(req, env, priv=(old.priv, old.priv_secret))
    except Malformed as e:
        ctx.fail(f"refused set_keys has changed privacy key: {e}", datagram=d.hex(), **info)
    ctx.count("sessions probed after refused set_keys")


def k_bad_code(ctx, rng, i):
    """Every algorithm code for authentication, privacy and functions."""
    code = i % 256
    p = peer(ctx)
    alg, kt = code & 0x3F, code >> 6
    eid = rng.randbytes(8)
    bad = alg > 2 or (kt == 3 and alg)
    for secret in (b"", b"x", rng.randbytes(16), rng.randbytes(20), rng.randbytes(33)):
        info = {"code": code, "secret": secret}
        sized = (kt == 0 and secret) or (kt in (1, 2) and alg and len(secret) == (16, 20)[min(alg, 2) - 1])
        o = outcome(host.fast.SnmpV3ClientSocket, p.addr, eid, "user", code, secret, 0, b"", 0, 0, 0, 0)
        if bad or (alg and not sized):
            refused(ctx, o, "auth algorithm code or key", **info)
        else:
            no_crash(ctx, o, "auth algorithm code or key: proper", **info)
            if alg and not o.ok:
                ctx.fail(f"proper key is refused: {o!r}", **info)
        # as a privacy algorithm
        for acode, asize in ((1, 16), (2, 20)):
            psized = (kt == 0 and secret) or (kt in (1, 2) and len(secret) == asize)
            o = outcome(host.fast.SnmpV3ClientSocket, p.addr, eid, "user", acode, b"password", code, secret, 0, 0, 0, 0)
            if bad or (alg and not psized):
                refused(ctx, o, "privacy algorithm code or key", auth=acode, **info)
            else:
                no_crash(ctx, o, "privacy algorithm code or key: proper", auth=acode, **info)
                if alg and not o.ok:
                    ctx.fail(f"proper key is refused: {o!r}", auth=acode, **info)
        # privacy without authentication: no crash
        no_crash(ctx, outcome(host.fast.SnmpV3ClientSocket, p.addr, eid, "user", 0, b"", code, secret, 0, 0, 0, 0), "privacy without authentication", **info)
        o = outcome(host.fast.get_master_key, code, secret)
        if alg > 2 or not secret:
            refused(ctx, o, "get_master_key: unknown algorithm or empty password", **info)
        else:
            no_crash(ctx, o, "get_master_key: any code", **info)
        for m in (b"", rng.randbytes(16), rng.randbytes(20)):
            o = outcome(host.fast.get_localized_key, code, m, eid)
            if alg > 2 or (alg and len(m) != (16, 20)[alg - 1]):
                refused(ctx, o, "get_localized_key: unknown algorithm or wrong size", master=m, **info)
            else:
                no_crash(ctx, o, "get_localized_key: any code", **info)
        ctx.sig("code", code, len(secret))
    ctx.evals(5 * 7 - 1)


def k_bad_user(ctx, rng, i):
    """Bad key material through the API: an exception, or a padded key; never a crash."""
    from gufo.snmp.user import Aes128Key, DesKey, KeyType, Md5Key, Sha1Key, User

    p = peer(ctx)
    akt, pkt = rng.choice(list(KeyType)), rng.choice(list(KeyType))
    a, b = rng.randbytes(rng.choice((0, 0, 1, 8, 15, 16, 17, 20, 21, 64))), rng.randbytes(rng.choice((0, 0, 1, 8, 15, 16, 17, 20, 21, 64)))
    ac, pc = rng.choice((Md5Key, Sha1Key)), rng.choice((None, DesKey, Aes128Key))
    info = {"auth": (ac.__name__, akt.name, a), "priv": pc and (pc.__name__, pkt.name, b)}

    def make(cls):
        u = User("user", auth_key=ac(a, key_type=akt), priv_key=pc(b, key_type=pkt) if pc else None)
        return cls("127.0.0.1", p.port, engine_id=b"\x80\0\0\0\1\2", user=u, timeout=0.01)

    o = outcome(make, rng.choice((SyncSession, AsyncSession)))
    empty = (akt == KeyType.Password and not a) or (pc and pkt == KeyType.Password and not b)
    if empty:
        refused(ctx, o, "session with an empty password", **info)
    else:
        no_crash(ctx, o, "session with odd keys", **info)
    for c in (Md5Key, Sha1Key):
        refused(ctx, outcome(c.get_master_key, b""), "empty password")
    ctx.sig("user", ac.__name__, akt.name, len(a), pc and pc.__name__, pkt.name, len(b))


__all__ = ["text"]

KINDS = {
    "master": Kind(k_master, 6_000, 300_000),
    "localize": Kind(k_localize, 1_500, 60_000),
    "session": Kind(k_session, 8_000, 300_000),
    "sync": Kind(k_sync, 800, 20_000),
    "async": Kind(k_async, 800, 20_000),
    "bad_size": Kind(k_bad_size, 140 * 2, 140 * 60),
    "bad_code": Kind(k_bad_code, 256 * 2, 256 * 40),
    "bad_user": Kind(k_bad_user, 2_000, 40_000),
}

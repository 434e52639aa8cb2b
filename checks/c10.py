"""C10: unauthenticated or forged v3 replies are never accepted."""

from __future__ import annotations

from lib import common, crypto, marathon, msg, v3hist, values
from lib.ber import enc_int, ostr, text
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SnmpError, SyncSession
from lib.msg import F_AUTH, F_PRIV
from lib.net import AsyncAgent, aoutcome, is_panic, outcome

PROP = "C10"
AUTH = [n for n in v3hist.V3 if n != "v3"]
OPS = v3hist.OPS
BASE = (1, 3, 6, 1, 2, 1)
FORGED = 666

MACS = (
    "valid", "zero", "ones", "random", "bitflip", "byteflip", "swap", "empty", "truncated", "extended", "shifted", "otheralg",
    "otherkey", "emptykey", "zerokey", "master", "privkey", "otherengine", "request", "replayed", "unzeroed", "withoutfield", "full",
    "payload", "prefix8", "formerkey",
)  # fmt: skip
FLAGS = (0, F_AUTH, F_AUTH | F_PRIV, F_PRIV)
RESERVED = (4, 8, 16, 32, 64, 128, 0x7C, 0xFC, 0x0C, 0xF8)
# How the scoped PDU travels: in clear, in clear with a salt, as octets which are not encrypted, encrypted
BODIES = ("clear", "salted", "wrapped", "encrypted")


def rand_flags(rng) -> int:
    return rng.choice(FLAGS) | (rng.choice(RESERVED) if rng.random() < 0.4 else 0)


def rand_body(rng) -> str:
    return "encrypted" if rng.random() < 0.5 else rng.choice(BODIES[:3])


def bodies(cfg) -> tuple:
    return BODIES if cfg.priv else BODIES[:1]


def vbs_for(op, v):
    return [msg.vb((*BASE, 1), enc_int(v))]


# What the forgery says: a value, nothing, or that there is nothing
CONTENT = ("empty", "null", "noobject", "noinstance", "end", "nulls", "other", "status", "octets")


def rand_content(rng) -> str | None:
    return rng.choice(CONTENT) if rng.random() < 0.3 else None


def pdu_for(rng, op, req, tag, value, content):
    if content is None or tag != msg.RESPONSE:
        return msg.pdu(tag, req.req_id, vbs_for(op, value))
    a = (*BASE, 1)
    null = msg.vb(a, b"\5\0")
    es = ei = 0
    if content == "empty":
        v = []
    elif content == "null":
        v = [null]
    elif content == "nulls":
        v = [msg.vb((*BASE, k), b"\5\0") for k in range(1, rng.randint(2, 9))]
    elif content == "noobject":
        v = [msg.vb(a, b"\x80\0")]
    elif content == "noinstance":
        v = [msg.vb(a, b"\x81\0")]
    elif content == "end":
        v = [msg.vb(rng.choice((a, BASE)), b"\x82\0")]
    elif content == "other":  # ends a walk
        v = [msg.vb((1, 3, 7), enc_int(value))]
    elif content == "status":
        es, ei = rng.choice((1, 2, 5, 16)), rng.choice((0, 1))
        v = rng.choice(([], [null], vbs_for(op, value)))
    else:
        v = [msg.vb(a, ostr(rng.randbytes(rng.choice((0, 1, 200)))))]
    return msg.pdu(tag, req.req_id, v, es, ei)


def value_of(op, o):
    if not o.ok or o.value is None:
        return None
    if op == "get":
        return o.value
    if op == "get_many":
        return next(iter(o.value.values()), None)
    if op == "getnext":
        return o.value[1]
    if op == "getbulk":
        return o.value[0][1] if o.value else None
    return None


def field(m: bytes) -> int:
    """Offset of msgAuthenticationParameters in a message built by msg.v3_msg."""

    def inside(p):  # of the element at p: start of the content, end
        n, p = m[p + 1], p + 2
        if n & 0x80:
            k = n & 0x7F
            n, p = int.from_bytes(m[p : p + k], "big"), p + k
        return p, p + n

    p = inside(0)[0]
    p = inside(p)[1]  # version
    p = inside(p)[1]  # header
    p = inside(inside(p)[0])[0]
    for _ in range(4):
        p = inside(p)[1]
    return inside(p)[0]


def forge(rng, r, op, req, mac, flags, body, replay=None, tag=msg.RESPONSE, value=FORGED, bit=None, ident=None, content=None):
    """The datagram, or None when this combination is the genuine form (or senseless)."""
    cfg, ag = r.cfg, r.agent
    key = cfg.auth_key(ag.engine_id)
    if not cfg.priv:
        body = "clear"
    enc = body == "encrypted"
    kw = {"flags": flags, "encrypt": enc, "f": 0, **(ident or {})}
    p = pdu_for(rng, op, req, tag, value, content)
    if mac not in ("valid", "formerkey") and rng.random() < 0.3:
        # the rest of the message must not matter
        x = rng.randrange(5)
        if x == 0:
            kw.update(boots=v3hist.rand_time(rng), time=v3hist.rand_time(rng))
        elif x == 1:
            kw.update(boots=0, time=0)
        elif x == 2:
            kw.update(ctx=rng.choice((b"", rng.randbytes(8))))
        elif x == 3:
            kw.update(max_size=rng.choice((484, 1472, 65507, 2**31 - 1)))
        else:
            kw.update(f=rng.choice((1, 2, 4)))
    if mac == "formerkey":
        return former(rng, r, req, p, key, flags, kw)
    if body in ("salted", "wrapped"):
        kw["priv_params"] = rng.randbytes(8)
    if body == "wrapped":
        kw["data"] = ostr(msg.scoped_pdu(p, ag.engine_id))

    def build(m):
        return ag.wrap(req, p, secure=True, **{**kw, "mac": m})

    # A valid MAC in this form is the genuine reply, or only the priv flag is inconsistent:
    # the statement does not say it must be dropped
    acceptable = flags & F_AUTH and enc == bool(cfg.priv) and not ident
    if mac == "valid":
        return None if acceptable else build("valid")
    if mac == "empty":
        return build(b"")
    good = build("valid")
    off = field(good)
    m = good[off : off + 12]
    zeroed = good[:off] + bytes(12) + good[off + 12 :]
    alg = cfg.auth
    if mac == "zero":
        x = bytes(12)
    elif mac == "ones":
        x = b"\xff" * 12
    elif mac == "random":
        x = rng.randbytes(12)
    elif mac == "bitflip":
        b = rng.randrange(96) if bit is None else bit
        x = bytes(c ^ (1 << (b % 8) if k == b // 8 else 0) for k, c in enumerate(m))
    elif mac == "byteflip":
        k = rng.randrange(12)
        x = m[:k] + bytes((m[k] ^ 0xFF,)) + m[k + 1 :]
    elif mac == "swap":
        # the same octets (and the same xor/sum) in other order
        a, b = rng.sample(range(12), 2)
        y = bytearray(m)
        y[a], y[b] = y[b], y[a]
        x = bytes(y)
    elif mac in ("truncated", "extended", "full"):
        # the field of other size; MAC computed for this very layout
        n = rng.choice((1, 2, 4, 8, 10, 11)) if mac == "truncated" else rng.choice((13, 16, 20, 24)) if mac == "extended" else crypto.KEY_SIZE[alg]
        z = build(bytes(n))
        import hashlib
        import hmac

        h = hmac.new(key, z, {"md5": hashlib.md5, "sha1": hashlib.sha1}[alg]).digest()
        h = (h + bytes(24))[:n]
        return z[:off] + h + z[off + n :] if field(z) == off else None
    elif mac == "shifted":
        x = m[1:] + m[:1]
    elif mac == "otheralg":
        o = "sha1" if alg == "md5" else "md5"
        x = crypto.hmac96(o, key, zeroed)
    elif mac == "otherkey":
        x = crypto.hmac96(alg, rng.randbytes(len(key)), zeroed)
    elif mac == "emptykey":
        x = crypto.hmac96(alg, b"", zeroed) if rng.random() < 0.5 else crypto.HASH[alg](zeroed).digest()[:12]
    elif mac == "zerokey":
        x = crypto.hmac96(alg, bytes(len(key)), zeroed)
        if not any(key):
            return None
    elif mac == "master":
        # the key is not localized, or is localized to another engine
        x = crypto.hmac96(alg, cfg.auth_secret, zeroed)
        if cfg.auth_kt == "localized":
            return None
    elif mac == "otherengine":
        k2 = crypto.localize(alg, key, rng.choice((b"", ag.engine_id, ag.engine_id + b"\0")))
        x = crypto.hmac96(alg, k2, zeroed)
    elif mac == "privkey":
        if not cfg.priv or cfg.priv_key(ag.engine_id) == key:
            return None
        x = crypto.hmac96(alg, cfg.priv_key(ag.engine_id), zeroed)
    elif mac == "request":
        x = req.auth_params
    elif mac == "replayed":
        if replay is None:
            return None
        x = replay
    elif mac == "unzeroed":
        # MAC over itself: the field was not zeroed
        x = crypto.hmac96(alg, key, good)
    elif mac == "withoutfield":
        x = crypto.hmac96(alg, key, good[:off] + good[off + 12 :])
    elif mac == "payload":
        x = crypto.hmac96(alg, key, rng.choice((good[off + 12 :], good[:off], b"")))
    elif mac == "prefix8":
        x = m[:8] + rng.randbytes(4)
    else:
        raise ValueError(mac)
    if x == m and acceptable:
        return None
    return good[:off] + x + good[off + 12 :]


def former(rng, r, req, p, key, flags, kw):
    """Everything is correct under the keys (and the name) which set_keys() has replaced."""
    old = [c for c in getattr(r, "former", ()) if not c.auth or (c.auth, c.auth_key(r.agent.engine_id)) != (r.cfg.auth, key)]
    if not old:
        return None
    c = rng.choice(old)
    x = rng.random()
    if x < 0.4 or not c.auth:
        # as the former agent sends it, possibly to the new user
        a = msg.Agent(c, r.agent.engine_id, r.agent.boots, r.agent.time)
        return a.wrap(req, p, secure=True, f=0, user=(c.user if x < 0.2 else r.cfg.user).encode())
    # signed only
    good = r.agent.wrap(req, p, secure=True, **{**kw, "mac": "valid"})
    off = field(good)
    zeroed = good[:off] + bytes(12) + good[off + 12 :]
    return good[:off] + crypto.hmac96(c.auth, c.auth_key(r.agent.engine_id), zeroed) + good[off + 12 :]


def tamper(rng, r, op, req):
    """Genuine reply, one octet of which is changed on the way. Must verify no more."""
    good = r.agent.wrap(req, msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, FORGED)))
    off = field(good)
    k = rng.choice([j for j in range(off + 12, len(good))])
    d = bytearray(good)
    d[k] ^= 1 << rng.randrange(8)
    return bytes(d)


def new_request(ctx, r, op):
    it = common.it(BASE, 5) if op == "getbulk" else common.it(BASE)
    o, req = r.send(op, text(BASE) if op == "get" else [text(BASE)], it)
    if not o.ok:
        raise Inconclusive("request is refused")
    return req, it


def must_drop(ctx, r, op, it, fed, what, **info):
    o = r.recv(op, it, blocks=True)
    if not isinstance(o.exc, BlockingIOError):
        if is_panic(o):
            raise Inconclusive("panic")
        ctx.fail(
            f"{what} is not dropped: {o!r}" + (" - FORGED VALUE IS DELIVERED" if value_of(op, o) == FORGED else ""),
            cfg=repr(r.cfg), op=op, fed=[(w, d.hex()) for w, d in fed], **info,
        )  # fmt: skip


def then_genuine(ctx, r, op, it, req):
    """The oracle is alive: the true reply ends the same call. Liveness is of C04 and C11."""
    d = r.agent.wrap(req, msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, 42)))
    r.link.feed(d)
    o = r.recv(op, it)
    if value_of(op, o) == 42 or (op == "refresh" and o.ok):
        ctx.count("genuine replies delivered afterwards")
        off = field(d)
        return d[off : off + 12]
    ctx.count(f"genuine reply afterwards: {o.kind}")
    v = value_of(op, o)
    if v is not None:
        ctx.fail(f"forged value {v!r} is delivered", cfg=repr(r.cfg), op=op, datagram=d.hex())
    return None


# -- the matrix


def k_matrix(ctx, rng, i):
    """One (configuration, operation, MAC class) with every flags x body."""
    n = i
    name, n = AUTH[n % len(AUTH)], n // len(AUTH)
    op, n = OPS[n % len(OPS)], n // len(OPS)
    mac = MACS[n % len(MACS)]
    r = common.rig(ctx, name, rng)
    req, it = new_request(ctx, r, op)
    replay = ctx.cache.get(("replay", name))
    fed = []
    for flags in (*FLAGS, *(f | rng.choice(RESERVED) for f in FLAGS)):
        for body in bodies(r.cfg):
            c = rand_content(rng)
            d = forge(rng, r, op, req, mac, flags, body, replay, content=c)
            if d is None:
                continue
            w = f"MAC {mac}, flags {flags:#x}, {body}, content {c}"
            fed.append((w, d))
            ctx.count(f"forged: content {c or 'a value'}")
            r.link.feed(d)
            must_drop(ctx, r, op, it, fed[-1:], w)
            ctx.count(f"forged: MAC {mac}")
            ctx.count(f"forged: flags {flags & 3}{' and reserved bits' if flags & ~3 else ''} {body}")
            ctx.sig(name, op, mac, flags, body)
            ctx.sample({"cfg": repr(r.cfg), "op": op, "forgery": w, "datagram": d.hex()})
    ctx.evals(len(fed) - 1)
    m = then_genuine(ctx, r, op, it, req)
    if m:
        ctx.cache[("replay", name)] = m


def k_bits(ctx, rng, i):
    """Each of the 96 bits of the field."""
    name = AUTH[i % len(AUTH)]
    bit = i // len(AUTH) % 96
    r = common.rig(ctx, name, rng)
    op = OPS[i % len(OPS)]
    req, it = new_request(ctx, r, op)
    d = forge(rng, r, op, req, "bitflip", F_AUTH | (F_PRIV if r.cfg.priv else 0), bodies(r.cfg)[-1], bit=bit)
    r.link.feed(d)
    must_drop(ctx, r, op, it, [(f"bit {bit}", d)], f"MAC with bit {bit} flipped")
    ctx.count("forged: single bit of MAC")
    ctx.sig("bit", name, bit)
    then_genuine(ctx, r, op, it, req)


def k_flags(ctx, rng, i):
    """Correct MAC in each of the 256 values of msgFlags, in flags of other sizes, under other names."""
    name = AUTH[i % len(AUTH)]
    n = i // len(AUTH)
    r = common.rig(ctx, name, rng)
    op = OPS[n % len(OPS)]
    req, it = new_request(ctx, r, op)
    fed = []
    f = n % 256
    for body in bodies(r.cfg):
        for mac in ("valid", "zero", "empty"):
            fed.append((f"MAC {mac}, flags {f:#x}, {body}", forge(rng, r, op, req, mac, f, body, content=rand_content(rng))))
    # msgFlags which is not one octet, but has no authFlag anywhere
    cfg, ag = r.cfg, r.agent
    p = msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, FORGED))
    fl = rng.choice((b"", b"\0\0", bytes(rng.randint(2, 6)), b"\4\0", b"\0\4"))
    d = ag.wrap(req, p, raw_flags=fl, f=0)
    r.link.feed(d)
    o = r.recv(op, it, blocks=True)
    # This is either skipped or no SNMPv3 message
    if o.ok:
        ctx.fail(f"reply with msgFlags {fl.hex()!r} is accepted: {o!r}", cfg=repr(cfg), op=op, datagram=d.hex())
    ctx.count(f"forged: msgFlags of other sizes: {o.kind}")
    # an odd originator: the names which discovery uses, and the like
    for ident in ({"user": b""}, {"engine_id": b""}, {"user": b"", "engine_id": b""}):
        mac = rng.choice(("zero", "empty", "valid", "random"))
        g = f & 3 if rng.random() < 0.7 else rand_flags(rng)
        b = rand_body(rng)
        fed.append((f"MAC {mac}, flags {g:#x}, {b}, {ident}", forge(rng, r, op, req, mac, g, b, ident=ident)))
    k = 0
    for w, d in fed:
        if d is None:
            continue
        k += 1
        r.link.feed(d)
        must_drop(ctx, r, op, it, [(w, d)], w)
        ctx.sig("flags", name, op, w)
    ctx.count("forged: msgFlags and names", k)
    ctx.evals(k - 1)
    then_genuine(ctx, r, op, it, req)


def k_tamper(ctx, rng, i):
    """One bit of the authenticated content changes: never delivered as a value."""
    name = AUTH[i % len(AUTH)]
    r = common.rig(ctx, name, rng)
    op = rng.choice(OPS)
    req, it = new_request(ctx, r, op)
    for _ in range(4):
        d = tamper(rng, r, op, req)
        r.link.feed(d)
        o = r.recv(op, it, blocks=True)
        if o.ok:
            ctx.fail(f"tampered reply is accepted: {o!r}", cfg=repr(r.cfg), op=op, datagram=d.hex())
        ctx.count(f"tampered content: {o.kind}")
    ctx.evals(3)
    ctx.sig("tamper", name, op, len(d))
    then_genuine(ctx, r, op, it, req)


def k_burst(ctx, rng, i):
    """Forgeries of random classes surround the genuine reply."""
    name = rng.choice(AUTH)
    r = common.rig(ctx, name, rng)
    op = rng.choice(OPS)
    req, it = new_request(ctx, r, op)
    fed = []
    for _ in range(rng.randint(1, 10)):
        mac, flags, body = rng.choice(MACS), rand_flags(rng), rand_body(rng)
        c = rand_content(rng)
        d = forge(rng, r, op, req, mac, flags, body, ctx.cache.get(("replay", name)), content=c)
        if d is not None:
            fed.append((f"MAC {mac}, flags {flags:#x}, {body}, content {c}", d))
    k = rng.randint(0, len(fed))
    good = r.agent.wrap(req, msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, 42)))
    for _, d in fed[:k]:
        r.link.feed(d)
    r.link.feed(good)
    for _, d in fed[k:]:
        r.link.feed(d)
    o = r.recv(op, it)
    if is_panic(o):
        raise Inconclusive("panic")
    if not (value_of(op, o) == 42 or op == "refresh" if o.ok else isinstance(o.exc, BlockingIOError)):
        ctx.fail(f"a forged reply is delivered: {o!r}", cfg=repr(r.cfg), op=op, fed=[(w, d.hex()) for w, d in fed], genuine_at=k)
    ctx.count("bursts: " + ("genuine is delivered" if o.ok else o.kind))
    # what follows the genuine one can be accepted neither
    must_drop(ctx, r, op, it, fed[k:], "one of the forgeries after the genuine reply")
    r.link.drain()
    ctx.evals(len(fed))
    ctx.sig("burst", name, op, tuple(w for w, _ in fed))


class H(v3hist.Hooks):
    """Forgeries at every point of a history."""

    def __init__(self):
        self.installed = []

    def on_install(self, h):
        if h.cur.user or h.cur.auth:
            self.installed.append(h.cur)

    def former(self):
        """The ones which are replaced."""
        return self.installed[:-1]


def k_history(ctx, rng, i):
    """Forgeries after discovery, after set_keys, between genuine traffic."""
    hk = H()
    h = v3hist.Hist(ctx, rng, rng.choice(AUTH), hk, discover=rng.random() < 0.6)
    n = 0
    try:
        if h.discover:
            h.run_discovery()
        for _ in range(rng.randint(3, 14)):
            h.step()
            if rng.random() < 0.06:
                h.rekey()
            if h.pending is None or not h.cur.auth:
                continue
            former = hk.former()
            op, req, it, vbs = h.pending
            r = common.Rig.__new__(common.Rig)
            r.cfg, r.agent, r.link = h.cur, h.agent, h.link
            for _ in range(rng.randint(0, 2)):
                mac, flags, body, c = rng.choice(MACS) if not former or rng.random() < 0.6 else "formerkey", rand_flags(rng), rand_body(rng), rand_content(rng)
                r.former = former
                d = forge(rng, r, op, req, mac, flags, body, content=c)
                if d is None:
                    continue
                w = f"MAC {mac}, flags {flags:#x}, {body}, content {c}"
                h.link.feed(d)
                must_drop(ctx, r, op, it if it is not None else common.it(BASE, 3), [(w, d)], w, script=h.script[-20:], discover=h.discover)
                h.script.append(f"forgery {w}")
                ctx.count(f"forged in a history: MAC {mac}")
                ctx.sig("history", h.cur.name, op, mac, flags, body, h.discover)
                n += 1
    except v3hist.Stop as e:
        ctx.count(f"history stopped: {e}")
    finally:
        h.close()
    ctx.evals(n - 1)


def k_reports(ctx, rng, i):
    """Reports may be accepted without authentication, but deliver no values."""
    name = AUTH[i % len(AUTH)]
    r = common.rig(ctx, name, rng)
    op = rng.choice(OPS)
    req, it = new_request(ctx, r, op)
    mac, flags = rng.choice(("empty", "zero", "random", "bitflip")), rand_flags(rng)
    d = forge(rng, r, op, req, mac, flags, rand_body(rng), tag=msg.REPORT)
    r.link.feed(d)
    o = r.recv(op, it, blocks=True)
    if o.ok and op != "refresh":
        ctx.fail(f"a Report is delivered as a value: {o!r}", cfg=repr(r.cfg), op=op, datagram=d.hex())
    ctx.count(f"unauthenticated Reports: {o.kind}")
    ctx.sig("report", name, op, mac, flags)
    r.link.drain()


def k_rekey(ctx, rng, i):
    """set_keys() replaces everything: forgeries under each of the former users and keys."""
    first = common.make_cfg(AUTH[i % len(AUTH)] if rng.random() < 0.9 else "v3", rng)
    r = common.Rig(first)
    r.former = []
    fed = 0
    try:
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5:  # the former keys were in use
                op = rng.choice(OPS)
                req, it = new_request(ctx, r, op)
                then_genuine(ctx, r, op, it, req)
            old = r.cfg
            new = common.make_cfg(rng.choice(AUTH), rng, None, first.engine_id)
            if rng.random() < 0.5:
                new.user = old.user
            if rng.random() < 0.3 and old.auth:  # one of the two is kept
                new.auth, new.auth_kt, new.auth_secret = old.auth, old.auth_kt, old.auth_secret
                if new.priv and crypto.KEY_SIZE[new.auth] != len(new.priv_secret) and new.priv_kt != "password":
                    new.priv_secret = rng.randbytes(crypto.KEY_SIZE[new.auth])
            o = outcome(r.sock.set_keys, new.user, new.auth_code, new.auth_secret, new.priv_code, new.priv_secret if new.priv else b"")
            if not o.ok:
                raise Inconclusive("set_keys is refused")
            r.former.append(old)
            r.cfg = new
            r.agent.cfg = new
            op = rng.choice(OPS)
            req, it = new_request(ctx, r, op)
            for _ in range(rng.randint(1, 6)):
                mac, flags, body, c = "formerkey", rand_flags(rng), rand_body(rng), rand_content(rng)
                if rng.random() < 0.5:
                    flags = F_AUTH | (F_PRIV if new.priv else 0)
                d = forge(rng, r, op, req, mac, flags, body, content=c)
                if d is None:
                    continue
                w = f"MAC {mac}, flags {flags:#x}, {body}, content {c}"
                r.link.feed(d)
                must_drop(ctx, r, op, it, [(w, d)], w, former=[repr(x) for x in r.former])
                ctx.count("forged: under the keys which are replaced")
                ctx.sig("rekey", old.name, new.name, old.user == new.user, op, flags, body, c)
                fed += 1
            then_genuine(ctx, r, op, it, req)
    finally:
        r.link.close()
    ctx.evals(fed - 1)


# -- sessions: the man in the middle


class Mitm:
    def __init__(self, ctx, rng, cfg, discover):
        self.rng, self.cfg, self.discover, self.ctx = rng, cfg, discover, ctx
        self.r = common.Rig.__new__(common.Rig)
        self.r.cfg, self.r.agent = cfg, msg.Agent(cfg, boots=5, time=77)
        self.anon = msg.Cfg("v3", user="", engine_id=b"")
        self.replay = None
        self.n = 0
        self.answer = True

    def handler(self, d):
        rng, ag = self.rng, self.r.agent
        req, env = msg.parse_outer(d)
        anon = self.discover and not req.engine_id
        try:
            msg.parse_inner(req, env, self.anon if anon else self.cfg)
        except msg.Malformed:
            return []
        if anon:
            return [ag.report(req, secure=False)]
        op = {msg.GETNEXT: "getnext", msg.GETBULK: "getbulk"}.get(req.pdu_tag, "get")
        out = []
        for _ in range(rng.randint(1, 4)):
            x = forge(rng, self.r, op, req, rng.choice(MACS), rand_flags(rng), rand_body(rng), self.replay, content=rand_content(rng))
            if x is not None:
                out.append(x)
                self.n += 1
        if not req.oids:
            # the probe is answered properly
            return [*out, ag.report(req, oid=v3hist.TIME_OID, secure=True)]
        if self.answer:
            g = ag.wrap(req, msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, 42)))
            off = field(g)
            self.replay = g[off : off + 12]
            out.insert(rng.randint(0, len(out)), g)
        return out

    def judge(self, op, o, client):
        v = value_of(op, o)
        if v != 42 and (o.ok or isinstance(o.exc, (SnmpError, LookupError, StopIteration, StopAsyncIteration))):
            self.ctx.fail(f"a forgery is delivered: {o!r}", cfg=repr(self.cfg), client=client, op=op)
        if o.ok and not self.answer:
            self.ctx.fail(f"only forgeries were sent, but the call has returned {o!r}", cfg=repr(self.cfg), client=client, op=op)
        self.ctx.count(f"{client} {op}: {'value' if o.ok else o.kind}")


def plan(rng):
    return [(rng.choice(("get", "get_many", "getnext", "getbulk")), rng.random() < 0.93) for _ in range(rng.randint(1, 5))]


def k_sync(ctx, rng, i):
    cfg = common.make_cfg(AUTH[i % len(AUTH)], rng)
    m = Mitm(ctx, rng, cfg, rng.random() < 0.5)
    ta = common.thread_agent(ctx)
    ta.use(m.handler)
    s = cfg.session(SyncSession, ta.port, discover=m.discover, timeout=0.15)
    o = outcome(s.refresh) if m.discover or rng.random() < 0.5 else None
    if o is None or o.ok:
        for op, answer in plan(rng):
            m.answer = answer
            f = getattr(s, op)
            if op in ("get", "get_many"):
                o = outcome(f, text(BASE) if op == "get" else [text(BASE)])
            else:
                o = outcome(lambda: [next(iter(f(text(BASE))))])
                o.value = o.value[0] if o.ok and op == "getnext" else o.value
            ta.check()
            m.judge(op, o, "sync")
            if not o.ok:
                break
    ctx.evals(m.n - 1)
    ctx.sig("sync", cfg.name, m.discover, i)


def k_async(ctx, rng, i):
    cfg = common.make_cfg(AUTH[i % len(AUTH)], rng)
    m = Mitm(ctx, rng, cfg, rng.random() < 0.5)

    async def main():
        ag = AsyncAgent(m.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, discover=m.discover, timeout=0.15)
            o = await aoutcome(s.refresh()) if m.discover or rng.random() < 0.5 else None
            if o is None or o.ok:
                for op, answer in plan(rng):
                    m.answer = answer
                    f = getattr(s, op)
                    if op in ("get", "get_many"):
                        o = await aoutcome(f(text(BASE) if op == "get" else [text(BASE)]))
                    else:
                        o = await aoutcome(f(text(BASE)).__anext__())
                        if o.ok and op == "getbulk":
                            o.value = [o.value]
                    ag.check()
                    m.judge(op, o, "async")
                    if not o.ok:
                        break
        finally:
            ag.close()

    common.aio(ctx).run(main())
    ctx.evals(m.n - 1)
    ctx.sig("async", cfg.name, m.discover, i)


# -- long sessions


class M(marathon.Hooks):
    def stranger(self, m, k, o, d):
        if k in ("mac", "noauth"):
            if o.ok:
                m.fail(f"reply without a valid MAC ({k}) is accepted: {o!r}", datagram=d.hex())
            m.ctx.count(f"forged in a long session: {k}")

    def sent(self, m, req, op, oids, mr):
        if m.n_recv and (req.boots, req.time) != m.header:
            m.fail(f"engine boots/time {req.boots}/{req.time} are not of an authentic message, the last one has {m.header}", datagram=req.raw.hex())


def k_marathon(ctx, rng, i):
    marathon.run(ctx, rng, AUTH[i % len(AUTH)], M(), 70_000 if ctx.tier == "thorough" else rng.choice((600, 5000)))


N_MATRIX = len(AUTH) * len(OPS) * len(MACS)
KINDS = {
    "matrix": Kind(k_matrix, 12 * N_MATRIX, 400 * N_MATRIX),
    "bits": Kind(k_bits, 5 * 96 * len(AUTH), 100 * 96 * len(AUTH)),
    "flags": Kind(k_flags, 6 * 256 * len(AUTH), 300 * 256 * len(AUTH)),
    "tamper": Kind(k_tamper, 9_000, 400_000),
    "burst": Kind(k_burst, 6_000, 200_000),
    "history": Kind(k_history, 6_000, 150_000),
    "rekey": Kind(k_rekey, 4_000, 150_000),
    "reports": Kind(k_reports, 2_000, 20_000),
    "sync": Kind(k_sync, 1_200, 40_000),
    "async": Kind(k_async, 1_200, 40_000),
    "marathon": Kind(k_marathon, 12, 60),
}

"""C16: an element is read to its declared end, and not further.

The decoders alone are in harness/src/bin/r_decode.rs (plain and AddressSanitizer). Here the
same on whole replies through the API: a value does not depend on what follows it, an
element which runs past the enclosing one and octets after the message are not delivered.
"""

from __future__ import annotations

import math

from lib import common, crypto, msg, mutate, values
from lib.ber import NULL, enc_int, enc_len, ostr, seq, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import NoSuchInstance

PROP = "C16"
OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk", "refresh")}
BASE = (1, 3, 6, 1, 2, 1)
MARK = bytes.fromhex("a5c3f00f5a3c96699669")  # + 2 random octets


def delivered(o) -> bool:
    """The reply was taken, whatever it says."""
    return o.ok or isinstance(o.exc, (StopIteration, StopAsyncIteration, NoSuchInstance))


def same(a, b) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


# -- a value and what follows


def odd_value(rng) -> bytes:
    k = rng.random()
    if k < 0.45:
        return values.rand_value(rng, max_bytes=60)[1]
    if k < 0.7:
        # REAL of any kind
        c, _ = values.rand_real(rng)
        if rng.random() < 0.3:
            c = c[: rng.randint(0, len(c))]
        return tlv(9, c, values.form(rng))
    if k < 0.78:
        return rng.choice((NULL, *(e.tlv for e in values.EXCS), b"\x04\x00", b"\x09\x00", b"\x44\x00"))
    v = mutate.hostile_value(rng)
    return v[:300]


def k_tail(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    x = odd_value(rng)
    n1 = (*BASE, rng.randint(1, 100), *values.rand_arcs(rng, 2, 6)[2:])
    v1 = msg.vb(n1, x)

    def ask(vbs):
        o, req = r.send("get_many", [text(n1)])
        if req is None:
            ctx.fail(f"request is refused: {o!r}")
        r.link.feed(r.agent.reply(req, vbs))
        return r.recv("get_many", blocks=True)

    alone = ask([v1])
    if not alone.ok:
        ctx.count("refused alone")
        if isinstance(alone.exc, BlockingIOError):
            ctx.count("refused alone: skipped")
        return
    if set(alone.value) - {text(n1)}:
        ctx.fail(f"names out of nothing: {alone!r}", value=x.hex())
    for _ in range(3):
        rest = []
        for j in range(rng.choice((1, 1, 2, 5))):
            n2 = (*BASE, 200 + j)
            kind, t, e = values.rand_value(rng, rng.choice(("int", "octets", "gauge32", "ip", "oid")), max_bytes=40)
            if rng.random() < 0.3:
                # octets which a decoder out of its bounds would take
                t, e = (lambda b: (ostr(b), b))(rng.choice((b"\x00", b"\xff", b"1", b"9e9", b"\x7f")) * rng.randint(1, 20))
            rest.append((n2, t, e))
        k = rng.randint(0, len(rest))
        vbs = [msg.vb(n, t) for n, t, _ in rest]
        vbs.insert(k if rng.random() < 0.5 else 0, v1)
        o = ask(vbs)
        info = {"value": x.hex(), "varbinds": [b.hex() for b in vbs], "cfg": repr(r.cfg)}
        if not o.ok:
            ctx.fail(f"varbind which is delivered alone makes the reply refused when others follow: {o!r}", alone=repr(alone.value), **info)
        want = dict(alone.value)
        for n, _, e in rest:
            want[text(n)] = e
        if set(want) != set(o.value) or not all(same(want[q], o.value[q]) for q in want):
            ctx.fail(f"the values depend on what follows: {o.value!r}", expected=repr(want), **info)
        ctx.count("values followed by others")
    ctx.evals(2)
    ctx.sig(name, x[:24])
    ctx.sample({"value": x.hex(), "alone": repr(alone.value)[:200]})


# -- messages


def payload(rng, op):
    n = {"get": 1, "getnext": 1, "refresh": 0}.get(op) or (rng.choice((1, 2, 3, 5)) if op != "refresh" else 0)
    r = []
    for j in range(n):
        r.append(msg.vb((*BASE, j + 1), values.rand_value(rng, rng.choice([k for k in values.KINDS if k != "null"]), max_bytes=60)[1]))
    return r


def build(rng, r, req, vbs, f, outer=None, inner=None, suffix=b""):
    """Reply; the trees are modified by outer(tree)/inner(tree) before it is signed."""
    cfg, ag = r.cfg, r.agent
    p = msg.pdu(msg.RESPONSE, req.req_id, vbs, f=f)
    if cfg.version != "v3":
        m = msg.community_msg(msg.VER[cfg.version], cfg.community.encode(), p, f)
        t = mutate.parse(m)
        if outer:
            outer(t)
        return b"".join(x.enc() for x in t) + suffix
    scoped = msg.scoped_pdu(p, ag.engine_id, rng.choice((b"", b"context")), f)
    if inner:
        t = mutate.parse(scoped)
        inner(t)
        scoped = b"".join(x.enc() for x in t)
    mark = MARK + rng.randbytes(2)
    kw = {"mac": mark if cfg.auth else None, "flags": 0, "msg_id": req.msg_id, "engine_id": ag.engine_id, "boots": ag.boots, "time": ag.time, "user": cfg.user.encode()}
    if cfg.auth:
        kw["flags"] |= 1
    if cfg.priv:
        kw["flags"] |= 2
        kw.update(priv_alg=cfg.priv, priv_key=cfg.priv_key(ag.engine_id), encrypt=True, salt=ag.next_salt())
    m = msg.v3_msg(scoped, f=f, **kw)
    if outer:
        t = mutate.parse(m, v3=True)
        outer(t)
        m = b"".join(x.enc() for x in t)
    m += suffix
    if cfg.auth:
        at = m.find(mark)
        z = m[:at] + bytes(12) + m[at + 12 :]
        # octets which follow are a part of what is signed, or they are not
        signed = z[: len(z) - len(suffix)] if rng.random() < 0.5 else z
        m = m[:at] + crypto.hmac96(cfg.auth, cfg.auth_key(ag.engine_id), signed) + m[at + 12 :]
    return m


def positions(t):
    """(parent, index of the child) of every element which has an enclosing one."""
    r = []

    def walk(n, depth):
        for j, k in enumerate(n.kids or ()):
            r.append((n, j, depth))
            walk(k, depth + 1)

    for n in t:
        walk(n, 0)
    return r


def ask(ctx, rng, name, op):
    r = common.rig(ctx, name, rng)
    it = common.it(BASE, 5 if op == "getbulk" else None)
    arg = text((*BASE, 1)) if op == "get" else [text((*BASE, 1))]
    o, req = r.send(op, arg, it)
    if req is None:
        ctx.fail(f"request is refused: {o!r}")
    return r, req, it


def control(ctx, rng, r, req, op, it, vbs, f):
    """The same reply without the modification is delivered."""
    r.link.feed(build(rng, r, req, vbs, f))
    o = r.recv(op, it)
    if not delivered(o):
        # Another property's business
        ctx.count("unmodified replies not delivered")
        return
    ctx.count("unmodified replies delivered")


def k_overrun(ctx, rng, i):
    name = ALL_CFG[i % len(ALL_CFG)]
    op = rng.choice(OPS[name.split("-")[0]])
    r, req, it = ask(ctx, rng, name, op)
    cfg = r.cfg
    f = rng.choice((0, 0, 1, 2))
    vbs = payload(rng, op)
    where = "message"
    if cfg.version == "v3" and rng.random() < 0.6:
        where = "scoped PDU"
    what = {}

    def tamper(t):
        ps = positions(t)
        if where == "scoped PDU":
            ps += [(None, 0, 0)]
        parent, j, depth = rng.choice(ps)
        if parent is None:
            n = t[0]
            # Padding may follow the scoped PDU
            rest, e = (16 if cfg.priv else 0), rng.choice((1, 2, 3, 16, 100))
        else:
            n = parent.kids[j]
            rest = sum(len(k.enc()) for k in parent.kids[j + 1 :])
            e = rng.choice((1, 1, 2, 3, 4, 8, 20, 100, 127, 128, 1000, 70000))
        ln = len(n.body()) + rest + e
        n.rawlen = enc_len(ln, rng.choice((0, 0, 0, 1, 2, 4)))
        what.update(element=n.tag.hex(), depth=depth, index=j, declared=ln, past=e, where=where)

    kw = {"outer": tamper} if where == "message" else {"inner": tamper}
    d = build(rng, r, req, vbs, f, **kw)
    # An element of an unencrypted scoped PDU which is cut by the end of the message, too
    r.link.feed(d)
    o = r.recv(op, it, blocks=True)
    ctx.count(f"element past the enclosing one: {where}, depth {what['depth']}")
    ctx.count(f"overrun: {o.kind}")
    if delivered(o):
        ctx.fail(f"reply with an element which runs past the enclosing one is delivered: {o!r}", cfg=repr(cfg), op=op, datagram=d.hex(), tampered=what)
    if i % 8 == 0:
        rr = ask(ctx, rng, name, op)
        control(ctx, rng, *rr[:2], op, rr[2], vbs, f)
    ctx.sig("overrun", name, op, tuple(what.values()))
    ctx.sample({"cfg": repr(cfg), "tampered": what, "outcome": o.kind, "datagram": d.hex()[:200]})


def k_suffix(ctx, rng, i):
    name = ALL_CFG[i % len(ALL_CFG)]
    op = rng.choice(OPS[name.split("-")[0]])
    r, req, it = ask(ctx, rng, name, op)
    f = rng.choice((0, 0, 1, 2))
    vbs = payload(rng, op)
    k = rng.randrange(6)
    if k == 0:
        s = bytes(rng.choice((1, 1, 2, 3, 8, 100)))
    elif k == 1:
        s = rng.choice((b"\x00", b"\x05\x00", b"\x30\x00", b"\xff", b"\x30", b"\x30\x80", b"\x00\x00"))
    elif k == 2:
        s = rng.randbytes(rng.choice((1, 2, 5, 50, 400)))
    elif k == 3:
        s = seq(enc_int(1), ostr(b"public"))
    elif k == 4:
        s = build(rng, r, req, vbs, f)
    else:
        s = msg.vb((*BASE, 9), enc_int(7))
    d = build(rng, r, req, vbs, f, suffix=s)
    if len(d) > 4080:
        ctx.count("larger than the receive buffer")
        return
    r.link.feed(d)
    o = r.recv(op, it, blocks=True)
    ctx.count("octets after the message")
    ctx.count(f"suffix: {o.kind}")
    if delivered(o):
        ctx.fail(f"message with {len(s)} octets after it is delivered: {o!r}", cfg=repr(r.cfg), op=op, datagram=d.hex(), suffix=s.hex())
    if i % 8 == 0:
        rr = ask(ctx, rng, name, op)
        control(ctx, rng, *rr[:2], op, rr[2], vbs, f)
    ctx.sig("suffix", name, op, s[:16], len(s), f)


KINDS = {
    "tail": Kind(k_tail, 40_000, 2_000_000),
    "overrun": Kind(k_overrun, 40_000, 2_000_000),
    "suffix": Kind(k_suffix, 16_000, 600_000),
}

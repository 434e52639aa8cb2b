"""C15: what is encoded is minimal and is decoded back.

The whole domain of the integers and the messages at the level of the encoder are in
harness/src/bin/r_encode.rs. Here: the same through the API, on the datagrams which leave.
"""

from __future__ import annotations

from lib import common, expect, msg, values
from lib.ber import NULL, enc_int, int_content, oid_content, ostr, seq, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.msg import VER

PROP = "C15"
OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk", "refresh")}
EDGE31 = sorted({x for k in (0, 7, 8, 15, 16, 23, 24, 31) for d in (-2, -1, 0, 1, 2) if 0 <= (x := (1 << k) + d) < 1 << 31})


def rand31(rng):
    return rng.choice(EDGE31) if rng.random() < 0.7 else rng.getrandbits(rng.randint(1, 31))


def rand_oids(rng, op):
    if op == "refresh":
        return []
    k = rng.random()
    if op != "get_many":
        n = 1
    elif k < 0.5:
        n = rng.randint(0, 4)
    elif k < 0.9:
        n = rng.choice((10, 14, 15, 16, 17, 30, 40))
    else:
        n = rng.randint(100, 190)
    if n == 1 and rng.random() < 0.3:
        # one long name: every size of the varbind around the long forms
        return [(1, 3, *(rng.choice(values.ARCS) for _ in range(rng.randint(20, 126))))]
    longest = 126 if n < 6 else 12 if n < 50 else 5
    return [values.rand_arcs(rng, 2, rng.randint(2, longest), rng.choice((0.1, 0.9))) for _ in range(n)]


def canonical(req, cfg) -> bytes:
    """The message which has these fields, in the minimal form. For encrypted ones the
    ciphertext is taken as it is (its contents are compared on their own)."""
    vbs = [seq(tlv(6, oid_content(o)), NULL) for o in req.oids]
    pdu = tlv(req.pdu_tag, enc_int(req.req_id) + enc_int(req.f2) + enc_int(req.f3) + tlv(0x30, b"".join(vbs)))
    if cfg.version != "v3":
        return seq(enc_int(VER[cfg.version]), ostr(req.community), pdu)
    scoped = seq(ostr(req.ctx_engine), ostr(req.ctx_name), pdu)
    if req.enc is not None:
        if scoped != req.scoped:
            return b"scoped PDU: " + scoped
        data = ostr(req.enc)
    else:
        data = scoped
    usm = seq(ostr(req.engine_id), enc_int(req.boots), enc_int(req.time), ostr(req.user), ostr(req.auth_params), ostr(req.priv_params))
    hdr = seq(enc_int(req.msg_id), enc_int(req.max_size), ostr(bytes((req.flags,))), enc_int(3))
    return seq(enc_int(3), hdr, ostr(usm), data)


def judge(ctx, r, d, op, oids, mr, header):
    cfg = r.cfg
    req = expect.parse(ctx, d, cfg, op=op, wanted=[text(o) for o in oids][:40])
    expect.check_request(ctx, req, cfg, op, oids, mr, header=header if cfg.version == "v3" else None)
    c = canonical(req, cfg)
    if c != d:
        ctx.fail("the datagram is not the minimal encoding of its fields", cfg=repr(cfg), op=op, datagram=d.hex(), minimal=c.hex())
    ctx.count("datagrams in the minimal form")
    ctx.count(f"request-id octets: {len(int_content(req.req_id))}")
    if mr is not None:
        ctx.count(f"max-repetitions octets: {len(int_content(mr))}")
    if cfg.version == "v3":
        ctx.count(f"engine time octets: {len(int_content(req.time))}")
        ctx.count(f"msgID octets: {len(int_content(req.msg_id))}")
    ctx.count(f"length form of the message: {'short' if d[1] < 128 else hex(d[1])}")
    return req


def take_back(ctx, r, req, op, it, oids):
    """The very octets of the names are given back: the decoder must return the originals."""
    raws = [tlv(6, oid_content(o)) for o in req.oids]
    if op != "get_many" or sum(map(len, raws)) * 2 + 8 * len(raws) > 3600:
        return False
    r.link.feed(r.agent.reply(req, [msg.vb(x, x) for x in raws]))
    o = r.recv("get_many", it)
    want = {text(x): text(x) for x in oids}
    if not o.ok or o.value != want:
        ctx.fail(f"the names are not decoded back: {o!r}", cfg=repr(r.cfg), sent=[x.hex() for x in raws][:40], wanted=list(want)[:40])
    ctx.count("names decoded back", len(raws))
    return True


def k_requests(ctx, rng, i):
    name = ALL_CFG[i % len(ALL_CFG)]
    r = common.rig(ctx, name, rng, 0.1)
    cfg = r.cfg
    header = r.link.__dict__.get("header", (0, 0))
    op = rng.choice(OPS[cfg.version])
    oids = rand_oids(rng, op)
    it = mr = None
    if op == "getnext":
        it = common.it(oids[0])
    elif op == "getbulk":
        mr = rand31(rng)
        it = common.it(oids[0], mr)
    arg = text(oids[0]) if op == "get" else [text(o) for o in oids]
    o, d = r.link.request(*common.SEND(r.sock, op, arg, it))
    if not o.ok:
        size = sum(len(oid_content(x)) + 8 for x in oids)
        if type(o.exc).__name__ == "SnmpEncodeError" and size > 3600:
            ctx.count("too large")
            return
        ctx.fail(f"request is refused: {o!r}", cfg=repr(cfg), op=op, wanted=[text(x) for x in oids][:40])
    req = judge(ctx, r, d, op, oids, mr, header)
    ctx.sig(name, op, len(d), mr or 0, len(int_content(req.req_id)), header)
    ctx.sample({"cfg": repr(cfg), "op": op, "datagram": d.hex()[:300]})
    if not take_back(ctx, r, req, op, it, oids):
        if cfg.version == "v3":
            # engine boots and time of every width in the next one
            r.agent.boots, r.agent.time = rand31(rng), rand31(rng)
        name_ = (*(req.oids[0] if req.oids else (1, 3)), 1)
        r.link.feed(r.agent.reply(req, [] if op == "refresh" else [msg.vb(name_, enc_int(1))]))
        r.recv(op, it)
    r.link.header = (r.agent.boots, r.agent.time)


def k_ids(ctx, rng, i):
    """Identifiers of every width: the random source of the library is replaced."""
    import _shim

    name = ALL_CFG[i % len(ALL_CFG)]
    cfg = common.make_cfg(name, rng)
    _shim.clear()
    _shim.seed(rng.getrandbits(64))
    r = common.Rig(cfg)
    try:
        for _ in range(8):
            ids = [rand31(rng) for _ in range(3)]
            _shim.clear()
            for x in ids:
                _shim.push(x | (rng.getrandbits(33) << 31))
            op = rng.choice(("get", "get_many", "getnext"))
            oids = [values.rand_arcs(rng, 2, 10)]
            it = common.it(oids[0]) if op == "getnext" else None
            o, d = r.link.request(*common.SEND(r.sock, op, text(oids[0]) if op == "get" else [text(oids[0])], it))
            _shim.clear()
            if not o.ok:
                ctx.fail(f"request is refused: {o!r}", cfg=repr(cfg), ids=ids)
            req = judge(ctx, r, d, op, oids, None, None)
            if req.req_id in ids:
                ctx.count("request-id chosen by the monitor")
            ctx.sig("ids", name, req.req_id)
    finally:
        _shim.clear()
        r.link.close()
    ctx.evals(7)


KINDS = {
    "requests": Kind(k_requests, 60_000, 3_000_000),
    "ids": Kind(k_ids, 6_000, 200_000, variant="det"),
}

"""What a request on the wire must be."""

from __future__ import annotations

from . import msg
from .ber import Malformed, text
from .msg import GET, GETBULK, GETNEXT

PDU = {"get": GET, "get_many": GET, "getnext": GETNEXT, "getbulk": GETBULK, "refresh": GET}


def parse(ctx, d: bytes, cfg, **info):
    """Strict parse, a failure is a violation."""
    try:
        return msg.parse_request(d, cfg)
    except Malformed as e:
        ctx.fail(f"the datagram on the wire is malformed: {e}", datagram=d.hex(), cfg=repr(cfg), **info)


def check_request(ctx, req, cfg, op, oids, maxrep=None, engine_id=None, header=None, user=None, **info):
    """oids: list of arcs tuples. header: (boots, time) or None."""

    def bad(why):
        ctx.fail(why, cfg=repr(cfg), op=op, wanted=[text(o) for o in oids][:40], request=repr(req), datagram=req.raw.hex(), **info)

    if req.version != msg.VER[cfg.version]:
        bad(f"version {req.version} instead of {cfg.version}")
    if cfg.version != "v3":
        if req.community != cfg.community.encode():
            bad("community differs")
    else:
        eid = cfg.engine_id if engine_id is None else engine_id
        if req.engine_id != eid:
            bad("engine id differs")
        if req.ctx_engine != eid:
            bad("context engine id differs")
        if req.ctx_name != b"":
            bad("context name is not empty")
        if req.user != (cfg.user.encode() if user is None else user):
            bad("user name differs")
        if not 0 <= req.msg_id < 1 << 31:
            bad("msgID is out of range")
        if not 484 <= req.max_size < 1 << 31:
            bad("msgMaxSize is out of range")
        if req.flags & 0xF8:
            bad("reserved msgFlags bits are set")
        if bool(req.flags & 1) != bool(cfg.auth) or bool(req.flags & 2) != bool(cfg.priv):
            bad(f"msgFlags {req.flags:#x} do not match the security level")
        if header is not None and (req.boots, req.time) != tuple(header):
            bad(f"engine boots/time {req.boots}/{req.time} instead of {header[0]}/{header[1]}")
        if cfg.auth and len(req.auth_params) != 12:
            bad("msgAuthenticationParameters size")
        if not cfg.auth and req.auth_params:
            bad("msgAuthenticationParameters without a key")
        if len(req.priv_params) != (8 if cfg.priv else 0):
            bad("msgPrivacyParameters size")
    check_pdu(bad, req, op, oids, maxrep)


def check_pdu(bad, req, op, oids, maxrep=None):
    if req.pdu_tag != PDU[op]:
        bad(f"PDU tag {req.pdu_tag:#x}")
    if not 0 <= req.req_id < 1 << 31:
        bad("request-id is out of range")
    if op == "getbulk":
        if (req.f2, req.f3) != (0, maxrep):
            bad(f"non-repeaters/max-repetitions {req.f2}/{req.f3} instead of 0/{maxrep}")
    elif (req.f2, req.f3) != (0, 0):
        bad("error-status/error-index are not zero")
    if len(req.oids) != len(oids):
        bad(f"{len(req.oids)} OIDs instead of {len(oids)}")
    for i, (a, o) in enumerate(zip(req.oids, oids)):
        if tuple(a) != tuple(o):
            bad(f"OID {i} is {text(a)} instead of {text(o)}")

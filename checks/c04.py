"""C04: only the reply to the outstanding request is ever delivered."""

from __future__ import annotations

import asyncio
import signal

from lib import common, expect, marathon, msg, values
from lib.ber import enc_int, ostr, seq, text
from lib.common import ALL_CFG
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SnmpDecodeError, SyncSession
from lib.net import AsyncAgent, Out, aoutcome, deafen, flood, hear, outcome

PROP = "C04"
BASE = (1, 3, 6, 1, 2, 1)
OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk", "refresh")}
MATCH, SKIP, MALFORMED = "match", "skip", "malformed"


class Token:
    """Every generated reply carries its own value."""

    def __init__(self):
        self.n = 1000

    def next(self) -> int:
        self.n += 1
        return self.n


def vbs_for(op, token):
    if op == "refresh":
        return []
    return [msg.vb((*BASE, token), enc_int(token))]


def value_of(op, o):
    """Token delivered to the caller."""
    v = o.value
    if op == "get":
        return v
    if op == "get_many":
        return next(iter(v.values())) if len(v) == 1 else None
    if op == "getnext":
        return v[1]
    if op == "getbulk":
        return v[0][1]
    return None


def other_ids(rng, x):
    return rng.choice((x ^ 1, x ^ 0x40000000, (x + 1) & 0x7FFFFFFF, x + (1 << 31), x + (1 << 32), x - (1 << 32), -x - 1, x - (1 << 31), x << 8, x >> 8 if x > 255 else x + 1, 0 if x else 1, -1, 1 if x != 1 else 2, 0x7FFFFFFF if x != 0x7FFFFFFF else 0))


def near_bytes(rng, b: bytes):
    """Different, but similar octets."""
    c = [b + b"\0", b + b"x", b"x" + b, b[:-1] if b else b"p", b.upper() if b.upper() != b else b + b" ", b"", b[:-1] + bytes((b[-1] ^ 1,)) if b else b"\1", rng.randbytes(max(1, len(b)))]
    if len(b) > 1:
        k = rng.randrange(1, len(b))
        # other case, padded, a part of it, twice, the other way round, one octet differs
        c += [b.swapcase(), b.title(), b" " + b, b + b"\0" * k, b[:k], b[k:], b + b, b[::-1], b[:k] + bytes((b[k] ^ 1 << rng.randrange(8),)) + b[k + 1 :], b[:k] + b[k + 1 :], b.strip(), b + b"\n"]
    return rng.choice([x for x in c if x != b])


def mismatch(rng, rig, op, req, old, token):
    """(datagram, class): a well-formed message which does not answer the request."""
    cfg, ag = rig.cfg, rig.agent
    vbs = vbs_for(op, token)
    kinds = ["reqid", "reqid"]
    if old:
        kinds += ["stale", "stale"]
    if cfg.version != "v3":
        kinds += ["community", "community"]
        if old:
            kinds.append("stale-community")
    else:
        kinds += ["msgid", "user", "engine", "both"]
        if old:
            kinds += ["mixed", "mixed2"]
    k = rng.choice(kinds)
    f = values.form(rng)
    es = {}
    if rng.random() < 0.3:  # what the reply says does not matter
        es = {"es": rng.choice((0, 1, 2, 3, 5, 16, 18, 255)), "ei": rng.choice((0, 1, 2, 255))}
        if rng.random() < 0.5:
            vbs = rng.choice(([], [msg.vb(BASE)], [msg.vb(BASE, rng.choice(values.EXCS).tlv)], vbs * 2))
    if k == "reqid":
        return ag.reply(req, vbs, req_id=other_ids(rng, req.req_id), f=f, **es), k
    if k == "stale":
        return ag.reply(rng.choice(old), vbs, f=f, **es), k
    if k == "community":
        return ag.reply(req, vbs, community=near_bytes(rng, cfg.community.encode()), f=f, **es), k
    if k == "stale-community":
        return ag.reply(rng.choice(old), vbs, community=near_bytes(rng, cfg.community.encode())), k
    if k == "msgid":
        return ag.reply(req, vbs, msg_id=other_ids(rng, req.msg_id), f=f, **es), k
    if k == "both":
        return ag.reply(req, vbs, msg_id=other_ids(rng, req.msg_id), req_id=other_ids(rng, req.req_id)), k
    if k == "user":
        return ag.reply(req, vbs, user=near_bytes(rng, req.user), f=f, **es), k
    if k == "engine":
        return ag.reply(req, vbs, engine_id=near_bytes(rng, ag.engine_id), f=f), k
    o = rng.choice(old)
    if k == "mixed":
        # old request-id under the current message id
        return ag.reply(req, vbs, req_id=o.req_id), k
    return ag.reply(o, vbs, req_id=req.req_id), k


def malformed(rng, rig, op, req, token):
    """(datagram, class): does not decode as a message of the version."""
    cfg, ag = rig.cfg, rig.agent
    good = ag.reply(req, vbs_for(op, token))
    k = rng.choice(("truncated", "truncated", "trailing", "version", "version", "empty", "random", "tag", "other"))
    if k == "truncated":
        return good[: rng.randrange(len(good))], k
    if k == "trailing":
        return good + rng.choice((b"\0", b"\x30\0", good, rng.randbytes(3))), k
    if k == "version":
        # the same message of another version
        p = msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, token))
        c = cfg.community.encode()
        bodies = (ostr(c), p) if cfg.version != "v3" else None
        vs = [x for x in (0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 259, -1, 1 << 32, (1 << 32) + 1, (1 << 32) + 3, 1 << 16) if x != msg.VER[cfg.version]]
        if bodies:
            return seq(enc_int(rng.choice(vs)), *bodies), k
        return ag.reply(req, vbs_for(op, token), version=rng.choice(vs)), k
    if k == "other":
        # genuinely other version
        if cfg.version == "v3":
            return msg.community_msg(rng.choice((0, 1)), b"public", msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, token))), k
        return (
            msg.v3_msg(
                msg.scoped_pdu(msg.pdu(msg.RESPONSE, req.req_id, vbs_for(op, token)), b"\x80engine"),
                msg_id=req.req_id, flags=0, engine_id=b"\x80engine", boots=1, time=1, user=b"user", mac=None,
            ),
            k,
        )  # fmt: skip
    if k == "empty":
        return b"", k
    if k == "random":
        d = bytearray(rng.randbytes(rng.randint(1, 60)))
        d[0] = rng.choice([x for x in range(256) if x & 0x1F != 0x10])
        return bytes(d), k
    d = bytearray(good)
    d[0] = rng.choice((0x02, 0x04, 0x05, 0xA2, 0x31))
    return bytes(d), k


# -- the low level: the queue model


def k_queue(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    cfg, ag = r.cfg, r.agent
    tok = Token()
    old: list = []  # superseded requests
    req = op = it = None
    queue: list = []  # (verdict, token, op)
    script = []
    n = 0
    state = "idle"

    def info():
        return {"cfg": repr(cfg), "script": script}

    for step in range(rng.randint(3, 14)):
        x = rng.random()
        if req is None or state == "done" or x < 0.2:
            # (new) request; it supersedes the outstanding one
            if req is not None:
                old.append(req)
                # answers to it are stale now
                queue = [(SKIP, t, o) if v == MATCH else (v, t, o) for v, t, o in queue]
            op = rng.choice(OPS[cfg.version])
            it = common.it(BASE, 5)
            arg = text(BASE) if op == "get" else [text(BASE)]
            o, d = r.link.request(*common.SEND(r.sock, op, arg, it))
            if not o.ok or d is None:
                ctx.fail(f"request is refused: {o!r}", **info())
            req = expect.parse(ctx, d, cfg)
            state = "pending"
            script.append(f"send {op} req_id={req.req_id} msg_id={getattr(req, 'msg_id', None)}")
        elif x < 0.23:
            # the agent's port is unreachable
            late = rng.random() < 0.5
            if late and cfg.version == "v3":
                late = False
            if not r.link.unreachable(common.SEND(r.sock, "get", text(BASE)), (r.sock.recv_get,), late):
                raise Inconclusive("the network does not report")
            # the first one was sent, nobody will answer
            queue = [(SKIP, t, o) if v == MATCH else (v, t, o) for v, t, o in queue]
            old.append(req)
            script.append(f"unreachable, reported by {'send' if late else 'recv'}")
            ctx.count("unreachable agents")
            state = "done"
        elif x < 0.27:
            # refused request is never sent, the outstanding one stays
            bad = rng.choice(((r.sock.send_get, "1.3.bad"), (r.sock.send_get_many, [text((1, 3, *([2**32 - 1] * 60)))] * 30)))
            o, d = r.link.request(*bad)
            if o.ok:
                ctx.fail("the request must be refused", **info())
            script.append("refused request")
        elif x < 0.6:
            # traffic
            t = tok.next()
            y = rng.random()
            if y < 0.35:
                d, c, v = ag.reply(req, vbs_for(op, t), f=values.form(rng)), "genuine", MATCH
            elif y < 0.8:
                d, c = mismatch(rng, r, op, req, old, t)
                v = SKIP
            else:
                d, c = malformed(rng, r, op, req, t)
                v = MALFORMED
            for _ in range(2 if rng.random() < 0.15 else 1):
                r.link.feed(d)
                queue.append((v, t, op))
                script.append(f"arrives {c} token={t} {d.hex()[:160]}")
            ctx.count(f"datagram {c}")
        else:
            # receive
            exp = "blocked"
            while queue:
                v, t, _ = queue.pop(0)
                if v == SKIP:
                    continue
                exp = (v, t)
                break
            o = r.recv(op, it, blocks=not queue and exp == "blocked")
            script.append(f"recv -> {o!r}, expected {exp}")
            n += 1
            ctx.count(f"recv expected {exp if isinstance(exp, str) else exp[0]}")
            if exp == "blocked":
                if not isinstance(o.exc, BlockingIOError):
                    ctx.fail(f"nothing matching has arrived, but the call ended with {o!r}", **info())
            elif exp[0] == MALFORMED:
                if not isinstance(o.exc, SnmpDecodeError):
                    ctx.fail(f"datagram which does not decode must end the call with SnmpDecodeError: {o!r}", **info())
            else:
                if not o.ok:
                    ctx.fail(f"matching reply is not delivered: {o!r}", **info())
                got = value_of(op, o)
                if op != "refresh" and got != exp[1]:
                    ctx.fail(f"delivered value {got!r} instead of {exp[1]}", **info())
                state = "done"
    r.link.drain()
    ctx.evals(n - 1)
    ctx.sig(name, tuple(s.split(" token")[0].split(" req_id")[0][:30] for s in script))
    ctx.sample({"cfg": repr(cfg), "script": script[:12]})


# -- the matrix: every class of mismatch against every operation and configuration


def k_matrix(ctx, rng, i):
    name = ALL_CFG[i % len(ALL_CFG)]
    r = common.rig(ctx, name, rng)
    cfg = r.cfg
    ops = OPS[cfg.version]
    op = ops[(i // len(ALL_CFG)) % len(ops)]
    old = []
    for k in range(2):
        it = common.it(BASE, 5)
        o, req = r.send(op, text(BASE) if op == "get" else [text(BASE)], it)
        old.append(req)
    req = old.pop()
    fed = []
    for k in range(rng.randint(1, 6)):
        d, c = mismatch(rng, r, op, req, old, 7)
        fed.append((c, d.hex()))
        r.link.feed(d)
        ctx.sig("matrix", name, op, c)
        ctx.count(f"matrix {c}")
    ctx.evals(len(fed))
    o = r.recv(op, it, blocks=True)
    if not isinstance(o.exc, BlockingIOError):
        ctx.fail(f"non-matching replies are not skipped: {o!r}", cfg=repr(cfg), op=op, fed=fed, request=repr(req))
    r.link.feed(r.agent.reply(req, vbs_for(op, 42)))
    o = r.recv(op, it)
    if not o.ok or (op != "refresh" and value_of(op, o) != 42):
        ctx.fail(f"matching reply which arrives later is not delivered: {o!r}", cfg=repr(cfg), op=op, fed=fed, request=repr(req))


# -- API layers: the network loses, duplicates, delays and reorders


class Net:
    """Agent behind the faulty network; reply to n-th request carries token n."""

    def __init__(self, rng, cfg, malformed_p):
        self.rng, self.cfg = rng, cfg
        self.rig = common.Rig.__new__(common.Rig)
        self.rig.cfg, self.rig.agent = cfg, msg.Agent(cfg, boots=2, time=50)
        self.reqs = []
        self.held = []
        self.exp = []
        self.bad = []
        self.malformed_p = malformed_p
        self.log = []
        self.abandon = False  # the caller will not wait for the answer

    def handler(self, d):
        rng = self.rng
        try:
            req = msg.parse_request(d, self.cfg)
        except msg.Malformed:
            self.bad.append(d)
            return []
        token = 1000 + len(self.reqs)
        op = {msg.GETNEXT: "getnext", msg.GETBULK: "getbulk"}.get(req.pdu_tag, "get")
        genuine = self.rig.agent.reply(req, vbs_for(op, token))
        if self.abandon:
            self.held.append(genuine)
            self.exp.append(("abandoned", token))
            self.reqs.append(req)
            self.log.append([])
            return []
        out = []
        # before the genuine one: delayed replies and strangers
        for h in self.held[:]:
            if rng.random() < 0.5:
                out.append((SKIP, h))
                if rng.random() < 0.7:
                    self.held.remove(h)
        for _ in range(rng.choice((0, 0, 1, 2, 3))):
            out.append((SKIP, mismatch(rng, self.rig, op, req, self.reqs, 7)[0]))
        if rng.random() < self.malformed_p:
            out.append((MALFORMED, malformed(rng, self.rig, op, req, 7)[0]))
        rng.shuffle(out)
        x = rng.random()
        if x < 0.6:
            out.append((MATCH, genuine))
            if rng.random() < 0.3:
                self.held.append(genuine)  # duplicate which arrives later
            if rng.random() < 0.2:
                out.append((MATCH, genuine))
        elif x < 0.85:
            self.held.append(genuine)  # late
        exp = "timeout"
        for v, _ in out:
            if v != SKIP:
                exp = v
                break
        self.exp.append((exp, token))
        self.reqs.append(req)
        self.log.append([(v, d.hex()[:200]) for v, d in out])
        return [d for _, d in out]


def check_api(ctx, net, n, o, op, client):
    if net.bad:
        expect.parse(ctx, net.bad[0], net.cfg, client=client)
    info = {"cfg": repr(net.cfg), "client": client, "call": n, "op": op, "network": net.log, "outcome": repr(o)}
    if len(net.exp) != n + 1:
        ctx.fail(f"{len(net.exp)} requests for {n + 1} calls", **info)
    exp, token = net.exp[n]
    ctx.count(f"{client} {op} expected {exp}")
    if exp == "abandoned":
        if o.ok:
            ctx.fail(f"call {n} returned {o.value!r}, nothing was sent in answer to it", **info)
        return
    if o.ok:
        v = o.value if op == "get" else list(o.value.values())[0] if op == "get_many" and o.value else None
        if v != token:
            ctx.fail(f"call {n} returned {v!r}, the value sent in answer to it is {token}", **info)
        if exp != MATCH:
            ctx.fail(f"returned a value, expected {exp}", **info)
    elif exp == MATCH:
        ctx.fail(f"matching reply is not delivered: {o!r}", **info)
    elif exp == MALFORMED:
        if not isinstance(o.exc, SnmpDecodeError):
            ctx.fail(f"must be SnmpDecodeError: {o!r}", **info)
    elif not isinstance(o.exc, TimeoutError):
        ctx.fail(f"must be TimeoutError: {o!r}", **info)


# After a decode error the rest of that burst is still queued: those are replies to an
# already superseded request, so the expectations above hold for the next call. The same
# is true for the duplicates.
def api_case(rng):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng, kt=None)
    return name, cfg, Net(rng, cfg, rng.choice((0, 0, 0.15))), [rng.choice(("get", "get", "get_many")) for _ in range(rng.randint(2, 5))]


def leftovers(net):
    """Malformed datagrams left in the queue would end the next call."""
    return net.malformed_p > 0


def dead(ctx, cfg, sock, client, call):
    """Request to the unreachable port."""
    if sock is not None:
        deafen(sock)
    try:
        o = call()
    finally:
        if sock is not None:
            hear(sock)
    if o.ok:
        ctx.fail(f"the call returned {o.value!r}, the agent was unreachable", cfg=repr(cfg), client=client)
    ctx.count(f"{client} unreachable agent: {o.kind}")


class Gone(Exception):
    """The caller gives up."""


def interrupted(fn, *args):
    """Call which is ended by a signal handler."""

    def handler(*_):
        raise Gone

    prev = signal.signal(signal.SIGALRM, handler)
    try:
        signal.setitimer(signal.ITIMER_REAL, 0.03)
        o = outcome(fn, *args)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Gone:  # came late
        o = Out(exc=TimeoutError())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, prev)
    return o


def k_sync(ctx, rng, i):
    name, cfg, net, ops = api_case(rng)
    ta = common.thread_agent(ctx)
    ta.use(net.handler)
    s = cfg.session(SyncSession, ta.port, timeout=0.12)
    for n, op in enumerate(ops):
        if rng.random() < 0.08:
            dead(ctx, cfg, ta.sock, "sync", lambda: outcome(s.get, text(BASE)))
        net.abandon = rng.random() < 0.06
        f = (s.get, text(BASE)) if op == "get" else (s.get_many, [text(BASE)])
        o = interrupted(*f) if net.abandon else outcome(*f)
        ta.check()
        check_api(ctx, net, n, o, op, "sync")
        if net.exp[n][0] == MALFORMED:
            break
    ctx.evals(n)
    ctx.sig("sync", name, tuple(e for e, _ in net.exp), tuple(len(x) for x in net.log))


def k_async(ctx, rng, i):
    name, cfg, net, ops = api_case(rng)

    async def main():
        ag = AsyncAgent(net.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=0.12)
            for n, op in enumerate(ops):
                if rng.random() < 0.08:
                    deafen(ag.sock)
                    o = await aoutcome(s.get(text(BASE)))
                    hear(ag.sock)
                    dead(ctx, cfg, None, "async", lambda: o)
                net.abandon = rng.random() < 0.15
                c = s.get(text(BASE)) if op == "get" else s.get_many([text(BASE)])
                if net.abandon:
                    # the task is cancelled
                    c = asyncio.wait_for(c, 0.02)
                o = await aoutcome(c)
                ag.check()
                check_api(ctx, net, n, o, op, "async")
                if net.exp[n][0] == MALFORMED:
                    break
            return n
        finally:
            ag.close()

    n = common.aio(ctx).run(main())
    ctx.evals(n)
    ctx.sig("async", name, tuple(e for e, _ in net.exp), tuple(len(x) for x in net.log))


# -- several sessions of one process


def k_several(ctx, rng, i):
    """Each with its own outstanding request; replies of the others arrive, too."""
    name = ALL_CFG[i % len(ALL_CFG)]
    base = common.make_cfg(name, rng)
    rigs = [common.Rig(base) for _ in range(rng.randint(2, 4))]
    pend: dict = {}
    tok = Token()
    script = []
    n = 0
    try:
        for _ in range(rng.randint(6, 30)):
            k = rng.randrange(len(rigs))
            r = rigs[k]
            x = rng.random()
            if k not in pend or x < 0.25:
                op = rng.choice(OPS[base.version])
                it = common.it(BASE, 5)
                o, req = r.send(op, text(BASE) if op == "get" else [text(BASE)], it)
                if not o.ok:
                    ctx.fail(f"request is refused: {o!r}", cfg=repr(base), script=script)
                pend[k] = (op, it, req)
                script.append(f"{k}: send {op} {req.req_id}")
                continue
            op, it, req = pend[k]
            fed = []
            for j, (_, _, rj) in pend.items():
                # the reply for the other session
                same = rj.req_id == req.req_id and getattr(rj, "msg_id", None) == getattr(req, "msg_id", None)
                if j != k and not same and rng.random() < 0.5:
                    fed.append(r.agent.reply(rj, vbs_for(op, 7)))
            for d in fed:
                r.link.feed(d)
            if fed:
                o = r.recv(op, it, blocks=True)
                script.append(f"{k}: {len(fed)} replies of others -> {o!r}")
                ctx.count("replies for other sessions", len(fed))
                if not isinstance(o.exc, BlockingIOError):
                    ctx.fail(f"reply to the request of another session is not skipped: {o!r}", cfg=repr(base), script=script)
            if rng.random() < 0.7:
                t = tok.next()
                r.link.feed(r.agent.reply(req, vbs_for(op, t)))
                o = r.recv(op, it)
                script.append(f"{k}: genuine {t} -> {o!r}")
                if not o.ok or (op != "refresh" and value_of(op, o) != t):
                    ctx.fail(f"matching reply is not delivered: {o!r}", cfg=repr(base), script=script)
                ctx.count("several sessions: replies delivered")
                del pend[k]
            n += 1
    finally:
        for r in rigs:
            r.link.close()
    ctx.evals(max(n - 1, 0))
    ctx.sig("several", name, tuple(x.split(" ")[1] + x[0] for x in script))


# -- floods


def k_flood(ctx, rng, i):
    """Thousands of datagrams which do not match, then the reply. No count of them ends the call."""
    name = ALL_CFG[i % len(ALL_CFG)]
    client = ("sync", "async")[i // len(ALL_CFG) % 2]
    cfg = common.make_cfg(name, rng)
    n = rng.choice((70_000, 140_000)) if ctx.tier == "thorough" and rng.random() < 0.1 else rng.choice((260, 1030, 2100, 4200, 8400))
    rig = common.Rig.__new__(common.Rig)
    rig.cfg, rig.agent = cfg, msg.Agent(cfg, boots=2, time=50)
    op = rng.choice(OPS[cfg.version])
    bad, lost, over = [], [], []

    def handler(d):
        try:
            req = msg.parse_request(d, cfg)
        except msg.Malformed:
            bad.append(d)
            return []
        strays = [mismatch(rng, rig, op, req, [], 7)[0] for _ in range(16)]
        if rng.random() < 0.3:
            strays = strays[:1]
        strays = [x for x in strays if x and len(x) < 400] or [rig.agent.reply(req, vbs_for(op, 7), req_id=req.req_id ^ 1)]
        genuine = rig.agent.reply(req, vbs_for(op, 42)) if op != "refresh" else rig.agent.report(req, secure=bool(cfg.auth))
        return [lambda s, a: lost.append(flood(s, a, strays, n, lambda: over)), genuine]

    ta = common.thread_agent(ctx)
    ta.use(handler)
    args = {"get": (text(BASE),), "get_many": ([text(BASE)],), "getnext": (text(BASE),), "getbulk": (text(BASE),), "refresh": ()}[op]
    if client == "sync":
        s = cfg.session(SyncSession, ta.port, timeout=30.0)
        f = getattr(s, op)
        o = outcome(lambda: next(iter(f(*args))) if op in ("getnext", "getbulk") else f(*args))
    else:

        async def main():
            s = cfg.session(AsyncSession, ta.port, timeout=30.0)
            f = getattr(s, op)
            if op in ("getnext", "getbulk"):
                return await aoutcome(f(*args).__anext__())
            return await aoutcome(f(*args))

        o = common.aio(ctx).run(main())
    over.append(1)
    ta.check()
    if bad:
        expect.parse(ctx, bad[0], cfg, client=client)
    if isinstance(o.exc, TimeoutError) and (not lost or lost[0]):
        # the genuine reply may be among them
        raise Inconclusive("datagrams are lost by the kernel")
    if o.ok and op == "getbulk":
        o.value = [o.value]
    if not o.ok or (op != "refresh" and value_of(op, o) != 42):
        ctx.fail(f"{n} datagrams which do not match, then the matching reply: {o!r}", cfg=repr(cfg), client=client, op=op)
    ctx.evals(n)
    ctx.count(f"floods, {client}")
    ctx.count("datagrams of floods", n)
    ctx.sig("flood", name, client, op, n)


# -- long sessions


class M(marathon.Hooks):
    def delivered(self, m, op, token, o):
        if not o.ok:
            m.fail(f"matching reply is not delivered: {o!r}", op=op)
        if op != "refresh" and value_of(op, o) != token:
            m.fail(f"delivered value {value_of(op, o)!r} instead of {token}", op=op)

    def stranger(self, m, k, o, d):
        if o.ok:
            m.fail(f"reply of a stranger ({k}) is delivered: {o!r}", datagram=d.hex())
        if k in ("stale", "req_id", "msg_id", "user", "engine") and not isinstance(o.exc, BlockingIOError):
            m.fail(f"non-matching reply ({k}) is not skipped: {o!r}", datagram=d.hex())


def k_marathon(ctx, rng, i):
    marathon.run(ctx, rng, ALL_CFG[i % len(ALL_CFG)], M(), 70_000 if i % len(ALL_CFG) == 1 or ctx.tier == "thorough" else rng.choice((600, 5000)))


KINDS = {
    "matrix": Kind(k_matrix, 30_000, 800_000),
    "queue": Kind(k_queue, 30_000, 1_500_000),
    "sync": Kind(k_sync, 800, 40_000, confirm=True),
    "async": Kind(k_async, 800, 40_000, confirm=True),
    "several": Kind(k_several, 4_000, 150_000),
    "flood": Kind(k_flood, 108, 2_000),
    "marathon": Kind(k_marathon, 18, 90),
}

"""C07: get / get_many results and SNMP exceptions map as documented."""

from __future__ import annotations

from lib import common, expect, msg, values
from lib.ber import enc_int, text, tlv
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import AsyncSession, NoSuchInstance, SnmpAuthError, SnmpError, SyncSession
from lib.net import AsyncAgent, aoutcome, outcome
from lib.values import END_OF_MIB, NO_SUCH_INSTANCE, NO_SUCH_OBJECT, describe, same

PROP = "C07"
EXC = {"noSuchObject": NO_SUCH_OBJECT, "noSuchInstance": NO_SUCH_INSTANCE, "endOfMibView": END_OF_MIB}
# Values which are easily taken for absent
FALSY = [("int", enc_int(0), 0), ("octets", tlv(4, b""), b""), ("bool", tlv(1, b"\0"), False), ("ip", tlv(0x40, b"\0\0\0\0"), "0.0.0.0"), ("real", tlv(9, b""), values.Real(special=0.0)), ("opaque", tlv(0x44, b""), b""), ("counter64", tlv(0x46, b"\0"), 0)]
ERR = [(0, 0), (0, 0), (0, 0), (2, 1), (5, 1), (16, 2), (18, 0)]


def rand_vb(rng, what=None):
    """(arcs, what, tlv, expected)"""
    a = values.any_arcs(rng, 2, 12)
    what = what or rng.choice(("data", "data", "data", "falsy", "null", *EXC))
    if what == "data":
        while True:
            k, t, e = values.rand_value(rng, max_bytes=60)
            if e is not None:
                return a, "data", t, e
    if what == "falsy":
        k, t, e = rng.choice(FALSY)
        return a, "data", t, e
    if what == "null":
        return a, "null", tlv(5, b"", min(16, values.form(rng))), None
    return a, what, EXC[what].tlv, None


def judge_get(ctx, vbs, o, **info):
    def bad(why):
        ctx.fail(why, varbinds=[(text(a), w, describe(e), t.hex()) for a, w, t, e in vbs], outcome=repr(o), **info)

    if not vbs:
        if not o.ok or o.value is not None:
            bad("reply without varbinds must give None")
    elif len(vbs) > 1:
        if not isinstance(o.exc, SnmpError):
            bad("reply with several varbinds must be rejected with SnmpError")
    else:
        a, w, t, e = vbs[0]
        if w == "data":
            if not o.ok or not same(e, o.value):
                bad("the value of the varbind must be returned")
        elif w == "null":
            if not o.ok or o.value is not None:
                bad("NULL must give None")
        elif not isinstance(o.exc, NoSuchInstance):
            bad(f"{w} must raise NoSuchInstance")


def judge_many(ctx, vbs, o, **info):
    def bad(why):
        ctx.fail(why, varbinds=[(text(a), w, describe(e), t.hex()) for a, w, t, e in vbs], outcome=repr(o), **info)

    if not o.ok or type(o.value) is not dict:
        bad("get_many must return a dict")
    want: dict = {}
    for a, w, t, e in vbs:
        if w == "data":
            want.setdefault(text(a), []).append(e)
    if set(o.value) != set(want):
        bad("the keys must be exactly the OIDs with real values")
    for k, v in o.value.items():
        if type(k) is not str or not any(same(e, v) for e in want[k]):
            bad(f"value of {k} differs")


def note(ctx, op, name, vbs, client):
    ctx.count(f"{client} {op}")
    ctx.count(f"cfg {name}")
    for v in vbs[:50]:
        ctx.count(f"varbind {v[1]}")
    ctx.sig(client, op, name, tuple(v[1] for v in vbs), tuple(v[2][:2] for v in vbs[:3]))
    ctx.sample({"client": client, "op": op, "cfg": name, "varbinds": [(text(a), w, describe(e)) for a, w, t, e in vbs[:5]]})


def gen(rng, op, version):
    kinds = None
    if op == "get":
        n = rng.choice((0, 1, 1, 1, 1, 2, 3, 10))
    else:
        n = rng.choice((0, 1, 2, 3, 5, 10, 30))
    vbs = [rand_vb(rng, kinds) for _ in range(n)]
    if n > 1 and rng.random() < 0.3:
        # few names for many varbinds; the same varbind several times
        k = rng.choice((1, 1, 2))
        if rng.random() < 0.3:
            vbs = [vbs[j % k] if len(vbs[j % k][2]) < 80 else v for j, v in enumerate(vbs)]
        else:
            vbs = [(vbs[j % k][0], *v[1:]) for j, v in enumerate(vbs)]
    if n > 2 and rng.random() < 0.2:
        # the same OID twice, with and without the value
        vbs[-1] = (vbs[0][0], *vbs[-1][1:])
    if n and rng.random() < 0.05:
        w = rng.choice(("null", *EXC))
        vbs = [rand_vb(rng, w) for _ in vbs]
    return vbs


def exchange(ctx, rng, name, op, vbs, **kw):
    r = common.rig(ctx, name, rng)
    asked = [v[0] for v in vbs if v[0][1] < 40] if vbs and all(v[0][1] < 40 for v in vbs) and rng.random() < 0.7 else [(1, 3, 6)]
    o, req = r.send(op, text(asked[0]) if op == "get" else [text(x) for x in asked])
    if req is None:
        ctx.fail(f"request is refused: {o!r}", cfg=repr(r.cfg))
    es, ei = rng.choice(ERR)
    f = values.form(rng)
    d = r.agent.reply(req, [msg.vb(a, t, f, values.form(rng)) for a, w, t, e in vbs], es=es, ei=ei, f=f)
    if len(d) > 4000:  # the datagram must fit the buffer of the client
        d = r.agent.reply(req, [msg.vb(a, t) for a, w, t, e in vbs], es=es, ei=ei)
    r.link.feed(d)
    return r.recv(op), {"error_status": es, "error_index": ei, "cfg": name}


def k_ll(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    op = rng.choice(("get", "get_many"))
    vbs = gen(rng, op, name)
    o, info = exchange(ctx, rng, name, op, vbs)
    note(ctx, op, name, vbs, "ll")
    (judge_get if op == "get" else judge_many)(ctx, vbs, o, **info)


# -- exhaustive table: 0..3 varbinds of every kind

W = ("data", "falsy", "null", *EXC)
COMB = [()] + [(a,) for a in W] + [(a, b) for a in W for b in W] + [(a, b, c) for a in W for b in W for c in W]
N_TABLE = len(COMB) * len(ALL_CFG)


def k_table(ctx, rng, i):
    name = ALL_CFG[i % len(ALL_CFG)]
    c = COMB[i // len(ALL_CFG) % len(COMB)]
    vbs = [rand_vb(rng, w) for w in c]
    for op in ("get", "get_many"):
        o, info = exchange(ctx, rng, name, op, vbs)
        note(ctx, op, name, vbs, "table")
        (judge_get if op == "get" else judge_many)(ctx, vbs, o, **info)
    ctx.evals(1)


# -- Reports

REPORTS = [(1, 3, 6, 1, 6, 3, 15, 1, 1, k, 0) for k in range(1, 7)] + [(1, 3, 6, 1, 6, 3, 11, 2, 1, 3, 0), (1, 3, 6, 1, 6, 3, 12, 1, 5, 0)]


def report(rng, agent, req, cfg):
    """A Report of the agent: in clear or, when it knows the user, authenticated."""
    secure = bool(cfg.auth) and rng.random() < 0.5
    vbs = [msg.vb(rng.choice(REPORTS), enc_int(rng.choice((0, 1, 2**31, 2**32 - 1)), 0x41))] if rng.random() < 0.9 else []
    return agent.wrap(req, msg.pdu(msg.REPORT, req.req_id, vbs), secure=secure), secure


def k_report(ctx, rng, i):
    name = rng.choice([x for x in ALL_CFG if x.startswith("v3")])
    r = common.rig(ctx, name, rng)
    op = rng.choice(("get", "get_many", "get", "get_many", "getnext", "getbulk"))
    it = common.it((1, 3, 6), 5)
    o, req = r.send(op, "1.3.6" if op == "get" else ["1.3.6"], it)
    if req is None:
        ctx.fail(f"request is refused: {o!r}", cfg=repr(r.cfg))
    d, secure = report(rng, r.agent, req, r.cfg)
    r.link.feed(d)
    o = r.recv(op, it)
    ctx.count(f"report secure={secure}")
    ctx.sig("report", name, op, secure)
    if not isinstance(o.exc, SnmpAuthError):
        ctx.fail(f"Report must raise SnmpAuthError: {o!r}", cfg=repr(r.cfg), op=op, datagram=d.hex())


# -- clients


class Script:
    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        self.agent = msg.Agent(cfg)
        self.bad = []
        self.vbs = None

    def handler(self, d):
        try:
            req = msg.parse_request(d, self.cfg)
        except msg.Malformed:
            self.bad.append(d)
            return []
        if self.vbs == "report":
            return [report(self.rng, self.agent, req, self.cfg)[0]]
        return [self.agent.reply(req, [msg.vb(a, t) for a, w, t, e in self.vbs])]


def plan(rng, cfg):
    r = []
    for _ in range(rng.randint(2, 5)):
        op = rng.choice(("get", "get_many"))
        r.append((op, "report" if cfg.version == "v3" and rng.random() < 0.1 else gen(rng, op, cfg.version)))
    return r


def judge(ctx, cfg, sc, op, vbs, o, client):
    if sc.bad:
        expect.parse(ctx, sc.bad[0], cfg)
    if vbs == "report":
        ctx.count(f"{client} report")
        if not isinstance(o.exc, SnmpAuthError):
            ctx.fail(f"Report must raise SnmpAuthError: {o!r}", cfg=repr(cfg), op=op, client=client)
        return
    note(ctx, op, cfg.name, vbs, client)
    (judge_get if op == "get" else judge_many)(ctx, vbs, o, cfg=repr(cfg), client=client)


def oids(rng, vbs):
    r = [text(v[0]) for v in vbs if v[0][1] < 40] if vbs and vbs != "report" else ["1.3.6"]
    # get_many takes any iterable
    return rng.choice((r, tuple(r), iter(r)))


def k_sync(ctx, rng, i):
    cfg = common.make_cfg(rng.choice(ALL_CFG), rng)
    sc = Script(rng, cfg)
    ta = common.thread_agent(ctx)
    ta.use(sc.handler)
    s = cfg.session(SyncSession, ta.port, timeout=10.0)
    p = plan(rng, cfg)
    for op, vbs in p:
        sc.vbs = vbs
        o = outcome(s.get, "1.3.6.1") if op == "get" else outcome(s.get_many, oids(rng, vbs))
        ta.check()
        judge(ctx, cfg, sc, op, vbs, o, "sync")
    ctx.evals(len(p) - 1)


def k_async(ctx, rng, i):
    cfg = common.make_cfg(rng.choice(ALL_CFG), rng)
    sc = Script(rng, cfg)
    p = plan(rng, cfg)

    async def main():
        ag = AsyncAgent(sc.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=10.0)
            for op, vbs in p:
                sc.vbs = vbs
                o = await aoutcome(s.get("1.3.6.1") if op == "get" else s.get_many(oids(rng, vbs)))
                ag.check()
                judge(ctx, cfg, sc, op, vbs, o, "async")
        finally:
            ag.close()

    common.aio(ctx).run(main())
    ctx.evals(len(p) - 1)


KINDS = {
    "table": Kind(k_table, N_TABLE, 4 * N_TABLE),
    "ll": Kind(k_ll, 60_000, 2_000_000),
    "report": Kind(k_report, 6_000, 200_000),
    "sync": Kind(k_sync, 4_000, 100_000),
    "async": Kind(k_async, 4_000, 100_000),
}

"""C02: response values reach the caller exactly as the agent encoded them."""

from __future__ import annotations

from lib import common, msg, values
from lib.ber import arc, text
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import AsyncSession, SyncSession
from lib.net import AsyncAgent, aoutcome, outcome
from lib.values import Real, describe, same

PROP = "C02"
MAX_MSG = 4080


def names_under(rng, base, n):
    """n increasing names strictly below base."""
    out = set()
    while len(out) < n:
        out.add(base + tuple(values.rand_arc(rng) for _ in range(rng.randint(1, 6))))
    return sorted(out)


def chain(rng, names, keep):
    """Names of which some are sent as RELATIVE-OID.

    n arcs replace the last n arcs of the previous name. Only the names
    which leave more than the two root arcs of the previous one are taken.
    """
    out, rel = [names[0]], {}
    while len(out) < len(names):
        a = out[-1]
        m = len(a) - max(3, keep)
        if m < 1 or a[-1] == 0xFFFFFFFF or rng.random() < 0.3:
            # Absolute
            a = (*a, *(values.rand_arc(rng) for _ in range(rng.randint(1, 3))))
        else:
            n = rng.randint(1, m)
            if a[-n] == 0xFFFFFFFF:
                n = 1
            up = min(0xFFFFFFFF, a[-n] + rng.choice((1, 1, 127, 128, 16384, 1 << 30)))
            tail = (up, *(values.rand_arc(rng) for _ in range(n - 1)))
            a = (*a[:-n], *tail)
            rel[a] = tail  # always increasing, so every name is met once
        out.append(a)
    return out, rel


def cls(v):
    """Magnitude class for the coverage signature."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return ("i", v < 0, v.bit_length())
    if isinstance(v, Real):
        return ("r", v.special if v.special is not None else (v.exact.numerator.bit_length(), v.exact.denominator.bit_length()))
    return (type(v).__name__, len(v))


def gen(rng, op, kinds=None, nmax=40):
    """(base, [(arcs, kind, tlv, expected, vb)])"""
    base = values.rand_arcs(rng, 2, 5)
    if op == "get":
        n = rng.choice((0, 1, 1, 1, 1, 1, 1))
    elif op == "getnext":
        n = 1
    else:
        n = rng.choice((0, 1, 2, 3, 5, 8, 13, 20, rng.randint(0, nmax)))
    if op in ("get", "get_many"):
        names = [values.any_arcs(rng, 2, 20) for _ in range(n)]
        if n > 2 and rng.random() < 0.1:
            names[-1] = names[0]
    else:
        names = names_under(rng, base, n)
    rel = {}
    if len(names) > 1 and rng.random() < 0.15:
        names, rel = chain(rng, names, len(base))
    vbs = []
    total = 0
    for a in names:
        while True:
            k, t, e = values.rand_value(rng, rng.choice(kinds) if kinds else None, max_bytes=None if n < 15 else 60)
            if e is None and op in ("getnext", "getbulk"):
                continue
            break
        name = values.tlv(0x0D, b"".join(map(arc, rel[a])), values.form(rng)) if a in rel else a
        b = msg.vb(name, t, values.form(rng), values.form(rng))
        total += len(b)
        if total > MAX_MSG - 350:
            break
        vbs.append((a, k, t, e, b))
    if op == "getnext" and not vbs:
        return gen(rng, op, kinds)
    return base, vbs


def judge(ctx, op, vbs, o, **info):
    """Compare the outcome with the model."""

    def bad(why):
        ctx.fail(
            why,
            op=op,
            outcome=repr(o),
            expected=[(text(a), k, describe(e)) for a, k, t, e, b in vbs][:50],
            tlvs=[t.hex() for a, k, t, e, b in vbs][:50],
            **info,
        )

    if op == "getbulk" and not vbs:
        if not isinstance(o.exc, StopAsyncIteration):
            bad("empty reply must end the walk")
        return
    if not o.ok:
        bad(f"well-formed reply is not delivered: {o.kind}")
    v = o.value
    if op == "get":
        exp = vbs[0][3] if vbs else None
        if not same(exp, v):
            bad("value differs")
    elif op == "get_many":
        want: dict = {}
        for a, _, _, e, _ in vbs:
            if e is not None:
                want.setdefault(text(a), []).append(e)
        if type(v) is not dict or set(v) != set(want):
            bad("keys differ")
        for k, c in want.items():
            if type(k) is not str or not any(same(e, v[k]) for e in c):
                bad(f"value of {k} differs")
    elif op == "getnext":
        a, _, _, e, _ = vbs[0]
        if type(v) is not tuple or len(v) != 2 or v[0] != text(a) or not same(e, v[1]):
            bad("pair differs")
    else:
        v = [x for x in v if x is not None]
        if len(v) != len(vbs):
            bad("number of pairs differs")
        for (a, _, _, e, _), x in zip(vbs, v):
            if x[0] != text(a) or not same(e, x[1]):
                bad(f"pair {text(a)} differs")


def observed(ctx, op, name, vbs):
    ctx.count(f"op {op}")
    ctx.count(f"cfg {name}")
    ctx.count("varbinds judged", len(vbs))
    for _, k, _, e, _ in vbs:
        ctx.count(f"value {k}")
        ctx.sig(op, name if len(vbs) < 2 else name[:2], k, cls(e))
    ctx.sample({"op": op, "cfg": name, "varbinds": [(text(a), k, describe(e), t.hex()) for a, k, t, e, b in vbs[:4]]})


def ll_exchange(ctx, rng, name, op, base, vbs, f):
    r = common.rig(ctx, name, rng)
    it = common.it(base, 40) if op in ("getnext", "getbulk") else None
    arg = text(base) if op == "get" else [text(base)]
    o, req = r.send(op, arg, it)
    if req is None:
        ctx.fail("request was not sent", op=op, outcome=repr(o), base=base)
    d = r.agent.reply(req, [b for *_, b in vbs], f=f)
    if f > 4 and len(d) > 4000:  # must fit the buffer of the client
        d = r.agent.reply(req, [b for *_, b in vbs], f=4)
    r.link.feed(d)
    return r.recv(op, it)


OPS = ("get", "get_many", "getnext", "getbulk")


def k_ll(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    op = rng.choice(OPS if name != "v1" else OPS[:3])
    base, vbs = gen(rng, op)
    o = ll_exchange(ctx, rng, name, op, base, vbs, values.form(rng))
    observed(ctx, op, name, vbs)
    judge(ctx, op, vbs, o, cfg=name)


SMALL = ("int", "bool", "null", "counter32", "gauge32", "timeticks", "octets", "ip")


def k_many(ctx, rng, i):
    """Replies of up to hundreds of varbinds: as many as there is room for."""
    name = rng.choice(ALL_CFG)
    op = rng.choice(("get_many", "getbulk") if name != "v1" else ("get_many",))
    base = rng.choice(((1, 3), (1, 3, 6), (0, 0), (2, 5, 4)))
    n = rng.choice((41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 600))
    names = [(*base, k) if k < 128 else (*base, 127 + k // 128, k % 128) for k in range(n)]
    x = rng.random()
    if x < 0.25 and op == "get_many":
        # names of one octet
        names = [(k // 40, k % 40) if k < 80 else (2, k - 80) for k in (j % 128 for j in range(n))]
    elif x < 0.35:
        base = (1, 3)
        names = [(*base, k % 128) for k in range(n if op == "get_many" else min(n, 128))]
    if op == "get_many":
        if rng.random() < 0.5:
            rng.shuffle(names)
        if rng.random() < 0.2:
            names[-1] = names[rng.randrange(n)]
    kinds = [k for k in SMALL if k in values.KINDS]
    kinds = rng.choice((kinds, kinds, [rng.choice(kinds)]))
    size = rng.choice((8, 8, 1, 0))
    if not size:
        kinds = ["octets", "opaque"]
    vbs, total = [], 0
    for a in names:
        while True:
            k, t, e = values.rand_value(rng, rng.choice(kinds), f=0, max_bytes=size)
            if e is not None or op == "get_many":
                break
            kinds = [*kinds, "int"]
        b = msg.vb(a, t)
        total += len(b)
        if total > MAX_MSG - 350:
            break
        vbs.append((a, k, t, e, b))
    r = common.rig(ctx, name, rng)
    it = common.it(base, 1000) if op == "getbulk" else None
    o, req = r.send(op, [text(base)], it)
    if req is None:
        ctx.fail("request was not sent", op=op, outcome=repr(o), base=base)
    r.link.feed(r.agent.reply(req, [b for *_, b in vbs], f=rng.choice((0, 0, 2, 4))))
    o = r.recv(op, it)
    ctx.count(f"op {op}, many")
    ctx.count("varbinds judged", len(vbs))
    ctx.sig("many", op, name, len(vbs), tuple(sorted(set(kinds))))
    judge(ctx, op, vbs, o, cfg=name)


# -- every boundary value of every type, alone and between neighbours
def _grid():
    g = []
    for v in values.I64:
        g.append(("int", values.tlv(2, values.int_content(v)), v))
    for k, t in values.U_TAGS.items():
        for v in values.U32:
            g.append((k, values.tlv(t, values.int_content(v)), v))
    for v in values.U64:
        g.append(("counter64", values.tlv(0x46, values.int_content(v)), v))
    for n in (0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 1000, 3000):
        for k, t in (("octets", 4), ("opaque", 0x44), ("descriptor", 7)):
            b = bytes((i * 7 + n) & 255 for i in range(n))
            g.append((k, values.tlv(t, b), b))
    for b in range(256):
        g.append(("bool", values.tlv(1, bytes((b,))), b != 0))
        q = bytes((b, 255 - b, b ^ 0x80, 0))
        g.append(("ip", values.tlv(0x40, q), ".".join(map(str, q))))
    for a in values.ARCS:
        for first in (0, 1, 2):
            for second in (0, 39):
                x = (first, second, a)
                g.append(("oid", values.tlv(6, values.oid_content(x)), text(x)))
                x = (first, second, a, 0, a, 1)
                g.append(("oid", values.tlv(6, values.oid_content(x)), text(x)))
    for first in (0, 1, 2):
        for second in (*range(40), *(values.WIDE if first == 2 else ())):
            x = (first, second)
            g.append(("oid", values.tlv(6, values.oid_content(x)), text(x)))
    for c, r in (
        (b"", Real(special=0.0)),
        (b"\x40", Real(special=values.math.inf)),
        (b"\x41", Real(special=-values.math.inf)),
        (b"\x42", Real(special="nan")),
        (b"\x43", Real(special=-0.0)),
    ):
        g.append(("real", values.tlv(9, c), r))
    for base in (2, 8, 16):
        for f in range(4):
            for e, ln in ((0, 1), (1, 1), (-1, 1), (127, 1), (-128, 1), (128, 2), (-129, 2), (300, 2), (-250, 2), (5, 3), (-5, 3)):
                for n in (1, 3, 255, 256, 2**31, 2**32 - 1, 2**32 + 1, 2**53 - 1, 2**53 + 1, 2**64 - 1):
                    for s in (1, -1):
                        g.append(("real", values.tlv(9, values.real_binary(s, base, f, n, e, ln)), values.real_binary_value(s, base, f, n, e)))
    return g


GRID = _grid()


def k_grid(ctx, rng, i):
    k, t, e = GRID[i % len(GRID)]
    name = rng.choice(ALL_CFG) if i >= len(GRID) else "v2c"
    op = rng.choice(OPS if name != "v1" else OPS[:3])
    base = (1, 3, 6, 1)
    pos = 0
    row = [(k, t, e)]
    if op in ("get_many", "getbulk"):
        pos = rng.randint(0, 2)
        row = [("octets", values.tlv(4, b"\x82\x01\xff\x7f"), b"\x82\x01\xff\x7f") for _ in range(2)]
        row.insert(pos, (k, t, e))
    vbs = []
    for n, (k, t, e) in enumerate(row):
        a = (*base, n + 1)
        vbs.append((a, k, t, e, msg.vb(a, t)))
    o = ll_exchange(ctx, rng, name, op, base, vbs, 0)
    observed(ctx, op, name, vbs)
    judge(ctx, op, vbs, o, cfg=name, position=pos)


def walk_calls(op, s, base, vbs):
    if op == "get":
        return lambda: s.get(text(base))
    if op == "get_many":
        return lambda: s.get_many([text(base)])
    if op == "getnext":
        return lambda: next(s.getnext(text(base)))
    return lambda: [x for _, x in zip(vbs, s.getbulk(text(base), 40))]


def k_sync(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    op = rng.choice(OPS if name != "v1" else OPS[:3])
    base, vbs = gen(rng, op)
    if op == "getbulk" and not vbs:
        return
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)
    ta = common.thread_agent(ctx)
    ta.use(common.v3_handler(cfg, agent, lambda req: [agent.reply(req, [b for *_, b in vbs])]))
    s = cfg.session(SyncSession, ta.port, timeout=30.0)
    o = outcome(walk_calls(op, s, base, vbs))
    ta.check()
    observed(ctx, op, "sync " + name, vbs)
    judge(ctx, op, vbs, o, cfg=name, client="sync")


def k_async(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    op = rng.choice(OPS if name != "v1" else OPS[:3])
    base, vbs = gen(rng, op)
    if op == "getbulk" and not vbs:
        return
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)

    async def call(s):
        if op == "get":
            return await s.get(text(base))
        if op == "get_many":
            return await s.get_many([text(base)])
        if op == "getnext":
            return await s.getnext(text(base)).__anext__()
        g = s.getbulk(text(base), 40)
        return [await g.__anext__() for _ in vbs]

    async def main():
        ag = AsyncAgent(common.v3_handler(cfg, agent, lambda req: [agent.reply(req, [b for *_, b in vbs])]))
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=30.0)
            o = await aoutcome(call(s))
            ag.check()
            return o
        finally:
            ag.close()

    o = common.aio(ctx).run(main())
    observed(ctx, op, "async " + name, vbs)
    judge(ctx, op, vbs, o, cfg=name, client="async")


KINDS = {
    "grid": Kind(k_grid, 2 * len(GRID), 9 * len(GRID)),
    "ll": Kind(k_ll, 160_000, 1_500_000),
    "many": Kind(k_many, 8_000, 100_000),
    "sync": Kind(k_sync, 7000, 100_000),
    "async": Kind(k_async, 7000, 100_000),
}

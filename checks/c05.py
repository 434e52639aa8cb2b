"""C05: a walk returns the whole subtree, in order, once - by GetNext or GetBulk."""

from __future__ import annotations

from lib import common, expect, msg, values
from lib.ber import enc_int, text
from lib.common import ALL_CFG
from lib.driver import Kind
from lib.host import AsyncSession, SyncSession
from lib.mib import Mib, MibAgent, dense_mib, rand_base, rand_caps, rand_mib
from lib.net import AsyncAgent, Out, aoutcome, outcome
from lib.values import describe, same

PROP = "C05"


def judge(ctx, mib, base, got, o, **info):
    """got: the items yielded; o: how the iteration has ended."""
    want = mib.below(base)

    def bad(why):
        ctx.fail(
            why,
            base=text(base),
            mib=[(text(a), t.hex(), describe(e)) for a, t, e in mib.entries][:80],
            expected=[text(a) for a, *_ in want][:80],
            yielded=[repr(x)[:100] for x in got][:80],
            end=repr(o),
            **info,
        )

    if o.exc is not None:
        bad(f"the walk has failed: {o!r}")
    for n, (x, (a, _, e)) in enumerate(zip(got, want)):
        if type(x) is not tuple or len(x) != 2:
            bad(f"item {n} is not a pair")
        if x[0] != text(a):
            bad(f"item {n} is {x[0]}, expected {text(a)}")
        if not same(e, x[1]):
            bad(f"value of {x[0]} is {x[1]!r}, expected {describe(e)}")
    if len(got) > len(want):
        bad(f"{len(got) - len(want)} extra items")
    if len(got) < len(want):
        bad(f"{len(want) - len(got)} entries are lost")


def ll_walk(ctx, r, op, base, mr, agent, limit):
    """Drive the low level iterators the way the clients do."""
    it = common.it(base, mr if op == "getbulk" else None)
    got = []
    for n in range(limit):
        if n & 255 == 255:
            ctx.beat()
        o, d = r.link.request(*common.SEND(r.sock, op, None, it))
        if not o.ok or d is None:
            return got, o if o.exc is not None else Out(exc=RuntimeError("nothing is sent"))
        req = expect.parse(ctx, d, r.cfg)
        vbs, es, ei = agent.respond(req)
        r.link.feed(r.agent.reply(req, vbs, es=es, ei=ei))
        o = r.recv(op, it)
        if isinstance(o.exc, StopAsyncIteration):
            return got, Out(None)
        if not o.ok:
            return got, o
        if op == "getnext":
            got.append(o.value)
        else:
            if not o.value:
                return got, Out(None)
            for x in o.value:
                if x is None:
                    return got, Out(None)
                got.append(x)
    return got, Out(exc=RuntimeError("the walk does not stop"))


def params(rng, cfg):
    op = "getnext" if cfg.version == "v1" else rng.choice(("getnext", "getbulk", "getbulk"))
    return op, rng.choice((1, 1, 2, 3, 5, 10, 20, 50, 100, 1000)), rng.choice((1, 2, 3, 7, 1000, 1000))


def k_ll(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    r = common.rig(ctx, name, rng)
    base = rand_base(rng)
    big = rng.random() < 0.1
    mib = rand_mib(rng, base, rng.choice((0, 1, 2, 3, 8, 20, 40)), 300 if big else 30)
    op, mr, cap = params(rng, r.cfg)
    ag = MibAgent(mib, r.cfg.version, cap, rng.random() < 0.6, rng.choice((200, 1000, 3600)), min(16, values.form(rng)))
    ag.caps = rand_caps(rng)
    got, o = ll_walk(ctx, r, op, base, mr, ag, len(mib.entries) + 5)
    want = mib.below(base)
    ctx.count(f"walk {op}")
    ctx.count(f"cfg {name}")
    ctx.count("entries", len(want))
    ctx.count("requests answered", ag.requests)
    ctx.sig(name[:3], op, min(mr, 60), cap, len(want), len(mib.entries), len(base))
    ctx.sample({"cfg": name, "op": op, "base": text(base), "max_repetitions": mr, "cap": cap, "entries": [text(a) for a, *_ in want][:10]})
    judge(ctx, mib, base, got, o, cfg=repr(r.cfg), op=op, max_repetitions=mr, cap=ag.caps or cap, fill=ag.fill, client="ll")


def k_dense(ctx, rng, i):
    """Large tables of short entries: replies of hundreds of varbinds."""
    name = rng.choice([n for n in ALL_CFG if n != "v1"])
    r = common.rig(ctx, name, rng)
    base = rng.choice(((1, 3), (1, 3, 6), (1, 3, 6, 1), (2, 39, 1)))
    mib = dense_mib(rng, base, rng.choice((60, 120, 127, 128, 129, 255, 256, 257, 300, 500)))
    mr = rng.choice((100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 65535, 2**31 - 1))
    ag = MibAgent(mib, r.cfg.version, rng.choice((150, 1000)), rng.random() < 0.2, 3700)
    ag.caps = rand_caps(rng)
    op = "getbulk"
    if rng.random() < 0.05:  # long walks
        mib = dense_mib(rng, base, rng.choice((600, 1100, 2100)))
        ag.mib = mib
        op, mr = rng.choice((("getnext", 1), ("getbulk", 1), ("getbulk", 2), ("getbulk", 10)))
    got, o = ll_walk(ctx, r, op, base, mr, ag, len(mib.entries) + 5)
    want = mib.below(base)
    ctx.count(f"walk {op}, dense")
    ctx.count("entries", len(want))
    ctx.sig("dense", name, mr, ag.cap, len(want), ag.requests)
    judge(ctx, mib, base, got, o, cfg=repr(r.cfg), op=op, max_repetitions=mr, cap=ag.caps or ag.cap, fill=ag.fill, client="ll")


def k_huge(ctx, rng, i):
    """Tables of tens of thousands of entries in one walk."""
    op, mr, n = (("getnext", 1, 70_000), ("getbulk", 20, 70_000), ("getbulk", 1, 9_000), ("getbulk", 100, 140_000), ("getnext", 1, 9_000), ("getbulk", 2, 9_000), ("getbulk", 255, 70_000), ("getnext", 1, 3_000))[i % 8]
    name = rng.choice(("v1", "v2c")) if op == "getnext" else "v2c" if n > 10_000 else rng.choice([x for x in ALL_CFG if x != "v1"])
    r = common.rig(ctx, name, rng)
    base = rng.choice(((1, 3, 6, 1), (1, 3, 6, 1, 2, 1, 2, 2, 1)))
    mib = dense_mib(rng, base, n)
    ag = MibAgent(mib, r.cfg.version, 1000, rng.random() < 0.5, 3600)
    ag.caps = rand_caps(rng)
    got, o = ll_walk(ctx, r, op, base, mr, ag, len(mib.entries) + 5)
    want = mib.below(base)
    ctx.count(f"walk {op}, huge")
    ctx.count("entries", len(want))
    ctx.sig("huge", name, op, mr, len(want))
    if o.exc is not None or len(got) != len(want):
        ctx.fail(f"the walk of {len(want)} entries yields {len(got)} and ends with {o!r}", base=text(base), last=repr(got[-3:]), op=op, max_repetitions=mr, cfg=repr(r.cfg), requests=ag.requests)
    judge(ctx, mib, base, got, o, cfg=repr(r.cfg), op=op, max_repetitions=mr, client="ll")


# -- exhaustive: every subset of the small universe from every base

UNI = [(1, 3, 1), (1, 3, 1, 0), (1, 3, 1, 1), (1, 3, 1, 1, 0), (1, 3, 1, 128), (1, 3, 2), (1, 3, 10), (1, 3, 128)]
BASES = [(1, 3), (1, 3, 1), (1, 3, 1, 1), (1, 3, 2), (1, 3, 0), (1, 4), (0, 0)]
N_EX = (1 << len(UNI)) * len(BASES)
VARIANTS = [("v1", "getnext", 0, 0, True), ("v2c", "getnext", 0, 0, True)] + [("v2c", "getbulk", m, c, f) for m, c, f in ((1, 99, True), (2, 99, True), (2, 99, False), (3, 2, True), (20, 99, True), (20, 99, False))]


def k_small(ctx, rng, i):
    sub, base = i % (1 << len(UNI)), BASES[i // (1 << len(UNI)) % len(BASES)]
    mib = Mib([(a, enc_int(n), n) for n, a in enumerate(UNI) if sub >> n & 1])
    for ver, op, mr, cap, fill in VARIANTS:
        r = common.rig(ctx, ver, rng, 0)
        ag = MibAgent(mib, ver, cap, fill)
        got, o = ll_walk(ctx, r, op, base, mr, ag, len(UNI) + 3)
        judge(ctx, mib, base, got, o, cfg=ver, op=op, max_repetitions=mr, cap=cap, fill=fill)
        ctx.count(f"exhaustive {op}")
    ctx.evals(len(VARIANTS) - 1)
    ctx.sig("small", i)


# -- clients


def cut(rng):
    return rng.choice((0, 1, 2, 5, 12, 30, 60))


def k_sync(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    base = rand_base(rng)
    mib = rand_mib(rng, base, cut(rng))
    agent = msg.Agent(cfg)
    _, mr, cap = params(rng, cfg)
    ma = MibAgent(mib, cfg.version, cap, rng.random() < 0.6)
    ma.caps = rand_caps(rng)
    bad = []

    def h(d):
        try:
            req = msg.parse_request(d, cfg)
        except msg.Malformed:
            bad.append(d)
            return []
        vbs, es, ei = ma.respond(req)
        return [agent.reply(req, vbs, es=es, ei=ei)]

    ta = common.thread_agent(ctx)
    ta.use(h)
    allow = rng.random() < 0.6
    s = cfg.session(SyncSession, ta.port, timeout=10.0, allow_bulk=allow, max_repetitions=mr)
    for op in ("getnext", "fetch") if cfg.version == "v1" else ("getnext", "getbulk", "fetch"):
        got = []

        def run():
            g = {"getnext": lambda: s.getnext(text(base)), "fetch": lambda: s.fetch(text(base)), "getbulk": lambda: s.getbulk(text(base)) if rng.random() < 0.5 else s.getbulk(text(base), mr)}[op]()
            for x in g:
                got.append(x)
                if len(got) > len(mib.entries) + 3:
                    raise RuntimeError("the walk does not stop")

        o = outcome(run)
        ta.check()
        if bad:
            expect.parse(ctx, bad[0], cfg)
        ctx.count(f"sync {op}")
        ctx.sig("sync", name, op, min(mr, 60), cap, len(got), allow)
        judge(ctx, mib, base, got, o, cfg=repr(cfg), op=op, max_repetitions=mr, cap=cap, allow_bulk=allow, client="sync")


def k_async(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    base = rand_base(rng)
    mib = rand_mib(rng, base, cut(rng))
    agent = msg.Agent(cfg)
    _, mr, cap = params(rng, cfg)
    ma = MibAgent(mib, cfg.version, cap, rng.random() < 0.6)
    ma.caps = rand_caps(rng)
    bad = []

    def h(d):
        try:
            req = msg.parse_request(d, cfg)
        except msg.Malformed:
            bad.append(d)
            return []
        vbs, es, ei = ma.respond(req)
        return [agent.reply(req, vbs, es=es, ei=ei)]

    allow = rng.random() < 0.6

    async def main():
        ag = AsyncAgent(h)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=10.0, allow_bulk=allow, max_repetitions=mr)
            for op in ("getnext", "fetch") if cfg.version == "v1" else ("getnext", "getbulk", "fetch"):
                got = []

                async def run():
                    g = {"getnext": lambda: s.getnext(text(base)), "fetch": lambda: s.fetch(text(base)), "getbulk": lambda: s.getbulk(text(base)) if rng.random() < 0.5 else s.getbulk(text(base), mr)}[op]()
                    async for x in g:
                        got.append(x)
                        if len(got) > len(mib.entries) + 3:
                            raise RuntimeError("the walk does not stop")

                o = await aoutcome(run())
                ag.check()
                if bad:
                    expect.parse(ctx, bad[0], cfg)
                ctx.count(f"async {op}")
                ctx.sig("async", name, op, min(mr, 60), cap, len(got), allow)
                judge(ctx, mib, base, got, o, cfg=repr(cfg), op=op, max_repetitions=mr, cap=cap, allow_bulk=allow, client="async")
        finally:
            ag.close()

    common.aio(ctx).run(main())


def k_inter(ctx, rng, i):
    """Several walks and plain requests share one session, step by step."""
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)
    base0 = rand_base(rng)
    mib = rand_mib(rng, base0, rng.choice((3, 8, 20)))
    ma = MibAgent(mib, cfg.version, rng.choice((1, 2, 3, 1000)), rng.random() < 0.6)
    ma.caps = rand_caps(rng)

    def h(d):
        req = msg.parse_request(d, cfg)
        vbs, es, ei = ma.respond(req)
        return [agent.reply(req, vbs, es=es, ei=ei)]

    ta = common.thread_agent(ctx)
    ta.use(h)
    s = cfg.session(SyncSession, ta.port, timeout=10.0, max_repetitions=rng.choice((1, 2, 3, 20)))
    walks = []
    for _ in range(rng.randint(2, 4)):
        b = base0 if rng.random() < 0.5 or len(base0) < 3 else base0[: rng.randint(2, len(base0))]
        op = "getnext" if cfg.version == "v1" else rng.choice(("getnext", "getbulk", "fetch"))
        walks.append([b, op, iter(getattr(s, op)(text(b))), [], None])
    steps = 0
    while any(w[4] is None for w in walks):
        w = rng.choice([w for w in walks if w[4] is None])
        o = outcome(next, w[2])
        if o.ok:
            w[3].append(o.value)
        else:
            w[4] = Out(None) if isinstance(o.exc, StopIteration) else o
        if rng.random() < 0.2:
            outcome(s.get, text(base0))
        steps += 1
        if len(w[3]) > len(mib.entries) + 3:
            w[4] = Out(exc=RuntimeError("the walk does not stop"))
    ta.check()
    for b, op, _, got, o in walks:
        ctx.count("interleaved walks")
        ctx.sig("inter", name, op, len(got), len(walks))
        judge(ctx, mib, b, got, o, cfg=repr(cfg), op=op, client="sync, interleaved", cap=ma.cap)
    ctx.evals(len(walks) - 1)


KINDS = {
    "inter": Kind(k_inter, 1_500, 40_000),
    "small": Kind(k_small, N_EX, N_EX),
    "ll": Kind(k_ll, 40_000, 400_000),
    "huge": Kind(k_huge, 8, 64),
    "dense": Kind(k_dense, 600, 20_000),
    "sync": Kind(k_sync, 5_000, 80_000),
    "async": Kind(k_async, 5_000, 80_000),
}

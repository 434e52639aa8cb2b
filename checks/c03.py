"""C03: requests on the wire are exactly what the caller asked for."""

from __future__ import annotations

import sys
import threading

from lib import common, expect, host, marathon, msg, values
from lib.ber import enc_int, text
from lib.common import ALL_CFG
from lib.driver import Kind, Violation
from lib.host import AsyncSession, SyncSession
from lib.net import AsyncAgent, aoutcome, outcome

PROP = "C03"
OPS = {"v1": ("get", "get_many", "getnext"), "v2c": ("get", "get_many", "getnext", "getbulk"), "v3": ("get", "get_many", "getnext", "getbulk", "refresh")}
MAXREP = (0, 1, 2, 10, 20, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**23 - 1, 2**23, 2**31 - 1)
BAD_OIDS = ("", "1", "1.3.x", "1.3.6.1.4294967296", ".1.3.6", "1..3", "hello", "3.1.1", "1.40.1")


class Sess:
    """Session with what is known about it."""

    def __init__(self, ctx, rng, name, engine=None):
        self.rig = common.Rig(common.make_cfg(name, rng, engine_id=engine))
        self.name = name
        self.cfg = self.rig.cfg
        self.header = (0, 0)
        self.pending = None  # (op, req, it)

    def close(self):
        self.rig.link.close()


def rand_oids(rng, op):
    if op == "get_many":
        n = rng.choice((0, 1, 2, 3, 7, 20, 40))
        x = rng.random()
        if x < 0.03:
            # hundreds of the shortest ones, about as many as fit
            n = rng.choice((100, 127, 128, 129, 255, 256, 257, 300, 400, rng.randint(100, 400)))
            hi = rng.choice((127, 127, 300))
            return [(1, 3, *(rng.randint(0, hi) for _ in range(rng.choice((0, 0, 1))))) for _ in range(n)]
        if x < 0.1:
            # the same ones again and again, sorted either way, prefixes of each other
            a = values.rand_arcs(rng, 4, 8)
            r = [a[: rng.randint(2, len(a))] for _ in range(rng.randint(2, 12))]
            k = rng.randrange(3)
            return sorted(r) if k == 0 else sorted(r, reverse=True) if k == 1 else [rng.choice((a, r[0])) for _ in r]
    else:
        n = 0 if op == "refresh" else 1
    m = 40 if n < 5 else 12
    r = [values.rand_arcs(rng, 2, rng.choice((3, 10, m))) for _ in range(n)]
    if n == 1 and rng.random() < 0.05:
        # up to the long forms at every level
        r = [values.rand_arcs(rng, 100, 128, 0.9)]
    return r


def issue(ctx, rng, s: Sess, link=None):
    """Send random request, check what is on the wire."""
    op = rng.choice(OPS[s.cfg.version])
    oids = rand_oids(rng, op)
    it = mr = None
    if op == "getnext":
        it = common.it(oids[0])
    elif op == "getbulk":
        mr = rng.choice(MAXREP) if rng.random() < 0.6 else rng.randrange(1 << rng.randint(1, 31))
        it = common.it(oids[0], mr)
    arg = text(oids[0]) if op == "get" else [text(o) for o in oids]
    o, d = s.rig.link.request(*common.SEND(s.rig.sock, op, arg, it))
    if not o.ok:
        ctx.fail(f"request which fits is refused: {o!r}", cfg=repr(s.cfg), op=op, wanted=[text(x) for x in oids])
    if d is None:
        ctx.fail("nothing is sent", cfg=repr(s.cfg), op=op)
    req = expect.parse(ctx, d, s.cfg, op=op, wanted=[text(x) for x in oids])
    expect.check_request(ctx, req, s.cfg, op, oids, mr, header=s.header if s.cfg.version == "v3" else None)
    if (x := s.rig.link.peer.recv()) is not None:
        ctx.fail("more than one datagram is sent", cfg=repr(s.cfg), op=op, datagrams=[d.hex(), x.hex()])
    s.pending = (op, req, it)
    ctx.count(f"op {op}")
    ctx.count(f"cfg {s.name}")
    ctx.sig(s.name, op, len(oids), len(d), mr.bit_length() if mr else 0)
    ctx.sample({"cfg": repr(s.cfg), "op": op, "oids": [text(x) for x in oids][:4], "datagram": d.hex()[:300]})
    return req


def refused(ctx, rng, s: Sess):
    """A request which cannot be made: nothing may be sent."""
    if rng.random() < 0.5:
        oid = rng.choice(BAD_OIDS)
        fn = (s.rig.sock.send_get, oid) if rng.random() < 0.5 else (s.rig.sock.send_get_many, ["1.3.6.1", oid])
    else:
        fn = (s.rig.sock.send_get_many, [text(values.rand_arcs(rng, 60, 60, 1.0)) for _ in range(60)])
    o, d = s.rig.link.request(*fn)
    ctx.count("refused requests in between")
    if o.ok:
        ctx.fail("the request must be refused", cfg=repr(s.cfg), args=repr(fn[1])[:300])
    if d is not None or (d := s.rig.link.peer.recv()) is not None:
        ctx.fail("refused request is sent", cfg=repr(s.cfg), datagram=d.hex())


def answer(ctx, rng, s: Sess):
    """Genuine reply, new boots/time."""
    if s.pending is None:
        return
    op, req, it = s.pending
    ag = s.rig.agent
    if s.cfg.version == "v3" and rng.random() < 0.7:
        ag.boots = rng.choice((0, 1, 5, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, rng.getrandbits(31)))
        ag.time = rng.choice((0, 1, 127, 128, 32767, 32768, 2**31 - 1, rng.getrandbits(31)))
    n = 0 if op == "refresh" else 1 if op in ("get", "getnext") else rng.randint(0, 5)
    vbs = [msg.vb((*(req.oids[0] if req.oids else (1, 3)), i), values.rand_value(rng, max_bytes=rng.choice((4, 100)))[1]) for i in range(n)]
    s.rig.link.feed(ag.reply(req, vbs, f=values.form(rng)))
    s.rig.recv(op, it)
    s.header = (ag.boots, ag.time)
    s.pending = None
    ctx.count("replies processed in between")


def garbage(ctx, rng, s: Sess):
    """Datagrams which are refused leave their octets in the pooled buffer."""
    s.rig.link.feed(rng.randbytes(rng.choice((1, 20, 500, 4080))) if rng.random() < 0.5 else b"\xff" * 4080)
    s.rig.recv("get", blocks=True)
    ctx.count("garbage processed in between")


def k_history(ctx, rng, i):
    names = [rng.choice(ALL_CFG) for _ in range(rng.randint(1, 4))]
    # Sessions may share the engine and the keys may differ
    ss = [Sess(ctx, rng, n) for n in names]
    n = 0
    try:
        for _ in range(rng.randint(4, 24)):
            s = rng.choice(ss)
            k = rng.random()
            if k < 0.55:
                issue(ctx, rng, s)
                n += 1
            elif k < 0.8:
                answer(ctx, rng, s)
            elif k < 0.9:
                refused(ctx, rng, s)
            else:
                garbage(ctx, rng, s)
    finally:
        for s in ss:
            s.close()
    ctx.evals(max(n - 1, 0))


def k_threads(ctx, rng, i):
    """Several threads share the pool: each one must see its own requests only."""
    import random

    nt = rng.choice((2, 3, 4, 6))
    names = [rng.choice(ALL_CFG) for _ in range(nt)]
    ss = [Sess(ctx, rng, n) for n in names]
    seeds = [rng.getrandbits(64) for _ in ss]
    errors = []
    rounds = 12
    start = threading.Barrier(nt)

    def run(s, seed):
        r = random.Random(seed)
        try:
            start.wait()
            for _ in range(rounds):
                issue(ctx, r, s)
                if r.random() < 0.6:
                    answer(ctx, r, s)
                if r.random() < 0.1:
                    garbage(ctx, r, s)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=x) for x in zip(ss, seeds)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(sw)
        for s in ss:
            s.close()
    for e in errors:
        if isinstance(e, Violation):
            raise e
    if errors:
        raise errors[0]
    ctx.count("concurrent requests", nt * rounds)
    ctx.count(f"threads {nt}")
    ctx.evals(nt * rounds - 1)


# -- the API layers


def shape(rng, oids):
    """Iterables of the OIDs."""
    k = rng.randrange(6)
    if k == 0:
        return (x for x in oids)
    if k == 1:
        return tuple(oids)
    if k == 2:
        return map(str, oids)
    if k == 3 and len(set(oids)) == len(oids):
        return dict.fromkeys(oids)
    if k == 4:
        return iter(oids)
    return oids


def api_plan(rng, version):
    calls = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(("get", "get_many", "getnext", "getbulk", "fetch", "fetch"))
        if op == "getbulk" and version == "v1":
            op = "fetch"
        mr = rng.choice((None, None, 1, 7, 50, 200, 100000))
        calls.append((op, rand_oids(rng, "get_many" if op == "get_many" else "get"), mr))
    return calls


def expected_calls(cfg, calls, allow_bulk, default_mr):
    """Requests of the session level calls: (op, oids, maxrep)."""
    r = []
    for op, oids, mr in calls:
        if op == "fetch":
            bulk = cfg.version != "v1" and allow_bulk
            r.append(("getbulk" if bulk else "getnext", oids, default_mr if bulk else None))
        elif op == "getbulk":
            r.append((op, oids, default_mr if mr is None else mr))
        else:
            r.append((op, oids, None))
    return r


def check_log(ctx, cfg, log, exp, client, user=None):
    if len(log) != len(exp):
        ctx.fail(f"{len(log)} requests are sent instead of {len(exp)}", cfg=repr(cfg), client=client, datagrams=[d.hex() for d in log])
    for d, (op, oids, mr) in zip(log, exp):
        req = expect.parse(ctx, d, cfg, client=client)
        expect.check_request(ctx, req, cfg, op, oids, mr, client=client)
        ctx.count(f"{client} {op}")
        ctx.sig(client, cfg.name, op, len(oids), mr)


def reply_for(rng, agent, req):
    n = 1 if req.pdu_tag != msg.GETBULK else 2
    base = req.oids[0] if req.oids else (1, 3)
    if req.pdu_tag == msg.GET:
        n = rng.randint(0, 1)
    return agent.reply(req, [msg.vb((*base, 1 + k), values.rand_value(rng, "int")[1]) for k in range(n)])


def k_sync(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)
    ta = common.thread_agent(ctx)
    bad = []

    def h(d):
        try:
            req = msg.parse_request(d, cfg)
        except msg.Malformed:
            bad.append(d)
            return []
        return [reply_for(rng, agent, req)]

    ta.use(h)
    calls = api_plan(rng, cfg.version)
    allow, mr0 = rng.random() < 0.6, rng.choice((1, 20, 33, 1000))
    s = cfg.session(SyncSession, ta.port, timeout=10.0, allow_bulk=allow, max_repetitions=mr0)
    for op, oids, mr in calls:
        f = getattr(s, op)
        if op in ("get", "get_many"):
            o = outcome(f, text(oids[0]) if op == "get" else shape(rng, [text(x) for x in oids]))
        else:
            o = outcome(lambda: next(iter(f(text(oids[0]), mr) if op == "getbulk" and mr is not None else f(text(oids[0])))))
        if isinstance(o.exc, TimeoutError):
            break
    ta.check()
    if bad:
        expect.parse(ctx, bad[0], cfg, client="sync")
    check_log(ctx, cfg, ta.log, expected_calls(cfg, calls, allow, mr0), "sync")


def k_async(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng)
    agent = msg.Agent(cfg)
    calls = api_plan(rng, cfg.version)
    allow, mr0 = rng.random() < 0.6, rng.choice((1, 20, 33, 1000))

    async def main():
        bad = []

        def h(d):
            try:
                req = msg.parse_request(d, cfg)
            except msg.Malformed:
                bad.append(d)
                return []
            return [reply_for(rng, agent, req)]

        ag = AsyncAgent(h)
        try:
            s = cfg.session(AsyncSession, ag.port, timeout=10.0, allow_bulk=allow, max_repetitions=mr0)
            for op, oids, mr in calls:
                f = getattr(s, op)
                if op in ("get", "get_many"):
                    o = await aoutcome(f(text(oids[0]) if op == "get" else shape(rng, [text(x) for x in oids])))
                else:
                    g = f(text(oids[0]), mr) if op == "getbulk" and mr is not None else f(text(oids[0]))
                    o = await aoutcome(g.__anext__())
                if isinstance(o.exc, TimeoutError):
                    break
            ag.check()
            return ag.log, bad
        finally:
            ag.close()

    log, bad = common.aio(ctx).run(main())
    if bad:
        expect.parse(ctx, bad[0], cfg, client="async")
    check_log(ctx, cfg, log, expected_calls(cfg, calls, allow, mr0), "async")


# -- walks: every follow-up request is a request, too


def k_walk(ctx, rng, i):
    name = rng.choice(ALL_CFG)
    s = Sess(ctx, rng, name)
    base = values.rand_arcs(rng, 2, 6)
    op = rng.choice(("getnext", "getbulk")) if s.cfg.version != "v1" else "getnext"
    mr = rng.randint(1, 50)
    it = common.it(base, mr if op == "getbulk" else None)
    cur = base
    n = 0
    try:
        for step in range(rng.randint(2, 6)):
            o, d = s.rig.link.request(*common.SEND(s.rig.sock, op, None, it))
            if not o.ok or d is None:
                ctx.fail(f"follow-up is not sent: {o!r}", cfg=repr(s.cfg))
            req = expect.parse(ctx, d, s.cfg)
            expect.check_request(ctx, req, s.cfg, op, [cur], mr if op == "getbulk" else None, step=step)
            names = []
            a = cur
            for _ in range(1 if op == "getnext" else rng.randint(1, 4)):
                a = (*a, values.rand_arc(rng)) if rng.random() < 0.5 or len(a) <= len(base) else (*a[:-1], min(a[-1] + rng.choice((1, 2, 200, 2**20)), 2**32 - 1))
                if names and a <= names[-1] or a <= cur:
                    a = (*(names[-1] if names else cur), 1)
                names.append(a)
            s.rig.link.feed(s.rig.agent.reply(req, [msg.vb(x, values.rand_value(rng, "int")[1]) for x in names]))
            o = s.rig.recv(op, it)
            if not o.ok:
                ctx.fail(f"reply is not delivered: {o!r}", cfg=repr(s.cfg), names=[text(x) for x in names], current=text(cur))
            cur = names[-1]
            n += 1
            ctx.count(f"walk {op}")
            ctx.sig("walk", name, op, len(d))
    finally:
        s.close()
    ctx.evals(n - 1)


# -- iterators which go on after failures


class Follow:
    """Agent which fails now and then; the iterators continue where they were."""

    def __init__(self, rng, cfg):
        self.rng, self.cfg = rng, cfg
        self.agent = msg.Agent(cfg)
        self.now = []  # (datagram, names of the reply or None) of the running call
        self.fail = 0.35

    def handler(self, d):
        rng = self.rng
        try:
            req = msg.parse_request(d, self.cfg)
        except msg.Malformed:
            self.now.append((d, None))
            return []
        if rng.random() < self.fail:
            self.now.append((d, None))
            k = rng.choice(("drop", "drop", "report", "undecodable", "stray"))
            if k == "report" and self.cfg.version == "v3":
                return [self.agent.report(req, secure=bool(self.cfg.auth))]
            if k == "undecodable":
                return [self.agent.reply(req, [b"\x30\x7f\x06\x01\x2b\x05\x00"])]
            if k == "stray":
                return [self.agent.reply(req, [msg.vb((*req.oids[0], 1), enc_int(1))], req_id=req.req_id ^ 1)]
            return []
        n = rng.randint(1, 3) if req.pdu_tag == msg.GETBULK else 1
        a = req.oids[0]
        names = []
        for _ in range(n):
            a = (*a, rng.randint(0, 300)) if rng.random() < 0.3 else (*a[:-1], min(a[-1] + rng.choice((1, 127)), 2**32 - 1)) if names else (*a, 1)
            names.append(a)
        self.now.append((d, names))
        return [self.agent.reply(req, [msg.vb(x, enc_int(1)) for x in names])]


def follow(client):
    def start(ctx, rng, i):
        name = rng.choice(ALL_CFG)
        cfg = common.make_cfg(name, rng, "localized")
        f = Follow(rng, cfg)
        allow, mr0 = rng.random() < 0.7, rng.choice((1, 2, 20, 33, 1000))
        its = []
        for _ in range(rng.randint(1, 3)):
            op = rng.choice(("getnext", "getbulk", "fetch", "fetch")) if cfg.version != "v1" else rng.choice(("getnext", "fetch"))
            mr = rng.choice((None, 1, 3, 10, 100, 2**20))
            its.append([op, mr, values.rand_arcs(rng, 2, 8)])
        return cfg, f, {"timeout": 0.06, "allow_bulk": allow, "max_repetitions": mr0}, its, allow, mr0

    def make(s, op, mr, oid):
        f = getattr(s, op)
        return f(text(oid), mr) if op == "getbulk" and mr is not None else f(text(oid))

    def steps(ctx, rng, cfg, f, its, allow, mr0):
        """Generator: yields the number of the iterator, gets the outcome."""
        cur = [x[2] for x in its]
        done = set()
        drops = 0
        for n in range(14):
            left = [k for k in range(len(its)) if k not in done]
            if not left:
                break
            if drops > 4:
                f.fail = 0
            k = rng.choice(left)
            f.now = []
            o = yield k
            op, mr, base = its[k]
            (want,) = expected_calls(cfg, [(op, [cur[k]], mr)], allow, mr0)
            for d, names in f.now:
                req = expect.parse(ctx, d, cfg, client=client, step=n)
                expect.check_request(ctx, req, cfg, *want, client=client, step=n, iterator=its[k][:2])
                ctx.count(f"{client}: follow-ups of {op}")
            ctx.count(f"{client}: {o.kind if not o.ok else 'ok'}")
            if o.ok:
                if f.now and f.now[-1][1]:
                    cur[k] = f.now[-1][1][-1]
            elif isinstance(o.exc, (StopIteration, StopAsyncIteration)):
                done.add(k)
            else:
                drops += 1
        ctx.sig("follow", client, cfg.name, tuple(x[0] for x in its), drops)

    def sync(ctx, rng, i):
        cfg, f, kw, its, allow, mr0 = start(ctx, rng, i)
        ta = common.thread_agent(ctx)
        ta.use(f.handler)
        s = cfg.session(SyncSession, ta.port, **kw)
        xs = [iter(make(s, *x)) for x in its]
        st = steps(ctx, rng, cfg, f, its, allow, mr0)
        try:
            k = next(st)
            while True:
                o = outcome(next, xs[k])
                ta.sync()
                k = st.send(o)
        except StopIteration:
            pass
        ta.check()

    async def aio(ctx, rng, i):
        cfg, f, kw, its, allow, mr0 = start(ctx, rng, i)
        ag = AsyncAgent(f.handler)
        try:
            s = cfg.session(AsyncSession, ag.port, **kw)
            xs = [make(s, *x).__aiter__() for x in its]
            st = steps(ctx, rng, cfg, f, its, allow, mr0)
            try:
                k = next(st)
                while True:
                    o = await aoutcome(xs[k].__anext__())
                    ag._ready()  # whatever is on the way
                    k = st.send(o)
            except StopIteration:
                pass
            ag.check()
        finally:
            ag.close()

    def kind(ctx, rng, i):
        sync(ctx, rng, i) if client == "sync" else common.aio(ctx).run(aio(ctx, rng, i))

    return kind


# -- long sessions


class M(marathon.Hooks):
    def sent(self, m, req, op, oids, mr):
        expect.check_request(m.ctx, req, m.cfg, op, oids, mr, header=m.header if m.cfg.version == "v3" else None, cycle=m.k, received=m.n_recv)

    def refused(self, m, op, o):
        m.fail(f"request which fits is refused: {o!r}", op=op)

    def malformed(self, m, op, d, e):
        m.fail(f"the datagram on the wire is malformed: {e}", op=op, datagram=d.hex())


def k_marathon(ctx, rng, i):
    marathon.run(ctx, rng, ALL_CFG[i % len(ALL_CFG)], M(), 70_000 if i % len(ALL_CFG) == 1 or ctx.tier == "thorough" else rng.choice((600, 5000)))


KINDS = {
    "history": Kind(k_history, 16_000, 250_000),
    "threads": Kind(k_threads, 800, 12_000),
    "walk": Kind(k_walk, 2_500, 80_000),
    "sync": Kind(k_sync, 2_500, 60_000),
    "async": Kind(k_async, 2_500, 60_000),
    "follow": Kind(follow("sync"), 500, 20_000),
    "afollow": Kind(follow("async"), 500, 20_000),
    "marathon": Kind(k_marathon, 18, 90),
}

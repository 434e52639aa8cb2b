"""C19: the rate limiter never lets the request rate exceed rps.

The policer's decisions are judged exactly, in rational numbers; the sessions are judged by
the arrivals at the agent, with the sleeps of the library skipped by a replaced clock.
"""

from __future__ import annotations

import copy
import math
import random
import time
from fractions import Fraction

from lib import vclock

vclock.install()

from lib import common, msg, net  # noqa: E402
from lib.ber import enc_int, text  # noqa: E402
from lib.common import ALL_CFG  # noqa: E402
from lib.driver import Kind  # noqa: E402
from lib.host import AsyncSession, SyncSession  # noqa: E402
from lib.net import AsyncAgent, aoutcome, outcome  # noqa: E402

from gufo.snmp.policer import RPSPolicer  # noqa: E402

PROP = "C19"
NS = 10**9
CLOCK = vclock.CLOCK
BASE = (1, 3, 6, 1, 2, 1)
# Rounding of 1/rps in floating point, relative
EPS = Fraction(1, 10**12)


def rand_rps(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice((1, 2, 3, 5, 7, 10, 11, 13, 20, 30, 60, 100, 600, 900, 1000, 3000, 7000, 10**5, 10**6, 3 * 10**6, 10**9, 1.0, 0.1, 0.3, 0.7, 1 / 3, 2 / 3, 1e-3, 1e-6))
    if k < 0.5:
        # a whole number of nanoseconds, and next to it
        d = rng.choice((rng.randint(1, 50), rng.randint(1, 10**6), rng.randint(1, 10**10)))
        x = 1e9 / d
        return rng.choice((x, x, math.nextafter(x, 0), math.nextafter(x, 1e10) if x < 1e9 else x))
    if k < 0.6:
        return rng.uniform(0.5e9, 1e9)
    return math.exp(rng.uniform(math.log(1e-6), math.log(1e9)))


def gap(rng, d):
    """Idle time before the next request, d: the interval."""
    k = rng.random()
    if k < 0.3:
        return 0
    if k < 0.5:
        return rng.randrange(max(1, d))
    if k < 0.75:
        return max(0, d * rng.choice((0, 1, 1, 2, 3, 10)) + rng.choice((-2, -1, 0, 1, 2, d // 2, -(d // 2), d // 3, d - 1)))
    if k < 0.9:
        return rng.randrange(1, 5 * d + 1)
    return d * rng.choice((10, 1000, 10**6)) + rng.randrange(d + 1)


class Windows:
    """Releases: any k+1 consecutive ones span more than (k-1)/rps.

    r[j] - r[i] > (j - i - 1) T for every i < j, that is for a[n] = r[n] - n T:
    a[j] > max(a[i], i < j) - T. Exact, for all of the windows at once. The interval T
    is taken shorter by EPS of itself: 1/rps counted in floating point is as good.
    """

    def __init__(self, rps):
        self.t = Fraction(NS) / Fraction(rps)
        self.tt = self.t * (1 - EPS)
        self.n = 0
        self.top = None
        self.top_at = 0
        self.tightest = None

    def release(self, r):
        """Index of the start of the violated window or None."""
        a = r - self.n * self.tt
        bad = None
        if self.top is not None:
            if a <= self.top - self.tt:
                bad = self.top_at
            s = a - self.top
            if self.tightest is None or s < self.tightest:
                self.tightest = s
        if self.top is None or a >= self.top:
            self.top, self.top_at = a, self.n
        self.n += 1
        return bad


def drive(ctx, rng, rps, n, gaps, trace_note):
    """Sequence of decisions of the real policer, judged online."""
    p = RPSPolicer(rps)
    w = Windows(rps)
    t = w.t
    d = int(t)
    ts = rng.choice((0, 1, rng.randrange(1 << 40), rng.randrange(1 << 62), time.perf_counter_ns()))
    trace = []
    for j in range(n):
        x = p.get_timeout(ts)
        delay = 0 if x is None else x
        trace.append((ts, delay))
        if len(trace) > 12:
            del trace[0]
        info = {"rps": rps, "interval": str(float(t)), "request": j, "last (asked, delay)": trace, "sequence": trace_note}
        if delay < 0:
            # not a delay: released at once
            delay = 0
        if delay > t + 1:
            ctx.fail(f"request is delayed by {delay}ns, the interval is {float(t)}ns", **info)
        r = ts + delay
        b = w.release(r)
        if b is not None:
            ctx.fail(f"{j - b + 1} consecutive releases span too little: request {b} .. {j}, more than {j - b - 1} intervals are needed", **info)
        if delay:
            ctx.count("delayed requests")
        else:
            ctx.count("immediate requests")
        ts = r + gaps(rng, max(1, d))
    return w


def k_sequence(ctx, rng, i):
    rps = rand_rps(rng)
    mode = rng.randrange(5)
    n = rng.choice((10, 60, 300, 1000))
    if mode == 0:
        g, note = gap, "mixed"
    elif mode == 1:
        g, note = (lambda r, d: 0), "as fast as possible"
    elif mode == 2:
        ph = rng.random()
        g, note = (lambda r, d: int(d * ph)), f"every {ph} of the interval after the release"
    elif mode == 3:
        m = rng.choice((1, 2, 3, 7))
        g, note = (lambda r, d: d * m + r.choice((-1, 0, 1))), f"next to {m} intervals"
    else:
        # bursts after idling
        st = {"n": 0}

        def g(r, d):
            st["n"] += 1
            return d * r.choice((2, 5, 1000)) + r.randrange(d + 1) if st["n"] % 6 == 0 else 0

        note = "bursts"
    w = drive(ctx, rng, rps, n, g, note)
    ctx.evals(n - 1)
    ctx.sig("seq", mode, rps, n)
    ctx.sample({"rps": rps, "requests": n, "gaps": note, "tightest window, intervals over the bound": round(float(w.tightest / w.t) + 1, 4) if w.tightest is not None else None})


# -- every phase: the real policer as the transition function


def probe(p, at, width):
    """Behaviour of the policer from the moment on: two decisions deep."""
    r = []
    for g in range(width):
        q = copy.deepcopy(p)
        x = q.get_timeout(at + g)
        r.append(-1 if x is None else x)
    return tuple(r)


def k_phases(ctx, rng, i):
    """All of the states which are reachable, all of the gaps, all of the paths."""
    d = i + 1
    variants = (1e9 / d, math.nextafter(1e9 / d, 0.0), math.nextafter(1e9 / d, 1e10)) if d > 1 else (1e9,)
    for rps in variants:
        t = Fraction(NS) / Fraction(rps)
        tt = t * (1 - EPS)
        w = math.ceil(t)
        gaps = [*range(3 * w + 2), 7 * w, 7 * w + w // 2, 1000 * w + w - 1]
        p = RPSPolicer(rps)
        p.get_timeout(10**9)
        start = probe(p, 10**9, 2 * w + 1)
        states = {start: (p, 10**9)}
        todo = [start]
        edges = []
        while todo:
            s = todo.pop()
            p, at = states[s]
            for g in gaps:
                q = copy.deepcopy(p)
                x = q.get_timeout(at + g)
                delay = max(0, x or 0)
                if delay > t + 1:
                    ctx.fail(f"request is delayed by {delay}ns, the interval is {float(t)}ns", rps=rps, phase=repr(s)[:200], gap=g)
                r = at + g + delay
                n = probe(q, r, 2 * w + 1)
                if n not in states:
                    states[n] = (q, r)
                    todo.append(n)
                    if len(states) > 20 * w + 50:
                        ctx.count("phases: too many states")
                        todo.clear()
                        break
                edges.append((s, n, g + delay))
        # Shortest paths: sum of (advance - interval) over any path must stay over -interval
        best = dict.fromkeys(states, Fraction(0))
        how = dict.fromkeys(states)
        merged = {}
        for s, n, a in edges:
            if n in states and (merged.get((s, n)) is None or merged[(s, n)] > a):
                merged[(s, n)] = a
        for rnd in range(len(states) + 1):
            changed = False
            for (s, n), a in merged.items():
                c = best[s] + a - tt
                if c < best[n]:
                    if c <= -tt:
                        path = [a]
                        x = s
                        for _ in range(40):
                            if how[x] is None:
                                break
                            path.append(how[x][1])
                            x = how[x][0]
                        ctx.fail("consecutive releases span too little", rps=rps, interval=float(t), **{"times between the releases, the last first": path})
                    best[n], how[n] = c, (s, a)
                    changed = True
            if not changed:
                break
        else:
            # each turn gains: a cycle which is faster than rps
            ctx.fail("a cycle of requests is faster than rps", rps=rps, interval=float(t), **{"lowest sum, intervals": min(float(best[x] / t) for x in best)})
        ctx.count("phases: states", len(states))
        ctx.count("phases: transitions", len(edges))
        ctx.evals(len(edges))
        ctx.sig("phases", rps, len(states))
    ctx.sample({"interval": d, "states": len(states), "transitions": len(edges), "lowest sum": round(float(min(best.values()) / t), 4)})


# -- construction


def k_construct(ctx, rng, i):
    bad = [0, 0.0, -0.0, -1, -1.0, -0.5, -1e-9, -5e-324, -1e9, -1e300, -math.inf, math.inf, 1e10, 1e12, 1.0000001e9, 2e9, 1.5e9, 1e300, 10**9 + 1, 10**10, math.nan, -rng.random(), -math.exp(rng.uniform(-20, 40)), 1e9 * (1 + rng.random()), 1e9 * math.exp(rng.uniform(0.001, 40)), math.nextafter(1e9, 2e9)]
    for x in bad:
        o = outcome(RPSPolicer, x)
        ctx.count("refused at construction")
        if o.ok:
            ctx.fail(f"rate {x!r} is not refused", rps=x)
        if not isinstance(o.exc, Exception):
            ctx.fail(f"rate {x!r}: {o!r}", rps=x)
        for cls in (SyncSession, AsyncSession):
            if x == 0:
                continue  # no limit
            o = outcome(lambda: cls("127.0.0.1", 1, limit_rps=x))
            if o.ok:
                ctx.fail(f"session with the rate {x!r} is not refused", rps=x)
    for x in (1, 1.0, 10, 1e9, 10**9, 0.001, rand_rps(rng)):
        o = outcome(RPSPolicer, x)
        if not o.ok:
            ctx.fail(f"rate {x!r} is refused: {o!r}", rps=x)
    ctx.evals(len(bad) * 3)
    ctx.sig("construct", i)


# -- sessions


class Arrivals:
    """Judges the arrivals. Intervals are long, the sleeps are skipped: the scheduling
    delays are small against them."""

    TOL = 0.4e9

    def __init__(self, ctx, rps, info):
        self.ctx, self.rps, self.info = ctx, rps, info
        self.t = NS / rps
        self.w = []
        self.log = []

    def arrived(self, at):
        self.w.append(at)

    def judge(self):
        n = len(self.w)
        if n > 1:
            top, top_at = self.w[0], 0
            for j in range(1, n):
                a = self.w[j] - j * self.t
                if a <= top - self.t - self.TOL:
                    return f"{j - top_at + 1} consecutive requests arrive within {(self.w[j] - self.w[top_at]) / 1e9:.3f}s, more than {(j - top_at - 1) * self.t / 1e9:.3f}s is needed"
                if a > top:
                    top, top_at = a, j
        return None


SESSION_RPS = (0.1, 0.05, 0.25, 0.2, 1 / 7, 0.01, 0.001, 1 / 3)


class SessCase:
    def __init__(self, seed):
        self.rng = rng = random.Random(seed)
        self.seed = seed
        self.name = rng.choice(ALL_CFG)
        self.cfg = common.make_cfg(self.name, rng, "localized")
        self.agent = msg.Agent(self.cfg, boots=2, time=77)
        self.rps = rng.choice(SESSION_RPS)
        self.discover = self.cfg.version == "v3" and rng.random() < 0.5
        self.how = rng.choice(("limit", "limit", "policer", "shared"))
        self.arr = None
        self.silent = 0
        self.n = 0

    def fn(self, req):
        return None

    def handler(self, d):
        self.arr.arrived(CLOCK.now_ns())
        self.n += 1
        req, env = msg.parse_outer(d)
        if self.cfg.version == "v3" and req.engine_id != self.agent.engine_id:
            msg.parse_inner(req, env, self.cfg)
            return [self.agent.report(req, secure=False)]
        msg.parse_inner(req, env, self.cfg)
        if self.silent and self.n % self.silent == 0:
            return []
        base = req.oids[0] if req.oids else BASE
        vbs = [msg.vb((*base[:20], self.n, j), enc_int(j)) for j in range(3 if req.pdu_tag == msg.GETBULK else 1)]
        if not req.oids:
            vbs = []
        return [self.agent.reply(req, vbs)]

    def session(self, cls, port, policer=None, **kw):
        a = {"limit_rps": self.rps} if policer is None and self.how == "limit" else {"policer": policer or RPSPolicer(self.rps)}
        if "policer" in a and self.rng.random() < 0.4:
            # The policer overrides limit_rps, as documented
            a["limit_rps"] = self.rps * self.rng.choice((0.01, 0.5, 7, 1000))
        return self.cfg.session(cls, port, discover=self.discover, timeout=20.0 if not self.silent else 0.1, **a, **kw)

    def script(self):
        rng = self.rng
        ops = ["get", "get_many", "getnext", "walk", "fetch", "refused"]
        if self.cfg.version != "v1":
            ops += ["getbulk"]
        if self.cfg.version == "v3":
            ops += ["refresh", "refresh"]
        r = []
        for _ in range(rng.randint(4, 14)):
            g = rng.choice((0, 0, 0, 0.1, 0.5, 0.9, 0.98, 1.02, 1.5, 2.3, 10.5, 1000.3, rng.uniform(0, 4)))
            r.append((rng.choice(ops), g))
        if rng.random() < 0.15:
            r = [("refresh" if self.cfg.version == "v3" else "get", 0)] * 12
        return r


def took_too_long(case, n0, ask, waited):
    """Time of the call without the skipped time of its later requests."""
    n = max(1, case.n - n0)
    return waited > n * (NS / case.rps) + Arrivals.TOL


def run_sync(ctx, seed, again=False):
    case = SessCase(seed)
    case.arr = Arrivals(ctx, case.rps, None)
    rng = case.rng
    if rng.random() < 0.2:
        case.silent = rng.choice((2, 3))
    ta = common.thread_agent(ctx)
    ta.use(case.handler)
    pol = RPSPolicer(case.rps) if case.how != "limit" else None
    ss = [case.session(SyncSession, ta.port, pol) for _ in range(2 if case.how == "shared" else 1)]
    script = case.script()
    bad = None
    CLOCK.active = True
    try:
        entered = set()
        its = {}
        for op, g in script:
            CLOCK.advance(g * NS / case.rps)
            k = rng.randrange(len(ss))
            s = ss[k]
            t0, n0 = CLOCK.now_ns(), case.n
            if k not in entered and case.discover:
                o = outcome(s.__enter__)
                if o.ok:
                    entered.add(k)
            elif op == "get":
                o = outcome(s.get, text(BASE))
            elif op == "get_many":
                o = outcome(s.get_many, [text(BASE), "1.3.6"])
            elif op == "getnext":
                o = outcome(next, s.getnext(text(BASE)))
            elif op in ("walk", "getbulk", "fetch"):
                it = its.get((k, op))
                if it is None or rng.random() < 0.3:
                    it = its[(k, op)] = {"walk": s.getnext, "getbulk": s.getbulk, "fetch": s.fetch}[op](text(BASE))
                o = outcome(next, it)
            elif op == "refused":
                o = outcome(s.get, "1.3.bad")
            else:
                o = outcome(s.refresh)
            ctx.count(f"sync {op}: {o.kind}")
            w = CLOCK.now_ns() - t0
            if took_too_long(case, n0, t0, w):
                bad = f"{op}: {case.n - n0} requests are delayed by {w / 1e9:.3f}s, the interval is {1 / case.rps:.3f}s"
                break
    finally:
        CLOCK.active = False
    ta.check()
    return case, script, bad or case.arr.judge()


async def run_async(ctx, seed):
    case = SessCase(seed)
    case.arr = Arrivals(ctx, case.rps, None)
    rng = case.rng
    if rng.random() < 0.2:
        case.silent = rng.choice((2, 3))
    ag = AsyncAgent(case.handler)
    pol = RPSPolicer(case.rps) if case.how != "limit" else None
    bad = None
    script = case.script()
    CLOCK.active = True
    try:
        ss = [case.session(AsyncSession, ag.port, pol) for _ in range(2 if case.how == "shared" else 1)]
        entered = set()
        its = {}
        for op, g in script:
            CLOCK.advance(g * NS / case.rps)
            k = rng.randrange(len(ss))
            s = ss[k]
            t0, n0 = CLOCK.now_ns(), case.n
            if k not in entered and case.discover:
                o = await aoutcome(s.__aenter__())
                if o.ok:
                    entered.add(k)
            elif op == "get":
                o = await aoutcome(s.get(text(BASE)))
            elif op == "get_many":
                o = await aoutcome(s.get_many([text(BASE), "1.3.6"]))
            elif op == "getnext":
                o = await aoutcome(anext(s.getnext(text(BASE))))
            elif op in ("walk", "getbulk", "fetch"):
                it = its.get((k, op))
                if it is None or rng.random() < 0.3:
                    it = its[(k, op)] = {"walk": s.getnext, "getbulk": s.getbulk, "fetch": s.fetch}[op](text(BASE))
                o = await aoutcome(anext(it))
            elif op == "refused":
                o = await aoutcome(s.get("1.3.bad"))
            else:
                o = await aoutcome(s.refresh())
            ctx.count(f"async {op}: {o.kind}")
            w = CLOCK.now_ns() - t0
            if took_too_long(case, n0, t0, w):
                bad = f"{op}: {case.n - n0} requests are delayed by {w / 1e9:.3f}s, the interval is {1 / case.rps:.3f}s"
                break
        ag.check()
    finally:
        CLOCK.active = False
        ag.close()
    return case, script, bad or case.arr.judge()


def session_kind(client):
    def k(ctx, rng, i):
        seed = rng.getrandbits(64)
        for _ in range(3):
            case, script, bad = run_sync(ctx, seed) if client == "sync" else common.aio(ctx).run(run_async(ctx, seed))
            if bad is None:
                break
        else:
            ctx.fail(f"{client}: {bad}", cfg=repr(case.cfg), rps=case.rps, limit=case.how, discover=case.discover, silent=case.silent, script=[(o, round(g, 3)) for o, g in script], arrivals=[round(x / 1e9, 3) for x in case.arr.w])
        ctx.count(f"{client}: requests which arrived", len(case.arr.w))
        ctx.evals(max(0, len(case.arr.w) - 1))
        ctx.sig(client, case.name, case.rps, case.how, case.discover, tuple(o for o, _ in script))
        ctx.sample({"cfg": case.name, "rps": case.rps, "script": [(o, round(g, 3)) for o, g in script], "arrivals": [round((x - case.arr.w[0]) / 1e9, 3) for x in case.arr.w]})

    return k


# -- with the real clock: whatever the policer waits with


def k_real(ctx, rng, i):
    client = ("sync", "async")[i % 2]
    name = rng.choice(("v1", "v2c", "v3", "v3-md5", "v3-sha1-aes"))
    cfg = common.make_cfg(name, rng, "localized")
    rps = rng.choice((50.0, 80.0, 40))
    n = 18
    agent = msg.Agent(cfg, boots=1, time=1)
    at = []

    def handler(d):
        at.append(time.monotonic())
        req = msg.parse_request(d, cfg)
        return [agent.reply(req, [msg.vb((*BASE, 1), enc_int(1))] if req.oids else [])]

    def idle():
        return rng.choice((0, 0, 0, 0, 0.5, 2.5)) / rps

    for _ in range(3):
        at.clear()
        if client == "sync":
            ta = common.thread_agent(ctx)
            ta.use(handler)
            s = cfg.session(SyncSession, ta.port, timeout=20.0, limit_rps=rps)
            for _ in range(n):
                s.get(text(BASE)) if rng.random() < 0.7 or name[:2] != "v3" else s.refresh()
                time.sleep(idle())
            ta.check()
        else:

            async def run():
                import asyncio

                ag = AsyncAgent(handler)
                try:
                    s = cfg.session(AsyncSession, ag.port, timeout=20.0, limit_rps=rps)
                    for _ in range(n):
                        await (s.get(text(BASE)) if rng.random() < 0.7 or name[:2] != "v3" else s.refresh())
                        await asyncio.sleep(idle())
                    ag.check()
                finally:
                    ag.close()

            common.aio(ctx).run(run())
        # Delays of the scheduler shift the ends of a window, not its length
        worst = None
        for a in range(len(at)):
            for b in range(a + 6, len(at)):
                x = (b - a - 1) / rps - (at[b] - at[a])
                if worst is None or x > worst[0]:
                    worst = (x, a, b)
        if worst is None or worst[0] <= 0.03:
            break
    else:
        x, a, b = worst
        ctx.fail(f"{client}: {b - a + 1} consecutive requests arrive within {at[b] - at[a]:.4f}s at {rps} requests per second", cfg=repr(cfg), arrivals=[round(y - at[0], 4) for y in at])
    ctx.count(f"{client}: requests timed with the real clock", len(at))
    ctx.sig("real", client, name, rps)


# -- high rates: intervals below the granularity of anything


def k_fast(ctx, rng, i):
    """A flood through the waiting part of the policer, and through sessions, in real time.

    The time of a release is taken after it and before the next one is asked for: a late
    look costs up to one interval more than the property gives, whatever the load is.
    """
    client = ("sync", "async")[i % 2]
    level = ("policer", "session")[(i // 2) % 2]
    rps = math.exp(rng.uniform(math.log(150), math.log(40_000))) if level == "policer" else rng.uniform(300, 2500)
    if rng.random() < 0.3:
        rps = rng.choice((1000, 999, 1001, 500, 2000.0, 256, 512, 1024, 200))
    t = 1 / rps
    n = min(2000, max(40, int(0.1 / t)))
    pause = rng.choice((0, 0, 0, 7))  # idle for so many intervals, once in a while
    pol = RPSPolicer(rps)
    cfg = common.make_cfg(rng.choice(("v1", "v2c", "v3-md5")), rng, "localized")
    agent = msg.Agent(cfg, boots=1, time=1)

    def handler(d):
        req = msg.parse_request(d, cfg)
        return [agent.reply(req, [msg.vb((*BASE, 1), enc_int(1))])]

    how = {"limit_rps": rps} if rng.random() < 0.5 else {"policer": pol}
    if "policer" in how and rng.random() < 0.4:
        how["limit_rps"] = rps * rng.choice((0.1, 100))
    now = time.perf_counter
    for _ in range(3):
        at = []
        if client == "sync":
            if level == "policer":
                step = pol.wait_sync
            else:
                ta = common.thread_agent(ctx)
                ta.use(handler)
                s = cfg.session(SyncSession, ta.port, timeout=20.0, **how)

                def step():
                    s.get(text(BASE))

            for k in range(n):
                step()
                at.append(now())
                if pause and k % 20 == 19:
                    time.sleep(pause * t)
        else:

            async def run():
                import asyncio

                ag = None
                if level == "policer":
                    step = pol.wait
                else:
                    ag = AsyncAgent(handler)
                    s = cfg.session(AsyncSession, ag.port, timeout=20.0, **how)

                    def step():
                        return s.get(text(BASE))

                try:
                    for k in range(n):
                        await step()
                        at.append(now())
                        if pause and k % 20 == 19:
                            await asyncio.sleep(pause * t)
                finally:
                    if ag is not None:
                        ag.close()

            common.aio(ctx).run(run())
        # at[j] - at[i] > (j - i - 2) t: one more for the look
        top = top_at = worst = None
        for j, x in enumerate(at):
            a = x - j * t
            if top is not None and (worst is None or top - a > worst[0]):
                worst = (top - a, top_at, j)
            if top is None or a > top:
                top, top_at = a, j
        if worst[0] < 2 * t + 0.002:
            break
    else:
        _, a, b = worst
        ctx.fail(f"{client} {level}: {b - a + 1} consecutive requests are released within {at[b] - at[a]:.5f}s at {rps} requests per second", cfg=repr(cfg), pause=pause)
    ctx.count(f"{client} {level}: releases timed at high rates", n)
    ctx.sig("fast", client, level, round(rps), pause)


def k_waits(ctx, rng, i):
    """What the waiting part asks to sleep for: never more than one interval."""
    client = ("sync", "async")[i % 2]
    rps = min(rand_rps(rng), 1e8)
    pol = RPSPolicer(rps)
    t = NS / rps
    n = rng.choice((5, 30, 100))
    bad = None

    def judge(k, before, gaps):
        slept = CLOCK.skipped - before
        if slept > t * (1 + 1e-9) + 2:
            return f"{client}: request {k} is delayed by {slept}ns, the interval is {t}ns"
        ctx.count(f"{client} waits: {'sleeps' if slept else 'immediate'}")
        return None

    gaps = []
    CLOCK.active = True
    try:
        if client == "sync":
            for k in range(n):
                gaps.append(gap(rng, max(1, int(t))))
                CLOCK.advance(gaps[-1])
                b = CLOCK.skipped
                pol.wait_sync()
                bad = bad or judge(k, b, gaps)
        else:

            async def run():
                bad = None
                for k in range(n):
                    gaps.append(gap(rng, max(1, int(t))))
                    CLOCK.advance(gaps[-1])
                    b = CLOCK.skipped
                    await pol.wait()
                    bad = bad or judge(k, b, gaps)
                return bad

            bad = common.aio(ctx).run(run())
    finally:
        CLOCK.active = False
    if bad:
        ctx.fail(bad, rps=rps, gaps=gaps)
    ctx.evals(n - 1)
    ctx.sig("waits", client, rps, n)


KINDS = {
    "sequence": Kind(k_sequence, 12_000, 1_000_000),
    "phases": Kind(k_phases, 20, 48),
    "construct": Kind(k_construct, 200, 5_000),
    "sync": Kind(session_kind("sync"), 2_000, 100_000),
    "async": Kind(session_kind("async"), 2_000, 100_000),
    "real": Kind(k_real, 96, 3_000),
    "waits": Kind(k_waits, 2_000, 100_000),
    "fast": Kind(k_fast, 160, 6_000),
}

"""C18: a request never outlives its timeout."""

from __future__ import annotations

import asyncio
import heapq
import os
import select
import signal
import subprocess
import sys
import threading
import time

from checks.c04 import BASE, OPS, mismatch, value_of, vbs_for
from lib import common, msg
from lib.ber import enc_int, ostr, text
from lib.common import ALL_CFG
from lib.driver import Inconclusive, Kind
from lib.host import AsyncSession, SyncSession
from lib.net import agent_socket, aoutcome, outcome

PROP = "C18"
now = time.monotonic
EARLY = 0.012  # the kernel counts in jiffies
SLACK = 0.25


def slack(t: float, client: str) -> float:
    """Scheduling slack. Timers of the blocking sockets are kept in the wheel,
    which is precise to 1/8 of the timeout (and never early)."""
    return SLACK + (t / 8 if client == "sync" else 0)


class Sched:
    """Agents in a thread: every socket has a handler(d, t) -> [(when, octets)]."""

    def __init__(self):
        self.q: list = []
        self.n = 0
        self.socks: dict = {}
        self.lock = threading.Lock()
        self.r, self.w = os.pipe()
        self.error = None
        threading.Thread(target=self.run, daemon=True).start()

    def open(self, handler) -> "Port":
        p = Port(self, handler)
        with self.lock:
            self.socks[p.sock.fileno()] = p
        os.write(self.w, b"x")
        return p

    def close(self, p):
        with self.lock:
            self.socks.pop(p.sock.fileno(), None)
            self.q = [x for x in self.q if x[2] is not p]
            heapq.heapify(self.q)
            p.sock.close()
        os.write(self.w, b"x")

    def run(self):
        while True:
            with self.lock:
                fds = [self.r, *self.socks]
                wait = max(0.0, self.q[0][0] - now()) if self.q else 1.0
            try:
                ready = select.select(fds, [], [], wait)[0]
            except OSError:
                continue
            with self.lock:
                for fd in ready:
                    if fd == self.r:
                        os.read(self.r, 4096)
                        continue
                    p = self.socks.get(fd)
                    if p is None:
                        continue
                    try:
                        d, p.client = p.sock.recvfrom(65535)
                    except OSError:
                        continue
                    t = now()
                    try:
                        for when, data in p.handler(d, t):
                            self.n += 1
                            heapq.heappush(self.q, (t + when, self.n, p, data))
                    except BaseException as e:  # noqa: BLE001
                        self.error = e
                while self.q and self.q[0][0] <= now():
                    _, _, p, data = heapq.heappop(self.q)
                    if callable(data):
                        data()
                        continue
                    if data is p.watch:
                        p.sent_at = now()
                    p.sock.sendto(data, p.client)


class Port:
    def __init__(self, sched, handler):
        self.sched, self.handler = sched, handler
        self.sock = agent_socket()
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]
        self.client = None
        self.watch = None
        self.sent_at = None

    def close(self):
        self.sched.close(self)


def sched(ctx) -> Sched:
    s = ctx.cache.get("sched")
    if s is None:
        s = ctx.cache["sched"] = Sched()
    if s.error is not None:
        raise s.error
    return s


# -- schedules


def strays(rng, t):
    """Moments of the non-matching datagrams."""
    k = rng.choice(("none", "even", "even", "restart", "restart", "burst", "mixed", "dense"))
    end = t + SLACK * 3 + 0.3
    if k == "none":
        return k, []
    if k == "even":
        d = t * rng.choice((0.05, 0.2, 0.35, 0.5, 0.7, 0.9))
        return k, [d * j for j in range(1, int(end / d) + 1)][:200]
    if k == "restart":
        # shortly before the clock which restarts with every one would be over
        d = max(t - rng.choice((0.01, 0.02, 0.03)), t * 0.6)
        return k, [d * j for j in range(1, int(end / d) + 1)][:200]
    if k == "burst":
        x = rng.uniform(0, t)
        return k, [x] * rng.choice((2, 10, 60))
    if k == "dense":
        return k, [0.003 * j for j in range(int(end / 0.003))][:250]
    return k, sorted(rng.uniform(0, end) for _ in range(rng.randint(1, 30)))


def final(rng, t):
    """Moment of the matching reply."""
    x = rng.random()
    if x < 0.4:
        return "never", None
    if x < 0.75:
        room = max(0.04, t * 0.15)
        hi = t - room
        how = rng.choice(("in time", "in time", "in time", "in time", "nothing", "garbage"))
        return (how, rng.choice((0.0, hi, hi * 0.9, rng.uniform(0, hi)))) if hi > 0.02 else (how, 0.0)
    return "late", t * 9 / 8 + rng.choice((0.1, 0.15, 0.3))


TIMEOUTS = (0.08, 0.1, 0.1, 0.15, 0.2, 0.25, 0.3)


class Case:
    """One session and what its agent does with each of the calls."""

    def __init__(self, rng, calls=3, t=None):
        self.seed = rng.getrandbits(64)
        import random

        self.rng = rng = random.Random(self.seed)
        self.name = rng.choice(ALL_CFG)
        self.cfg = common.make_cfg(self.name, rng, "localized")
        self.t = t if t is not None else rng.choice(TIMEOUTS)
        self.agent = msg.Agent(self.cfg, boots=2, time=77)
        self.rig = common.Rig.__new__(common.Rig)
        self.rig.cfg, self.rig.agent = self.cfg, self.agent
        self.reqs = []
        self.plan = []
        auth = bool(self.cfg.auth)
        for _ in range(calls):
            ops = [o for o in OPS[self.cfg.version] if o != "refresh" or auth]
            op = rng.choice(ops)
            self.plan.append((op, strays(rng, self.t), final(rng, self.t)))
        self.seen = 0
        # The size of the request must not matter
        self.many = [text(BASE)] + [text((*BASE, j)) for j in range(1, rng.choice((1, 1, 2, 5, 20, 60)))]
        rng.shuffle(self.many)
        self.reps = rng.choice((None, None, 1, 2, 50, 500))
        self.arg = int(self.t) if self.t == int(self.t) and rng.random() < 0.5 else self.t

    def handler(self, port):
        def h(d, t):
            req = msg.parse_request(d, self.cfg)
            n = len(self.reqs)
            self.reqs.append(req)
            op, (_, at), (how, when) = self.plan[min(self.current, len(self.plan) - 1)]
            if n and self.reqs[n - 1] is None:
                return []
            old = [x for x in self.reqs[:-1] if x is not None][-4:]
            out = []
            pool = [mismatch(self.rng, self.rig, op, req, old, 7)[0] for _ in range(min(len(at), 6))]
            for j, x in enumerate(at):
                if when is not None and how != "late" and x > when:
                    break
                out.append((x, pool[j % len(pool)]))
            port.sent_at = None
            port.watch = None
            if when is not None:
                vbs = vbs_for(op, 1000 + self.current)
                if how == "nothing" and vbs:
                    # It matches, and has no value
                    vbs = [msg.vb((*BASE, 1), b"\x05\x00" if self.cfg.version == "v1" else self.rng.choice((b"\x05\x00", b"\x80\x00", b"\x81\x00", b"\x82\x00")))]
                port.watch = self.agent.reply(req, vbs)
                if how == "garbage":
                    # Ends the call
                    port.watch = self.rng.choice((port.watch[:-1], port.watch + b"\x00", b"\x30\x02\x02", b"\x00"))
                out.append((when, port.watch))
            return out

        return h

    def describe(self, k):
        op, (sk, at), (how, when) = self.plan[k]
        return {"cfg": repr(self.cfg), "timeout": self.t, "call": k, "op": op, "strays": sk, "at": [round(x, 4) for x in at[:30]], "n": len(at), "reply": how, "reply at": when, "case": self.seed}

    def verdict(self, ctx, k, o, t0, t1, sent_at, client):
        """None or the reason."""
        op, (sk, at), (how, when) = self.plan[k]
        took = t1 - t0
        room = slack(self.t, client)
        if took > self.t + room:
            return f"the call took {took:.3f}s, timeout is {self.t}: {o!r}"
        if how == "in time":
            if sent_at is None:
                return f"no reply yet: {o!r} in {took:.3f}s" if isinstance(o.exc, TimeoutError) and took < self.t - EARLY else "inconclusive"
            if sent_at - t0 > self.t - 0.025:
                return "inconclusive"
            if not o.ok:
                return f"matching reply sent {sent_at - t0:.3f}s after the start of the call is not delivered in {took:.3f}s, timeout is {self.t}: {o!r}"
            if op != "refresh" and value_of(op, o) != 1000 + k:
                return f"other value: {o!r}"
            return None
        if how in ("nothing", "garbage"):
            if sent_at is None or sent_at - t0 > self.t - 0.025:
                return "inconclusive"
            if isinstance(o.exc, TimeoutError):
                return f"datagram ({how}) sent {sent_at - t0:.3f}s after the start does not end the call, timeout is {self.t}: {o!r} in {took:.3f}s"
            return None
        if o.ok:
            if how == "late" and sent_at is not None and sent_at - t0 > self.t + room - 0.2:
                return f"reply sent {sent_at - t0:.3f}s after the start is delivered, timeout is {self.t}: {o!r}"
            return "inconclusive" if how == "late" else f"nothing was sent in answer: {o!r}"
        if not isinstance(o.exc, TimeoutError):
            return f"no matching reply, must be TimeoutError: {o!r}"
        if took < self.t - EARLY:
            return f"TimeoutError in {took:.3f}s, timeout is {self.t}"
        return None


def judge(ctx, case, k, o, t0, t1, sent_at, client):
    r = case.verdict(ctx, k, o, t0, t1, sent_at, client)
    op, (sk, at), (how, _) = case.plan[k]
    if r == "inconclusive":
        ctx.count("inconclusive: the reply was sent too close to the deadline")
        return None
    ctx.count(f"{client}: reply {how}")
    ctx.count(f"strays: {sk}")
    ctx.count("strays planned", len(at))
    ctx.sig(client, case.name, op, sk, how, case.t, len(at))
    if r is None:
        if how != "in time":
            ex = t1 - t0 - case.t
            ctx.count("timeout exceeded by " + ("<5ms" if ex < 0.005 else "<20ms" if ex < 0.02 else "<100ms" if ex < 0.1 else "more"))
        return None
    return r, case.describe(k)


# -- sync


def sync_case(ctx, case, res):
    s = sched(ctx)
    port = s.open(None)
    case.current = 0
    port.handler = case.handler(port)
    try:
        c = case.cfg.session(SyncSession, port.port, timeout=case.arg)
        for k, (op, _, _) in enumerate(case.plan):
            case.current = k
            fn = {
                "get": lambda: c.get(text(BASE)),
                "get_many": lambda: c.get_many(case.many),
                "getnext": lambda: next(c.getnext(text(BASE))),
                "getbulk": lambda: [next(c.getbulk(text(BASE), case.reps))],
                "refresh": lambda: c.refresh(),
            }[op]
            t0 = now()
            o = outcome(fn)
            t1 = now()
            if case.plan[k][2][0] == "late" and port.sent_at is None:
                # Let it arrive before the next request: it must not be taken for the answer
                time.sleep(0.02)
            res.append(judge(ctx, case, k, o, t0, t1, port.sent_at, "sync"))
    except BaseException as e:  # noqa: BLE001
        res.append(e)
    finally:
        port.close()


def settle(ctx, case, again, res, client):
    """A wall-clock judgement is reported if it repeats."""
    for x in res:
        if isinstance(x, BaseException):
            raise x
    bad = [x for x in res if x]
    if not bad:
        return
    import random

    for _ in range(3):
        ctx.beat()
        c2 = Case.__new__(Case)
        c2.__init__(_Fixed(case.seed), len(case.plan), case.t)
        r2 = again(c2)
        for x in r2:
            if isinstance(x, BaseException):
                raise x
        b2 = [x for x in r2 if x]
        if not b2:
            ctx.count("wall-clock observation which does not repeat")
            return
    ctx.fail(f"{client}: {b2[0][0]}", first=bad[0][0], **b2[0][1])


class _Fixed:
    def __init__(self, seed):
        self.seed = seed

    def getrandbits(self, n):
        return self.seed


def k_sync(ctx, rng, i):
    sched(ctx)
    cases = [Case(rng, 3) for _ in range(6)]
    out = [[] for _ in cases]
    th = [threading.Thread(target=sync_case, args=(ctx, c, r), daemon=True) for c, r in zip(cases, out)]
    for t in th:
        t.start()
    for t in th:
        t.join(30)
        if t.is_alive():
            ctx.fail("blocking call does not return for 30s", cases=[c.describe(0) for c in cases])

    def again(c):
        r = []
        t = threading.Thread(target=sync_case, args=(ctx, c, r), daemon=True)
        t.start()
        t.join(30)
        if t.is_alive():
            ctx.fail("blocking call does not return for 30s", case=c.describe(0))
        return r

    for c, r in zip(cases, out):
        settle(ctx, c, again, r, "sync")
    ctx.evals(6 * 3 - 1)
    ctx.sample(cases[0].describe(0))
    sched(ctx)


# -- async


async def async_case(ctx, case):
    s = sched(ctx)
    port = s.open(None)
    case.current = 0
    port.handler = case.handler(port)
    res = []
    try:
        c = case.cfg.session(AsyncSession, port.port, timeout=case.arg)

        async def bulk():
            return [await anext(c.getbulk(text(BASE), case.reps))]

        for k, (op, _, _) in enumerate(case.plan):
            case.current = k
            fn = {
                "get": lambda: c.get(text(BASE)),
                "get_many": lambda: c.get_many(case.many),
                "getnext": lambda: anext(c.getnext(text(BASE))),
                "getbulk": bulk,
                "refresh": lambda: c.refresh(),
            }[op]
            t0 = now()
            o = await aoutcome(fn())
            t1 = now()
            if case.plan[k][2][0] == "late" and port.sent_at is None:
                await asyncio.sleep(0.02)
            res.append(judge(ctx, case, k, o, t0, t1, port.sent_at, "async"))
    finally:
        port.close()
    return res


def k_async(ctx, rng, i):
    sched(ctx)
    cases = [Case(rng, 3) for _ in range(8)]

    async def run():
        return await asyncio.gather(*(async_case(ctx, c) for c in cases))

    aio = common.aio(ctx)
    for c, r in zip(cases, aio.run(run())):
        settle(ctx, c, lambda x: aio.run(async_case(ctx, x)), r, "async")
    ctx.evals(8 * 3 - 1)
    ctx.sample(cases[0].describe(0))
    sched(ctx)


# -- timeouts of seconds: many sessions wait at once

LONG = (0.5, 0.97, 1.0, 1.02, 1.25, 1.5, 1.75, 1.99, 2.0, 2.6, 3.0, 3.35, 4.7, 5.0, 5.2, 6.1)
LONGER = (7.3, 9.99, 10.0, 10.01, 12.3, 15.5, 20.0, 30.2, 31.0, 45.0)


def k_long(ctx, rng, i):
    sched(ctx)
    client = ("sync", "async")[i % 2]
    n = i // 2
    # The longest ones are a few per run
    ts = list(LONG) if n % 4 else [*LONG, 7.3, 10.0, 11.7] if ctx.tier == "quick" else [*LONG, *LONGER]
    ts += [rng.uniform(0.3, 6.0) for _ in range(4)]
    cases = [Case(rng, 1, t) for t in ts]
    if client == "async":

        async def run():
            return await asyncio.gather(*(async_case(ctx, c) for c in cases))

        aio = common.aio(ctx)
        out = aio.run(run())
        again = lambda x: aio.run(async_case(ctx, x))  # noqa: E731
    else:
        out = [[] for _ in cases]
        th = [threading.Thread(target=sync_case, args=(ctx, c, r), daemon=True) for c, r in zip(cases, out)]
        for t in th:
            t.start()
        end = now() + max(ts) + 30
        for c, t in zip(cases, th):
            t.join(max(0.0, end - now()))
            if t.is_alive():
                ctx.fail("blocking call does not return for 30s more than its timeout", case=c.describe(0))

        def again(c):
            r = []
            t = threading.Thread(target=sync_case, args=(ctx, c, r), daemon=True)
            t.start()
            t.join(c.t + 30)
            if t.is_alive():
                ctx.fail("blocking call does not return for 30s more than its timeout", case=c.describe(0))
            return r

    for c, r in zip(cases, out):
        ctx.beat()
        settle(ctx, c, again, r, client)
    ctx.count(f"{client}: timeouts of seconds", len(cases))
    ctx.evals(len(cases) - 1)
    sched(ctx)


# -- signals


def k_signals(ctx, rng, i):
    """Signals whose handlers return: neither the wait ends nor its clock restarts."""
    sched(ctx)
    if threading.current_thread() is not threading.main_thread():
        raise Inconclusive("signals are handled by the main thread only")
    n = 0

    def handler(*_):
        nonlocal n
        n += 1
        if slow:
            time.sleep(slow)

    slow = rng.choice((0, 0, 0, 0.004))
    c = Case(rng, 3)
    first = rng.uniform(0.005, c.t)
    every = rng.choice((0, c.t * 0.3, c.t * 0.9, 0.02, 0.01))

    def once(c):
        r = []
        signal.setitimer(signal.ITIMER_REAL, first, every)
        try:
            sync_case(ctx, c, r)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return r

    old = signal.signal(signal.SIGALRM, handler)
    try:
        settle(ctx, c, once, once(c), f"sync, signals every {every:.3f}s from {first:.3f}s")
    finally:
        signal.signal(signal.SIGALRM, old)
    ctx.count("signals handled", n)
    ctx.evals(2)


# -- low level sockets and odd timeouts

ODD = (1e-9, 1e-6, 1e-4, 0.001, 0.003, 0.0101, 3600.0, 1e6, 4e9)


def k_odd(ctx, rng, i):
    """Very short and very long timeouts."""
    t = ODD[i % len(ODD)]
    client = ("sync", "async")[(i // len(ODD)) % 2]
    s = sched(ctx)
    name = rng.choice(ALL_CFG)
    cfg = common.make_cfg(name, rng, "localized")
    ag = msg.Agent(cfg, boots=1, time=1)
    answer = t > 10

    def h(d, at):
        req = msg.parse_request(d, cfg)
        rig = common.Rig.__new__(common.Rig)
        rig.cfg, rig.agent = cfg, ag
        out = [(x, mismatch(rng, rig, "get", req, [], 7)[0]) for x in (0.0, 0.002, 0.01, 0.02)]
        if answer:
            out.append((0.03, ag.reply(req, vbs_for("get", 55))))
        return out

    for _ in range(4):
        port = s.open(h)
        try:
            t0 = now()
            if client == "sync":
                c = outcome(cfg.session, SyncSession, port.port)
                c = outcome(lambda: cfg.session(SyncSession, port.port, timeout=t))
                if not c.ok:
                    ctx.count(f"timeout {t} is refused: {c.kind}")
                    return
                o = outcome(c.value.get, text(BASE))
            else:
                c = outcome(lambda: cfg.session(AsyncSession, port.port, timeout=t))
                if not c.ok:
                    ctx.count(f"timeout {t} is refused: {c.kind}")
                    return
                o = common.aio(ctx).run(aoutcome(c.value.get(text(BASE))))
            took = now() - t0
        finally:
            port.close()
        if answer:
            ok = o.ok and o.value == 55
        else:
            ok = isinstance(o.exc, TimeoutError) and took < t + slack(t, client)
        if ok:
            break
    else:
        ctx.fail(f"{client}: timeout {t}: {o!r} in {took:.3f}s", cfg=repr(cfg), timeout=t)
    ctx.count(f"{client}: timeout {t}")
    ctx.sig("odd", client, t, name)


# -- flood: more than can be processed

FLOOD = """
import os, socket, sys, time
os.sched_setaffinity(0, range(os.cpu_count() or 1))
s = socket.socket(fileno=int(sys.argv[1]))
s.setblocking(False)
a = (sys.argv[4], int(sys.argv[2]))
d = [bytes.fromhex(x) for x in sys.stdin.readline().split()]
end = time.monotonic() + float(sys.argv[3])
n = 0
while time.monotonic() < end:
    for _ in range(50):
        for x in d:
            try:
                s.sendto(x, a)
                n += 1
            except OSError:
                pass
    if os.getppid() == 1:
        break
print(n)
"""


def k_flood(ctx, rng, i):
    client = ("sync", "async")[i % 2]
    name = ("v2c", "v3-sha1-aes", "v3-sha1", "v3-md5-des", "v1", "v3")[(i // 2) % 6]
    cfg = common.make_cfg(name, rng, "localized")
    ag = msg.Agent(cfg, boots=1, time=1)
    t = rng.choice((0.3, 0.5))
    last = t + 5.0
    s = sched(ctx)
    for attempt in range(3):
        procs = []

        def h(d, at):
            req = msg.parse_request(d, cfg)
            big = [msg.vb((*BASE, 1), ostr(rng.randbytes(3600)))] if rng.random() < 0.6 else vbs_for("get", 7)
            if cfg.auth and rng.random() < 0.7:
                x = [ag.reply(req, big, mac=rng.randbytes(12)) for _ in range(2)]
            else:
                x = [ag.reply(req, big, req_id=req.req_id ^ (1 << k)) for k in range(2)]
            for _ in range(2):
                e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
                p = subprocess.Popen(
                    ["/usr/bin/python3", "-c", FLOOD, str(port.sock.fileno()), str(port.client[1]), str(last), port.client[0]],
                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, pass_fds=[port.sock.fileno()], env=e,
                )  # fmt: skip
                p.stdin.write((" ".join(y.hex() for y in x) + "\n").encode())
                p.stdin.flush()
                procs.append(p)
            return []

        port = s.open(None)
        port.handler = h
        # Agent of another session of the same loop: silent
        mute = s.open(None)
        mute.handler = lambda d, at: []
        side = None
        try:
            if client == "sync":
                c = cfg.session(SyncSession, port.port, timeout=t)
                t0 = now()
                o = outcome(c.get, text(BASE))
            else:
                c = cfg.session(AsyncSession, port.port, timeout=t)
                c2 = cfg.session(AsyncSession, mute.port, timeout=t)

                async def timed(x):
                    o = await aoutcome(x.get(text(BASE)))
                    return o, now()

                async def both():
                    return await asyncio.gather(timed(c), timed(c2))

                t0 = now()
                (o, t1), side = common.aio(ctx).run(both())
            took = (now() if client == "sync" else t1) - t0
        finally:
            mute.close()
            for p in procs:
                p.terminate()
                p.wait()
                p.stdin.close()
                p.stdout.close()
            port.close()
        sched(ctx)
        # Without a deadline it lasts as long as the flood; the limit leaves room for a starved CPU
        if took <= t + 3.5 and isinstance(o.exc, TimeoutError) and took >= t - EARLY:
            if side is None:
                break
            if isinstance(side[0].exc, TimeoutError) and t - EARLY <= side[1] - t0 <= t + 3.5:
                ctx.count("calls beside the flooded one")
                break
            o, took = side[0], side[1] - t0
    else:
        ctx.fail(f"{client}: under the flood of non-matching datagrams the call took {took:.3f}s, timeout is {t}: {o!r}", cfg=repr(cfg))
    ctx.count(f"{client}: floods")
    ctx.sig("flood", client, name)


KINDS = {
    "sync": Kind(k_sync, 280, 20_000, confirm=True),
    "async": Kind(k_async, 240, 20_000, confirm=True),
    "long": Kind(k_long, 8, 200, confirm=True),
    "signals": Kind(k_signals, 160, 8_000, confirm=True),
    "odd": Kind(k_odd, len(ODD) * 2 * 4, len(ODD) * 2 * 400),
    "flood": Kind(k_flood, 24, 600),
}

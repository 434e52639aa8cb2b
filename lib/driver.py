"""Case driver which runs inside of the worker process (under pyhost).

A check module defines PROP, RULE and KINDS: {name: Kind}. Each kind is a function
fn(ctx, rng, index); cases are numbered, workers take index mod W, so a case is
reproduced by (seed, kind, index) alone.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import struct
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, msg: str, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    """Observation was disturbed (for example scheduler stalls): not a verdict."""


class Kind:
    def __init__(self, fn, quick: int, thorough: int | None = None, variant: str = "plain", confirm: bool = False, exhaustive=None, weight: float = 1.0):
        self.fn = fn
        self.quick = quick
        self.thorough = quick * 10 if thorough is None else thorough
        self.variant = variant
        # Wall-clock judgements are reported only if they repeat
        self.confirm = confirm
        self.exhaustive = exhaustive


class Ctx:
    def __init__(self, seed: int, tier: str):
        self.seed = seed
        self.tier = tier
        self.counts: dict[str, int] = {}
        self.sigs: set[bytes] = set()
        self.samples: dict[str, list] = {}
        self.kind = ""
        self.index = 0
        self.extra = 0
        self.cache: dict = {}
        self.trace: list = []
        self.state = None
        self.beats = 0

    def beat(self) -> None:
        """A long case goes on."""
        if self.state is not None:
            self.beats += 1
            os.pwrite(self.state.fileno(), f"{self.kind} {self.index} +{self.beats}".encode().ljust(64), 0)

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def evals(self, n: int) -> None:
        """The case judged n more executions than one."""
        self.extra += n

    def sig(self, *parts) -> None:
        """Register a distinct non-trivial case."""
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def sample(self, obj) -> None:
        s = self.samples.setdefault(self.kind, [])
        if len(s) < 2:
            s.append(obj)

    def fail(self, msg: str, **detail):
        raise Violation(msg, detail)


def case_rng(seed: int, prop: str, kind: str, index: int) -> random.Random:
    return random.Random(f"{seed}/{prop}/{kind}/{index}")


def is_library_error(e: BaseException) -> bool:
    """Unexpected exception comes from the code under test, not from the harness."""
    if type(e).__name__ == "PanicException":
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return bool(last and last.startswith("/repo/"))


def run_case(mod, ctx: Ctx, kind: str, index: int):
    """Returns None or (msg, detail)."""
    ctx.kind, ctx.index = kind, index
    k = mod.KINDS[kind]
    rng = case_rng(ctx.seed, mod.PROP, kind, index)
    try:
        k.fn(ctx, rng, index)
    except Violation as e:
        return e.msg, e.detail
    except Inconclusive as e:
        ctx.count("inconclusive")
        ctx.count(f"inconclusive: {e}")
        return None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if is_library_error(e):
            return f"unexpected {type(e).__name__}: {e}", {"traceback": traceback.format_exc()[-3000:]}
        raise
    return None


def main(argv) -> int:
    """worker: PROP TIER SEED WORKER NWORKERS OUTDIR VARIANT DEADLINE_S [KIND INDEX]"""
    prop, tier, seed, wid, nw, out, variant, budget = argv[:8]
    seed, wid, nw, budget = int(seed), int(wid), int(nw), float(budget)
    only = argv[8:]
    if not only:
        try:
            cpus = sorted(os.sched_getaffinity(0))
            if nw > 1:
                os.sched_setaffinity(0, {cpus[wid % len(cpus)]})
        except OSError:
            pass
    mod = importlib.import_module(f"checks.{prop.lower()}")
    ctx = Ctx(seed, tier)
    ctx.variant = variant
    ctx.wid = wid
    state = open(os.path.join(out, f"state.{variant}.{wid}"), "wb", buffering=0)
    ctx.state = state
    t0 = time.monotonic()
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    plan = []
    if only:
        plan = [(0.0, only[0], int(i)) for i in only[1].split(",")]
    else:
        for name, k in mod.KINDS.items():
            if k.variant != variant or name not in os.environ.get("VERIF_KINDS", name).split(","):
                continue
            n = k.quick if tier == "quick" else k.thorough
            # offset so kinds with few cases are spread over workers
            off = int.from_bytes(hashlib.md5(name.encode()).digest()[:2], "big")
            # Shifted from block to block: the remainder of an index selects the
            # configuration here and there, every process must see all of them
            plan += [((i + 0.5) / n, name, i) for i in range(n) if (i + off + ((i // nw * 0x9E3779B1) >> 13)) % nw == wid]
        plan.sort()
    done: dict[str, int] = {}
    violations = []
    capped = False
    for frac, kind, index in plan:
        if time.monotonic() - t0 > budget:
            capped = True
            break
        os.pwrite(state.fileno(), f"{kind} {index}".encode().ljust(64), 0)
        r = run_case(mod, ctx, kind, index)
        done[kind] = done.get(kind, 0) + 1
        if r is not None:
            violations.append({"kind": kind, "index": index, "msg": r[0], "detail": _clean(r[1])})
            if len(violations) >= 3:
                break
    if hasattr(mod, "teardown"):
        mod.teardown(ctx)
    with open(os.path.join(out, f"sigs.{variant}.{wid}"), "wb") as f:
        f.write(b"".join(ctx.sigs))
    with open(os.path.join(out, f"result.{variant}.{wid}.json"), "w") as f:
        json.dump(
            {
                "done": done,
                "planned": len(plan),
                "capped": capped,
                "counts": ctx.counts,
                "extra": ctx.extra,
                "samples": _clean(ctx.samples),
                "violations": violations,
                "wall": time.monotonic() - t0,
            },
            f,
        )
    return 0


def _clean(o, depth=0):
    """JSON-friendly, bounded representation."""
    if depth > 8:
        return repr(o)[:500]
    if isinstance(o, dict):
        return {str(k): _clean(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set)):
        return [_clean(v, depth + 1) for v in list(o)[:80]]
    if isinstance(o, (bytes, bytearray)):
        return bytes(o).hex()
    if isinstance(o, bool) or o is None or isinstance(o, (int, float)):
        if isinstance(o, float) and o != o:
            return "nan"
        return o
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) < 4000 else s[:4000] + "..."

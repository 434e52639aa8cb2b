#!/usr/bin/env python3
"""Runs the check of one property: builds from /repo's working tree, runs the workload
in crash-isolated worker processes, and reports what the monitors observed.

usage: check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]
exit: 0 held on everything explored, 1 VIOLATION, 2 no verdict
"""

from __future__ import annotations

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from checks.meta import PROPS  # noqa: E402
from lib import build  # noqa: E402

NCPU = max(1, min(8, len(os.sched_getaffinity(0))))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}
ASAN_EXIT = 99


def py_env(variant: str) -> dict:
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_", "ASAN"))}
    e["PYTHONPATH"] = "/repo/src"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["RUST_BACKTRACE"] = "0"
    e["PYTHONHOME"] = "/usr"
    if variant in ("asan", "cov"):
        e["PYTHONMALLOC"] = "malloc"
        e["ASAN_OPTIONS"] = f"detect_leaks=0:exitcode={ASAN_EXIT}:allocator_may_return_null=1:symbolize=1"
        sym = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer")
        if sym:
            e["ASAN_SYMBOLIZER_PATH"] = sym
    return e


class Job:
    def __init__(self, kind: str, variant: str, cmd: list[str], env: dict, out: str, tag: str, budget: float, hang: float):
        self.kind, self.variant, self.cmd, self.env, self.out, self.tag = kind, variant, cmd, env, out, tag
        self.budget, self.hang = budget, hang
        self.rc = None
        self.hung = False
        self.stderr = ""
        self.stdout = ""
        self.state = ""

    def run(self) -> None:
        so, se = os.path.join(self.out, f"stdout.{self.tag}"), os.path.join(self.out, f"stderr.{self.tag}")
        st = os.path.join(self.out, f"state.{self.tag}")
        with open(so, "wb") as o, open(se, "wb") as er:
            p = subprocess.Popen(self.cmd, stdout=o, stderr=er, stdin=subprocess.DEVNULL, env=self.env, cwd=ROOT, start_new_session=True)
        last, last_t = b"", time.monotonic()
        t0 = last_t
        while True:
            try:
                self.rc = p.wait(0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.monotonic()
            cur = b""
            try:
                with open(st, "rb") as f:
                    cur = f.read()
            except OSError:
                cur = str(os.path.getsize(so)).encode()
            if cur != last:
                last, last_t = cur, now
            if now - last_t > self.hang or now - t0 > self.budget + self.hang + 60:
                self.hung = True
                try:
                    os.killpg(p.pid, signal.SIGABRT)
                    p.wait(3)
                except (OSError, subprocess.TimeoutExpired):
                    pass
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                self.rc = p.wait()
                break
        try:
            with open(st, "rb") as f:
                self.state = f.read().decode(errors="replace").strip()
        except OSError:
            pass
        with open(se, "rb") as f:
            f.seek(max(0, os.path.getsize(se) - 200_000))
            self.stderr = f.read().decode(errors="replace")
        with open(so, "rb") as f:
            self.stdout = f.read().decode(errors="replace")


def worker_cmd(variant, prop, tier, seed, wid, nw, out, budget, only=()):
    return [
        build.bin_path(variant, "pyhost_det" if variant == "det" else "pyhost"),
        "-X", "faulthandler", f"{ROOT}/lib/worker.py",
        prop, tier, str(seed), str(wid), str(nw), out, variant, str(budget), *only,
    ]  # fmt: skip


def known_findings(prop: str) -> list[tuple[str, str]]:
    r = []
    try:
        with open(f"{ROOT}/known_findings.txt") as f:
            for ln in f:
                if ln.startswith(f"finding: property={prop} key="):
                    key, _, desc = ln.strip().partition("key=")[2].partition(" ")
                    r.append((key, desc))
    except OSError:
        pass
    return r


def run_single(prop, tier, seed, variant, kind, index, hang, env=None) -> dict:
    """Re-run one case alone."""
    out = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        j = Job("py", variant, worker_cmd(variant, prop, tier, seed, 0, 1, out, 600, (kind, str(index))), py_env(variant), out, f"{variant}.0", 600, hang)
        j.run()
        return classify(j, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def classify(j: Job, out: str) -> dict:
    """Outcome of a job: result, violations, error."""
    r = {"violations": [], "error": None, "result": None}
    if j.kind == "py":
        p = os.path.join(out, f"result.{j.tag}.json")
        if os.path.exists(p):
            with open(p) as f:
                r["result"] = json.load(f)
            r["violations"] = r["result"]["violations"]
    else:
        res = {"done": {}, "counts": {}, "samples": {}, "violations": [], "distinct": 0, "planned": 0, "capped": False}
        for ln in j.stdout.splitlines():
            if not ln.startswith("{"):
                continue
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if "count" in d:
                res["counts"][d["count"]] = res["counts"].get(d["count"], 0) + d["n"]
            elif "done" in d:
                res["done"][d["done"]] = res["done"].get(d["done"], 0) + d["n"]
                res["planned"] += d["n"]
            elif "extra" in d:
                res["extra"] = res.get("extra", 0) + d["extra"]
            elif "capped" in d:
                res["capped"] = True
            elif "distinct" in d:
                res["distinct"] += d["n"]
            elif "sample" in d:
                res["samples"].setdefault(d["sample"], []).append(d["v"])
            elif "violation" in d:
                res["violations"].append({"kind": d["violation"], "index": d.get("index", 0), "msg": d["msg"], "detail": d.get("detail")})
            elif "state" in d:
                j.state = d["state"]
        if j.rc == 0 or res["violations"]:
            r["result"] = res
        r["violations"] = res["violations"]
    if j.hung:
        r["violations"].append({"kind": _k(j), "index": _i(j), "msg": f"the code under test does not return: no progress for {j.hang:.0f}s", "detail": {"case": j.state, "stderr": j.stderr[-4000:]}})
    elif j.rc == ASAN_EXIT and "AddressSanitizer" in j.stderr:
        at = j.stderr.find("==ERROR: AddressSanitizer")
        r["violations"].append({"kind": _k(j), "index": _i(j), "msg": "AddressSanitizer report", "detail": {"case": j.state, "report": j.stderr[max(at, 0) : max(at, 0) + 5000]}})
    elif j.variant == "miri" and j.rc != 0 and "Undefined Behavior" in j.stderr:
        at = j.stderr.find("error: Undefined Behavior")
        r["violations"].append({"kind": _k(j), "index": _i(j), "msg": "Miri: undefined behaviour", "detail": {"case": j.state, "report": j.stderr[max(at, 0) : max(at, 0) + 4000]}})
    elif j.rc is not None and j.rc < 0 and -j.rc in CRASH:
        r["violations"].append({"kind": _k(j), "index": _i(j), "msg": f"the process died of {signal.Signals(-j.rc).name}", "detail": {"case": j.state, "stderr": j.stderr[-4000:]}})
    elif j.rc != 0 and not r["violations"] and (at := j.stderr.find("panicked at /repo/src/")) >= 0:
        r["violations"].append({"kind": _k(j), "index": _i(j), "msg": "the library code panics", "detail": {"case": j.state, "stderr": j.stderr[at : at + 3000]}})
    elif j.rc != 0 and not r["violations"]:
        r["error"] = f"{j.tag}: worker exit {j.rc} at {j.state!r}: {j.stderr[-3000:]}"
    elif r["result"] is None and not r["violations"]:
        r["error"] = f"{j.tag}: no result: {j.stderr[-3000:]}"
    return r


def _k(j):
    return j.state.split()[0] if j.state else "startup"


def _i(j):
    p = j.state.split()
    return int(p[1]) if len(p) > 1 and p[1].isdigit() else 0


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only", help="run only this kind:index")
    ap.add_argument("--variants")
    a = ap.parse_args()
    prop, tier, seed = a.prop.upper(), a.tier, a.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    meta = PROPS[prop]
    t0 = time.time()
    hang = meta.get("hang_s", 60.0)
    budget = a.budget or (meta.get("quick_s", 45.0) if tier == "quick" else meta.get("thorough_s", 900.0))

    # -- build
    want: dict[str, list[str]] = {}
    for v in meta["variants"]:
        if a.variants and v not in a.variants.split(","):
            continue
        want.setdefault(v, []).append("pyhost_det" if v == "det" else "pyhost")
    natives = [n for n in meta.get("natives", []) if n.get("tier", tier) == tier and not (a.variants and n["variant"] not in a.variants.split(","))]
    builds = [(v, b) for v, b in want.items()]
    # Every binary which touches the internals is built on its own: when a refactoring
    # moves them, the others are still able to decide.
    builds += [(n["variant"], [n["bin"]]) for n in natives]
    uniq = {}
    for v, b in builds:
        uniq[(v, tuple(b))] = None
    order: dict[str, list] = {}
    for v, b in uniq:
        order.setdefault(v, []).append(b)

    def do(v):
        return {(v, b): build.build(v, list(b)) for b in order[v]}

    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(do, order):
            uniq.update(r)
    notes = []
    okb = {}
    for (v, b), (ok, log) in uniq.items():
        okb[(v, b[0])] = ok
        if not ok:
            notes.append(f"component skipped, does not build: {v} {b[0]}")
            print(f"NOTE: {notes[-1]}\n{log[-2500:]}", file=sys.stderr)
    build_s = time.time() - t0
    pyvars = [v for v in want if okb.get((v, want[v][0]))]
    natives = [n for n in natives if okb.get((n["variant"], n["bin"]))]
    if "plain" in want and "plain" not in pyvars:
        print("ERROR: the crate does not build", file=sys.stderr)
        return 2
    if not pyvars and not natives:
        print("ERROR: nothing to run", file=sys.stderr)
        return 2

    # -- replay
    if a.replay or a.only:
        if a.replay:
            with open(a.replay) as f:
                rp = json.load(f)
            seed, tier = rp["seed"], rp["tier"]
            variant, kind, index = rp["variant"], rp["kind"], rp["index"]
            if rp.get("native"):
                j = Job("rs", variant, rp["native"]["cmd"], build.env_for("miri") if variant == "miri" else py_env(variant), tempfile.mkdtemp(prefix="verif-replay-"), "rs", 900, hang)
                j.run()
                c = classify(j, j.out)
                shutil.rmtree(j.out, ignore_errors=True)
            else:
                c = run_single(prop, tier, seed, variant, kind, index, hang)
        else:
            kind, index = a.only.split(":")
            variant = pyvars[0]
            c = run_single(prop, tier, seed, variant, kind, index, hang)
        print(json.dumps(c, indent=1)[:20000])
        if c["violations"]:
            print(f"VIOLATION property={prop} replay={a.replay or a.only}")
            return 1
        return 2 if c["error"] else 0

    # -- run
    out = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return explore(prop, tier, seed, meta, pyvars, natives, out, budget, hang, notes, t0, build_s)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def explore(prop, tier, seed, meta, pyvars, natives, out, budget, hang, notes, t0, build_s) -> int:
    jobs: list[Job] = []
    for v in pyvars:
        nw = meta.get("workers", {}).get(v, NCPU)
        share = meta.get("share", {}).get(v, 1.0)
        for w in range(nw):
            jobs.append(Job("py", v, worker_cmd(v, prop, tier, seed, w, nw, out, budget * share), py_env(v), out, f"{v}.{w}", budget * share, hang))
    for n in natives:
        shards = n.get("shards", NCPU)
        for w in range(shards):
            args = [n["mode"], str(seed), str(w), str(shards), str(n["n"] if tier == "quick" else n.get("thorough", n["n"] * 20)), str(budget * n.get("share", 0.5))]
            cmd = build.miri_cmd(args) if n["variant"] == "miri" else [build.bin_path(n["variant"], n["bin"]), *args]
            pre = n.get("prefix")
            if pre:
                if not shutil.which(pre[0]):
                    notes.append(f"{pre[0]} is not available")
                    continue
                cmd = [*pre, *cmd]
            jobs.append(Job("rs", n["variant"], cmd, build.env_for("miri") if n["variant"] == "miri" else py_env(n["variant"]), out, f"rs-{n['bin']}-{n['mode']}-{n['variant']}{'-vg' if pre else ''}.{w}", budget, n.get("hang_s", 120)))
    with ThreadPoolExecutor(meta.get("parallel", NCPU)) as ex:
        list(ex.map(lambda j: j.run(), jobs))

    # -- merge
    sigs: set[bytes] = set()
    extra_distinct = 0
    extra_evals = 0
    counts: dict[str, int] = {}
    done: dict[str, int] = {}
    samples: list = []
    sample_kinds: dict[str, int] = {}
    violations, errors = [], []
    capped = 0
    planned = 0
    for j in jobs:
        c = classify(j, out)
        if c["error"]:
            if j.variant == "miri":
                # An interpreter: what it does not support is no verdict
                notes.append("miri: " + c["error"][-300:])
            else:
                errors.append(c["error"])
        for v in c["violations"]:
            violations.append((j, v))
        r = c["result"]
        if not r:
            continue
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
        pre = "" if j.kind == "py" and j.variant == "plain" else f"{j.variant}:"
        for k, n in r["done"].items():
            done[pre + k] = done.get(pre + k, 0) + n
        planned += r.get("planned", 0)
        extra_evals += r.get("extra", 0)
        capped += bool(r.get("capped"))
        for k, ss in r["samples"].items():
            for s in ss:
                if sample_kinds.get(k, 0) < 2:
                    sample_kinds[k] = sample_kinds.get(k, 0) + 1
                    samples.append({"kind": pre + k, "case": s})
        extra_distinct += r.get("distinct", 0)
        p = os.path.join(out, f"sigs.{j.tag}")
        if os.path.exists(p):
            with open(p, "rb") as f:
                b = f.read()
            sigs.update(b[i : i + 8] for i in range(0, len(b), 8))

    # -- confirm
    confirmed = []
    known = known_findings(prop)
    seen_known = set()
    for j, v in violations:
        key = (v.get("detail") or {}).get("key") if isinstance(v.get("detail"), dict) else None
        m = [k for k in known if k[0] == key]
        if m:
            seen_known.add(m[0])
            continue
        if v["kind"] in meta.get("confirm", ()) and j.kind == "py":
            if len(confirmed) >= 1:
                continue
            n = sum(bool(run_single(prop, tier, seed, j.variant, v["kind"], v["index"], hang)["violations"]) for _ in range(3))
            v["reproduced"] = f"{n}/3"
            if n < 2:
                notes.append(f"not confirmed: {v['kind']} {v['index']}: {v['msg']} ({n}/3)")
                counts["unconfirmed timing observations"] = counts.get("unconfirmed timing observations", 0) + 1
                continue
        confirmed.append((j, v))

    evaluations = sum(done.values()) + extra_evals
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs) + extra_distinct,
            "rule": meta["rule"],
            "samples": shrink(samples),
            "cases_by_kind": done,
            "observed": dict(sorted(counts.items())),
            "planned": planned,
            "workers_cut_by_time": capped,
            "build_s": round(build_s, 1),
        },
        "assumptions": meta.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(confirmed),
    }
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    tmp = f"{ROOT}/evidence/.{prop}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{ROOT}/evidence/{prop}.json")

    for n in notes:
        print(f"NOTE: {n}", file=sys.stderr)
    for k, d in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {k} {d}")
    if confirmed:
        os.makedirs(f"{ROOT}/replays", exist_ok=True)
        for n, (j, v) in enumerate(confirmed[:5]):
            path = f"{ROOT}/replays/{prop}-{v['kind']}-{v['index']}.json"
            rp = {"property": prop, "tier": tier, "seed": seed, "variant": j.variant, **v}
            if j.kind != "py":
                rp["native"] = {"cmd": j.cmd}
            elif n == 0 and "reproduced" not in v:
                rp["reproduced_alone"] = bool(run_single(prop, tier, seed, j.variant, v["kind"], v["index"], min(hang, 60))["violations"]) if v["kind"] != "startup" else None
            with open(path, "w") as f:
                json.dump(rp, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['kind']}[{v['index']}] ({j.variant}): {v['msg']}"[:1500])
            d = v.get("detail")
            if d:
                print("  " + json.dumps(d)[:3000])
        return 1
    if errors:
        print(f"ERROR: {errors[0]}", file=sys.stderr)
        return 2
    print(f"{prop}: held on {evaluations} cases, {len(sigs) + extra_distinct} distinct non-trivial, {ev['wall_s']}s (build {build_s:.0f}s)")
    return 0


def shrink(samples):
    r, n = [], 0
    for s in samples:
        t = json.dumps(s)
        if len(t) > 3000:
            s = {"kind": s["kind"], "case": t[:2500] + "..."}
            t = json.dumps(s)
        if n + len(t) > 36000:
            break
        n += len(t)
        r.append(s)
    return r


if __name__ == "__main__":
    sys.exit(main())

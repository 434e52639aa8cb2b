"""Builds the monitors' binaries from /repo's working tree, offline."""

from __future__ import annotations

import fcntl
import hashlib
import os
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"

# variant: crate, toolchain, rustflags, extra cargo args
VARIANTS = {
    "plain": ("harness", STABLE, "", []),
    "det": ("harness_det", STABLE, "", []),
    "miri": ("harness_miri", NIGHTLY, "", []),
    "cov": (
        "harness",
        NIGHTLY,
        "-Zsanitizer=address -Cforce-frame-pointers=yes -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters",
        ["--target", TRIPLE],
    ),
    "asan": ("harness", NIGHTLY, "-Zsanitizer=address -Cforce-frame-pointers=yes", ["--target", TRIPLE]),
}


def src_hash() -> str:
    h = hashlib.sha256()
    files = []
    for base in (f"{REPO}/src", f"{ROOT}/harness", f"{ROOT}/harness_det", f"{ROOT}/harness_miri", f"{ROOT}/rand_shim"):
        for d, dirs, fs in os.walk(base):
            dirs[:] = [x for x in dirs if x not in ("target", "__pycache__")]
            files += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()


def env_for(variant: str) -> dict:
    crate, tc, flags, _ = VARIANTS[variant]
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_NET_OFFLINE"] = "true"
    e["PYO3_PYTHON"] = "/usr/bin/python3"
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    if flags:
        e["RUSTFLAGS"] = flags
    if variant == "miri":
        e["CARGO_TARGET_DIR"] = target_dir(variant)
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    return e


def miri_cmd(args: list[str]) -> list[str]:
    return ["cargo", "miri", "run", "--quiet", "--offline", "--manifest-path", f"{ROOT}/harness_miri/Cargo.toml", "--", *args]


def target_dir(variant: str) -> str:
    return f"{ROOT}/.build/{variant}"


def bin_path(variant: str, name: str) -> str:
    if VARIANTS[variant][3]:
        return f"{target_dir(variant)}/{TRIPLE}/release/{name}"
    return f"{target_dir(variant)}/release/{name}"


def build(variant: str, bins: list[str]) -> tuple[bool, str]:
    """Returns (ok, log tail)."""
    crate, _, _, extra = VARIANTS[variant]
    td = target_dir(variant)
    os.makedirs(td, exist_ok=True)
    t0 = time.time()
    with open(f"{td}/.verif-lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = src_hash()
        stamp = f"{td}/.verif-src"
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            # Never trust mtimes: force the rebuild of what compiles /repo
            for d, dirs, _ in os.walk(td):
                if os.path.basename(d) == ".fingerprint":
                    for x in list(dirs):
                        if x.startswith("gufo_snmp"):
                            shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                    dirs[:] = []
                if os.path.basename(d) in ("deps", "incremental", "build"):
                    dirs[:] = []
            with open(stamp, "w") as f:
                f.write(h)
        cmd = ["cargo", "build", "--release", "--offline", "--target-dir", td, *extra]
        for b in bins:
            cmd += ["--bin", b]
        if variant == "miri":
            # Nothing to run yet: the build and the interpreter's start
            cmd = miri_cmd(["ops", "1", "0", "1", "0", "1"])
        p = subprocess.run(cmd, cwd=f"{ROOT}/{crate}", env=env_for(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with open(f"{td}/.verif-log-{'-'.join(bins)}", "w") as f:
            f.write(p.stdout)
    return p.returncode == 0, f"{variant} {bins}: rc={p.returncode} {time.time() - t0:.1f}s\n" + p.stdout[-4000:]

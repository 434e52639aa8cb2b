#!/bin/bash
# Builds every component of the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
from checks.meta import PROPS
from lib import build

want = {}
for m in PROPS.values():
    for v in m["variants"]:
        want.setdefault(v, {})["pyhost_det" if v == "det" else "pyhost"] = None
    for n in m.get("natives", []):
        want.setdefault(n["variant"], {})[n["bin"]] = None

def do(v):
    return [(v, b, *build.build(v, [b])) for b in want[v]]

bad = 0
with ThreadPoolExecutor(4) as ex:
    for rs in ex.map(do, want):
        for v, b, ok, log in rs:
            print(v, b, "ok" if ok else "FAILED")
            if not ok:
                print(log)
                # Only the first one is needed by every check
                bad |= v == "plain" and b == "pyhost"
sys.exit(bad)
P

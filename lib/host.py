"""Loads the library under test: /repo's Python layer over the extension compiled into
the running interpreter (pyhost)."""

import sys

REPO = "/repo"


def load():
    if "gufo.snmp" in sys.modules:
        return sys.modules["gufo.snmp._fast"]
    import _fast  # compiled in

    sys.dont_write_bytecode = True
    sys.path.insert(0, f"{REPO}/src")
    sys.modules["gufo.snmp._fast"] = _fast
    import gufo.snmp

    gufo.snmp._fast = _fast
    return _fast


fast = load()

import gufo.snmp as gs  # noqa: E402
from gufo.snmp import async_client, sync_client  # noqa: E402

SyncSession = sync_client.SnmpSession
AsyncSession = async_client.SnmpSession

SnmpError = gs.SnmpError
SnmpDecodeError = gs.SnmpDecodeError
SnmpEncodeError = gs.SnmpEncodeError
SnmpAuthError = gs.SnmpAuthError
NoSuchInstance = gs.NoSuchInstance

DOCUMENTED = (SnmpError, TimeoutError, BlockingIOError, OSError, ValueError, StopIteration, StopAsyncIteration)

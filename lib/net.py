"""Scripted agents and the links between them and the code under test."""

from __future__ import annotations

import asyncio
import ctypes
import os
import select
import socket
import threading
import time

from . import host

WAIT = 20.0  # generous wait for what must arrive


class Out:
    """Outcome of a call."""

    __slots__ = ("exc", "value")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self) -> bool:
        return self.exc is None

    @property
    def kind(self) -> str:
        return "value" if self.exc is None else type(self.exc).__name__

    def __repr__(self) -> str:
        s = f"value {self.value!r}" if self.exc is None else f"{type(self.exc).__name__}({self.exc})"
        return s if len(s) < 400 else s[:400] + "..."


def outcome(fn, *args) -> Out:
    try:
        return Out(fn(*args))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # PanicException is not an Exception
        return Out(exc=e)


def is_panic(o: Out) -> bool:
    return o.exc is not None and not isinstance(o.exc, Exception)


def _v6() -> bool:
    try:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
        s.bind(("::", 0))
        s.settimeout(0.5)
        for fam, a in ((socket.AF_INET6, "::1"), (socket.AF_INET, "127.0.0.1")):
            c = socket.socket(fam, socket.SOCK_DGRAM)
            c.settimeout(0.5)
            c.connect((a, s.getsockname()[1]))
            c.send(b"x")
            s.sendto(b"y", s.recvfrom(10)[1])
            c.recv(10)
            c.close()
        s.close()
        return True
    except OSError:
        return False


HAVE_V6 = _v6()


def bind_explicit(s: socket.socket, host: str) -> socket.socket:
    """Any free port, but given by number, so hear() does not lose it."""
    while True:
        with socket.socket(s.family, socket.SOCK_DGRAM) as t:
            if s.family == socket.AF_INET6:
                t.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
            t.bind((host, 0))
            port = t.getsockname()[1]
        try:
            s.bind((host, port))
            return s
        except OSError:  # taken in between
            continue


def agent_socket() -> socket.socket:
    """Answers at 127.0.0.1 and at ::1, where there is one."""
    if HAVE_V6:
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
        s = bind_explicit(s, "::")
    else:
        s = bind_explicit(socket.socket(socket.AF_INET, socket.SOCK_DGRAM), "127.0.0.1")
    s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
    return s


_libc = ctypes.CDLL(None, use_errno=True)


def deafen(sock: socket.socket) -> None:
    """Datagrams to the socket are refused (ICMP port unreachable), the port is kept."""
    sock.connect(("127.0.0.1", 9) if sock.family == socket.AF_INET else ("::1", 9))


def hear(sock: socket.socket) -> None:
    """Undo deafen()."""
    a = ctypes.create_string_buffer(28)  # AF_UNSPEC
    if _libc.connect(sock.fileno(), a, 28) < 0:
        raise OSError(ctypes.get_errno(), "connect(AF_UNSPEC)")


def refused(o: Out) -> bool:
    """The call has ended with `connection refused`."""
    return isinstance(o.exc, OSError) and "refused" in str(o.exc).lower()


def udp_queue(port: int) -> tuple[int, int] | None:
    """Octets waiting at the local port, datagrams dropped there (None: not seen in the table)."""
    k = b":%04X " % port
    for f in ("/proc/net/udp", "/proc/net/udp6"):
        try:
            with open(f, "rb") as x:
                for ln in x:
                    if k in ln[:60]:
                        w = ln.split()
                        if w[1].endswith(k[:-1]):
                            return int(w[4].split(b":")[1], 16), int(w[-1])
        except OSError:
            pass
    return None


def flood(sock, addr, strays, n: int, over, batch: int = 60) -> int:
    """Sends n datagrams at the pace of the receiver until over(). Returns how many were lost."""

    def state():
        for _ in range(100):  # rows can be missed while the table changes
            q = udp_queue(addr[1])
            if q is not None:
                return q
        return 0, 1 << 30  # the receiver is gone

    lost = state()[1]
    end = time.monotonic() + WAIT / 2
    for k in range(n):
        sock.sendto(strays[k % len(strays)], addr)
        if k % batch == batch - 1:
            while state()[0]:
                time.sleep(0.0002)
                if over() or time.monotonic() > end:
                    return 1
    return state()[1] - lost


class Peer:
    """Agent's side UDP socket."""

    def __init__(self, bufsize: int = 1 << 20):
        self.sock = bind_explicit(socket.socket(socket.AF_INET, socket.SOCK_DGRAM), "127.0.0.1")
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, bufsize)
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]
        self.addr = f"127.0.0.1:{self.port}"
        self.client = None

    def recv(self, wait: float = 0.0) -> bytes | None:
        try:
            d, self.client = self.sock.recvfrom(65535)
            return d
        except BlockingIOError:
            pass
        if wait:
            r, _, _ = select.select([self.sock], [], [], wait)
            if r:
                d, self.client = self.sock.recvfrom(65535)
                return d
        return None

    def drain(self) -> list[bytes]:
        r = []
        while (d := self.recv()) is not None:
            r.append(d)
        return r

    def send(self, data: bytes) -> None:
        self.sock.sendto(data, self.client)

    def close(self) -> None:
        self.sock.close()


class Link:
    """Non-blocking low level socket with the peer, everything in one thread."""

    def __init__(self, cfg, peer: Peer | None = None):
        self.cfg = cfg
        self.own = peer is None
        self.peer = peer or Peer()
        self.sock = cfg.ll_socket(host.fast, self.peer.addr, **cfg.ll_extra())
        self.fd = self.sock.get_fd()
        s = socket.socket(fileno=os.dup(self.fd))
        self.client = s.getsockname()
        s.close()
        self.peer.client = self.client

    def unreachable(self, send, recv, late: bool) -> bool:
        """Port of the agent is unreachable for one request. late: the error is reported
        by the next send, which is lost, too; otherwise, by the receive.
        Returns False if the network has not reported."""
        deafen(self.peer.sock)
        try:
            o = outcome(*send)
            if not o.ok:
                return refused(o)
        finally:
            hear(self.peer.sock)
        if late:
            o = outcome(*send)
        else:
            o = outcome(*recv)
            if isinstance(o.exc, BlockingIOError):
                select.select([self.fd], [], [], 0.3)
                o = outcome(*recv)
        self.peer.drain()
        return refused(o)

    def reopen(self):
        self.sock = None
        self.__init__(self.cfg, self.peer)

    def request(self, fn, *args) -> tuple[Out, bytes | None]:
        """Run send_*; returns the outcome and the datagram on the wire."""
        o = outcome(fn, *args)
        return o, self.peer.recv(WAIT if o.ok else 0.0)

    def feed(self, *datagrams: bytes) -> None:
        for d in datagrams:
            self.peer.sock.sendto(d, self.client)

    def readable(self, wait: float = 0.0) -> bool:
        r, _, _ = select.select([self.fd], [], [], wait)
        return bool(r)

    def recv(self, fn, *args, blocks: bool = False) -> Out:
        """Run recv_*. BlockingIOError is final only if nothing is about to arrive."""
        for _ in range(100):
            o = outcome(fn, *args)
            if not isinstance(o.exc, BlockingIOError):
                return o
            if not self.readable(0.0 if blocks else 0.3):
                return o
        return o

    def drain(self) -> int:
        """Drop everything queued for the client."""
        s = socket.socket(fileno=os.dup(self.fd))
        s.setblocking(False)
        n = 0
        try:
            while True:
                s.recv(65535)
                n += 1
        except OSError:
            pass
        finally:
            s.close()
        return n

    def close(self) -> None:
        self.sock = None
        if self.own:
            self.peer.close()


class ThreadAgent:
    """Agent in a thread: for the blocking API. handler(data) -> iterable of datagrams."""

    def __init__(self, handler=None):
        self.sock = agent_socket()
        self.port = self.sock.getsockname()[1]
        self.addr = f"127.0.0.1:{self.port}"
        self.handler = handler
        self.log: list[bytes] = []
        self.error: BaseException | None = None
        self._stop = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def _run(self) -> None:
        while True:
            d, a = self.sock.recvfrom(65535)
            if d == b"!stop":
                return
            if d.startswith(b"!sync"):
                self.sock.sendto(d, a)
                continue
            self.log.append(d)
            try:
                for r in self.handler(d) or ():
                    if callable(r):
                        r(self.sock, a)
                    else:
                        self.sock.sendto(r, a)
            except BaseException as e:  # noqa: BLE001
                self.error = e

    def sync(self) -> None:
        """Wait until everything sent so far is processed."""
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.settimeout(WAIT)
        s.sendto(b"!sync", ("127.0.0.1", self.port))
        s.recv(100)
        s.close()

    def use(self, handler) -> None:
        self.sync()
        self.handler = handler
        self.log = []
        self.error = None

    def check(self) -> None:
        """Surface harness errors."""
        self.sync()
        if self.error is not None:
            raise self.error

    def close(self) -> None:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.sendto(b"!stop", ("127.0.0.1", self.port))
        s.close()
        self.thread.join(5)
        self.sock.close()


class AsyncAgent:
    """Agent in the same event loop."""

    def __init__(self, handler, loop=None):
        self.sock = agent_socket()
        self.sock.setblocking(False)
        self.port = self.sock.getsockname()[1]
        self.handler = handler
        self.log: list[bytes] = []
        self.error: BaseException | None = None
        self.loop = loop or asyncio.get_running_loop()
        self.client = None
        self.loop.add_reader(self.sock.fileno(), self._ready)

    def _ready(self) -> None:
        while True:
            try:
                d, a = self.sock.recvfrom(65535)
            except BlockingIOError:
                return
            self.client = a
            self.log.append(d)
            try:
                for r in self.handler(d) or ():
                    if callable(r):
                        r(self.sock, a)
                    else:
                        self.sock.sendto(r, a)
            except BaseException as e:  # noqa: BLE001
                self.error = e

    def check(self) -> None:
        if self.error is not None:
            raise self.error

    def close(self) -> None:
        self.loop.remove_reader(self.sock.fileno())
        self.sock.close()


async def aoutcome(coro) -> Out:
    try:
        return Out(await coro)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return Out(exc=e)


class AsyncHost:
    """One event loop per worker."""

    def __init__(self):
        self.loop = asyncio.new_event_loop()

    def run(self, coro):
        return self.loop.run_until_complete(coro)


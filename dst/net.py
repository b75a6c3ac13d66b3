"""
The simulated network: TCP streams and UDP datagrams between endpoints of one
simulated process, with seeded segmentation, coalescing, delay, loss,
duplication, reordering, resets, refusals, partitions and full buffers.
"""

import asyncio
from asyncio import transports
import errno
import socket as _socket

from dst.core import SimLoop

LOCAL = "127.0.0.1"


class NetCfg:
    """Knobs of the network (one swarm configuration per run)."""

    defaults = {
        # Latency of one segment or datagram, microseconds.
        "lat_min_us": 20,
        "lat_max_us": 20,
        # TCP: how received bytes are split into reads. 0: everything that is
        # available in one read. Otherwise the probability that a read is
        # short, and the largest short read.
        "p_short": 0.0,
        "short_max": 1,
        # TCP: probability that a read resets the connection instead.
        "p_reset": 0.0,
        # TCP: connection attempts.
        "p_refuse": 0.0,
        "p_unreach": 0.0,
        "connect_max_us": 200,
        "accept_max_us": 200,
        # TCP: the kernel's send buffer.
        "sndbuf": 1 << 18,
        # TCP: closing with unread data or late writes resets the peer.
        "rst_on_close": 0,
        # UDP.
        "p_drop": 0.0,
        "p_dup": 0.0,
        "dup_max_us": 2_000,
        "p_late": 0.0,
        "late_max_us": 300_000,
        "p_senderr": 0.0,
        # UDP: how often one and the same datagram may be lost or late
        # (-1: any number of times).
        "udp_budget": -1,
    }

    def __init__(self, **kwargs) -> None:
        for key, val in self.defaults.items():
            setattr(self, key, kwargs.pop(key, val))
        assert not kwargs, kwargs


class FakeSocket:
    """Stands in for a kernel socket."""

    def __init__(self, family=_socket.AF_INET, kind=_socket.SOCK_STREAM,
                 proto=0, fileno=None, net=None) -> None:
        del fileno
        self.net = net if net is not None else SimNet.current
        self.family = int(family)
        self.type = int(kind)
        self.proto = proto
        self.name = ("0.0.0.0", 0)
        self.peer = None
        self.closed = False
        self.opts: dict = {}
        self.bound_key = None

    def bind(self, addr) -> None:
        host = self.net.resolve(addr[0])
        port = addr[1] or self.net.free_port(self.type)
        self.name = (host, port)
        self.net.bind(self, self.name)

    def connect(self, addr) -> None:
        if self.name[1] == 0:
            self.bind((LOCAL, 0))
        if self.name[0] == "0.0.0.0":
            self.name = (LOCAL, self.name[1])
        self.peer = (self.net.resolve(addr[0]), addr[1])

    def getsockname(self):
        return self.name

    def getpeername(self):
        if self.peer is None:
            raise OSError(errno.ENOTCONN, "not connected")
        return self.peer

    def setsockopt(self, level, opt, val) -> None:
        self.opts[(level, opt)] = val

    def getsockopt(self, level, opt, *_):
        if (level, opt) == (_socket.IPPROTO_IP, 14):
            return self.net.mtu
        return self.opts.get((level, opt), 0)

    def send(self, data) -> int:
        if len(data) > self.net.mtu - 28:
            raise OSError(errno.EMSGSIZE, "Message too long")
        return len(data)

    def setblocking(self, *_):
        return None

    def settimeout(self, *_):
        return None

    def fileno(self) -> int:
        return -1

    def listen(self, *_):
        return None

    def close(self) -> None:
        if not self.closed:
            self.closed = True
            self.net.unbind(self)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


class SimNet:
    """All endpoints of one simulated network."""

    current: "SimNet" = None

    def __init__(self, loop: SimLoop, cfg: NetCfg) -> None:
        self.loop = loop
        self.cfg = cfg
        self.ch = loop.choices
        self.mtu = 1500
        self.next_port = 40_000
        self.bound: dict = {}
        self.listeners: dict = {}
        self.udp: dict = {}
        self.conns: list = []
        self.names: dict = {}
        self.partitioned: set = set()
        self.down_until = 0.0
        self.healthy = False
        self.unreachable = False
        # Observers: called with every datagram that is handed to the network
        # and every segment that is delivered.
        self.udp_taps: list = []
        self.udp_rx_taps: list = []
        self.udp_err_taps: list = []
        self.tcp_taps: list = []
        # Data given to transports: (transport, data, accepted).
        self.tx_taps: list = []
        # Port labels: stable, readable names for choice sites.
        self.labels: dict = {}
        self.udp_filter = None
        self.udp_spent: dict = {}
        self.counts = {"udp_sent": 0, "udp_delivered": 0, "tcp_segments": 0,
                       "tcp_bytes": 0}
        loop.net = self
        SimNet.current = self

    # -- faults on/off ------------------------------------------------------
    def heal(self) -> None:
        """From now on the network is fault-free."""
        self.healthy = True
        self.unreachable = False
        self.partitioned.clear()

    def prob(self, name: str) -> float:
        """Current probability of a fault kind."""
        return 0.0 if self.healthy else getattr(self.cfg, name)

    # -- addresses ----------------------------------------------------------
    def resolve(self, host) -> str:
        if host in (None, "", "localhost"):
            return LOCAL if host == "localhost" else "0.0.0.0"
        return host

    def free_port(self, _kind) -> int:
        self.next_port += 1
        return self.next_port

    def bind(self, sock: FakeSocket, name) -> None:
        key = (sock.type & 0xF, name[1])
        if key in self.bound and not sock.opts:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.bound[key] = sock
        sock.bound_key = key

    def unbind(self, sock: FakeSocket) -> None:
        if sock.bound_key is not None:
            if self.bound.get(sock.bound_key) is sock:
                del self.bound[sock.bound_key]
            sock.bound_key = None

    def label(self, port: int) -> str:
        return self.labels.get(port, str(port))

    # -- partitions ---------------------------------------------------------
    def cut(self, port_a: int, port_b: int = 0) -> bool:
        """Is traffic of one of these ports cut off?"""
        return bool(self.partitioned) and (
            0 in self.partitioned
            or port_a in self.partitioned
            or port_b in self.partitioned
        )

    def partition(self, port: int = 0) -> None:
        self.partitioned.add(port)
        self.loop.fault("partition")

    def unpartition(self, port: int = 0) -> None:
        self.partitioned.discard(port)

    def latency(self, site: str) -> float:
        cfg = self.cfg
        micros = self.ch.pick(
            site,
            cfg.lat_min_us,
            lambda r: r.randint(cfg.lat_min_us, cfg.lat_max_us),
        )
        return micros / 1e6

    # -- TCP ----------------------------------------------------------------
    async def listen_tcp(self, factory, host=None, port=None, *, sock=None,
                         ssl=None, start_serving=True, **_):
        assert ssl is None, "TLS isn't simulated"
        if sock is None:
            sock = FakeSocket(kind=_socket.SOCK_STREAM, net=self)
            sock.opts["reuse"] = False
            key = (int(_socket.SOCK_STREAM), port)
            if port and key in self.listeners:
                raise OSError(
                    errno.EADDRINUSE,
                    f"error while attempting to bind on address "
                    f"('{host}', {port}): address already in use",
                )
            sock.bind((host, port or 0))
        await asyncio.sleep(0)
        server = SimServer(self, factory, sock)
        if start_serving:
            server._start()
        return server

    async def connect_tcp(self, factory, host=None, port=None, *, sock=None,
                          ssl=None, local_addr=None, **_):
        assert ssl is None, "TLS isn't simulated"
        loop = self.loop
        if sock is not None:
            host, port = sock.getpeername()
        label = self.label(port)
        delay = self.ch.pick(
            f"tcp.connect.{label}",
            50,
            lambda r: r.randint(10, max(10, self.cfg.connect_max_us)),
        )
        await asyncio.sleep(delay / 1e6)
        key = (int(_socket.SOCK_STREAM), port)
        begin = loop.time()
        while self.cut(port):
            await asyncio.sleep(0.05)
            if loop.time() - begin > 127.0:
                loop.fault("tcp_connect_timeout")
                raise TimeoutError(
                    errno.ETIMEDOUT,
                    f"Connect call failed ('{host}', {port})",
                )
        loop.event("tcp.syn", label)
        server = self.listeners.get(key)
        if self.unreachable or self.ch.chance(
            f"tcp.unreach.{label}", self.prob("p_unreach")
        ):
            loop.fault("tcp_unreachable")
            loop.event("tcp.unreach", label)
            raise OSError(
                errno.EHOSTUNREACH,
                f"Connect call failed ('{host}', {port})",
            )
        refuse = self.ch.chance(f"tcp.refuse.{label}", self.prob("p_refuse"))
        if refuse and server is not None:
            loop.fault("tcp_refused")
        if server is None or refuse:
            loop.event("tcp.refused", label)
            raise ConnectionRefusedError(
                errno.ECONNREFUSED,
                f"Connect call failed ('{host}', {port})",
            )
        if sock is None:
            sock = FakeSocket(kind=_socket.SOCK_STREAM, net=self)
            sock.name = (LOCAL, self.free_port(1))
            sock.peer = (self.resolve(host), port)
        speer = FakeSocket(kind=_socket.SOCK_STREAM, net=self)
        speer.name = (LOCAL, port)
        speer.peer = sock.name
        conn = TcpConn(self, label, len(self.conns))
        self.conns.append(conn)
        client = TcpTransport(self, conn, "c", sock)
        peer = TcpTransport(self, conn, "s", speer)
        conn.a, conn.b = client, peer
        client.other, peer.other = peer, client

        # Accept happens some time later (or never, if the listener goes
        # away first).
        adelay = self.ch.pick(
            f"tcp.accept.{label}",
            30,
            lambda r: r.randint(10, max(10, self.cfg.accept_max_us)),
        )

        def accept() -> None:
            if not server._serving:
                conn.reset("listener closed", both=False)
                return
            protocol = server._factory()
            peer._server = server
            server._active += 1
            loop.event("tcp.accept", label, conn.index)
            peer._attach(protocol)
            conn.pump("c")

        loop.call_later(adelay / 1e6, accept)
        protocol = factory()
        loop.event("tcp.connect", label, conn.index)
        waiter = loop.create_future()
        client._attach(protocol, waiter)
        await waiter
        return client, protocol

    # -- UDP ----------------------------------------------------------------
    async def open_udp(self, factory, local_addr=None, remote_addr=None, *,
                       sock=None, **kwargs):
        loop = self.loop
        if sock is None:
            sock = FakeSocket(kind=_socket.SOCK_DGRAM, net=self)
            if kwargs.get("reuse_port"):
                sock.opts["reuse"] = True
            if local_addr is not None:
                sock.bind(local_addr)
            if remote_addr is not None:
                sock.connect(remote_addr)
            elif local_addr is None:
                sock.bind((None, 0))
        protocol = factory()
        transport = UdpTransport(self, sock, protocol)
        transport._check_addr = remote_addr is not None
        self.udp[sock.name[1]] = transport
        waiter = loop.create_future()
        loop.call_soon(protocol.connection_made, transport)
        loop.call_soon(_wake, waiter)
        await waiter
        return transport, protocol


def _wake(fut) -> None:
    if not fut.done():
        fut.set_result(None)


class SimServer(asyncio.AbstractServer):
    """A listening TCP socket (semantics of asyncio.base_events.Server)."""

    def __init__(self, net: SimNet, factory, sock: FakeSocket) -> None:
        self._net = net
        self._factory = factory
        self._sock = sock
        self._sockets = [sock]
        self._serving = False
        self._active = 0
        self._waiters: list = []
        self._forever = None

    def _key(self):
        return (int(_socket.SOCK_STREAM), self._sock.name[1])

    def _start(self) -> None:
        self._serving = True
        self._net.listeners[self._key()] = self

    def get_loop(self):
        return self._net.loop

    def is_serving(self) -> bool:
        return self._serving

    @property
    def sockets(self):
        return () if self._sockets is None else tuple(self._sockets)

    async def start_serving(self) -> None:
        if not self._serving:
            self._start()
        await asyncio.sleep(0)

    async def serve_forever(self) -> None:
        self._start()
        self._forever = self._net.loop.create_future()
        try:
            await self._forever
        finally:
            self._forever = None
            self.close()

    def close(self) -> None:
        if self._sockets is None:
            return
        self._sockets = None
        self._serving = False
        if self._net.listeners.get(self._key()) is self:
            del self._net.listeners[self._key()]
        self._sock.close()
        self._net.loop.event("tcp.unlisten", self._sock.name[1])
        if self._forever is not None and not self._forever.done():
            self._forever.cancel()
        if self._active == 0:
            self._wakeup()

    def _wakeup(self) -> None:
        waiters, self._waiters = self._waiters, None
        for waiter in waiters or []:
            _wake(waiter)

    def _detach(self) -> None:
        self._active -= 1
        if self._active == 0 and self._sockets is None:
            self._wakeup()

    async def wait_closed(self) -> None:
        if self._waiters is None:
            return
        waiter = self._net.loop.create_future()
        self._waiters.append(waiter)
        await waiter


class TcpConn:
    """One TCP connection (two directions)."""

    def __init__(self, net: SimNet, label: str, index: int) -> None:
        self.net = net
        self.label = label
        self.index = index
        self.a: TcpTransport = None  # type: ignore
        self.b: TcpTransport = None  # type: ignore

    def ends(self, side: str):
        return (self.a, self.b) if side == "c" else (self.b, self.a)

    def pump(self, side: str) -> None:
        """Make sure a delivery from one side is scheduled."""
        src, dst = self.ends(side)
        if src._pumping or not (src._out or src._fin):
            return
        gone = dst._closing or dst._conn_lost
        if not gone and (not dst._open or dst._paused):
            return
        src._pumping = True
        delay = self.net.latency(f"tcp.lat.{self.label}.{side}")
        self.net.loop.call_later(delay, self._deliver, side)

    def _deliver(self, side: str) -> None:
        net = self.net
        loop = net.loop
        src, dst = self.ends(side)
        src._pumping = False
        if dst._conn_lost or not dst._open:
            # Data arrived for a socket that is gone.
            late = bool(src._out)
            src._out.clear()
            if late and net.cfg.rst_on_close:
                self.reset("write to closed peer", both=False, target=src)
            elif src._protocol is not None:
                src._maybe_resume()
                src._flushed()
            return
        if net.cut(src._sock.name[1], dst._sock.name[1]):
            src._pumping = True
            loop.call_later(0.05, self._deliver, side)
            return
        if dst._paused:
            return
        if src._out:
            site = f"{self.label}.{side}"
            if net.ch.chance(f"tcp.reset.{site}", net.prob("p_reset")):
                loop.fault("tcp_reset")
                self.reset("fault", both=True)
                return
            avail = min(len(src._out), 1 << 18)
            take = avail

            def gen(r):
                if r.random() >= net.cfg.p_short:
                    return 0
                return r.randint(1, max(1, net.cfg.short_max))

            short = net.ch.pick(f"tcp.short.{site}", 0, gen)
            if short and short < avail:
                take = short
                loop.fault("tcp_short_read")
            data = bytes(src._out[:take])
            del src._out[:take]
            src._bytes_delivered += take
            net.counts["tcp_segments"] += 1
            net.counts["tcp_bytes"] += take
            loop.event("tcp.data", f"{self.index}{side}", take)
            for tap in net.tcp_taps:
                tap(self, side, data)
            src._maybe_resume()
            dst._data(data)
            src._flushed()
            self.pump(side)
            return
        if src._fin:
            src._fin = False
            loop.event("tcp.eof", f"{self.index}{side}")
            dst._eof()

    def reset(self, why: str, both: bool = True, target=None) -> None:
        """Reset this connection."""
        self.net.loop.event("tcp.reset", self.index, why)
        ends = [target] if target is not None else [self.a, self.b]
        for end in ends:
            if end is not None and end._protocol is not None:
                end._lost(
                    ConnectionResetError(
                        errno.ECONNRESET, "Connection reset by peer"
                    )
                )
            elif end is not None:
                end._open = False
        if target is None:
            for end in (self.a, self.b):
                end._out.clear()


class TcpTransport(transports.Transport):
    """One end of a TCP connection."""

    def __init__(self, net: SimNet, conn: TcpConn, side: str,
                 sock: FakeSocket) -> None:
        super().__init__(
            extra={"socket": sock, "sockname": sock.name,
                   "peername": sock.peer}
        )
        self._net = net
        self._loop = net.loop
        self._conn = conn
        self._side = side
        self._sock = sock
        self._protocol = None
        self._server = None
        self._out = bytearray()
        self._fin = False
        self._fin_sent = False
        self._eof_called = False
        self._pumping = False
        self._open = False
        self._was_open = False
        self._closing = False
        self._conn_lost = False
        self._paused = False
        self._wpaused = False
        self._high, self._low = 1 << 16, 1 << 14
        self._bytes_delivered = 0
        self.bytes_written = 0
        self.other: TcpTransport = None  # type: ignore

    def _attach(self, protocol, waiter=None) -> None:
        self._protocol = protocol

        def made() -> None:
            protocol.connection_made(self)

        def ready() -> None:
            if not self._conn_lost and not self._closing:
                self._open = True
                self._was_open = True
                self._conn.pump("s" if self._side == "c" else "c")
            elif self._closing:
                self._was_open = True

        self._loop.call_soon(made)
        self._loop.call_soon(ready)
        if waiter is not None:
            self._loop.call_soon(_wake, waiter)

    # -- incoming -----------------------------------------------------------
    def _data(self, data: bytes) -> None:
        try:
            self._protocol.data_received(data)
        except Exception as exc:  # pylint: disable=broad-except
            self._fatal(exc, "Fatal error: protocol.data_received() failed.")

    def _eof(self) -> None:
        if self._conn_lost or self._closing:
            return
        try:
            keep = self._protocol.eof_received()
        except Exception as exc:  # pylint: disable=broad-except
            self._fatal(exc, "Fatal error: protocol.eof_received() failed.")
            return
        self._open = False
        if not keep:
            self.close()

    def _fatal(self, exc, message: str) -> None:
        self._loop.call_exception_handler(
            {"message": message, "exception": exc, "transport": self}
        )
        self._force(exc)

    def _force(self, exc) -> None:
        self._out.clear()
        other = self.other
        self._lost(exc)
        if other is not None and other._protocol is not None:
            other._lost(
                ConnectionResetError(
                    errno.ECONNRESET, "Connection reset by peer"
                )
            )

    def _lost(self, exc) -> None:
        if self._conn_lost:
            return
        self._conn_lost = True
        self._closing = True
        self._open = False
        self._loop.call_soon(self._call_lost, exc)

    def _call_lost(self, exc) -> None:
        self._loop.event(
            "tcp.lost", f"{self._conn.index}{self._side}",
            type(exc).__name__,
        )
        try:
            self._protocol.connection_lost(exc)
        except Exception as err:  # pylint: disable=broad-except
            self._loop.call_exception_handler(
                {"message": "connection_lost() failed", "exception": err}
            )
        finally:
            server = self._server
            self._server = None
            if server is not None:
                server._detach()

    # -- flow control -------------------------------------------------------
    def _excess(self) -> int:
        """Bytes held in the transport's own (user space) buffer."""
        return max(0, len(self._out) - self._net.cfg.sndbuf)

    def _maybe_pause(self) -> None:
        if not self._wpaused and self._excess() > self._high:
            self._wpaused = True
            self._loop.fault("tcp_backpressure")
            self._protocol.pause_writing()

    def _maybe_resume(self) -> None:
        if self._wpaused and self._excess() <= self._low:
            self._wpaused = False
            if self._protocol is not None:
                self._protocol.resume_writing()

    def _flushed(self) -> None:
        if self._closing and not self._conn_lost and not self._excess():
            self._lost(None)

    # -- the asyncio.Transport interface --------------------------------------
    def is_closing(self) -> bool:
        return self._closing

    def get_protocol(self):
        return self._protocol

    def set_protocol(self, protocol) -> None:
        self._protocol = protocol

    def is_reading(self) -> bool:
        return not self._paused and not self._closing

    def pause_reading(self) -> None:
        self._paused = True

    def resume_reading(self) -> None:
        self._paused = False
        self._conn.pump("s" if self._side == "c" else "c")

    def set_write_buffer_limits(self, high=None, low=None) -> None:
        if high is None:
            high = 1 << 16 if low is None else 4 * low
        if low is None:
            low = high // 4
        self._high, self._low = high, low

    def get_write_buffer_limits(self):
        return (self._low, self._high)

    def get_write_buffer_size(self) -> int:
        return self._excess()

    def write(self, data) -> None:
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(
                "data argument must be a bytes-like object, "
                f"not {type(data).__name__!r}"
            )
        if self._eof_called:
            raise RuntimeError("Cannot call write() after write_eof()")
        accepted = not (not data or self._conn_lost or self._closing)
        for tap in self._net.tx_taps:
            tap(self, data, accepted)
        if not accepted:
            # asyncio: bytes written to a closed transport vanish.
            return
        self._out += data
        self.bytes_written += len(data)
        self._conn.pump(self._side)
        self._maybe_pause()

    def writelines(self, list_of_data) -> None:
        self.write(b"".join(list_of_data))

    def can_write_eof(self) -> bool:
        return True

    def write_eof(self) -> None:
        if not self._fin_sent and not self._closing:
            self._fin_sent = True
            self._eof_called = True
            self._fin = True
            self._conn.pump(self._side)

    def close(self) -> None:
        if self._closing:
            return
        self._closing = True
        self._open = False
        if not self._fin_sent:
            self._fin_sent = True
            self._fin = True
        # Unread or late data resets the peer (if configured).
        other = self.other
        if self._net.cfg.rst_on_close and other._out and self._was_open:
            self._loop.fault("tcp_rst_on_close")
            other._out.clear()
            self._lost(None)
            other._lost(
                ConnectionResetError(
                    errno.ECONNRESET, "Connection reset by peer"
                )
            )
            return
        self._conn.pump(self._side)
        if not self._excess():
            self._lost(None)

    def abort(self) -> None:
        self._force(None)


class UdpTransport(transports.DatagramTransport):
    """One UDP socket."""

    def __init__(self, net: SimNet, sock: FakeSocket, protocol) -> None:
        super().__init__(
            extra={"socket": sock, "sockname": sock.name,
                   "peername": sock.peer}
        )
        self._net = net
        self._loop = net.loop
        self._sock = sock
        self._protocol = protocol
        self._closing = False
        self._check_addr = False

    def is_closing(self) -> bool:
        return self._closing

    def get_protocol(self):
        return self._protocol

    def set_protocol(self, protocol) -> None:
        self._protocol = protocol

    def get_write_buffer_size(self) -> int:
        return 0

    def sendto(self, data, addr=None) -> None:
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(
                "data argument must be a bytes-like object, "
                f"not {type(data).__name__!r}"
            )
        for tap in self._net.tx_taps:
            tap(self, data, bool(data) and not self._closing)
        if not data:
            return
        peer = self._sock.peer
        # asyncio only knows a connected address if it made the connection
        # (sock= has no address and thus isn't checked).
        if self._closing:
            return
        net = self._net
        loop = self._loop
        target = peer
        if target is None:
            if addr is None:
                self._loop.call_exception_handler(
                    {
                        "message": "Fatal write error on datagram transport",
                        "exception": TypeError("no address"),
                    }
                )
                self.abort()
                return
            target = (net.resolve(addr[0]), addr[1])
        elif addr is not None and self._check_addr:
            given = (net.resolve(addr[0]), addr[1])
            if given != target:
                raise ValueError(
                    f"Invalid address: must be None or {target}"
                )
        data = bytes(data)
        src = self._sock.name[1]
        site = f"{net.label(src)}>{net.label(target[1])}"
        if len(data) > 65507:
            loop.fault("udp_emsgsize")
            self._error(OSError(errno.EMSGSIZE, "Message too long"))
            return
        if net.ch.chance(f"udp.senderr.{site}", net.prob("p_senderr")):
            loop.fault("udp_senderr")
            self._error(OSError(errno.ENOBUFS, "No buffer space available"))
            return
        net.counts["udp_sent"] += 1
        for tap in net.udp_taps:
            tap(src, target[1], data)
        source = (
            LOCAL if self._sock.name[0] == "0.0.0.0" else self._sock.name[0],
            src,
        )

        verdict = None
        if net.udp_filter is not None:
            verdict = net.udp_filter(src, target[1], data)
        if net.cut(src, target[1]) or verdict == "drop":
            loop.event("udp.cut", site, len(data))
            return
        budget = net.cfg.udp_budget
        spend = (site, data)
        left = budget < 0 or net.udp_spent.get(spend, 0) < budget
        if net.ch.chance(f"udp.drop.{site}", net.prob("p_drop")) and left:
            net.udp_spent[spend] = net.udp_spent.get(spend, 0) + 1
            loop.fault("udp_drop")
            loop.event("udp.drop", site, len(data))
            return
        delay = net.latency(f"udp.lat.{site}")
        if net.ch.chance(f"udp.late.{site}", net.prob("p_late")) and left:
            net.udp_spent[spend] = net.udp_spent.get(spend, 0) + 1
            late = net.ch.pick(
                f"udp.late_us.{site}",
                1000,
                lambda r: r.randint(1, net.cfg.late_max_us),
            )
            delay += late / 1e6
            loop.fault("udp_late")
        copies = [delay]
        if net.ch.chance(f"udp.dup.{site}", net.prob("p_dup")):
            dup = net.ch.pick(
                f"udp.dup_us.{site}",
                100,
                lambda r: r.randint(1, net.cfg.dup_max_us),
            )
            copies.append(delay + dup / 1e6)
            loop.fault("udp_dup")
        for when in copies:
            loop.call_later(when, self._arrive, source, target, data, site)

    def _arrive(self, source, target, data: bytes, site: str) -> None:
        net = self._net
        if net.cut(source[1], target[1]):
            return
        dest = net.udp.get(target[1])
        ok = dest is not None and not dest._closing
        if ok and dest._sock.peer is not None:
            ok = dest._sock.peer[1] == source[1]
            if not ok:
                # The kernel drops it (and answers 'port unreachable').
                dest = None
        self._loop.event(
            "udp.data" if ok else "udp.unreach", site, len(data)
        )
        if not ok:
            if self._sock.peer is not None and not self._closing:
                self._loop.fault("udp_icmp_unreachable")
                self._loop.call_later(
                    net.cfg.lat_min_us / 1e6, self._icmp
                )
            return
        net.counts["udp_delivered"] += 1
        for tap in net.udp_rx_taps:
            tap(dest, data, source)
        try:
            dest._protocol.datagram_received(data, source)
        except Exception as exc:  # pylint: disable=broad-except
            self._loop.call_exception_handler(
                {"message": "datagram_received() failed", "exception": exc}
            )

    def _icmp(self) -> None:
        if not self._closing:
            self._error(
                ConnectionRefusedError(
                    errno.ECONNREFUSED, "Connection refused"
                )
            )

    def _error(self, exc) -> None:
        for tap in self._net.udp_err_taps:
            tap(self, exc)
        self._protocol.error_received(exc)

    def close(self) -> None:
        if self._closing:
            return
        self._closing = True
        if self._net.udp.get(self._sock.name[1]) is self:
            del self._net.udp[self._sock.name[1]]
        self._loop.call_soon(self._call_lost, None)

    def _call_lost(self, exc) -> None:
        self._sock.close()
        self._protocol.connection_lost(exc)

    def abort(self) -> None:
        self.close()

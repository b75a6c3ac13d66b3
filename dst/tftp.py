"""Shared workload of the TFTP properties."""

import asyncio
from contextlib import suppress

from runtimepy.net.udp.tftp import TftpConnection, tftp_read, tftp_write

from dst.util import payload, swarm_loop

BLOCK = 512
SIZES = [0, 1, 100, 511, 512, 513, 1023, 1024, 1025, 2048, 5000, 12 * 512]


def gen_net(rng, mode: str) -> tuple[dict, dict, dict]:
    """Network, scheduler and protocol parameters for a mode."""
    net: dict = {}
    loop: dict = {}
    par = {"period": 0.2, "timeout": 1.0}
    if rng.random() < 0.7:
        net["lat_min_us"] = rng.choice([5, 20, 200])
        net["lat_max_us"] = net["lat_min_us"] + rng.choice([0, 500, 15_000])
    if mode == "clean":
        loop = swarm_loop(rng, stall=False)
        return net, loop, par
    if mode == "dups":
        # Nothing is lost, but anything can be duplicated or reordered.
        net["p_dup"] = rng.choice([0.05, 0.3, 0.9])
        net["dup_max_us"] = rng.choice([500, 20_000, 300_000, 2_500_000])
        if rng.random() < 0.5:
            net["lat_max_us"] = net.get("lat_min_us", 20) + 40_000
        loop = swarm_loop(rng, stall=False)
        return net, loop, par
    if rng.random() < 0.8:
        net["p_drop"] = rng.choice([0.03, 0.15, 0.4])
    if rng.random() < 0.5:
        net["p_late"] = rng.choice([0.03, 0.15, 0.4])
        net["late_max_us"] = rng.choice([50_000, 700_000, 2_500_000])
    if rng.random() < 0.6:
        net["p_dup"] = rng.choice([0.05, 0.3])
        net["dup_max_us"] = rng.choice([500, 20_000, 300_000, 2_500_000])
    if mode == "budget":
        par["period"], par["timeout"], net["udp_budget"] = rng.choice(
            [(0.2, 1.0, 1), (0.2, 1.0, 1), (0.1, 1.0, 3), (0.05, 0.6, 3),
             (0.2, 2.0, 3)]
        )
        loop = swarm_loop(rng, stall=False)
    else:
        loop = swarm_loop(rng)
        net["p_drop"] = rng.choice([0.1, 0.4, 0.7])
    return net, loop, par


def gap(plan) -> float:
    """How long stragglers of one transfer can be around."""
    net = plan["net"]
    return (
        3.5
        + max(net.get("late_max_us", 0), net.get("dup_max_us", 0)) / 1e6
        + plan["par"]["timeout"]
    )


def brief_gap(plan, i: int) -> float:
    """
    Time between transfers on a network that loses and repeats nothing: the
    final acknowledgements of one transfer must not overtake the next one's
    request (connections use the same ports for all of their transfers).
    """
    net = plan["net"]
    if net.get("lat_max_us", 0) > net.get("lat_min_us", 0):
        return plan["par"]["timeout"] + 0.3
    return 0.001 if i % 2 else 0.4


class Socket(asyncio.DatagramProtocol):
    """One of the reference server's sockets."""

    def __init__(self, on_data) -> None:
        self.on_data = on_data
        self.transport = None

    def connection_made(self, transport):
        self.transport = transport

    def datagram_received(self, data, addr):
        self.on_data(self, data, addr)


class Reference:
    """
    A server written from RFC 1350: each transfer has a port of its own, an
    error packet ends the transfer. Packets of earlier transfers which were
    delayed by the network show up again ('stale').
    """

    def __init__(self, sim, root, par, stale) -> None:
        self.sim = sim
        self.root = root
        self.par = par
        self.stale = stale
        self.main = None
        self.sockets: list = []
        self.tasks: list = []
        self.active: dict = {}
        # Packets of each kind's previous transfer.
        self.old: dict = {1: (None, {}), 2: (None, {})}

    async def socket(self, on_data):
        """A new socket."""
        loop = asyncio.get_running_loop()
        transport, proto = await loop.create_datagram_endpoint(
            lambda: Socket(on_data), local_addr=("127.0.0.1", 0)
        )
        port = transport.get_extra_info("sockname")[1]
        self.sim.net.labels[port] = f"ref{len(self.sockets)}"
        self.sockets.append(proto)
        return proto, port

    async def start(self) -> int:
        """Start listening."""
        self.main, port = await self.socket(self.request)
        return port

    def stop(self) -> None:
        """Stop."""
        for task in self.tasks:
            task.cancel()
        for sock in self.sockets:
            sock.transport.close()

    def request(self, _, data, addr) -> None:
        """Handle a request (or a re-transmission of one)."""
        code = int.from_bytes(data[:2], "big")
        name = data[2:].split(b"\x00")[0].decode()
        if code not in (1, 2) or (code, name) in self.active:
            return
        token = object()
        self.active[(code, name)] = token
        self.tasks.append(
            asyncio.ensure_future(self.transfer(code, name, addr, token))
        )

    async def transfer(self, code, name, addr, token) -> None:
        """One transfer."""
        inbox: asyncio.Queue = asyncio.Queue()
        sock, _ = await self.socket(
            lambda _, data, src: inbox.put_nowait((data, src))
        )
        old_sock, old = self.old[code]
        sent: dict = {}
        self.old[code] = (sock, sent)

        def send(block, data):
            sent[block] = data
            sock.transport.sendto(data, addr)

        def repeat(block):
            """A packet of the previous transfer shows up."""
            if block in old and block != 2 - code:
                self.sim.fault("tftp_stale_packet")
                old_sock.transport.sendto(old[block], addr)

        async def expect(kind, block, again):
            """Wait for a packet, repeat the last one until it's there."""
            loop = asyncio.get_running_loop()
            end = loop.time() + self.par["timeout"]
            while loop.time() < end:
                again()
                tick = loop.time() + self.par["period"]
                while loop.time() < tick:
                    try:
                        data, src = await asyncio.wait_for(
                            inbox.get(), tick - loop.time()
                        )
                    except (TimeoutError, asyncio.TimeoutError):
                        break
                    if src != addr:
                        continue
                    got = (int.from_bytes(data[:2], "big"),
                           int.from_bytes(data[2:4], "big"))
                    if got[0] == 5:
                        self.sim.event("ref.error", data[4:-1].decode())
                        return None
                    if got == (kind, block):
                        return data[4:]
            return None

        try:
            if "start" in self.stale and old:
                repeat(max(old))
                await asyncio.sleep(0.05)
            if code == 1:
                await self.give(name, send, expect, repeat)
            else:
                await self.take(name, send, expect, repeat)
        finally:
            if self.active.get((code, name)) is token:
                self.active.pop((code, name))

    async def give(self, name, send, expect, repeat) -> None:
        """Send a file."""
        try:
            data = (self.root / name).read_bytes()
        except OSError:
            send(0, b"\x00\x05\x00\x01none\x00")
            return
        chunks = [data[x:x + BLOCK] for x in range(0, len(data), BLOCK)]
        if len(data) % BLOCK == 0:
            chunks.append(b"")
        for i, chunk in enumerate(chunks):
            head = b"\x00\x03" + (i + 1).to_bytes(2, "big")
            if "mid" in self.stale:
                repeat(i + 1)
                await asyncio.sleep(0.02)
            if await expect(
                4, i + 1, lambda h=head, i=i, c=chunk: send(i + 1, h + c)
            ) is None:
                return

    async def take(self, name, send, expect, repeat) -> None:
        """Receive a file."""
        result = bytearray()
        block, data = 0, bytes(BLOCK)

        def ack():
            send(block, b"\x00\x04" + block.to_bytes(2, "big"))

        while len(data) == BLOCK:
            if "mid" in self.stale:
                # Lost, while an acknowledgement of it appears.
                first = await expect(3, block + 1, ack)
                if first is None:
                    return
                repeat(block + 1)
            data = await expect(3, block + 1, ack)
            if data is None:
                return
            result += data
            block += 1
        try:
            (self.root / name).write_bytes(result)
        except OSError:
            return
        # The final acknowledgement could get lost.
        self.active.pop((2, name), None)
        for _ in range(4):
            if await expect(3, block, ack) is None:
                return


class World:
    """A server and its clients."""

    def __init__(self, sim, plan) -> None:
        self.sim = sim
        self.plan = plan
        self.root = sim.tmp / "srv"
        self.root.mkdir()
        self.local = sim.tmp / "cli"
        self.local.mkdir()
        self.server = None
        self.conn = None
        self.peer = None
        self.addr = None
        self.tasks: list = []

    async def start(self, form: str) -> None:
        """Start the server (and a connected client)."""
        par = self.plan["par"]
        sim = self.sim
        if form == "tid":
            # Some other implementation of a server (one client connection).
            self.peer = Reference(sim, self.root, par, self.plan["stale"])
            port = await self.peer.start()
            self.addr = ("127.0.0.1", port)
            self.conn = await TftpConnection.create_connection(
                remote_addr=self.addr
            )
            self.conn.endpoint_timeout.value = par["timeout"]
            self.conn.endpoint_period.value = par["period"]
            self.tasks.append(asyncio.create_task(self.conn.process()))
            sim.net.labels[self.conn.local_address.port] = "cli"
            await asyncio.sleep(0.01)
            return
        if form == "pair":
            self.conn, self.server = await TftpConnection.create_pair()
            conns = [self.conn, self.server]
            sim.net.labels[self.conn.local_address.port] = "cli"
        else:
            self.server = await TftpConnection.create_connection(
                local_addr=("127.0.0.1", 0)
            )
            conns = [self.server]
        sim.net.labels[self.server.local_address.port] = "srv"
        self.server.set_root(self.root)
        for conn in conns:
            conn.endpoint_timeout.value = par["timeout"]
            conn.endpoint_period.value = par["period"]
            self.tasks.append(
                asyncio.create_task(conn.process(disable_time=None))
            )
        local = self.server.local_address
        self.addr = ("127.0.0.1", local.port)
        await asyncio.sleep(0.01)

    async def write(self, name: str, data, verify: bool, fresh: bool):
        """Upload."""
        par = self.plan["par"]
        if fresh:
            return await tftp_write(
                self.addr, data, name, verify=verify,
                timeout_s=par["timeout"], reemit_period_s=par["period"],
            )
        return await self.conn.request_write(
            data, name, verify=verify,
            addr=self.addr if self.peer is not None else None,
        )

    async def read(self, name: str, dest, fresh: bool):
        """Download."""
        par = self.plan["par"]
        if fresh:
            return await tftp_read(
                self.addr, dest, name, timeout_s=par["timeout"],
                reemit_period_s=par["period"],
            )
        return await self.conn.request_read(
            dest, name, addr=self.addr if self.peer is not None else None
        )

    def bound(self, size: int) -> float:
        """A generous bound of how long a transfer takes."""
        blocks = size // BLOCK + 1
        stall = self.plan["loop"].get("stall_max_s", 0.0)
        return 30.0 + 2 * (blocks + 4) * (self.plan["par"]["timeout"] + 1.0) * (
            1 + 20 * stall
        )

    async def stop(self) -> None:
        """Stop everything."""
        for conn in (self.conn, self.server):
            if conn is not None:
                conn.disable("done")
        await self.sim.within(
            asyncio.gather(*self.tasks, return_exceptions=True), 30,
            "shutdown", "processing of the TFTP connections",
        )
        if self.peer is not None:
            self.peer.stop()


def content(path):
    """A file's content (or none)."""
    with suppress(FileNotFoundError):
        return path.read_bytes()
    return None


def source(world, form: str, i: int, data: bytes):
    """The source of an upload."""
    if form == "bytes":
        return data
    path = world.local / f"src{i}"
    path.write_bytes(data)
    return path


def data_of(oper) -> bytes:
    """Content of one file."""
    return payload(oper["tag"], oper["size"])

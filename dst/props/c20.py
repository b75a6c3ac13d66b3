"""
C20: the reported traffic of connections equals the traffic.
"""

import asyncio
from collections import deque
from contextlib import AsyncExitStack

from websockets.exceptions import ConnectionClosed

from runtimepy.metrics.channel import METRICS_DEPTH
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.stream.string import StringMessageConnection
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.websocket.connection import WebsocketConnection

from dst.util import payload, sane_ws, swarm_loop, swarm_net, text


def gen(rng, tier):
    """Generate a plan."""
    pairs = []
    for _ in range(rng.choice([1, 2, 3])):
        pairs.append({
            "kind": rng.choice(["tcp", "tcp", "udp", "udp", "ws", "stream"]),
            "restart": rng.random() < 0.5,
        })
    stream = any(x["kind"] != "udp" for x in pairs)
    net = swarm_net(rng, tcp=True, udp=True, breaks=stream)
    if any(x["kind"] == "ws" for x in pairs):
        net = sane_ws(net)
    if rng.random() < 0.2:
        net["p_senderr"] = rng.choice([0.02, 0.2])
    small = net.get("p_short", 0) > 0 and net.get("short_max", 99) < 64
    ops = []
    for _ in range(rng.choice([3, 10, 40, 100])):
        us = rng.choice([0, 0, 0, 100, 3_000, 80_000, 700_000])
        who, side = rng.randrange(len(pairs)), rng.choice("cs")
        roll = rng.random()
        if roll < 0.55:
            ops.append({
                "op": "send", "who": who, "side": side, "us": us,
                "text": rng.random() < 0.5,
                "size": rng.choice(
                    [0, 1, 2, 30] if small else [0, 1, 2, 30, 500, 4_000]
                ),
                "act": rng.choice(
                    [""] * 25 + ["slow", "slow", "raise", "false"]
                ),
                "ms": rng.choice([0, 1, 70, 900]),
            })
        elif roll < 0.62:
            ops.append({
                "op": "steady", "who": who, "side": side, "us": us,
                "size": rng.choice([1, 10, 20] if small else [1, 40, 900]),
                "count": rng.choice([5, 60, 150]),
                "gap_us": rng.choice([500, 20_000, 130_000]),
            })
        elif roll < 0.75:
            ops.append({"op": "poll", "us": us})
        elif roll < 0.79:
            ops.append({"op": "reset", "us": us,
                        "who": rng.choice([None, who]), "side": side})
        elif roll < 0.85:
            ops.append({"op": "disable", "who": who, "side": side, "us": us})
        elif roll < 0.87:
            ops.append({"op": "idle", "us": us,
                        "polls": rng.choice([10, METRICS_DEPTH + 5])})
        else:
            ops.append({"op": "wait", "us": rng.choice(
                [10_000, 1_000_000, 8_000_000]
            )})
    return {
        "net": net, "loop": swarm_loop(rng), "pairs": pairs, "ops": ops,
        "poll": rng.choice([0, 0, 0.1, 0.1, 0.37]),
    }


class Rate:
    """A reference rate: traffic over time in the latest intervals."""

    def __init__(self) -> None:
        self.reset()
        self.pending = 0

    def reset(self) -> None:
        """Start over."""
        self.points: deque = deque(maxlen=METRICS_DEPTH)
        self.prev = 0

    def poll(self, now: int, value: float = 0) -> None:
        """New interval."""
        self.pending += value
        if self.prev and now > self.prev:
            self.points.append((now - self.prev, self.pending))
            self.pending = 0
        self.prev = now

    @property
    def value(self) -> float:
        """Per second."""
        total = sum(x[0] for x in self.points)
        return sum(x[1] for x in self.points) / total * 1e9 if total else 0.0


class Channel:
    """What one direction of a connection should report."""

    def __init__(self) -> None:
        # (at least, at most)
        self.messages = [0, 0]
        self.bytes = [0, 0]
        self.msgs, self.kb = Rate(), Rate()
        self.exact = True

    def add(self, now: int, size: int, sure: bool = True) -> None:
        """Account for a message."""
        self.messages[1] += 1
        self.bytes[1] += size
        if sure:
            self.messages[0] += 1
            self.bytes[0] += size
            self.msgs.poll(now, 1)
            self.kb.poll(now, size * 8 / 1000)
        else:
            self.exact = False

    def poll(self, now: int) -> None:
        """Metrics are polled."""
        self.msgs.poll(now)
        self.kb.poll(now)

    def reset(self) -> None:
        """Metrics are reset."""
        self.messages, self.bytes = [0, 0], [0, 0]
        self.msgs.reset()
        self.kb.reset()
        # Something not accounted for yet may still be pending.
        self.exact = self.exact and not self.kb.pending


class Failed(Exception):
    """A handler fails."""


class World:
    """State of a run."""

    def __init__(self, sim) -> None:
        self.sim = sim
        self.tags = 0
        self.chans: dict = {}
        self.conns: list = []
        self.acts: dict = {}
        self.last_ns = 0
        sim.net.tx_taps.append(self.handed)

    def chan(self, conn, which: str) -> Channel:
        """Expected metrics."""
        return self.chans.setdefault((id(conn), which), Channel())

    def handed(self, transport, data, accepted: bool) -> None:
        """Data was handed to a transport."""
        for conn in self.conns:
            if getattr(conn, "_transport", None) is transport:
                self.chan(conn, "tx").add(
                    self.sim.loop.clock.now_ns, len(data), accepted
                )

    async def received(self, conn, data) -> bool:
        """A handler runs."""
        size = len(data.encode() if isinstance(data, str) else data)
        self.chan(conn, "rx").add(self.sim.loop.clock.now_ns, size)
        self.check(conn)
        act, msec = self.acts.get(data, ("", 0))
        if act == "slow":
            await asyncio.sleep(msec / 1e3)
        elif act == "raise":
            self.sim.fault("handler_raises")
            raise Failed
        elif act == "false":
            self.sim.fault("handler_rejects")
            return False
        return True

    def check(self, conn) -> None:
        """Reported metrics are right."""
        for which in ("tx", "rx"):
            want = self.chan(conn, which)
            pre = f"metrics.{which}."
            got = {
                x: conn.env.value(f"{pre}{x}")
                for x in ("messages", "messages_rate", "bytes", "kbps")
            }
            for name, bounds in (
                ("messages", want.messages), ("bytes", want.bytes)
            ):
                self.sim.check(
                    bounds[0] <= got[name] <= bounds[1], name,
                    lambda n=name, b=bounds: f"{conn.label} reports "
                    f"{got[n]} {which} {n}, really {b}",
                )
            for name, ref in (
                ("messages_rate", want.msgs), ("kbps", want.kb)
            ):
                self.sim.check(
                    got[name] >= 0, "negative",
                    f"{conn.label} {which} {name} is {got[name]}",
                )
                if want.exact:
                    self.sim.check(
                        abs(got[name] - ref.value)
                        <= 1e-3 + 1e-3 * ref.value, name,
                        lambda n=name, r=ref: f"{conn.label} reports {which} "
                        f"{n} {got[n]}, really {r.value} ({len(r.points)})",
                    )
                    self.sim.probe("rate", int(ref.value > 0))

    def poll(self, manager) -> None:
        """Poll metrics."""
        manager.poll_metrics()
        now = self.sim.loop.clock.now_ns
        for conn in manager.by_type(object):
            for which in ("tx", "rx"):
                self.chan(conn, which).poll(now)
            self.check(conn)


class Mixin:
    """Observe what is handled."""

    world: World
    label = "?"

    async def process_binary(self, data: bytes) -> bool:
        return await self.world.received(self, data)

    async def process_text(self, data: str) -> bool:
        return await self.world.received(self, data)


class Tcp(Mixin, TcpConnection):
    """A TCP connection."""


class Stream(StringMessageConnection, TcpConnection):
    """A message stream."""

    world: World
    label = "?"

    async def process_binary(self, data: bytes) -> bool:
        chan = self.world.chan(self, "rx")
        chan.add(self.world.sim.loop.clock.now_ns, len(data))
        self.world.check(self)
        return await super().process_binary(data)

    async def process_message(self, data: str, addr=None) -> bool:
        return True


class Udp(UdpConnection):
    """A UDP connection."""

    world: World
    label = "?"

    async def process_datagram(self, data: bytes, addr) -> bool:
        return await self.world.received(self, data)


class Ws(Mixin, WebsocketConnection):
    """A websocket connection."""

    def init(self) -> None:
        real = self.protocol.send

        async def send(data):
            chan = self.world.chan(self, "tx")
            size = len(data.encode() if isinstance(data, str) else data)
            try:
                await real(data)
            except ConnectionClosed:
                raise
            except BaseException:
                chan.add(self.world.sim.loop.clock.now_ns, size, False)
                raise
            chan.add(self.world.sim.loop.clock.now_ns, size)

        self.protocol.send = send


KINDS = {"tcp": Tcp, "udp": Udp, "ws": Ws, "stream": Stream}


async def scenario(sim, plan):
    """Run."""
    world = World(sim)
    loop = asyncio.get_running_loop()
    manager = ConnectionManager()
    stop, over = asyncio.Event(), asyncio.Event()
    pairs: list = []

    def setup(conn, label: str, restart: bool) -> None:
        conn.world = world
        conn.label = label
        conn.logger.disabled = True
        conn.env.set("auto_restart", restart)
        world.conns.append(conn)

    async def serve(index: int, kind: str, ready) -> None:
        """Run a server."""
        pair = pairs[index]

        def accepted(conn) -> None:
            setup(conn, f"s{index}", False)
            pair["s"] = conn
            pair["sessions"] += 1
            pair["accepted"].set()

        class Server(KINDS[kind]):
            """Server side."""

        async def ws_accepted(conn) -> bool:
            accepted(conn)
            return True

        async with AsyncExitStack() as stack:
            if kind == "ws":
                server = await stack.enter_async_context(
                    Server.serve(init=ws_accepted, host="127.0.0.1", port=0,
                                 manager=manager, stop_sig=stop)
                )
            else:
                def accept(conn) -> None:
                    accepted(conn)
                    manager.queue.put_nowait(conn)

                server = await stack.enter_async_context(
                    Server.serve(accept, host="127.0.0.1", port=0)
                )
            ready.set_result(list(server.sockets)[0].getsockname()[1])
            await over.wait()

    servers = []
    Ws.world = world
    for i, conf in enumerate(plan["pairs"]):
        kind = conf["kind"]
        pair = {"kind": kind, "accepted": asyncio.Event(), "sessions": 0,
                "steady": None}
        pairs.append(pair)
        if kind == "udp":
            one, two = await Udp.create_pair()
            pair["c"], pair["s"] = one, two
            for side in "cs":
                setup(pair[side], f"{side}{i}", False)
                manager.queue.put_nowait(pair[side])
            continue
        ready = loop.create_future()
        servers.append(loop.create_task(serve(i, kind, ready)))
        await asyncio.wait(
            [ready, servers[-1]], return_when=asyncio.FIRST_COMPLETED
        )
        port = ready.result() if ready.done() else servers[-1].result()
        sim.net.labels[port] = f"srv{i}"
        keep, sim.net.cfg.p_reset = sim.net.cfg.p_reset, 0
        if kind == "ws":
            conn = await KINDS[kind].create_connection(
                f"ws://127.0.0.1:{port}"
            )
        else:
            conn = await KINDS[kind].create_connection(
                host="127.0.0.1", port=port
            )
        setup(conn, f"c{i}", conf["restart"] and kind != "ws")
        pair["c"] = conn
        await sim.within(pair["accepted"].wait(), 30, "accept", "accept")
        sim.net.cfg.p_reset = keep
        manager.queue.put_nowait(conn)
    task = loop.create_task(manager.manage(stop))
    await asyncio.sleep(0.5)

    def send(conn, size: int, as_text: bool, act=("", 0)) -> None:
        world.tags += 1
        data = payload(world.tags, size)
        if as_text:
            data = text(world.tags, min(size, 900))
        if isinstance(conn, Stream):
            if not isinstance(data, str):
                data = text(world.tags, min(size, 900))
            conn.send_message_str(data)
        elif isinstance(data, str):
            world.acts[data] = act
            conn.send_text(data)
        else:
            world.acts[data] = act
            conn.send_binary(data)
        world.check(conn)

    async def steady(conn, oper) -> None:
        for _ in range(oper["count"]):
            send(conn, oper["size"], False)
            await asyncio.sleep(oper["gap_us"] / 1e6)

    async def poller(period: float) -> None:
        while True:
            world.poll(manager)
            await asyncio.sleep(period)

    polling = None
    if plan["poll"]:
        polling = loop.create_task(poller(plan["poll"]))

    async def idle(polls: int) -> None:
        """Nothing is sent."""
        for pair in pairs:
            if pair["steady"] is not None:
                await pair["steady"]
        await asyncio.sleep(5)
        sim.check(
            polling is None or not polling.done(), "poll",
            lambda: f"polling failed: {polling.exception()!r}",
        )
        before = {
            id(x): (x.env.value("metrics.tx.messages"),
                    x.env.value("metrics.rx.messages"))
            for x in world.conns
        }
        for _ in range(polls):
            world.poll(manager)
            await asyncio.sleep(0.05)
        for conn in manager.by_type(object):
            if id(conn) not in before:
                continue
            for i, which in enumerate(("tx", "rx")):
                pre = f"metrics.{which}."
                if polls < METRICS_DEPTH + 2 or (
                    before[id(conn)][i] != conn.env.value(f"{pre}messages")
                ):
                    continue
                for name in ("messages_rate", "kbps"):
                    got = conn.env.value(f"{pre}{name}")
                    sim.check(
                        abs(got) < 1e-3, "decay",
                        f"{conn.label} {which} {name} is {got} without any "
                        "traffic",
                    )
                    sim.probe("decayed")

    quiet = not (plan["net"].get("p_reset") or plan["net"].get("p_senderr"))
    for oper in plan["ops"]:
        if oper["us"]:
            await asyncio.sleep(oper["us"] / 1e6)
        for conn in world.conns:
            world.check(conn)
        pair = pairs[oper["who"]] if oper.get("who") is not None else None
        if oper["op"] == "send":
            send(pair[oper["side"]], oper["size"], oper["text"],
                 (oper["act"], oper["ms"]))
            quiet = quiet and oper["act"] in ("", "slow")
        elif oper["op"] == "steady":
            if pair["steady"] is None or pair["steady"].done():
                pair["steady"] = loop.create_task(
                    steady(pair[oper["side"]], oper)
                )
        elif oper["op"] == "poll":
            world.poll(manager)
        elif oper["op"] == "reset":
            quiet = False
            if pair is None:
                manager.reset_metrics()
                hit = list(manager.by_type(object))
            else:
                hit = [pair[oper["side"]]]
                hit[0].metrics.reset()
            for conn in hit:
                for which in ("tx", "rx"):
                    world.chan(conn, which).reset()
                world.check(conn)
        elif oper["op"] == "disable":
            quiet = False
            sim.fault("disable")
            pair[oper["side"]].disable("test")
        elif oper["op"] == "idle":
            await idle(oper["polls"])

    sim.net.heal()
    await asyncio.sleep(5)
    await idle(METRICS_DEPTH + 5)
    await asyncio.sleep(20)
    for conn in world.conns:
        world.check(conn)

    # What one end sent the other end received.
    for pair in pairs:
        lossy = pair["kind"] == "udp" and any(
            plan["net"].get(x) for x in ("p_drop", "p_dup")
        )
        if not quiet or lossy or pair["sessions"] > 1:
            continue
        if pair["c"].disabled or pair["s"].disabled:
            continue
        for one, two in ("cs", "sc"):
            for name in ("messages", "bytes"):
                if name == "messages" and pair["kind"] in ("tcp", "stream"):
                    continue
                # (empty datagrams aren't sent)
                if name == "messages" and pair["kind"] == "udp":
                    continue
                got = pair[two].env.value(f"metrics.rx.{name}")
                want = pair[one].env.value(f"metrics.tx.{name}")
                sim.check(
                    got == want, "ends",
                    f"{pair[one].label} ({pair['kind']}) sent {want} {name}, "
                    f"the peer received {got}",
                )
                sim.probe("ends")

    total = sum(x.env.value("metrics.rx.messages") for x in world.conns)
    sim.probe("received", total)
    sim.probe("conns", len(world.conns))
    sim.nontrivial = any(
        x.messages[1] for x in world.chans.values()
    )
    if polling is not None:
        polling.cancel()
    stop.set()
    over.set()
    await sim.within(task, 30, "stop", "stopping")
    for item in servers:
        await sim.within(item, 60, "stop", "server")

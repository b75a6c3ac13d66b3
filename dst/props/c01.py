"""
C01: length-prefixed message streams (binary, text, JSON) deliver every
message exactly once, unmodified and in order, whatever the segmentation; a
broken connection leaves an exact prefix.
"""

import asyncio

from runtimepy.net.stream import (
    EchoTcpMessageConnection,
    TcpPrefixedMessageConnection,
    TcpStringMessageConnection,
)
from runtimepy.net.stream.json import JsonMessageConnection
from runtimepy.net.tcp.connection import TcpConnection

from runtimepy.primitives.byte_order import ByteOrder

from dst.core import Violation
from dst.util import first_diff, payload, swarm_loop, swarm_net, text

SIZES = [0, 1, 2, 3, 4, 5, 7, 64, 255, 256, 257, 1000, 1460, 4096, 65535,
         65536, 70000]


def gen(rng, tier):
    """Generate a plan."""
    kind = rng.choice(["binary", "text", "json", "echo"])
    breaks = rng.random() < 0.4
    net = swarm_net(rng, breaks=breaks)
    big = rng.random() < 0.15 and net.get("short_max", 64) >= 64
    ops = []
    for _ in range(rng.choice([1, 3, 8, 20, 40])):
        side = rng.choice("cs") if kind != "echo" else "c"
        size = rng.choice(SIZES) if big else rng.choice(
            [s for s in SIZES if s < 1500] + [rng.randint(0, 400)]
        )
        ops.append(
            {"op": "send", "side": side, "size": size,
             "form": rng.choice(["bytes", "bytearray", "memoryview", "str"])}
        )
        if rng.random() < 0.3:
            ops.append({"op": "wait", "us": rng.choice([0, 30, 2000, 90000])})
    if breaks and rng.random() < 0.7:
        ops.insert(
            rng.randint(0, len(ops)),
            {"op": rng.choice(["close_c", "close_s", "reset", "disable_c",
                               "disable_s"])},
        )
    return {
        "kind": kind,
        "order": rng.choice(["NETWORK", "NETWORK", "LITTLE_ENDIAN"]),
        "net": net,
        "loop": swarm_loop(rng),
        "slow_us": rng.choice([0, 0, 0, 50, 5000]),
        "ops": ops,
    }


def classes(sim, kind, rx):
    """Connection classes which record what their handlers are given."""

    slow = sim.plan.get("slow_us", 0)

    async def pause(side):
        if slow:
            await asyncio.sleep(
                sim.choices.pick(f"slow.{side}", 0,
                                 lambda r: r.randint(0, slow)) / 1e6
            )

    def side_of(conn) -> str:
        return "s" if conn.local_address.port == sim.port else "c"

    class Binary(TcpPrefixedMessageConnection):
        """Records binary messages."""

        async def process_single(self, stream, addr=None):
            data = bytes(stream.read())
            rx[side_of(self)].append(data)
            await pause(side_of(self))
            return True

    class Text(TcpStringMessageConnection):
        """Records text messages."""

        async def process_message(self, data, addr=None):
            rx[side_of(self)].append(data)
            await pause(side_of(self))
            return True

    class Json(JsonMessageConnection, TcpConnection):
        """Records JSON messages."""

        connected = False

        def _register_handlers(self):
            super()._register_handlers()

            async def handler(outbox, inbox):
                rx[side_of(self)].append(inbox)
                await pause(side_of(self))

            self.basic_handler("rec", handler)

    class Echo(EchoTcpMessageConnection):
        """Sends back what it receives."""

    found = {"binary": Binary, "text": Text, "json": Json,
             "echo": Echo}[kind]
    for cls in (found, Binary):
        cls.byte_order = ByteOrder[sim.plan.get("order", "NETWORK")]
    return found, Binary


async def scenario(sim, plan):
    """Run."""
    kind = plan["kind"]
    rx = {"c": [], "s": []}
    tx = {"c": [], "s": []}
    sim.port = -1
    cls, binary = classes(sim, kind, rx)

    client_cls = binary if kind == "echo" else cls
    ready = asyncio.Event()
    pair = []

    def callback(conn):
        pair.append(conn)
        ready.set()

    async with cls.serve(callback, host="127.0.0.1", port=0) as server:
        sim.port = server.sockets[0].getsockname()[1]
        sim.net.labels[sim.port] = "srv"
        client = await client_cls.create_connection(
            host="127.0.0.1", port=sim.port
        )
        await sim.within(ready.wait(), 60, "accept", "server accept")
        peer = pair[0]
        conns = {"c": client, "s": peer}
        stop = asyncio.Event()
        procs = [
            asyncio.create_task(client.process(stop_sig=stop)),
            asyncio.create_task(peer.process(stop_sig=stop)),
        ]
        broken = False
        await sim.within(
            asyncio.gather(client.initialized.wait(),
                           peer.initialized.wait()),
            60, "init", "initialization",
        )

        for i, oper in enumerate(plan["ops"]):
            name = oper["op"]
            if name == "wait":
                await asyncio.sleep(oper["us"] / 1e6)
                continue
            if name != "send":
                broken = True
                sim.fault("op_" + name.split("_")[0])
                if name == "reset":
                    sim.net.conns[0].reset("op")
                elif name.startswith("close"):
                    await conns[name[-1]].close()
                else:
                    conns[name[-1]].disable("op")
                continue

            side = oper["side"]
            conn = conns[side]
            if conn.disabled:
                broken = True
                continue
            sim.event("send", side, oper["size"])
            if kind == "json":
                msg = {"n": i, "t": text(i, oper["size"])}
                tx[side].append(dict(msg))
                conn.send_json({"rec": msg})
            elif kind == "text":
                msg = text(i, oper["size"])
                tx[side].append(msg)
                conn.send_message_str(msg)
            else:
                form = oper["form"]
                if form == "str":
                    msg = text(i, oper["size"])
                    tx[side].append(msg.encode())
                    conn.send_message_str(msg)
                else:
                    data = payload(i, oper["size"])
                    tx[side].append(data)
                    conv = {"bytes": bytes, "bytearray": bytearray,
                            "memoryview": memoryview}[form]
                    conn.send_message(conv(data))

        # Expected deliveries: what 'c' sends arrives at 's' and vice versa
        # (an echo server sends everything back).
        want = (
            {"c": tx["c"]} if kind == "echo"
            else {"s": tx["c"], "c": tx["s"]}
        )

        def intact() -> bool:
            for side, msgs in want.items():
                got = rx[side]
                if got != msgs[: len(got)]:
                    raise Violation(
                        "corrupt",
                        f"{kind} messages seen by {side} aren't a prefix of "
                        f"what was sent: {first_diff(got, msgs)}",
                    )
            return all(len(rx[s]) == len(m) for s, m in want.items())

        broken = broken or "tcp_reset" in sim.loop.faults
        count = sum(len(m) for m in want.values())
        volume = sum(
            t.bytes_written for c in sim.net.conns for t in (c.a, c.b)
        )
        # Generous bound: every byte in its own read plus slow handlers.
        net = sim.net.cfg
        bound = 30 + (volume + 100) * 2 * net.lat_max_us / 1e6
        bound += count * plan.get("slow_us", 0) / 1e6 * 4
        bound += 2000 * plan["loop"].get("p_stall", 0) * 10
        end = sim.now + bound
        while not intact() and sim.now < end:
            await asyncio.sleep(0.05)
            broken = broken or "tcp_reset" in sim.loop.faults
            if broken and client.disabled and peer.disabled:
                await asyncio.sleep(1.0)
                intact()
                break
        if not broken and not intact():
            side = [s for s, m in want.items() if len(rx[s]) != len(m)][0]
            raise Violation(
                "lost",
                f"{kind} messages never delivered to {side} in "
                f"{bound:.0f} s: {first_diff(rx[side], want[side])}",
            )
        if not broken and (client.disabled or peer.disabled):
            raise Violation("dropped", "healthy connection was disabled")
        if broken:
            sim.probe("broken")
            if not intact():
                sim.probe("strict_prefix")
        stop.set()
        for conn in (client, peer):
            conn.disable("done")
        await sim.within(
            asyncio.gather(*procs), 30 + bound, "shutdown", "processing"
        )
        intact()
        sim.nontrivial = count > 0

"""
C19: struct telemetry over UDP, from captured samples to decoded ones.
"""

import asyncio
import struct

import runtimepy.net.arbiter  # noqa: F401 (import order)
from runtimepy.net.arbiter.struct import (
    TimestampedStruct,
    UdpStructTransceiver,
)
from runtimepy.net.manager import ConnectionManager
from runtimepy.primitives import create as create_primitive
from runtimepy.primitives.byte_order import ByteOrder
from runtimepy.primitives.field import BitField, BitFlag
from runtimepy.telemetry.sample import (
    SampleTelemetryStruct,
    SampleTelemetryTransceiver,
)

from dst.props.c16 import INTS, KINDS, gen_value, real, same
from dst.util import brief, first_diff, swarm_loop, swarm_net

CODES = {
    "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i",
    "uint32": "I", "int64": "q", "uint64": "Q", "float": "f", "double": "d",
    "bool": "?",
}
SCALES = [[0, 0.5], [10, 2.0], [-40.0, 0.25]]


def gen(rng, tier):
    """Generate a plan."""
    layout: list = []
    for i in range(rng.choice([0, 1, 1, 3, 3, 8, 8, 30, 30, 190])):
        if rng.random() < 0.25:
            kind = rng.choice(["uint8", "uint16", "uint32"])
            total = int(kind[4:])
            widths = []
            while sum(widths) < total and len(widths) < 5:
                widths.append(rng.randint(1, min(6, total - sum(widths))))
            layout.append({"fields": kind, "widths": widths})
        else:
            kind = rng.choice(KINDS)
            item = {"kind": kind}
            if kind != "bool" and rng.random() < 0.3:
                item["scaling"] = rng.choice(SCALES)
            layout.append(item)
    senders = []
    for i in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([3, 20, 80, 250])):
            roll = rng.random()
            us = rng.choice([0, 0, 0, 50, 2_000, 100_000])
            if roll < 0.6:
                ops.append({"op": "capture", "us": us,
                            "flush": rng.random() < 0.05})
            elif roll < 0.68:
                ops.append({"op": "flush", "us": us})
            elif roll < 0.7:
                ops.append({"op": "idle", "us": us})
            elif roll < 0.72:
                ops.append({"op": "jump", "us": us,
                            "by": rng.choice([-3600, -1, 1, 3600])})
            elif layout:
                idx = rng.randrange(len(layout))
                item = layout[idx]
                if "fields" in item:
                    field = rng.randrange(len(item["widths"]))
                    ops.append({"op": "field", "us": us, "item": idx,
                                "field": field,
                                "value": rng.randrange(
                                    2 ** item["widths"][field])})
                else:
                    ops.append({"op": "set", "us": us, "item": idx,
                                "value": gen_value(rng, item["kind"])})
        senders.append({
            "ops": ops, "start": rng.choice([0, 0, 65_530]),
            "form": rng.choice(["connect", "connect", "remote"]),
        })
    net = swarm_net(rng, tcp=False, udp=True)
    if rng.random() < 0.25:
        net = {k: v for k, v in net.items() if k.startswith("lat")}
    plan = {
        "net": net,
        "loop": swarm_loop(rng),
        "layout": layout if rng.random() < 0.9 else None,
        "little": rng.random() < 0.5,
        "mtu": rng.choice(
            [1280 if len(layout) > 60 else 576, 1280, 1280, 1500, 9000,
             65_536]
        ),
        "pair": len(senders) == 1 and rng.random() < 0.3,
        "duplex": rng.random() < 0.3,
        "senders": senders,
        "handler": rng.choice(["", "", "reads", "sends"]),
    }
    if rng.random() < 0.15:
        plan["cut"] = {"at_ms": rng.choice([0, 5, 200]),
                       "ms": rng.choice([5, 500])}
    return plan


def make_struct(plan):
    """A struct type."""
    if plan["layout"] is None:
        return SampleTelemetryStruct

    class Struct(TimestampedStruct):
        byte_order = (
            ByteOrder.LITTLE_ENDIAN if plan["little"]
            else ByteOrder.BIG_ENDIAN
        )

        def init_env(self) -> None:
            super().init_env()
            for i, item in enumerate(plan["layout"]):
                if "fields" in item:
                    prim = create_primitive(item["fields"])
                    self.env.channel(f"f{i}.raw", prim)
                    at = 0
                    for j, width in enumerate(item["widths"]):
                        self.env.add_field(
                            BitFlag(f"f{i}.b{j}", prim, at) if width == 1
                            else BitField(f"f{i}.b{j}", prim, at, width)
                        )
                        at += width
                else:
                    self.env.channel(
                        f"c{i}", create_primitive(item["kind"]),
                        scaling=item.get("scaling"),
                    )

    return Struct


def make_conn(kind_struct, seen: dict, ages: set):
    """A connection type."""
    base = (
        SampleTelemetryTransceiver if kind_struct is SampleTelemetryStruct
        else UdpStructTransceiver
    )

    class Conn(base):
        struct_kind = kind_struct

        def handle_update(self, timestamp_ns, instance, addr) -> None:
            seen[id(self)].append(
                (tuple(addr), timestamp_ns, snapshot(instance))
            )
            ages.update(
                x.last_updated_ns - timestamp_ns for x in members(instance)
            )
            self.hook(instance)

        def hook(self, instance) -> None:
            """Extra work of the handler."""

    return Conn


def build(kind, name: str):
    """Build a struct."""
    inst = kind(name, {})
    inst.init_env()
    inst.update_byte_order(inst.byte_order)
    inst.env.finalize()
    return inst


def members(inst) -> list:
    """Primitives of a struct, in order of registration."""
    return [
        chan[0].raw for chan in map(inst.env.get, inst.env.names)
        if chan is not None
    ]


def snapshot(inst) -> tuple:
    """The values of a struct (with scaling, and of fields)."""
    return tuple(
        inst.env.value(name, resolve_enum=False) for name in inst.env.names
    )


def decode(inst, data: bytes) -> list:
    """Decode samples (independently)."""
    prims = members(inst)
    fmt = ("<" if inst.byte_order == ByteOrder.LITTLE_ENDIAN else ">")
    fmt += "".join(CODES[str(x.kind)] for x in prims)
    size = struct.calcsize(fmt)
    return [
        struct.unpack(fmt, data[x:x + size])
        for x in range(0, len(data), size)
    ]


def view(inst, raw: tuple) -> tuple:
    """What a sample's values are expected to be."""
    at = {id(x): y for x, y in zip(members(inst), raw)}
    result = []
    for name in inst.env.names:
        chan = inst.env.get(name)
        if chan is not None:
            val = at[id(chan[0].raw)]
            scaling = chan[0].raw.scaling
            if scaling:
                val = sum(x * float(val)**i for i, x in enumerate(scaling))
            result.append(val)
        else:
            field = inst.env.fields[name]
            val = (at[id(field.raw)] >> field.index) & (2**field.width - 1)
            result.append(bool(val) if field.width == 1 else val)
    return tuple(result)


def alike(one, two) -> bool:
    """Compare values."""
    if isinstance(one, tuple):
        return len(one) == len(two) and all(map(alike, one, two))
    if isinstance(one, float) or isinstance(two, float):
        return same(float(one), float(two)) or (
            abs(float(one) - float(two)) <= 1e-6 * abs(float(two))
        )
    return one == two


async def scenario(sim, plan):
    """Run."""
    net = sim.net
    net.mtu = plan["mtu"]
    kind = make_struct(plan)
    seen: dict = {}
    ages: set = set()
    conn_kind = make_conn(kind, seen, ages)
    manager = ConnectionManager()
    stop = asyncio.Event()
    loop = asyncio.get_running_loop()
    task = loop.create_task(manager.manage(stop))
    conns: list = []

    def start(conn) -> None:
        seen[id(conn)] = []
        conns.append(conn)
        manager.queue.put_nowait(conn)

    senders: list = []
    if plan["pair"]:
        one, two = await conn_kind.create_pair()
        start(one)
        start(two)
        receiver = two
        senders.append(one)
    else:
        receiver = await conn_kind.create_connection(
            local_addr=("0.0.0.0", 0)
        )
        start(receiver)
        for conf in plan["senders"]:
            conn = await conn_kind.create_connection(
                remote_addr=("127.0.0.1", receiver.local_address.port),
                connect=conf["form"] == "connect",
            )
            start(conn)
            senders.append(conn)
    receiver.assign_rx(build(kind, "rx"))
    model = build(kind, "model")
    size = sum(x.kind.size for x in members(model))
    ports = {x.local_address.port: x for x in senders}
    sent: dict = {x: [] for x in ports}
    delivered: list = []
    limit = plan["mtu"] - 28

    for conn, conf in zip(senders, plan["senders"]):
        inst = build(kind, f"tx{len(ports)}")
        inst.sequence.value = conf["start"]
        if plan["duplex"]:
            conn.assign_rx(build(kind, "rx_too"))
        if max(size, 1) > limit - 40:
            sim.nontrivial = False
            return await finish(sim, stop, task, conns)
        conn.assign_tx(inst)
    if plan["duplex"] and plan["pair"]:
        receiver.assign_tx(build(kind, "back"))

    def sent_tap(src, target, data) -> None:
        if src in sent and target == receiver.local_address.port:
            sent[src].append(data)
            sim.check(
                len(data) <= limit, "too-large",
                f"datagram of {len(data)} bytes, the path allows {limit}",
            )
            sim.check(
                len(data) % size == 0, "partial",
                f"datagram of {len(data)} bytes, samples have {size}",
            )

    def got_tap(dest, data, source) -> None:
        if dest is receiver._transport:
            delivered.append((source, data))

    net.udp_taps.append(sent_tap)
    net.udp_rx_taps.append(got_tap)

    if plan["handler"] == "reads":
        receiver.hook = lambda inst: str(inst.env.values())
    elif plan["handler"] == "sends":
        def hook(inst) -> None:
            if receiver.struct_tx is not None:
                receiver.capture()
        receiver.hook = hook

    captured: dict = {x: [] for x in ports}

    def record(conn) -> None:
        inst = conn.struct_tx
        captured[conn.local_address.port].append(
            tuple(x.value for x in members(inst))
        )

    async def drive(conn, conf) -> None:
        inst = conn.struct_tx
        port = conn.local_address.port
        prev = None
        for op in conf["ops"]:
            if op["us"]:
                await asyncio.sleep(op["us"] / 1e6)
            sim.check(
                not conn.disabled, "disabled", "a sender got disabled"
            )
            if op["op"] == "capture":
                conn.capture(flush=op["flush"])
                record(conn)
                seq = captured[port][-1][1]
                sim.check(
                    prev is None or seq == (prev + 1) % 65_536, "sequence",
                    f"sequence number {seq} after {prev}",
                )
                sim.check(
                    captured[port][-1][0] == loop.clock.wall_ns
                    or abs(captured[port][-1][0] - loop.clock.wall_ns)
                    < 10**9,
                    "timestamp", f"timestamp {captured[port][-1][0]}",
                )
                prev = seq
                if op["flush"]:
                    pending(conn)
            elif op["op"] == "flush":
                conn.capture(sample=False, flush=True)
                pending(conn)
            elif op["op"] == "idle":
                conn.capture(sample=False)
            elif op["op"] == "jump":
                sim.fault("clock_jump")
                loop.clock.wall_offset_ns += op["by"] * 10**9
            elif plan["layout"] is None:
                inst.env.set("sample_float", float(op["us"]))
            elif op["op"] == "field":
                inst.env.set(f"f{op['item']}.b{op['field']}", op["value"])
            else:
                inst.env.set(
                    f"c{op['item']}", real(op["value"]), scaled=False
                )
        conn.capture(sample=False, flush=True)
        pending(conn)

    def pending(conn) -> None:
        """Everything captured was sent."""
        port = conn.local_address.port
        got = decode(model, b"".join(sent[port]))
        want = captured[port]
        sim.check(
            len(got) == len(want) and all(map(alike, got, want)), "sent",
            lambda: f"captured samples were sent differently: "
            f"{first_diff(got, want)}",
        )
        each = [len(x) for x in sent[port]]
        sim.check(all(each), "empty", "an empty datagram was sent")

    async def cut() -> None:
        await asyncio.sleep(plan["cut"]["at_ms"] / 1e3)
        sim.fault("partition")
        net.partition()
        await asyncio.sleep(plan["cut"]["ms"] / 1e3)
        net.unpartition()

    jobs = [
        loop.create_task(drive(x, y))
        for x, y in zip(senders, plan["senders"])
    ]
    if "cut" in plan:
        jobs.append(loop.create_task(cut()))
    await sim.within(asyncio.gather(*jobs), 3600, "stuck", "sending")
    net.heal()
    await asyncio.sleep(3)
    quiet = loop.time()
    while len(seen[id(receiver)]) < sum(
        len(decode(model, x)) for _, x in delivered
    ) and loop.time() - quiet < 60:
        await asyncio.sleep(1)

    # The receiver.
    for conn in conns:
        sim.check(
        not ages - {0}, "age",
        "channels of a received sample don't carry its timestamp",
    )
    sim.check(
            not conn.disabled, "disabled", "a connection got disabled"
        )
    want = []
    for source, data in delivered:
        if source[1] in ports:
            for raw in decode(model, data):
                want.append((tuple(source), raw[0], view(model, raw)))
    got = [x for x in seen[id(receiver)] if x[0][1] in ports]
    sim.check(
        len(got) == len(want) and all(map(
            lambda x, y: x[:2] == y[:2] and alike(x[2], y[2]), got, want
        )), "received",
        lambda: "delivered samples were decoded differently: "
        + first_diff(got, want),
    )
    full = [len(x) for y in sent.values() for x in y]
    sim.probe("samples", sum(map(len, captured.values())))
    sim.probe("datagrams", len(full))
    sim.probe("decoded", len(got))
    sim.nontrivial = len(got) > 0
    await finish(sim, stop, task, conns)


async def finish(sim, stop, task, conns) -> None:
    """Stop."""
    stop.set()
    await sim.within(task, 30, "stop", "stopping the manager")
    for conn in conns:
        sim.check(conn.disabled, "stop", "a connection wasn't disabled")

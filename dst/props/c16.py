"""
C16: channel-event telemetry, from changing channels to the receiving
environment, over a stream that cuts the bytes anywhere (or breaks off).
"""

import asyncio
from contextlib import ExitStack
from io import BytesIO
import json
import math
import re

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.metrics.channel import ChannelMetrics
import runtimepy.net.arbiter  # noqa: F401 (import order)
from runtimepy.primitives.field.fields import BitFields
from runtimepy.subprocess.interface import RuntimepyPeerInterface

from dst.util import brief, first_diff, swarm_loop

HEADER = 2 + 8
INTS = {
    "int8": (-128, 127), "uint8": (0, 255),
    "int16": (-(2**15), 2**15 - 1), "uint16": (0, 2**16 - 1),
    "int32": (-(2**31), 2**31 - 1), "uint32": (0, 2**32 - 1),
    "int64": (-(2**63), 2**63 - 1), "uint64": (0, 2**64 - 1),
}
KINDS = [*INTS, "float", "double", "bool"]
SCALES = [[0, 0.5], [10, 2.0], [-40.0, 0.25], [5], [0.0, 3.0], [0, -1.5]]
MODES = {"idle": 0, "run": 1, "halt": 5, "lost": 9}
JUMPS = [-3_600 * 10**6, -1_000_000, -1_000, 1_000_000, 3_600 * 10**6]


def gen_value(rng, kind: str):
    """A raw value."""
    if kind == "bool":
        return rng.random() < 0.5
    if kind in INTS:
        low, high = INTS[kind]
        return rng.choice(
            [rng.randint(low, high), rng.randint(0, 3), low, high, 0]
        )
    if rng.random() < 0.1:
        return rng.choice(["nan", "inf", "-inf"])
    return rng.choice(
        [rng.randint(-4, 4) * 0.5, rng.random(), -1e30 * rng.random(), 0.1]
    )


def gen(rng, tier):
    """Generate a plan."""
    chans = []
    jumps = rng.random() < 0.25
    for i in range(rng.choice([1, 2, 4, 9])):
        kind = rng.choice(KINDS)
        chan = {"name": f"{rng.choice(['a', 'b', 'a.x', 'b.y'])}{i}",
                "kind": kind}
        if kind != "bool" and rng.random() < 0.35:
            chan["scaling"] = rng.choice(SCALES)
        elif kind in ("uint8", "int32") and rng.random() < 0.3:
            chan["enum"] = True
        if rng.random() < 0.2:
            chan["default"] = (
                0 if chan.get("enum") else
                True if kind == "bool" else 3 if kind in INTS else 1.5
            )
        if not jumps and rng.random() < 0.2:
            chan["min_us"] = rng.choice([1_000, 50_000, 1_000_000])
        chans.append(chan)
    fields = []
    for i in range(rng.choice([0, 0, 1, 2])):
        kind = rng.choice(["uint8", "uint16", "uint32"])
        widths: list = []
        while len(widths) < rng.choice([1, 2, 4]):
            width = rng.choice([1, 1, 2, 3, 5])
            if sum(abs(x) for x in widths) + width > int(kind[4:]):
                break
            widths.append(-width if rng.random() < 0.15 else width)
        if any(x > 0 for x in widths):
            fields.append({"kind": kind, "widths": widths, "id": i})
    names = [x["name"] for x in chans] + [
        f"f{x['id']}_{j}" for x in fields
        for j, w in enumerate(x["widths"]) if w > 0
    ]
    kinds = {x["name"]: x for x in chans}
    ops = []
    for _ in range(rng.choice([3, 10, 40, 100])):
        us = rng.choice([0, 0, 0, 10, 700, 60_000, 500_000])
        name = rng.choice(names)
        roll = rng.random()
        if roll < 0.03:
            ops.append({"op": "unregister", "us": us,
                        "how": rng.choice(["close", "close", "raise"])})
        elif roll < 0.05:
            ops.append({"op": "register", "us": us})
        elif roll < 0.09 and jumps:
            ops.append({"op": "jump", "us": us, "by": rng.choice(JUMPS)})
        elif name not in kinds:
            ops.append({"op": "field", "us": us, "name": name,
                        "value": rng.randrange(32),
                        "via": rng.choice(["call", "invert", "env"])})
        else:
            chan = kinds[name]
            op = {"op": "set", "us": us, "name": name,
                  "value": (rng.choice(list(MODES.values()))
                            if chan.get("enum")
                            else gen_value(rng, chan["kind"])),
                  "via": rng.choice(["value", "env", "raw", "bytes"])}
            if rng.random() < 0.1:
                op["via"] = "same"
            if jumps and rng.random() < 0.1:
                op["ts"] = rng.choice(JUMPS)
            ops.append(op)
    links = []
    if len(chans) > 1 and rng.random() < 0.2:
        one, two = rng.sample([x["name"] for x in chans], 2)
        links.append({"on": one, "to": two, "early": rng.random() < 0.5,
                      "value": 0 if kinds[two].get("enum")
                      else gen_value(rng, kinds[two]["kind"])})
    return {
        "loop": swarm_loop(rng, stall=True),
        "chans": chans,
        "fields": fields,
        "links": links,
        "pattern": rng.choice(["", "", "", "^a", "x", "f"]),
        "flush": rng.random() < 0.6,
        "receiver": rng.choice(["twin", "json", "json", "dir", "peer"]),
        "chunk": rng.choice([1, 2, 7, 11, 12, 18, 100, 10_000]),
        "fixed": rng.random() < 0.3,
        "delay_us": rng.choice([0, 10, 5_000, 300_000]),
        "take": rng.choice([0, 0, 0, 1, 2, 5]),
        "break": rng.choice([None] * 4 + [rng.random()]),
        "ops": ops,
    }


def real(val):
    """Values that JSON can't hold."""
    return float(val) if isinstance(val, str) else val


def same(one, two) -> bool:
    """Compare values."""
    if isinstance(one, float) and isinstance(two, float):
        return one == two or (math.isnan(one) and math.isnan(two))
    return one == two and isinstance(one, bool) == isinstance(two, bool)


def build(plan) -> ChannelEnvironment:
    """Build an environment."""
    fields = []
    for conf in plan["fields"]:
        raw = BitFields.new(conf["kind"])
        for j, width in enumerate(conf["widths"]):
            name = f"f{conf['id']}_{j}"
            if width < 0:
                raw.pad(-width)
            elif width == 1:
                raw.flag(name)
            else:
                raw.field(name, width)
        fields.append(raw)
    env = ChannelEnvironment(fields=fields)
    env.enum("modes", "int", MODES)
    for conf in plan["chans"]:
        kwargs = {
            key: conf[key] for key in ("scaling", "default") if key in conf
        }
        if conf.get("enum"):
            kwargs["enum"] = "modes"
        if "min_us" in conf:
            kwargs["min_period_s"] = conf["min_us"] / 1e6
        env.channel(conf["name"], conf["kind"], commandable=True, **kwargs)
    return env


class Wire:
    """A stream: what's written arrives cut into pieces, later."""

    def __init__(self, sim, plan) -> None:
        self.sim = sim
        self.plan = plan
        self.buffer = bytearray()
        self.wire = bytearray()
        self.history = bytearray()
        self.written = 0
        self.pieces = 0
        self.event = asyncio.Event()
        self.eof = False
        self.limit = None

    def write(self, data) -> int:
        self.buffer += data
        self.history += data
        self.written += len(data)
        if not self.plan["flush"] and len(self.buffer) > 64:
            # Buffers are written out whenever they're full.
            self.push(
                self.sim.choices.pick(
                    f"buffer#{self.written}", 64,
                    lambda r: r.randint(1, len(self.buffer)),
                )
            )
        return len(data)

    def push(self, count: int) -> None:
        self.wire += self.buffer[:count]
        del self.buffer[:count]
        self.event.set()

    def flush(self) -> None:
        self.push(len(self.buffer))

    async def pieces_of(self):
        """What arrives."""
        while True:
            while not self.wire:
                if self.eof:
                    return
                self.event.clear()
                await self.event.wait()
            self.pieces += 1
            count = self.plan["chunk"]
            if not self.plan["fixed"]:
                count = self.sim.choices.pick(
                    f"chunk#{self.pieces}", count,
                    lambda r, c=count: r.randint(1, c),
                )
            if self.plan["delay_us"]:
                await asyncio.sleep(
                    self.sim.choices.pick(
                        f"delay#{self.pieces}", 0,
                        lambda r: r.choice([0, self.plan["delay_us"]]),
                    ) / 1e6
                )
            piece = bytes(self.wire[:count])
            del self.wire[:count]
            yield piece


class Peer(RuntimepyPeerInterface):
    """The receiving side of a subprocess."""

    def write(self, data, addr=None):
        raise NotImplementedError


class SimulatedError(Exception):
    """Something unrelated breaks."""


async def scenario(sim, plan):
    """Run."""
    env = build(plan)
    env.finalize()
    loop = asyncio.get_running_loop()
    kinds = {x["name"]: x for x in plan["chans"]}
    rand = plan["pattern"]
    pattern = rand or ".*"
    wire = Wire(sim, plan)
    metrics = ChannelMetrics()

    # The primitives, and the names events of each have.
    prims: list = []
    for fields in env.fields.fields:
        prims.append((fields.raw, list(fields.fields), 0))
    for conf in plan["chans"]:
        prims.append((env.channels[conf["name"]].raw, [conf["name"]],
                      conf.get("min_us", 0) * 1000))
    known = {id(x): x.value for x, _, _ in prims}
    prev: dict = {}
    expected: list = []
    changes: list = []

    def emit(raw, names, low, value, stamp) -> None:
        """Expect events."""
        names = [x for x in names if re.search(pattern, x)]
        if not names:
            return
        if low and stamp - prev[id(raw)] < low:
            sim.probe("rate_limited")
            return
        prev[id(raw)] = stamp
        changes.append(len(names))
        expected.extend((x, stamp, value) for x in sorted(names))

    streaming = None

    def observe(prim, nested) -> None:
        """Something may have changed."""
        for raw, names, low in prims:
            if raw is prim:
                if not same(raw.value, known[id(raw)]):
                    known[id(raw)] = raw.value
                    # (Changes to NaN aren't announced, by design.)
                    if streaming is not None and raw.value == raw.value:
                        emit(raw, names, low, raw.value, raw.last_updated_ns)
                        sim.probe("changes" if not nested else "nested")

    def register() -> None:
        nonlocal streaming
        streaming = ExitStack()
        for raw, names, low in prims:
            prev[id(raw)] = -(10**30)
        # Current values go first.
        changes.append(0)
        for raw, names, low in prims:
            kept = [x for x in names if re.search(pattern, x)]
            expected.extend((x, raw.last_updated_ns, raw.value)
                            for x in sorted(kept))
            changes[-1] += len(kept)
            prev[id(raw)] = raw.last_updated_ns
        got = streaming.enter_context(
            env.registered(wire, pattern=pattern, flush=plan["flush"],
                           channel=metrics)
        )
        sim.check(
            sorted(got) == sorted(x for _, y, _ in prims for x in y
                                  if re.search(pattern, x)),
            "names", f"registered {got}",
        )

    def unregister(how: str) -> None:
        nonlocal streaming
        if streaming is None:
            return
        stack, streaming = streaming, None
        if how == "raise":
            sim.fault("consumer_raises")
            try:
                with stack:
                    raise SimulatedError
            except SimulatedError:
                pass
        else:
            stack.close()

    # The receiving side.
    kind = plan["receiver"]
    peer = None
    if kind == "twin":
        other = build(plan)
        other.finalize()
    elif kind == "dir":
        env.export_directory(sim.tmp / "env")
        other = ChannelEnvironment.load_directory(sim.tmp / "env")
    else:
        data = json.loads(json.dumps(env.export_json()))
        if kind == "peer":
            peer = Peer("sim", {})
            peer._set_peer_env(data)
            other = peer.peer.env
        else:
            other = ChannelEnvironment.load_json(data)
    if kind != "twin":
        compare(sim, plan, env, other, "loaded-value",
                {x for _, y, _ in prims for x in y})

    decoded: list = []

    def take(event) -> None:
        decoded.append((event.name, event.timestamp, event.value))
        want = expected[len(decoded) - 1] if len(decoded) <= len(
            expected) else None
        sim.check(
            want is not None, "invented",
            lambda: f"event {len(decoded)} ({decoded[-1]}) was never emitted",
        )

    if peer is not None:
        orig = other.ingest

        def ingest(event):
            take(event)
            orig(event)

        other.ingest = ingest

    def consume(piece: bytes) -> None:
        if peer is not None:
            peer.handle_stderr(piece)
            return
        gone = 0
        for event in other.parse_event_stream(BytesIO(piece)):
            take(event)
            other.ingest(event)
            gone += 1
            if plan["take"] and piece and gone >= plan["take"]:
                sim.fault("stops_reading")
                break

    async def receive() -> None:
        count = 0
        async for piece in wire.pieces_of():
            if wire.limit is not None:
                piece = piece[:max(0, wire.limit - count)]
            count += len(piece)
            if piece:
                consume(piece)

    receiver = loop.create_task(receive())

    for link in plan["links"]:
        def follow(_, __, link=link) -> None:
            target = env.channels[link["to"]].raw
            target.value = real(link["value"])
            observe(target, True)
        if link["early"]:
            env.channels[link["on"]].raw.register_callback(follow)
    register()
    for link in plan["links"]:
        if not link["early"]:
            def follow_late(_, __, link=link) -> None:
                target = env.channels[link["to"]].raw
                target.value = real(link["value"])
                observe(target, True)
            env.channels[link["on"]].raw.register_callback(follow_late)

    for op in plan["ops"]:
        if op["us"]:
            await asyncio.sleep(op["us"] / 1e6)
        if op["op"] == "jump":
            sim.fault("clock_jump")
            sim.loop.clock.wall_offset_ns += op["by"] * 1000
        elif op["op"] == "register":
            if streaming is None:
                register()
        elif op["op"] == "unregister":
            unregister(op["how"])
        elif op["op"] == "field":
            field = env.fields[op["name"]]
            value = op["value"] & field.mask
            if op["via"] == "call":
                field(value)
            elif op["via"] == "invert":
                field.invert()
            else:
                env.set(op["name"], value)
            observe(field.raw, False)
        else:
            raw = env.channels[op["name"]].raw
            value = real(op["value"])
            if isinstance(value, float) and math.isnan(value) and math.isnan(
                raw.value
            ):
                continue
            if "ts" in op:
                raw.set_value(
                    value,
                    timestamp_ns=sim.loop.clock.wall_ns + op["ts"] * 1000,
                )
            elif op["via"] == "same":
                if raw.value == raw.value:
                    raw.value = raw.value
            elif op["via"] == "env" and (
                not isinstance(value, float) or math.isfinite(value)
            ):
                env.set(op["name"], value)
            elif op["via"] == "raw":
                raw(value)
            elif op["via"] == "bytes":
                raw.update(type(raw).encode(value))
            else:
                raw.value = value
            observe(raw, False)

    sim.check(
        wire.written == sum(
            HEADER + size(env, x[0]) for x in expected
        ), "emitted",
        lambda: f"{wire.written} bytes were written for "
        f"{len(expected)} events: {explain(plan, wire, expected)}",
    )
    sim.check(
        metrics.messages.value == len(expected)
        and metrics.bytes.value == wire.written,
        "metrics",
        f"metrics: {metrics}, {len(expected)} events and {wire.written} bytes",
    )

    # The end.
    if plan["break"] is not None and not plan["links"]:
        sim.fault("stream_breaks_off")
        wire.limit = int(wire.written * plan["break"])
        sim.loop.event("limit", wire.limit)
    wire.flush()
    wire.eof = True
    wire.event.set()
    if wire.limit is not None:
        # (Unless more than that arrived already.)
        done = wire.written - len(wire.wire)
        wire.limit = max(wire.limit, done)
    await sim.within(receiver, 3600, "stuck", "receiving")
    if peer is not None:
        peer.handle_stderr(b"")
    for _ in range(2):
        before = len(decoded)
        for event in other.parse_event_stream(BytesIO(b"")):
            if peer is None:
                take(event)
            other.ingest(event)
        sim.check(
            peer is None or len(decoded) == before, "left-over",
            "events were left undecoded",
        )
    unregister("close")

    # Compare.
    limit = wire.written if wire.limit is None else wire.limit
    want, total = [], 0
    for item in expected:
        total += HEADER + size(env, item[0])
        if total > limit:
            break
        want.append(item)
    sim.check(
        len(decoded) == len(want), "events",
        lambda: f"{len(decoded)} events decoded from {limit} bytes, "
        f"{len(want)} were emitted; {first_diff(decoded, want)}",
    )
    if plan["links"]:
        names = {x[0] for x in want}
        one = [[y for y in decoded if y[0] == x] for x in sorted(names)]
        two = [[y for y in want if y[0] == x] for x in sorted(names)]
    else:
        # Events of a single change may be in any order.
        one, two, at = [], [], 0
        for count in changes:
            one += sorted(decoded[at:at + count], key=lambda x: x[0])
            two += sorted(want[at:at + count], key=lambda x: x[0])
            at += count
        if limit < wire.written:
            # (The last change may be incomplete.)
            at = 0
            for count in changes:
                if at + count > len(want):
                    one, two = one[:at], two[:at]
                    break
                at += count
        one, two = [one], [two]
    for got, exp in zip(one, two):
        sim.check(
            len(got) == len(exp) and all(
                x[:2] == y[:2] and same(x[2], y[2])
                for x, y in zip(got, exp)
            ), "events", lambda g=got, e=exp: first_diff(g, e),
        )
    sim.probe("decoded", len(decoded))
    sim.nontrivial = len(decoded) > 0

    # What was ingested.
    last = {x[0]: x[2] for x in decoded}
    latest = {id(prim_of(other, x[0])): x for x in decoded}
    for name, _, value in latest.values():
        raw = prim_of(other, name)
        sim.check(
            same(raw.value, value), "ingested",
            f"{name} is {raw.value} after ingesting {value}",
        )
    if limit == wire.written and streaming is None:
        compare(
            sim, plan, env, other, "ingested-value",
            {x for x, y in last.items() if same(y, prim_of(env, x).value)},
        )
    for raw, _, _ in prims:
        sim.check(
            len(raw.callbacks) == sum(
                raw is env.channels[x["on"]].raw for x in plan["links"]
            ),
            "callbacks-left", "callbacks are still registered",
        )


def explain(plan, wire, expected) -> str:
    """What was written instead of what was expected."""
    env = build(plan)
    env.finalize()
    return first_diff(
        list(map(tuple, env.parse_event_stream(BytesIO(wire.history)))),
        expected,
    )


def prim_of(env, name: str):
    """The primitive behind a channel or field."""
    if env.fields.has_field(name):
        return env.fields[name].raw
    return env.channels[name].raw


def size(env, name: str) -> int:
    """The size of an event's value."""
    return prim_of(env, name).size


def compare(sim, plan, env, other, cls: str, names) -> None:
    """Compare values of environments."""
    for name in sorted(names):
        one, two = (
            x.value(name, resolve_enum=False) for x in (env, other)
        )
        if cls == "loaded-value" and isinstance(one, float) and not (
            math.isfinite(one)
        ):
            continue
        close = isinstance(one, float) and isinstance(two, float) and (
            math.isclose(one, two, rel_tol=1e-6, abs_tol=1e-6)
        )
        sim.check(
            close or one == two or (one != one and two != two), cls,
            f"{name} is {two} instead of {one}",
        )

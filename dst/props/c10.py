"""
C10: websocket UI sessions.

Real: the websocket server connection, tabs, tab state, channel environments,
command processors, websockets library. Stub: the browser (a client that does
what the package's JavaScript does with messages).
"""

import asyncio
import json
import logging
import math
import re
import struct as _struct
from types import SimpleNamespace

import websockets
from svgen.element.html import div
from websockets.exceptions import ConnectionClosed, InvalidMessage

import runtimepy.net.server.websocket  # noqa: F401 (first: cycles)
from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.net.html.bootstrap.tabs import TabbedContent
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.server import struct as ui_module
from runtimepy.net.server.app.env.tab import ChannelEnvironmentTab
from runtimepy.net.server.struct import UiState
from runtimepy.net.server.websocket import RuntimepyWebsocketConnection
from runtimepy.primitives.field.fields import BitFields

from dst.util import brief, first_diff, sane_ws, swarm_loop, swarm_net

KINDS = ["bool", "uint8", "int16", "uint32", "int64", "float", "double",
         "enum", "field", "flag", "efield"]


def gen(rng, tier):
    """Generate a plan."""
    tabs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        tabs.append([
            rng.choice(KINDS) for _ in range(rng.choice([1, 3, 6]))
        ])
    ui = rng.choice(["yes", "yes", "yes", "tab", "tab", "late", "no"])
    clients = []
    count = rng.choice([1, 2, 2, 3, 4])
    names = len(tabs) + (1 if ui == "tab" else 0)
    for i in range(count):
        ops = []
        dup = rng.random() < 0.3
        for _ in range(rng.choice([2, 8, 20, 40])):
            us = rng.choice([0, 0, 100, 4_500, 20_000, 200_000])
            roll = rng.random()
            if roll < 0.16:
                oper = {"op": "init", "tab": rng.randrange(names)}
            elif roll < 0.3:
                oper = {"op": "view", "tab": rng.randrange(names),
                        "first": rng.choice(["hide", "show"])}
            elif roll < 0.35:
                oper = {"op": "raw", "tab": rng.randrange(names),
                        "kind": rng.choice(
                            ["tab.shown", "tab.hidden"] if dup
                            else ["tab.hidden"])}
            elif roll < 0.65:
                oper = {"op": "frame", "count": rng.choice([1, 1, 5])}
            elif roll < 0.9:
                oper = {"op": "cmd", "tab": rng.randrange(len(tabs)),
                        "kind": rng.choice(["set", "set", "set", "toggle"]),
                        "count": rng.choice([1, 1, 3, 12])}
            elif roll < 0.97:
                oper = {"op": "bad", "what": rng.randrange(6),
                        "tab": rng.randrange(names)}
            else:
                oper = {"op": "stall"}
            oper["us"] = us
            ops.append(oper)
        clients.append({
            "start_us": rng.choice([0, 0, 1_000, 300_000]),
            "ops": ops,
            "leave": rng.choice(["stay", "stay", "close", "abort", "kick",
                                 "silent", "exit"]),
            "batch": rng.random() < 0.3,
            "again": rng.random() < 0.2,
        })
    app = []
    for _ in range(rng.choice([3, 15, 40])):
        app.append({
            "op": "log" if rng.random() < 0.2 else "change",
            "us": rng.choice([0, 0, 50, 3_000, 50_000]),
            "tab": rng.randrange(len(tabs)), "chan": rng.randrange(6),
            "val": rng.randint(0, 1 << 30), "count": rng.choice([1, 1, 2, 30]),
            "odd": rng.random() < 0.1,
        })
    net = {} if rng.random() < 0.3 else sane_ws(swarm_net(rng))
    if rng.random() < 0.1:
        net["p_reset"] = rng.choice([0.001, 0.01])
    return {
        "loop": swarm_loop(rng, stall=rng.random() < 0.3), "net": net,
        "tabs": tabs, "ui": ui, "clients": clients, "app": app,
        "solo": rng.randrange(8),
    }


class World:
    """What happened on the server."""

    def __init__(self, sim, plan) -> None:
        self.sim = sim
        self.plan = plan
        self.names: list = []
        self.structs_by: dict = {}
        self.hist: dict = {}
        self.fuzzy: set = set()
        self.logs: dict = {}
        self.cmds: dict = {}
        self.conns: list = []
        self.time = 0
        self.prims: dict = {}

    def add(self, name: str, struct) -> None:
        """Add a tab."""
        env = struct.env
        self.names.append(name)
        self.structs_by[name] = struct
        self.logs[name] = []
        ChannelEnvironmentTab(
            name, struct.command, SimpleNamespace(logger=None, config={}),
            TabbedContent("test", div()),
        )
        for key in env.names:
            prim = env.field_or_channel(key).raw
            self.prims[name, key] = prim
            hist = [(env.value(key), 0)]
            self.hist[name, key] = hist
            if env.fields.has_field(key):
                self.fuzzy.add((name, key))

            def observe(_, __, key=key, prim=prim, hist=hist) -> None:
                hist.append((env.value(key), prim.last_updated_ns))

            prim.register_callback(observe)

    def watch(self, tab: int, index: int) -> None:
        """Watch command channels."""
        name = self.names[tab]
        env = self.structs_by[name].env
        seen: list = []
        toggles: list = []
        self.cmds[tab, "set", index] = seen
        self.cmds[tab, "toggle", index] = toggles
        self.prims[name, f"cmd{index}"].register_callback(
            lambda _, curr: seen.append(curr))
        self.prims[name, f"tog{index}"].register_callback(
            lambda _, curr: toggles.append(len(toggles) + 1))

    def counts(self) -> dict:
        """Callbacks and handlers."""
        result = {
            x: len(y.callbacks) for x, y in self.prims.items()
        }
        for name in self.names:
            result[name] = len(self.structs_by[name].logger.handlers)
        return result


class Struct(RuntimeStruct):
    """A struct with some channels."""

    kinds: list
    clients: int

    def init_env(self) -> None:
        """Initialize this environment."""
        enum = self.env.enum(
            f"{self.name}Mode", "int",
            items={"off": 0, "on": 1, "idle": 2, "busy": 3},
        )
        for i, kind in enumerate(self.kinds):
            name = f"c{i}"
            if kind == "enum":
                self.env.int_channel(name, "uint8", enum=enum.id)
            elif kind == "bool":
                self.env.bool_channel(name)
            elif kind in ("float", "double"):
                self.env.float_channel(name, kind)
            elif kind in ("field", "flag", "efield"):
                fields = BitFields.new()
                fields.flag(f"{name}_x")
                fields.field(f"{name}_y", 3)
                fields.field(f"{name}_z", 2, enum=enum.id)
                self.env.fields.add(fields)
            else:
                self.env.int_channel(name, kind)
        for i in range(self.clients):
            self.env.int_channel(f"cmd{i}", "uint32", commandable=True)
            self.env.bool_channel(f"tog{i}", commandable=True)


class Ui(UiState):
    """Records polls."""

    polled: list

    def poll(self) -> None:
        """Poll."""
        super().poll()
        self.polled.append((
            self.env.value("time_ms"), self.env.value("frame_period_ms"),
            self.json_metrics.rx.messages.value,
            self.json_metrics.tx.messages.value,
        ))


def plain(value) -> bool:
    """Whether it can be sent."""
    return isinstance(value, str) or math.isfinite(value)


def dedup(points: list, before: list) -> list:
    """Drop points that don't change anything."""
    result = []
    value = before[-1][0] if before else None
    for point in points:
        if point[0] != value:
            result.append(point)
            value = point[0]
    return result


class Client:
    """A browser."""

    def __init__(self, world, index: int, conf: dict, uri: str) -> None:
        self.world = world
        self.sim = world.sim
        self.index = index
        self.conf = conf
        self.uri = uri
        self.ws = None
        self.conn = None
        self.table: dict = {}
        self.view = None
        self.shown: dict = {}
        self.sessions: dict = {}
        self.inits: dict = {}
        self.lines: dict = {}
        self.waiting: dict = {}
        self.ident = 2
        self.sent: dict = {}
        self.tracked: dict = {}
        self.time = 0
        self.times: list = []
        self.staged = b""
        self.alive = True
        self.reader = None
        self.stalled = asyncio.Event()
        self.stalled.set()
        self.rude = False

    def fail(self, cls: str, msg) -> None:
        """Report."""
        self.sim.check(False, cls, f"client {self.index}: {msg}")

    async def connect(self) -> bool:
        """Connect."""
        try:
            # (the size of compressed messages depends on the order of sets)
            self.ws = await websockets.connect(self.uri, compression=None)
        except (OSError, ConnectionClosed, InvalidMessage, TimeoutError):
            self.alive = False
            return False
        self.reader = asyncio.get_running_loop().create_task(self.read())
        return True

    async def read(self) -> None:
        """Read messages."""
        stream = b""
        try:
            while True:
                data = await self.ws.recv()
                await self.stalled.wait()
                if isinstance(data, str):
                    self.fail("text", f"got text {data[:60]!r}")
                stream += data
                while len(stream) >= 4:
                    size = _struct.unpack(">I", stream[:4])[0]
                    if len(stream) < 4 + size:
                        break
                    raw, stream = stream[4:4 + size], stream[4 + size:]
                    await self.message(raw)
        except (ConnectionClosed, OSError):
            self.alive = False

    def bad_constant(self, name: str) -> None:
        """JavaScript's JSON can't do this."""
        self.fail("not-json", f"message contains {name}")

    async def message(self, raw: bytes) -> None:
        """Handle a message like the JavaScript does."""
        data = json.loads(raw.decode(), parse_constant=self.bad_constant)
        response = {
            key: data[key] for key in ("__id__", "loopback") if key in data
        }
        for name, msg in data.get("ui", {}).items():
            self.handle(name, msg)
        ident = data.get("__id__")
        if ident in self.waiting:
            if not self.waiting[ident].done():
                self.waiting[ident].set_result(data)
        if response and not (ident is not None and ident % 2 == 0):
            await self.send(response)

    def handle(self, name: str, msg: dict) -> None:
        """Handle a tab's message."""
        world = self.world
        if name not in world.names:
            self.fail("unknown-tab", f"message for {name!r}")
        if not isinstance(msg, dict):
            self.fail("shape", f"{name}: {msg!r}")
        table = self.table.setdefault(name, {})
        for line in msg.get("log_messages", []):
            if name not in self.inits:
                self.fail("log-not-init", f"{name}: {line!r}")
            self.lines.setdefault(name, []).append(line)
        if "points" in msg:
            if not self.shown.get(name):
                self.fail("points-hidden", f"{name}: {brief(msg)}")
            for key, points in msg["points"].items():
                if not points:
                    self.fail("points-empty", f"{name}.{key}")
                table[key] = points[-1][0]
                session = self.sessions[name][-1]
                session["points"].setdefault(key, []).extend(points)
                self.sim.probe("points", len(points))
        if "handle_shown_state" in msg:
            # The reply.
            if msg["handle_shown_state"]:
                for key, value in world.structs_by[name].env.values().items():
                    if plain(value) and key not in table and not any(
                        not plain(x[0]) for x in world.hist[name, key]
                    ):
                        self.fail("no-value", f"{name}.{key} never received")
                session = self.sessions[name][-1]
                if session["end"] is None:
                    session["end"] = {
                        key: len(world.hist[name, key])
                        for key in world.structs_by[name].env.names
                    }
                    session["table"] = dict(table)
                self.sim.probe("shown")
        else:
            for key, value in msg.items():
                if key not in ("points", "log_messages"):
                    if not self.shown.get(name):
                        self.fail("values-hidden", f"{name}.{key}")
                    table[key] = value

    async def send(self, data: dict, flush: bool = True) -> None:
        """Send a message."""
        raw = json.dumps(data).encode()
        self.staged += _struct.pack(">I", len(raw)) + raw
        if not flush:
            return
        staged, self.staged = self.staged, b""
        if self.alive:
            try:
                await self.ws.send(staged)
            except (ConnectionClosed, OSError):
                self.alive = False

    async def event(self, name: str, data: dict, flush: bool = True) -> None:
        """A tab's event."""
        await self.send({"ui": {"name": name, "event": data}}, flush)

    async def state(self, name: str, shown: bool, flush=True) -> None:
        """Show or hide a tab."""
        world = self.world
        if shown:
            if not self.shown.get(name):
                self.shown[name] = True
                self.sessions.setdefault(name, []).append({
                    "start": {
                        key: len(world.hist[name, key])
                        for key in world.structs_by[name].env.names
                    },
                    "end": None, "table": None, "points": {}, "open": True,
                })
            self.view = name
        await self.event(
            name, {"kind": "tab.shown" if shown else "tab.hidden"}, flush
        )
        if not shown:
            await self.drain(name)

    async def drain(self, name: str) -> None:
        """What's on the way still belongs to the session."""
        if await self.request({"ui": {"x": 1}}):
            self.shown[name] = False
            if self.view == name:
                self.view = None

    async def request(self, data: dict, timeout: float = 200.0):
        """Send and wait for the reply."""
        self.ident += 2
        ident = self.ident
        fut = asyncio.get_running_loop().create_future()
        self.waiting[ident] = fut
        await self.send({**data, "__id__": ident})
        while self.alive and not fut.done():
            done, _ = await asyncio.wait([fut, self.reader], timeout=timeout,
                                         return_when="FIRST_COMPLETED")
            if not done:
                self.fail("no-reply", f"no reply to {data!r}")
            if self.reader in done and not self.reader.cancelled():
                self.reader.result()
                break
        del self.waiting[ident]
        if fut.done():
            for name, init in self.inits.items():
                if init["end"] is None:
                    init["end"] = len(self.world.logs[name])
        return fut.done()

    def frame_message(self) -> dict:
        """Next animation frame."""
        self.time += 4 + self.index
        world = self.world
        world.time += 1
        self.times.append(float(world.time))
        return {"ui": {"time": float(world.time)}}

    def command(self, tab: int, kind: str) -> dict:
        """Next command."""
        key = (tab, kind)
        self.sent[key] = self.sent.get(key, 0) + 1
        value = (
            f"set cmd{self.index} {self.sent[key]}" if kind == "set"
            else f"toggle tog{self.index}"
        )
        return {"kind": "command", "value": value}

    async def oper(self, oper: dict) -> None:
        """Run an operation."""
        world, names = self.world, self.world.names
        kind = oper["op"]
        flush = not self.conf["batch"]
        if kind == "init":
            name = names[oper["tab"]]
            self.inits.setdefault(name, {
                "start": len(world.logs.get(name, [])), "end": None,
            })
            await self.event(name, {"kind": "init"}, flush)
        elif kind == "view":
            name, old = names[oper["tab"]], self.view
            if oper["first"] == "hide" and old is not None and old != name:
                await self.state(old, False)
            await self.state(name, True, flush)
            if oper["first"] == "show" and old is not None and old != name:
                await self.state(old, False)
                self.view = name
        elif kind == "raw":
            await self.state(
                names[oper["tab"]], oper["kind"] == "tab.shown", flush
            )
        elif kind == "frame":
            for _ in range(oper["count"]):
                await self.send(self.frame_message(), flush)
                await asyncio.sleep(0.005)
        elif kind == "cmd":
            for _ in range(oper["count"]):
                await self.event(
                    names[oper["tab"]],
                    self.command(oper["tab"], oper["kind"]), flush
                )
        elif kind == "bad":
            name = names[oper["tab"]]
            bad = [
                {"ui": {"name": "nosuch", "event": {"kind": "init"}}},
                {"ui": {"name": name, "event": {"kind": "what"}}},
                {"ui": {"name": name,
                        "event": {"kind": "command", "value": "bogus x"}}},
                {"ui": {"name": name, "event": {
                    "kind": "command", "value": "set nosuch 1"}}},
                {"other": {"a": 1}},
                {"ui": {"neither": 1}},
            ]
            self.sim.fault("bad_message")
            await self.send(bad[oper["what"]], flush)
        elif kind == "stall":
            self.sim.fault("client_stall")
            self.stalled.clear()
            await asyncio.sleep(2.0)
            self.stalled.set()

    async def flush(self) -> bool:
        """Get everything that's pending."""
        if self.staged:
            await self.send({"ui": {"x": 0}})
        return await self.request(self.frame_message())

    async def run(self) -> None:
        """Run the script."""
        await asyncio.sleep(self.conf["start_us"] / 1e6)
        if not await self.connect():
            return
        for oper in self.conf["ops"]:
            if not self.alive:
                return
            if oper["us"]:
                await asyncio.sleep(oper["us"] / 1e6)
            await self.oper(oper)
        if self.staged:
            await self.send({"ui": {"x": 0}})

    async def leave(self, how: str) -> None:
        """Leave."""
        if self.ws is None:
            self.alive = False
            return
        self.sim.event("leave", self.index, how)
        if how == "close":
            await self.ws.close()
        elif how == "abort":
            self.sim.fault("abort")
            self.ws.transport.abort()
        elif how == "silent":
            # Nothing is received from (or gets to) this client anymore.
            self.sim.fault("partition")
            self.sim.net.partition(self.ws.local_address[1])
        elif how == "kick":
            self.sim.fault("kick")
            for conn in self.world.conns:
                if conn.peer == self.ws.local_address[1]:
                    conn.disable("test")
        elif how == "exit":
            # Commands and a close in the same breath.
            for _ in range(3):
                await self.event(
                    self.world.names[0], self.command(0, "set")
                )
            await self.ws.close()
        self.alive = False

    def check_sessions(self, flushed: bool) -> None:
        """Check what was received while tabs were shown."""
        world = self.world
        for name, sessions in self.sessions.items():
            for num, session in enumerate(sessions):
                if session["end"] is None:
                    # No reply (disconnected).
                    self.sim.check(
                        not flushed, "no-shown-reply",
                        f"client {self.index}: {name} shown without a reply",
                    )
                    continue
                last = (
                    flushed and num + 1 == len(sessions)
                    and self.shown.get(name)
                )
                for key in session["start"]:
                    self.check_points(name, key, session, last)
                unknown = set(session["points"]) - set(session["start"])
                self.sim.check(not unknown, "unknown-channel",
                               f"{name}: points for {unknown}")

    def check_points(self, name, key, session, last) -> None:
        """Check points of a channel."""
        world = self.world
        hist = world.hist[name, key]
        points = [tuple(x) for x in session["points"].get(key, [])]
        # Histories start with the initial value.
        for start in range(session["start"][key], session["end"][key] + 1):
            now = [x for x in hist[:start] if plain(x[0])]
            want = [x for x in hist[start:] if plain(x[0])]
            if plain(hist[start - 1][0]) and (
                session["table"].get(key) != now[-1][0]
            ):
                continue
            got = points
            if (name, key) in world.fuzzy:
                got, want = dedup(points, now), dedup(want, now)
            if got == want or not last and got == want[:len(got)]:
                return
        want = [x for x in hist[session["start"][key]:] if plain(x[0])]
        self.fail(
            "points",
            f"{name}.{key}: shown with "
            f"{session['table'].get(key)!r}, changes (from "
            f"{session['start'][key]}..{session['end'][key]} of "
            f"{len(hist)}): {first_diff(points, want)}",
        )

    def check_logs(self, flushed: bool) -> None:
        """Check forwarded log messages."""
        for name, init in self.inits.items():
            got = [
                int(x[0]) for x in (
                    re.findall(r"HL<(\d+)>$", y)
                    for y in self.lines.get(name, [])
                ) if x
            ]
            logs = self.world.logs[name]
            end = len(logs) if init["end"] is None else init["end"]
            for start in range(init["start"], end + 1):
                want = logs[start:]
                if got == want or not flushed and got == want[:len(got)]:
                    break
            else:
                self.fail("logs", f"{name}: {first_diff(got, logs[end:])}")
            self.sim.probe("logs", len(got))

    def check_commands(self, flushed: bool) -> None:
        """Check that commands were executed."""
        for (tab, kind), count in self.sent.items():
            seen = self.world.cmds[tab, kind, self.index]
            want = list(range(1, count + 1))
            self.sim.check(
                seen == want if flushed else seen == want[:len(seen)],
                "commands",
                lambda seen=seen, want=want: f"client {self.index} {kind}: "
                f"{first_diff(seen, want)}",
            )
            self.sim.probe("commands", len(seen))

    def check(self, flushed: bool) -> None:
        """Check everything."""
        if self.ws is None:
            return
        self.check_sessions(flushed)
        self.check_logs(flushed)
        self.check_commands(flushed)
        if not flushed:
            return
        for name, shown in self.shown.items():
            if not shown:
                continue
            for key, value in self.world.structs_by[name].env.values().items():
                self.sim.check(
                    not plain(value)
                    or self.table[name].get(key) == value,
                    "stale", lambda name=name, key=key, value=value:
                    f"client {self.index} shows {name}.{key} = "
                    f"{self.table[name].get(key)!r}, it's {value!r}",
                )
                self.sim.probe("current")


def new_value(kind: str, val: int, odd: bool):
    """A value to set."""
    if kind in ("float", "double"):
        if odd:
            return [float("nan"), float("inf"), float("-inf")][val % 3]
        return [0.0, 1.0, -1.5, (val % 1000) / 8, val / 3][val % 5]
    if kind in ("bool", "flag"):
        return bool(val % 2)
    if kind in ("enum", "efield"):
        return ["off", "on", "idle", "busy"][val % 4]
    if kind == "field":
        return val % 8
    if kind == "int16":
        return val % 65536 - 32768
    return val % {"uint8": 256, "uint32": 1 << 32, "int64": 1 << 62}[kind]


async def scenario(sim, plan):
    """Run."""
    loop = asyncio.get_running_loop()
    world = World(sim, plan)
    total = 2 * len(plan["clients"])
    tabs = []
    quiet = []

    def level(logger) -> None:
        logger.setLevel(logging.DEBUG)
        logger.propagate = False
        quiet.append(logger)

    for i, kinds in enumerate(plan["tabs"]):
        struct = Struct(f"tab{i}", {})
        level(struct.logger)
        struct.kinds, struct.clients = kinds, total
        struct.init_env()
        struct.env.finalize(strict=False)
        tabs.append(struct)
        world.add(struct.name, struct)
        for index in range(total):
            world.watch(i, index)
    ui = None
    ui_module.UI = None
    if plan["ui"] != "no":
        ui = Ui("ui", {"psutil": False})
        level(ui.logger)
        ui.polled = []
        ui.init_env()
        if plan["ui"] != "late":
            ui.env.finalize(strict=False)
        else:
            sim.probe("late_ui")
        if plan["ui"] == "tab":
            world.add("ui", ui)
    count_prim = None
    if ui is not None:
        count_prim = ui.env["num_connections"][0].raw
        world.prims["", "num_connections"] = count_prim
    baseline = world.counts()

    manager = ConnectionManager()
    stop, over = asyncio.Event(), asyncio.Event()
    ready = loop.create_future()

    async def accepted(conn) -> bool:
        conn.peer = conn.protocol.remote_address[1]
        conn.logger.disabled = True
        world.conns.append(conn)
        return True

    async def serve() -> None:
        async with RuntimepyWebsocketConnection.serve(
            init=accepted, host="127.0.0.1", port=0, manager=manager,
            stop_sig=stop,
        ) as server:
            ready.set_result(list(server.sockets)[0].getsockname()[1])
            await over.wait()

    server = loop.create_task(serve())
    managing = loop.create_task(manager.manage(stop))
    port = await ready
    uri = f"ws://127.0.0.1:{port}"
    clients = [
        Client(world, i, x, uri) for i, x in enumerate(plan["clients"])
    ]
    everyone = list(clients)

    async def app_script(ops: list) -> None:
        """Change things."""
        for oper in ops:
            if oper["us"]:
                await asyncio.sleep(oper["us"] / 1e6)
            struct = tabs[oper["tab"]]
            if oper["op"] == "log":
                for _ in range(min(oper["count"], 4)):
                    num = len(world.logs[struct.name])
                    world.logs[struct.name].append(num)
                    struct.logger.info("HL<%d>", num)
                continue
            for num in range(oper["count"]):
                at = oper["chan"] % len(struct.kinds)
                kind = struct.kinds[at]
                name = f"c{at}"
                name += {"flag": "_x", "field": "_y", "efield": "_z"}.get(
                    kind, "")
                struct.env.set(
                    name, new_value(kind, oper["val"] + num, oper["odd"])
                )
                # (changes to NaN aren't announced)
                value = struct.env.value(name)
                if not plain(value) and value != value:
                    world.hist[struct.name, name].append((value, 0))

    def connected() -> int:
        return sum(1 for x in everyone if x.alive and x.ws is not None)

    async def checkpoint(where: str) -> None:
        """Nothing changes: everything is current."""
        await asyncio.sleep(2.0)
        if plan["ui"] in ("yes", "tab") and not plan["net"].get("p_reset"):
            # (whether or not they send anything)
            sim.check(
                ui.env.value("num_connections") == connected(),
                "num-connections", lambda: f"{where}: reported "
                f"{ui.env.value('num_connections')} clients before frames, "
                f"{connected()} are connected",
            )
        start = world.time
        for client in everyone:
            await asyncio.sleep(0.01)
            if client.alive and client.ws is not None:
                flushed = await client.flush()
                if flushed:
                    # (again, for what that frame changed)
                    await asyncio.sleep(0.01)
                    flushed = await client.flush()
                client.check(flushed)
                sim.probe("checkpoint")
            else:
                client.check(False)
        if ui is not None and ui.env.finalized and connected():
            sim.check(
                ui.env.value("num_connections") == connected(),
                "num-connections", lambda: f"{where}: reported "
                f"{ui.env.value('num_connections')} clients, "
                f"{connected()} are connected",
            )
            sim.check(
                ui.env.value("time_ms") > start, "ui-not-polled",
                lambda: f"{where}: {connected()} clients sent frames "
                f"{start + 1}..{world.time}, the latest one polled is "
                f"{ui.env.value('time_ms')}",
            )
            live = [x for x in everyone if x.alive and x.ws is not None]
            alone = live[plan["solo"] % len(live)]
            # The others' views are in the background.
            await asyncio.sleep(2.0)
            start = world.time
            before = len(ui.polled)
            if await alone.flush():
                sim.probe("alone")
                sim.check(
                    ui.env.value("time_ms") > start
                    and len(ui.polled) > before, "ui-not-polled",
                    lambda: f"{where}: only client {alone.index} of "
                    f"{connected()} sends frames, they don't update metrics",
                )
                check_polled()

    def check_polled() -> None:
        """What polls reported."""
        periods = {}
        for client in everyone:
            prev = 0.0
            for time in client.times:
                periods[time] = time - prev
                prev = time
        for time, period, rx, tx in ui.polled:
            sim.check(
                periods.get(time) == period, "frame-period",
                f"frame {time}: reported period {period}, it's "
                f"{periods.get(time)}",
            )
            sim.check(
                any(
                    0 < rx <= x.metrics.rx.messages.value
                    and tx <= x.metrics.tx.messages.value for x in world.conns
                ), "json-metrics",
                lambda: f"frame {time}: reported {rx} received and {tx} sent",
            )

    async def finalize_late() -> None:
        await asyncio.sleep(0.01)
        if ui is not None and not ui.env.finalized:
            ui.env.finalize(strict=False)

    half = len(plan["app"]) // 2
    tasks = [loop.create_task(x.run()) for x in clients]
    tasks += [loop.create_task(app_script(plan["app"][:half])),
              loop.create_task(finalize_late())]
    await sim.within(asyncio.gather(*tasks), 3600, "hang", "scripts")
    sim.net.cfg.p_reset = 0
    await checkpoint("running")

    # Some leave.
    async def leave(client) -> None:
        await asyncio.sleep(client.conf["start_us"] / 1e6)
        conf = dict(client.conf)
        await client.leave(conf["leave"])
        if conf["again"]:
            conf["leave"] = "stay"
            again = Client(world, client.index + len(clients), conf, uri)
            everyone.append(again)
            await again.run()

    tasks = [
        loop.create_task(leave(x)) for x in clients
        if x.conf["leave"] != "stay"
    ] + [loop.create_task(app_script(plan["app"][half:]))]
    for client in clients:
        if client.conf["leave"] == "stay" and client.alive and client.ws:

            async def more(client=client) -> None:
                for oper in client.conf["ops"][:10]:
                    if client.alive:
                        await client.oper(oper)

            tasks.append(loop.create_task(more()))
    await sim.within(asyncio.gather(*tasks), 3600, "hang", "leaving")
    await asyncio.sleep(100)
    await checkpoint("after some left")

    # Everyone leaves.
    for client in everyone:
        if client.alive and client.ws is not None:
            await client.leave("close" if client.index % 2 else "abort")
    await asyncio.sleep(30)
    left = [x for x in world.conns if not x.disabled]
    sim.check(not left, "still-enabled", f"{len(left)} connections enabled")
    if ui is not None:
        sim.check(
            ui.env.value("num_connections") == 0, "num-connections",
            lambda: f"nobody is connected, reported "
            f"{ui.env.value('num_connections')}",
        )
    now = world.counts()
    sim.check(
        now == baseline, "leak", lambda: "left behind: " + brief({
            x: (baseline[x], y) for x, y in now.items() if y != baseline[x]
        }),
    )
    for client in everyone:
        client.check(False)
        if client.reader is not None and client.reader.done() and (
            not client.reader.cancelled()
        ):
            client.reader.result()
    sim.probe("connections", len(world.conns))
    sim.nontrivial = bool(world.conns)
    stop.set()
    over.set()
    await sim.within(managing, 30, "stop", "manager")
    await sim.within(server, 60, "stop", "server")
    for client in everyone:
        if client.reader is not None:
            client.reader.cancel()

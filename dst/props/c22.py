"""
C22: UDP connections: datagrams in and out, errors and restarts.
"""

import asyncio

from runtimepy.net.manager import ConnectionManager
from runtimepy.net.udp.connection import UdpConnection

from dst.util import brief, first_diff, payload, swarm_loop, swarm_net, text

LONG = 120.0


def gen(rng, tier):
    """Generate a plan."""
    peers = []
    count = rng.choice([1, 2, 3])
    for _ in range(count):
        peers.append({
            "form": rng.choice(
                ["connect", "connect", "bound", "remote", "remote-bound"]
            ),
            "restart": rng.random() < 0.6,
        })
    ops = []
    for _ in range(rng.choice([3, 10, 40, 100])):
        us = rng.choice([0, 0, 0, 30, 700, 20_000, 300_000])
        who = rng.randrange(count)
        roll = rng.random()
        if roll < 0.45:
            ops.append({
                "op": "out", "who": who, "us": us,
                "size": rng.choice([1, 2, 10, 600, 9_000, 65_507]),
                "how": rng.choice(["binary", "binary", "text", "sendto"]),
                "act": rng.choice(
                    [""] * 12 + ["slow", "slow", "reply", "reply", "raise",
                                 "false", "none", "disable"]
                ),
                "ms": rng.choice([0, 1, 50, 900]),
            })
        elif roll < 0.47:
            ops.append({
                "op": "burst", "who": who, "us": us,
                "back": rng.random() < 0.5, "size": rng.choice([4, 30]),
                "count": rng.choice([10, 100, 100, 400, 1500]),
                "ms": rng.choice([0, 10, 900]),
            })
        elif roll < 0.5 and count > 1:
            ops.append({
                "op": "cross", "who": who, "us": us,
                "to": rng.randrange(count), "size": rng.choice([1, 50]),
            })
        elif roll < 0.85:
            ops.append({
                "op": "back", "who": who, "us": us,
                "size": rng.choice([1, 2, 10, 600, 9_000, 65_507]),
                "act": rng.choice(
                    [""] * 14 + ["slow", "slow", "raise", "false", "disable"]
                ),
                "ms": rng.choice([0, 1, 50, 900]),
            })
        elif roll < 0.88:
            ops.append({"op": "disable", "who": who, "us": us})
        elif roll < 0.90:
            ops.append({"op": "down", "us": us,
                        "ms": rng.choice([0, 5, 200, 4000])})
        elif roll < 0.92:
            ops.append({"op": "toggle", "who": who, "us": us})
        elif roll < 0.94:
            ops.append({"op": "too-big", "who": who, "us": us})
        else:
            ops.append({"op": "wait", "us": rng.choice([1_000_000,
                                                        8_000_000])})
    net = swarm_net(rng, tcp=False, udp=True)
    if rng.random() < 0.25:
        net["p_senderr"] = rng.choice([0.01, 0.1])
    return {
        "net": net, "loop": swarm_loop(rng), "peers": peers, "ops": ops,
        "server_restart": rng.random() < 0.8,
        "late_start": rng.random() < 0.2,
    }


class Handled(Exception):
    """A handler fails."""


class Conn(UdpConnection):
    """A connection with a scripted handler."""

    world: "World"
    key: str

    def init(self) -> None:
        self.handled: list = []

    async def process_datagram(self, data: bytes, addr) -> bool:
        world = self.world
        session = world.session(self)
        session["handled"].append((bytes(data), tuple(addr)))
        world.sim.check(
            not session["busy"], "overlap", "handlers overlap"
        )
        world.sim.check(
            tuple(self.latest_rx_address) == tuple(addr), "latest",
            f"latest address {self.latest_rx_address}, handling {addr}",
        )
        session["busy"] = True
        try:
            act, ms = world.acts.get(bytes(data), ("", 0))
            if act == "slow":
                await asyncio.sleep(ms / 1e3)
            elif act == "raise":
                world.sim.fault("handler_raises")
                world.dead.append(self._transport)
                world.expect(self, "handler")
                raise Handled
            elif act == "false":
                world.sim.fault("handler_rejects")
                world.dead.append(self._transport)
                world.expect(self, "handler")
                return False
            elif act == "none":
                pass
            elif act == "disable":
                world.expect(self, "explicit")
                self.disable("by the handler")
                return True
            elif act == "reply":
                world.send(self, payload(world.tag(), 33), "sendto", addr)
            return True
        finally:
            session["busy"] = False


class World:
    """State of a run."""

    def __init__(self, sim, plan) -> None:
        self.sim = sim
        self.plan = plan
        self.acts: dict = {}
        self.tags = 0
        self.sessions: dict = {}
        self.owner: dict = {}
        self.reasons: dict = {}
        self.conns: list = []
        self.wire: list = []
        self.expected_wire: list = []
        self.dead: list = []
        sim.net.udp_rx_taps.append(self.delivered)
        sim.net.udp_err_taps.append(self.error)
        sim.net.udp_taps.append(self.on_wire)

    def tag(self) -> int:
        self.tags += 1
        return self.tags

    def session(self, conn) -> dict:
        """The session of a connection's current transport."""
        return self.sessions.setdefault(
            id(conn._transport),
            {"transport": conn._transport, "handled": [], "delivered": [],
             "busy": False},
        )

    def delivered(self, transport, data, source) -> None:
        self.sessions.setdefault(
            id(transport),
            {"transport": transport, "handled": [], "delivered": [],
             "busy": False},
        )["delivered"].append((bytes(data), tuple(source)))

    def error(self, transport, exc) -> None:
        self.dead.append(transport)
        for conn in self.conns:
            if conn._transport is transport:
                self.expect(conn, type(exc).__name__)

    def expect(self, conn, why: str) -> None:
        """A connection has a reason to be disabled."""
        self.reasons.setdefault(id(conn), []).append(why)

    def on_wire(self, src, target, data) -> None:
        self.wire.append((src, target, bytes(data)))

    def send(self, conn, data: bytes, how: str, addr=None) -> None:
        """Send one datagram and see what goes out."""
        before = len(self.wire)
        errors = len(self.reasons.get(id(conn), []))
        was = not conn.disabled and not conn._transport.is_closing()
        if how == "text":
            conn.send_text(data.decode())
        elif how == "binary":
            conn.send_binary(data)
        else:
            conn.sendto(data, addr=addr)
        got = self.wire[before:]
        del self.wire[before:]
        if addr is None:
            addr = conn.target
        failed = len(self.reasons.get(id(conn), [])) > errors
        if was and not failed:
            want = [(conn.local_address.port, addr[1], data)]
            self.sim.check(
                got == want, "sent",
                lambda: f"{conn.key} ({how}): {first_diff(got, want)}",
            )
            self.sim.probe("sent")
        else:
            self.sim.check(
                len(got) <= 1 and all(x[2] == data for x in got), "sent",
                lambda: f"{conn.key} sent {brief(got)}",
            )

    def check_sessions(self, final: bool) -> None:
        """Handled datagrams are the delivered ones."""
        live = {id(x._transport): x for x in self.conns}
        for key, item in self.sessions.items():
            got, want = item["handled"], item["delivered"]
            self.sim.check(
                got == want[:len(got)], "handled",
                lambda g=got, w=want: "handled datagrams differ from "
                f"delivered ones: {first_diff(g, w)}",
            )
            conn = live.get(key)
            if final and conn is not None and not conn.disabled:
                self.sim.check(
                    len(got) == len(want), "unhandled",
                    f"{conn.key} handled {len(got)} of {len(want)}",
                )


async def scenario(sim, plan):
    """Run."""
    world = World(sim, plan)
    net, loop = sim.net, asyncio.get_running_loop()
    manager = ConnectionManager()
    stop = asyncio.Event()

    async def make(key: str, restart: bool, **kwargs) -> Conn:
        conn = await Conn.create_connection(**kwargs)
        conn.world = world
        conn.key = key
        conn.env.set("auto_restart", restart)
        conn.logger.disabled = True
        world.conns.append(conn)
        return conn

    home = ("127.0.0.1", 30_000)
    server = await make("server", plan["server_restart"], local_addr=home)
    server.target = None
    peers = []
    for i, conf in enumerate(plan["peers"]):
        kwargs = {"remote_addr": home}
        if "bound" in conf["form"]:
            kwargs["local_addr"] = ("127.0.0.1", 30_100 + i)
        if "remote" in conf["form"]:
            kwargs["connect"] = False
        conn = await make(f"peer{i}", conf["restart"], **kwargs)
        conn.target = home
        peers.append(conn)

    task = loop.create_task(manager.manage(stop))
    if plan["late_start"]:
        for conn in peers:
            world.send(conn, payload(world.tag(), 9), "binary")
        await asyncio.sleep(0.5)
    for conn in world.conns:
        manager.queue.put_nowait(conn)

    def sane() -> None:
        """Connections are only disabled for a reason."""
        for conn in world.conns:
            if conn.disabled:
                sim.check(
                    bool(world.reasons.get(id(conn))), "disabled",
                    f"{conn.key} was disabled for no reason",
                )
            else:
                sim.check(
                    all(x is not conn._transport for x in world.dead), "error",
                    f"{conn.key} is still enabled despite an error",
                )

    down = None

    async def outage(seconds: float) -> None:
        """The server's host is unreachable (or not listening)."""
        world.expect(server, "explicit")
        server.disable("down")
        await asyncio.sleep(seconds)

    # Connections that are restarted whenever they're disabled.
    always = {id(x) for x in world.conns if x.auto_restart}
    for op in plan["ops"]:
        if op["us"]:
            await asyncio.sleep(op["us"] / 1e6)
        sane()
        world.check_sessions(False)
        conn = peers[op["who"]] if "who" in op else None
        if op["op"] == "out":
            tag = world.tag()
            data = payload(tag, op["size"])
            if op["how"] == "text":
                data = text(tag, min(op["size"], 9_000)).encode() + b"#%d" % (
                    tag
                )
            world.acts[data] = (op["act"], op["ms"])
            if op["how"] == "sendto":
                world.send(conn, data, "sendto", home)
            else:
                world.send(conn, data, op["how"])
        elif op["op"] == "back":
            data = payload(world.tag(), op["size"])
            world.acts[data] = (op["act"], op["ms"])
            world.send(
                server, data, "sendto",
                ("127.0.0.1", conn.local_address.port),
            )
        elif op["op"] == "burst":
            for i in range(op["count"]):
                data = payload(world.tag(), op["size"])
                if i == 0 and op["ms"]:
                    world.acts[data] = ("slow", op["ms"])
                if op["back"]:
                    world.send(
                        server, data, "sendto",
                        ("127.0.0.1", conn.local_address.port),
                    )
                else:
                    world.send(conn, data, "binary")
        elif op["op"] == "cross":
            other = peers[op["to"]]
            forms = [plan["peers"][op[x]]["form"] for x in ("who", "to")]
            if all("remote" in x for x in forms):
                sim.probe("cross")
                world.send(
                    conn, payload(world.tag(), op["size"]), "sendto",
                    ("127.0.0.1", other.local_address.port),
                )
        elif op["op"] == "disable":
            world.expect(conn, "explicit")
            conn.disable("test")
            sim.fault("disable")
        elif op["op"] == "down":
            sim.fault("server_down")
            if down is None or down.done():
                down = loop.create_task(outage(op["ms"] / 1e3))
        elif op["op"] == "too-big":
            world.send(conn, payload(world.tag(), 65_508), "binary")
        elif op["op"] == "toggle":
            conn.env.set("auto_restart", not conn.auto_restart)
            always.discard(id(conn))
    if down is not None:
        await down

    # No more faults: everything that restarts works again.
    net.heal()
    await asyncio.sleep(30)
    sane()
    deadline = loop.time() + LONG
    for conn in world.conns:
        if id(conn) not in always:
            continue
        while conn.disabled and loop.time() < deadline:
            await asyncio.sleep(0.5)
        sim.check(
            not conn.disabled, "restart", f"{conn.key} didn't restart"
        )
        sim.probe("restarts", conn.env.value("restarts"))
    world.acts.clear()
    for conn in peers:
        if conn.disabled or server.disabled:
            continue
        one, two = payload(world.tag(), 20), payload(world.tag(), 21)
        world.send(conn, one, "binary")
        world.send(
            server, two, "sendto", ("127.0.0.1", conn.local_address.port)
        )
        await asyncio.sleep(5)
        for end, data in ((server, one), (conn, two)):
            sim.check(
                [x[0] for x in world.session(end)["handled"]].count(data)
                == 1, "after",
                f"{end.key} didn't handle a datagram sent to it",
            )
    sane()
    world.check_sessions(True)
    count = sum(len(x["handled"]) for x in world.sessions.values())
    sim.probe("handled", count)
    sim.probe("sessions", len(world.sessions))
    sim.nontrivial = count > 0

    stop.set()
    await sim.within(task, 10, "stop", "stopping")
    await asyncio.sleep(1)
    for conn in world.conns:
        sim.check(conn.disabled, "stop", f"{conn.key} is still enabled")
    sim.check(
        not net.udp, "open", lambda: f"open sockets: {list(net.udp)}"
    )

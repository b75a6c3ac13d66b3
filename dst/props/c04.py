"""
C04: a managed connection with auto-restart comes back after every outage,
with one live session at a time; one without never does.
"""

import asyncio

from runtimepy.net.backoff import ExponentialBackoff
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.connection import TcpConnection

from dst.core import Violation
from dst.util import swarm_loop, swarm_net

# Longest time between two attempts, plus slack for connecting.
BOUND = 60.0


def gen(rng, tier):
    """Generate a plan."""
    net = swarm_net(rng, tcp=True, breaks=True)
    if rng.random() < 0.5:
        net["p_refuse"] = rng.choice([0.1, 0.5, 0.9])
    if rng.random() < 0.5:
        net["p_unreach"] = rng.choice([0.1, 0.5, 0.9])
    net["sndbuf"] = rng.choice([1024, 16384, 1 << 18])
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        what = rng.choice(
            ["drop", "drop", "abort", "disable", "false", "raise",
             "down", "down", "gone", "cut", "other", "flood", "plain", "toggle"]
        )
        ops.append(
            {"op": what,
             "us": rng.choice([0, 20, 3000, 200_000, 3_000_000, 40_000_000,
                               300_000_000]),
             "hold_us": rng.choice([0, 50, 4000, 500_000])}
        )
        if rng.random() < 0.7:
            ops.append({"op": "talk"})
        if rng.random() < 0.4:
            ops.append(
                {"op": "wait",
                 "us": rng.choice([0, 100, 5000, 400_000, 8_000_000])}
            )
    return {
        "late_us": rng.choice([0, 0, 2000, 1_000_000]),
        "direct_us": rng.choice([0, 0, 0, 1000, 700_000, 9_000_000]),
        "server_auto": rng.random() < 0.3,
        "stop_in": rng.choice(["up", "up", "down", "cut"]),
        "slow_close_us": rng.choice([0, 0, 1000, 100_000]),
        "net": net,
        "loop": swarm_loop(rng),
        "ops": ops,
    }


class SimulatedError(Exception):
    """A broken handler."""


async def scenario(sim, plan):
    """Run."""
    loop = asyncio.get_running_loop()
    port = 30_000
    sim.net.labels[port] = "srv"
    servers: list = []
    accepted: list = []

    class Peer(asyncio.Protocol):
        """The remote end: echoes lines, prefixed with its session."""

        def connection_made(self, transport):
            self.transport = transport
            self.buf = b""
            self.index = len(accepted)
            accepted.append(self)
            sim.event("accept", self.index)

        def data_received(self, data):
            self.buf += data
            *lines, self.buf = self.buf.split(b"\n")
            for line in lines:
                self.transport.write(b"%d %s\n" % (self.index, line))

    async def up():
        if not servers:
            servers.append(
                await loop.create_server(Peer, host="127.0.0.1", port=port)
            )

    def down(kill=True):
        sim.fault("listener_down")
        for server in servers:
            server.close()
        servers.clear()
        if kill:
            for peer in accepted:
                peer.transport.abort()

    live: set = set()

    class Client(TcpConnection):
        """The managed connection."""

        sim_name = "auto"

        def init(self):
            super().init()
            self.sim_active = 0
            self.sim_tasks = 0
            self.sim_mode = ""
            self.sim_lines = []
            self.sim_buf = b""
            self.sim_inits = 0
            self.sim_tries = 0
            self.sim_restarts = 0
            self.sim_session = -1

        async def async_init(self):
            signals("initialized", self)
            self._conn_tasks.append(
                asyncio.create_task(self.sim_background())
            )
            self.sim_inits += 1
            self.sim_buf = b""
            return True

        async def sim_background(self):
            """A task of a session, to end with it."""
            self.sim_tasks += 1
            try:
                await asyncio.Event().wait()
            finally:
                self.sim_tasks -= 1

        async def restart(self):
            res = await super().restart()
            self.sim_tries += 1
            self.sim_restarts += bool(res)
            return res

        async def process(self, *args, **kwargs):
            if self.sim_active:
                raise_violation(
                    "concurrent-processing",
                    f"'{self.sim_name}' is processed by {self.sim_active + 1} "
                    "tasks at once",
                )
            self.sim_active += 1
            try:
                await super().process(*args, **kwargs)
            finally:
                self.sim_active -= 1
                if plan["slow_close_us"]:
                    await asyncio.sleep(0)

        async def process_binary(self, data):
            if self.sim_mode == "false":
                self.sim_mode = ""
                return False
            if self.sim_mode == "raise":
                self.sim_mode = ""
                raise SimulatedError("handler")
            self.sim_buf += data
            *lines, self.sim_buf = self.sim_buf.split(b"\n")
            for line in lines:
                session = int(line.split(b" ")[0])
                if session < self.sim_session:
                    raise_violation(
                        "stale-session",
                        f"data of session {session} handled after data of "
                        f"session {self.sim_session}",
                    )
                self.sim_session = session
                self.sim_lines.append(line.split(b" ", 1)[1])
            return True

    def raise_violation(cls, msg):
        raise Violation(cls, msg)

    def open_ends(conn_name):
        """Client ends of a connection's sessions which are still open."""
        return [
            x.index for x in sim.net.conns
            if x.a is not None and x.a._protocol is not None
            and not x.a._closing
            and getattr(getattr(x.a._protocol, "conn", None), "sim_name", "")
            == conn_name
        ]

    def signals(what, conn):
        """The events others wait for have to agree with the state."""
        off = conn.disabled
        sim.check(
            conn.disabled_event.is_set() == off, "disabled-event",
            f"{what}: 'disabled_event' is {conn.disabled_event.is_set()}, "
            f"'disabled' is {off}",
        )
        sim.check(
            off or not conn.exited.is_set(), "exited-event",
            f"{what}: enabled, but 'exited' is set",
        )

    def attempts():
        return sum(1 for x in sim.loop.log_events if x[1] == "tcp.syn")

    class Plain(Client):
        """No auto-restart."""

        sim_name = "plain"

    def one_session(what):
        for name in ("auto", "plain"):
            ends = open_ends(name)
            sim.check(
                len(ends) <= 1, "many-sessions",
                f"'{name}' has {len(ends)} open sessions ({what})",
            )

    manager = ConnectionManager()
    stop = asyncio.Event()
    manage = asyncio.create_task(manager.manage(stop))

    # Establish (possibly with a server that starts late).
    sim_cfg = sim.net.healthy
    if plan["late_us"]:
        loop.call_later(
            plan["late_us"] / 1e6, lambda: asyncio.ensure_future(up())
        )
    else:
        await up()
    sim.net.healthy = True
    client = await sim.within(
        Client.create_connection(
            host="localhost", port=port,
            backoff=ExponentialBackoff(max_tries=60),
        ),
        BOUND * 2, "create", "initial connection",
    )
    sim.net.healthy = sim_cfg
    client.env.set("auto_restart", True)
    manager.queue.put_nowait(client)
    plains: list = []

    async def talk():
        """Round trip over whatever session is live."""
        tag = f"t{len(client.sim_lines)}-{sim.now}".encode()
        wait = BOUND + 20_000 * 2 * sim.net.cfg.lat_max_us / 1e6 / 50
        end = sim.now + wait
        sent_on = None
        while sim.now < end:
            if not client.disabled and client.initialized.is_set():
                session = client.sim_inits
                if sent_on != session:
                    client.send_binary(tag + b"\n")
                    sent_on = session
                if tag in client.sim_lines:
                    return True
            await asyncio.sleep(0.02)
            one_session("while talking")
        return False

    toggled_off = False
    for oper in plan["ops"]:
        name = oper["op"]
        secs = oper.get("us", 0) / 1e6
        one_session(f"before {name}")
        if name in ("drop", "abort"):
            sim.fault("op_" + name)
            for peer in accepted:
                getattr(
                    peer.transport, "close" if name == "drop" else "abort"
                )()
        elif name == "disable":
            sim.fault("op_disable")
            client.disable("op")
            await asyncio.sleep(oper["hold_us"] / 1e6)
            client.disable("again")
        elif name in ("false", "raise"):
            client.sim_mode = name
            if not client.disabled:
                sim.fault("op_handler_" + name)
                client.send_binary(b"boom\n")
        elif name in ("down", "gone"):
            down()
            sim.net.unreachable = name == "gone"
            before = attempts()
            await asyncio.sleep(secs)
            tried = attempts() - before
            sim.check(
                tried <= 60 + 30 * secs, "busy-retry",
                f"{tried} connection attempts in {secs:.6f} s",
            )
            sim.net.unreachable = False
            await up()
        elif name == "cut":
            sim.net.partition(port)
            await asyncio.sleep(oper["hold_us"] / 1e6)
            client.disable("op")
            await asyncio.sleep(secs)
            sim.net.unpartition(port)
        elif name == "flood":
            # A session that can't flush when it ends.
            if not client.disabled and accepted:
                sim.probe("flood")
                accepted[-1].transport.pause_reading()
                for _ in range(4):
                    client.send_binary(b"x" * 20_000)
                client.disable("op")
                await asyncio.sleep(oper["hold_us"] / 1e6)
                accepted[-1].transport.resume_reading()
                accepted[0].transport.resume_reading()
                for peer in accepted:
                    peer.transport.resume_reading()
        elif name == "other":
            # Other connections wake the manager up at bad times.
            was = sim.net.healthy
            sim.net.healthy = True
            if servers:
                other = await TcpOther.create_connection(
                    host="127.0.0.1", port=port
                )
                manager.queue.put_nowait(other)
                await asyncio.sleep(oper["hold_us"] / 1e6)
                other.disable("op")
            sim.net.healthy = was
        elif name == "plain":
            was = sim.net.healthy
            sim.net.healthy = True
            if servers and not plains:
                plain = await Plain.create_connection(
                    host="127.0.0.1", port=port
                )
                plains.append(plain)
                manager.queue.put_nowait(plain)
                await asyncio.sleep(oper["hold_us"] / 1e6)
            sim.net.healthy = was
            if plains and oper["us"] > 100:
                plains[0].disable("op")
        elif name == "talk":
            if not client.disabled:
                client.send_binary(b"hello\n")
        elif name == "wait":
            await asyncio.sleep(secs)

    # Faults stop: it comes back.
    sim.net.heal()
    sim.net.cfg.p_short = 0.0
    await up()
    wait = BOUND + 127.0 * 0
    end = sim.now + wait
    back = await talk()
    sim.check(
        back, "not-re-established",
        lambda: "an auto-restart connection isn't processing messages "
        f"{wait:.0f} s after its peer became reachable (disabled="
        f"{client.disabled}, processing={client.sim_active}, accepted="
        f"{len(accepted)})",
    )
    await asyncio.sleep(5.0)
    one_session("after faults")
    signals("after faults", client)
    sim.check(
        client.sim_tasks <= 1, "session-tasks",
        f"tasks of {client.sim_tasks} sessions run at once",
    )
    sim.check(
        not client.disabled, "not-stable",
        "a re-established connection didn't stay up on a healthy network",
    )
    sim.check(
        len(open_ends("auto")) == 1, "no-session", "no open session",
    )
    # What's left of an ended session doesn't end the next one.
    if any(x["op"] == "flood" for x in plan["ops"]):
        before = client.sim_restarts
        peer = [x for x in accepted if not x.transport.is_closing()][-1]
        peer.transport.pause_reading()
        for _ in range(8):
            client.send_binary(b"x" * 20_000)
        client.disable("op")
        await asyncio.sleep(3.0)
        peer.transport.resume_reading()
        await asyncio.sleep(20.0)
        sim.check(
            client.sim_restarts - before == 1, "session-disturbed",
            f"{client.sim_restarts - before} restarts after 1 disconnect on a "
            "healthy network",
        )
    for name, want in (("restarts", client.sim_restarts),
                       ("restart_attempts", client.sim_tries)):
        got = client.env.value(name)
        sim.check(
            got == want % 256, "restart-count",
            f"'{name}' is {got}, {want} happened",
        )
    if client.sim_inits > 1:
        sim.probe("restarted")

    # Without auto-restart there's exactly one session, ever.
    if plains:
        plain = plains[0]
        if not plain.disabled:
            for peer in accepted:
                peer.transport.abort()
            await asyncio.sleep(5.0)
        sim.check(plain.disabled, "plain-enabled", "enabled after a reset")
        await asyncio.sleep(BOUND)
        sim.check(
            plain.sim_inits <= 1 and plain.disabled
            and not open_ends("plain"),
            "plain-restarted",
            "a connection without auto-restart was re-established",
        )
        await sim.within(
            live_again(client), BOUND, "not-re-established", "reconnection"
        )

    # Turning auto-restart off: the next disconnect is final.
    if any(x["op"] == "toggle" for x in plan["ops"]):
        client.env.set("auto_restart", False)
        for peer in accepted:
            peer.transport.abort()
        await asyncio.sleep(BOUND)
        sim.check(
            client.disabled and not open_ends("auto"), "toggle-restarted",
            "re-established although auto-restart was turned off",
        )
        toggled_off = True

    # Stop, possibly during an outage.
    if plan["stop_in"] == "down" and not toggled_off:
        down()
        await asyncio.sleep(3.0)
        sim.check(client.disabled, "enabled-when-down", "no peer")
    elif plan["stop_in"] == "cut" and not toggled_off:
        sim.net.healthy = False
        sim.net.partition(port)
        client.disable("op")
        await asyncio.sleep(3.0)
    sessions = client.sim_inits
    sim.fault("stop_" + plan["stop_in"])
    stop.set()
    await sim.within(manage, 15.0, "stop-slow", "management after stop")
    sim.net.heal()
    await up()
    await asyncio.sleep(BOUND)
    sim.check(
        client.disabled and not open_ends("auto")
        and client.sim_inits == sessions and not client.sim_active,
        "alive-after-stop", "a session is live after the stop signal",
    )
    down()
    await asyncio.sleep(1.0)
    left = [
        x.get_coro().__qualname__ for x in asyncio.all_tasks()
        if x is not asyncio.current_task()
    ]
    sim.check(not left, "leftover-tasks", f"tasks left behind: {left}")
    await direct(sim, plan)
    await served(sim, plan)
    del live, end
    sim.nontrivial = client.sim_inits > 1


class TcpOther(TcpConnection):
    """Some other connection."""

    async def process_binary(self, data):
        return True


async def live_again(conn):
    """Wait for a connection to be live."""
    while conn.disabled:
        await asyncio.sleep(0.02)


async def direct(sim, plan):
    """
    Without a manager: nothing waits for an attempt that isn't to be made when
    it's stopped while its peer is gone.
    """
    if not plan["direct_us"]:
        return

    server = await asyncio.get_running_loop().create_server(
        asyncio.Protocol, "127.0.0.1", 30_002
    )
    conn = await TcpOther.create_connection(host="127.0.0.1", port=30_002)
    conn.disable("op")
    await conn.close()
    server.close()
    stop = asyncio.Event()
    task = asyncio.create_task(
        conn.process(stop_sig=stop, backoff=ExponentialBackoff(max_tries=90))
    )
    await asyncio.sleep(plan["direct_us"] / 1e6)
    sim.probe("direct")
    stop.set()
    await sim.within(task, 15.0, "stop-slow", "processing after stop")
    sim.check(conn.disabled, "enabled-when-down", "no peer")


async def served(sim, plan):
    """
    A server's end of a connection can't be re-established, even if its class
    asks for it: it ends like any other.
    """
    if not plan["server_auto"]:
        return

    class Auto(TcpOther):
        """Restarts by default."""

        default_auto_restart = True

    stop = asyncio.Event()
    manager = ConnectionManager()
    started = asyncio.get_running_loop().create_future()
    app = asyncio.create_task(
        Auto.app(
            stop, manager=manager, host="127.0.0.1", port=30_001,
            serving_callback=lambda _: started.set_result(None),
        )
    )
    await started
    for _ in range(3):
        _, proto = await asyncio.get_running_loop().create_connection(
            asyncio.Protocol, "127.0.0.1", 30_001
        )
        await asyncio.sleep(0.3)
        _.close()
    sim.probe("server_auto")
    await asyncio.sleep(30.0)
    _, proto = await asyncio.get_running_loop().create_connection(
        asyncio.Protocol, "127.0.0.1", 30_001
    )
    await asyncio.sleep(1.0)
    sim.check(
        manager.num_connections == 1, "server-zombies",
        f"{manager.num_connections} connections are managed, 1 is live",
    )
    stop.set()
    await sim.within(app, 15.0, "server-stop", "server after stop")
    del proto

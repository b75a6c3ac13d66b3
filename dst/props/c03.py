"""
C03: processing of a connection ends, cleans up and stays ended - for every
cause, at every point, alone or under a connection manager.
"""

import asyncio
from contextlib import AsyncExitStack

from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.websocket.connection import WebsocketConnection

from dst.core import Violation
from dst.util import payload, sane_ws, swarm_loop, swarm_net

BOUND = 60.0
ENDS = [
    "peer_close", "abort", "handler_false", "handler_raise", "stop",
    "timed", "disable", "init_false", "init_raise", "pre_disable",
    "init_disable", "pre_close", "context", "queued",
]


def gen(rng, tier):
    """Generate a plan."""
    kind = rng.choice(["tcp", "tcp", "tcp", "udp", "ws"])
    net = swarm_net(rng, tcp=kind != "udp")
    net.pop("p_reset", None)
    if kind == "ws":
        net = sane_ws(net)
    if kind == "tcp" and rng.random() < 0.3:
        net["rst_on_close"] = 1
    ends = [x for x in ENDS if not (kind == "udp" and x in
                                    ("abort", "pre_close"))]
    ops = []
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        ops.append(
            {"op": "send", "side": rng.choice("cs"),
             "size": rng.choice([1, 5, 100, 700]),
             "text": rng.random() < 0.3}
        )
        if rng.random() < 0.5:
            ops.append({"op": "wait", "us": rng.choice([0, 30, 2000, 90_000])})
    if rng.random() < 0.6:
        ops.append({"op": "drain"})
    return {
        "kind": kind,
        "managed": [rng.random() < 0.5, rng.random() < 0.6],
        "init_us": rng.choice([0, 0, 50, 20_000]),
        "slow_us": rng.choice([0, 0, 100, 30_000, 5_000_000]),
        "end": rng.choice(ends),
        "side": rng.choice("cs"),
        "timed_us": rng.choice([0, 1, 5000, 700_000]),
        "end_wait_us": rng.choice([0, 0, 10, 500, 50_000]),
        "after": rng.choice([0, 1, 5]),
        "net": net,
        "loop": swarm_loop(rng),
        "ops": ops,
    }


class SimulatedError(Exception):
    """What a broken handler raises."""


def make(base, sim, plan):
    """A recording connection class."""

    class Rec(base):
        """Records what it handles."""

        sim_side = "?"

        def init(self):
            super().init()
            self.sim_rx = bytearray()
            self.sim_mode = ""
            self.sim_init = "ok"
            self.sim_over = False
            self.sim_handling = 0
            self.sim_in_init = asyncio.Event()
            self.sim_inits = 0
            self.sim_task = None

        async def async_init(self):
            self.sim_inits += 1
            self.sim_in_init.set()
            # A task of its own, to end with it.
            self.sim_task = asyncio.create_task(self.sim_background())
            self._conn_tasks.append(self.sim_task)
            if plan["init_us"]:
                await asyncio.sleep(plan["init_us"] / 1e6)
            if self.sim_init == "false":
                return False
            if self.sim_init == "raise":
                raise SimulatedError("init")
            return await super().async_init()

        async def sim_background(self):
            """Runs until cancelled."""
            await asyncio.Event().wait()

        async def sim_handle(self, data):
            if self.sim_over:
                raise Violation(
                    "handled-after-end",
                    f"{self.sim_side}: a message was handed to the handler "
                    "after processing ended",
                )
            if self.sim_handling:
                raise Violation(
                    "concurrent-handlers",
                    f"{self.sim_side}: two messages handled at once",
                )
            sim.event("rx", self.sim_side, len(data))
            mode = self.sim_mode
            self.sim_rx += data
            self.sim_handling += 1
            try:
                if mode == "false":
                    return False
                if mode == "raise":
                    raise SimulatedError("handler")
                if plan["slow_us"]:
                    await asyncio.sleep(
                        sim.choices.pick(
                            f"slow.{self.sim_side}", 0,
                            lambda r: int(r.random() ** 3 * plan["slow_us"])
                        ) / 1e6
                    )
            finally:
                self.sim_handling -= 1
            return True

        async def process_text(self, data):
            return await self.sim_handle(data.encode())

        async def process_binary(self, data):
            return await self.sim_handle(data)

        async def process_datagram(self, data, addr):
            return await self.sim_handle(data)

    return Rec


def transport_of(kind, conn):
    """The (real or simulated) transport of a connection."""
    return conn.protocol.transport if kind == "ws" else conn._transport


def signals(sim, conn) -> None:
    """The events others wait for have to agree with the state."""
    sim.check(
        conn.disabled_event.is_set() == conn.disabled, "disabled-event",
        f"{conn.sim_side}: 'disabled_event' is "
        f"{conn.disabled_event.is_set()}, 'disabled' {conn.disabled}",
    )
    sim.check(
        conn.disabled or not conn.exited.is_set(), "exited-event",
        f"{conn.sim_side}: enabled, but 'exited' is set",
    )


async def scenario(sim, plan):
    """Run."""
    kind = plan["kind"]
    base = {"tcp": TcpConnection, "udp": UdpConnection,
            "ws": WebsocketConnection}[kind]
    cls = make(base, sim, plan)

    class Server(cls):
        """Server side."""

    conns: dict = {}
    accepted = asyncio.Event()

    def on_accept(conn):
        conn.sim_side = "s"
        conns["s"] = conn
        accepted.set()

    # Servers live in their own task so that their shutdown can be bounded.
    close_server = asyncio.Event()
    listening = asyncio.get_running_loop().create_future()

    async def ws_accept(conn):
        on_accept(conn)
        await close_server.wait()
        return False

    async def run_server():
        async with AsyncExitStack() as stack:
            if kind == "tcp":
                server = await stack.enter_async_context(
                    Server.serve(on_accept, host="127.0.0.1", port=0)
                )
            elif kind == "ws":
                server = await stack.enter_async_context(
                    Server.serve(init=ws_accept, host="127.0.0.1", port=0)
                )
            listening.set_result(list(server.sockets)[0].getsockname()[1])
            await close_server.wait()

    server_task = None
    if kind == "udp":
        conns["c"], conns["s"] = await cls.create_pair()
        for side, conn in conns.items():
            conn.sim_side = side
            sim.net.labels[conn.local_address.port] = side
    else:
        server_task = asyncio.create_task(run_server())
        port = await listening
        sim.net.labels[port] = "srv"
        if kind == "tcp":
            client = await cls.create_connection(host="127.0.0.1", port=port)
        else:
            client = await cls.create_connection(f"ws://127.0.0.1:{port}")
        conns["c"] = client
        client.sim_side = "c"
        await sim.within(accepted.wait(), BOUND, "accept", "accept")

    end, side = plan["end"], plan["side"]
    target = conns[side]
    other = conns["s" if side == "c" else "c"]
    stops = {x: asyncio.Event() for x in "cs"}
    procs: dict = {}
    never_processed = False
    leave = asyncio.Event()
    seen_end: dict = {}

    if end in ("init_false", "init_raise"):
        target.sim_init = end[5:]

    def finished(conn) -> None:
        if conn.disabled:
            conn.sim_over = True
            seen_end.setdefault(conn.sim_side, sim.now)

    async def run(conn, managed):
        """Process one connection."""
        stop = stops[conn.sim_side]
        if managed:
            manager = ConnectionManager()
            manager.queue.put_nowait(conn)
            task = asyncio.create_task(manager.manage(stop))
            if never_processed and conn is target:
                await task
                return
            ended = asyncio.create_task(conn.exited.wait())
            await asyncio.wait(
                [task, ended], return_when=asyncio.FIRST_COMPLETED
            )
            ended.cancel()
            finished(conn)
            # The manager runs until stopped.
            await task
            if not conn.disabled:
                raise Violation(
                    "enabled-after-stop",
                    f"{conn.sim_side}: still enabled after its manager ended",
                )
            return
        kwargs = {"stop_sig": stop}
        if end == "timed" and conn is target:
            kwargs["disable_time"] = plan["timed_us"] / 1e6
        if conn.disabled:
            # Would restart (or fail to): not our business here.
            await conn.close()
            return
        if end == "context" and conn is target:
            async with conn.process_then_disable(**kwargs):
                await leave.wait()
        else:
            await conn.process(**kwargs)
        finished(conn)
        sim.check(
            conn.exited.is_set(), "exited-event",
            f"{conn.sim_side}: processing over, but 'exited' isn't set",
        )
        sim.check(
            transport_of(kind, conn).is_closing(), "not-closed",
            f"{conn.sim_side}: transport open when processing was over",
        )

    managed = dict(zip("cs", plan["managed"]))
    if end in ("timed", "context"):
        managed[side] = False
    if end == "queued":
        # The manager is stopped before it gets to it.
        never_processed = True
        managed[side] = True
        stops[side].set()
    if end == "pre_disable":
        # What a manager does with one that's disabled already.
        never_processed = True
        managed[side] = True
        target.disable("before")
    if end == "pre_close":
        await other.close()
        await asyncio.sleep(plan["end_wait_us"] / 1e6)
        if target.disabled:
            never_processed = True
            managed[side] = True

    start = sim.now
    for name, conn in conns.items():
        if end == "pre_close" and conn is other:
            continue
        procs[name] = asyncio.create_task(run(conn, managed[name]))

    over = end in (
        "init_false", "init_raise", "pre_disable", "pre_close", "queued"
    )
    if end == "init_disable":
        over = True
        await sim.within(target.sim_in_init.wait(), BOUND, "init", "init")
        target.disable("during init")
    elif not over and end != "timed":
        await sim.within(
            asyncio.gather(*(x.initialized.wait() for x in conns.values())),
            BOUND, "init", "initialization",
        )

    sent = {"c": bytearray(), "s": bytearray()}

    def intact(complete):
        for src, data in sent.items():
            got = bytes(conns["s" if src == "c" else "c"].sim_rx)
            if kind != "udp":
                sim.check(
                    data.startswith(got), "corrupt",
                    f"what was received from {src} isn't a prefix of what "
                    "was sent",
                )
            # Datagrams may arrive in any order.
            if complete and len(got) != len(data):
                return False
        return True

    async def drained():
        while not intact(True):
            await asyncio.sleep(0.05)

    live = not over and end != "timed"
    for i, oper in enumerate(plan["ops"]):
        if oper["op"] == "wait":
            await asyncio.sleep(oper["us"] / 1e6)
        elif oper["op"] == "send":
            conn = conns[oper["side"]]
            if conn.disabled:
                continue
            # (websocket text and binary go through different queues)
            if oper["text"] and kind != "ws":
                msg = f"message {i} " + "x" * oper["size"]
                conn.send_text(msg)
                sent[oper["side"]] += msg.encode()
            else:
                data = payload(i, oper["size"])
                conn.send_binary(data)
                sent[oper["side"]] += data
        elif live:
            # Until something ends it, everything is processed.
            net = sim.net.cfg
            count = sum(len(x) for x in sent.values())
            await sim.within(
                drained(),
                BOUND + (count + 500) * 2 * net.lat_max_us / 1e6
                + plan["slow_us"] / 1e6 * (count + 1),
                "not-processing", "delivery of messages",
            )
            for conn in conns.values():
                sim.check(
                    not conn.disabled, "ended-early",
                    f"{conn.sim_side} ended on its own",
                )

    # The end.
    sim.fault("end_" + end)
    await asyncio.sleep(plan["end_wait_us"] / 1e6)
    if live:
        for conn in conns.values():
            sim.check(
                not conn.disabled, "ended-early",
                f"{conn.sim_side} ended on its own",
            )
            signals(sim, conn)
    patience = BOUND
    backlog = sum(len(x) for x in sent.values()) + 2000
    patience += backlog * 2 * sim.net.cfg.lat_max_us / 1e6
    if end == "peer_close":
        await other.close()
        if kind == "udp":
            # Only noticed when sending.
            target.send_binary(b"x")
    elif end == "abort":
        transport_of(kind, other).abort()
    elif end in ("handler_false", "handler_raise"):
        target.sim_mode = end[8:]
        other.send_binary(b"boom")
        sent[other.sim_side] += b"boom"
        # Whatever is being handled has to finish first.
        patience += plan["slow_us"] / 1e6 * 2
    elif end == "stop":
        stops[side].set()
    elif end == "disable":
        target.disable("op")
    elif end == "context":
        leave.set()
    elif end == "timed":
        patience += plan["timed_us"] / 1e6
    for _ in range(plan["after"]):
        # Late traffic.
        if not other.disabled and end not in ("peer_close", "pre_close"):
            other.send_binary(b"late")
            sent[other.sim_side] += b"late"

    if not (managed[side] or never_processed):
        await sim.within(
            asyncio.shield(procs[side]), patience, f"no-end-{end}",
            f"processing of {side} after {end}",
        )
    elif never_processed:
        await asyncio.sleep(patience)
    else:
        async def closed():
            while not (target.disabled
                       and transport_of(kind, target).is_closing()):
                await asyncio.sleep(0.01)

        await sim.within(
            closed(), patience, f"no-end-{end}",
            f"processing of {side} (managed) after {end}",
        )
    sim.check(target.disabled, "not-disabled", f"{side}: not disabled")
    signals(sim, target)
    if end == "timed":
        took = seen_end[side] - start
        sim.check(
            took >= plan["timed_us"] / 1e6 * 0.999, "timed-early",
            f"ended after {took:.6f} s",
        )
    await asyncio.sleep(patience)
    sim.check(
        transport_of(kind, target).is_closing(), "not-closed",
        f"{side}: transport still open after {end}",
    )
    if end in ("init_false", "init_raise"):
        sim.check(
            target.initialized.is_set(), "init-unreported",
            "nobody is told that initialization is over",
        )
    if kind != "udp":
        # The peer notices the disconnect.
        if end == "pre_close":
            other.disable("done")
        else:
            sim.check(
                other.disabled, "peer-unaware",
                f"{other.sim_side} is still enabled {patience:.0f} s after "
                f"its peer ended ({end})",
            )
            sim.check(
                transport_of(kind, other).is_closing(), "not-closed",
                f"{other.sim_side}: transport still open",
            )
    elif end == "peer_close":
        other.disable("done")
    elif "udp_icmp_unreachable" not in sim.loop.faults:
        sim.check(
            not other.disabled, "ended-early",
            f"{other.sim_side} ended because of an unrelated end ({end})",
        )

    # Everything else ends with the stop signal.
    for stop in stops.values():
        stop.set()
    await sim.within(
        asyncio.gather(*procs.values()), patience, "no-end-stop",
        "processing after the stop signal",
    )
    for conn in conns.values():
        if conn.sim_side in procs:
            sim.check(conn.disabled, "not-disabled", "enabled after stop")
            signals(sim, conn)
            sim.check(
                transport_of(kind, conn).is_closing(), "not-closed",
                f"{conn.sim_side}: transport open after the stop signal",
            )
    if server_task is not None:
        close_server.set()
        await sim.within(
            server_task, patience, "server-hang", "closing the server"
        )
    await asyncio.sleep(patience)
    intact(False)
    left = [
        x.get_coro().__qualname__
        for x in asyncio.all_tasks()
        if x is not asyncio.current_task()
    ]
    sim.check(not left, "leftover-tasks", f"tasks left behind: {sorted(left)}")
    sim.nontrivial = True

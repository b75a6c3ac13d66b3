"""
C02: every awaited JSON request completes with the response to exactly that
request, whatever crosses, is late, or times out.
"""

import asyncio

from runtimepy.net.arbiter.tcp.json import (
    TcpJsonMessageConnection,
    UdpJsonMessageConnection,
)

from runtimepy.primitives import Uint32
from runtimepy.primitives.byte_order import ByteOrder

from dst.net import NetCfg
from dst.util import brief, swarm_loop, swarm_net, text


def gen(rng, tier):
    """Generate a plan."""
    kind = rng.choice(["tcp"] * 6 + ["udp", "udp", "hub"])
    lossy = kind != "tcp" and rng.random() < 0.7
    net = swarm_net(rng, tcp=kind == "tcp", udp=lossy)
    net.pop("p_reset", None)
    ops = []
    for _ in range(rng.choice([2, 4, 8, 16, 30])):
        form = rng.choice(
            ["rec", "rec", "rec", "loopback", "unknown", "empty", "two",
             "oneway", "item", "command", "command", "no_env", "remote",
             "poll", "meta", "log", "log"]
        )
        ops.append(
            {
                "op": form,
                "side": rng.choice("cs" if kind != "hub" else "cccs"),
                "n": rng.randint(0, 3),
                "size": rng.choice([0, 3, 40, 300]),
                "delay_us": rng.choice([0, 0, 0, 100, 20_000, 400_000]),
                "short": rng.random() < 0.2,
                "timeout_us": rng.choice([1, 500, 20_000, 300_000]),
            }
        )
        if rng.random() < 0.35:
            ops.append(
                {"op": "wait",
                 "us": rng.choice([0, 50, 3000, 50_000, 600_000])}
            )
    if rng.random() < 0.1:
        ops.insert(
            rng.randint(0, len(ops)),
            {"op": "drop", "side": rng.choice("cs")},
        )
    if net.get("short_max", 99) <= 3:
        # Bound the number of steps.
        for oper in ops:
            if "size" in oper:
                oper["size"] = min(oper["size"], 40)
    return {
        "kind": kind,
        "lossy": lossy,
        "order": rng.choice(["NETWORK", "NETWORK", "LITTLE_ENDIAN"]),
        "net": net,
        "loop": swarm_loop(rng),
        "ops": ops,
    }


def make(base, sim, seen, order):
    """A connection class with recording handlers."""

    class Json(base):
        """Records requests."""

        sim_side = "?"
        byte_order = order

        def init(self):
            self.sim_polls = 0
            self.sim_logs = []
            self.sim_set = []
            reg = Uint32(value=0)
            reg.register_callback(lambda _, new: self.sim_set.append(new))
            self.env.channel("reg", reg, commandable=True)
            super().init()

        async def poll_handler(self):
            self.sim_polls += 1

        def handle_log_message(self, message):
            self.sim_logs.append(message["msg"] % (*message["args"],))
            super().handle_log_message(message)

        def _register_handlers(self):
            super()._register_handlers()

            async def rec(outbox, inbox):
                # Handlers also see the responses to their own key.
                if "by" in inbox:
                    return
                tag = inbox["tag"]
                seen.append((self.sim_side, tag))
                if inbox["d"]:
                    await asyncio.sleep(inbox["d"] / 1e6)
                outbox["tag"] = tag
                outbox["by"] = self.sim_side
                outbox["t"] = inbox["t"]

            self.basic_handler("rec", rec)

            async def alt(outbox, inbox):
                if "x" in inbox:
                    outbox["twice"] = inbox["x"] * 2

            self.basic_handler("alt", alt)

            async def item(outbox, inbox):
                if "x" in inbox:
                    outbox["found"] = [inbox["num"], inbox["x"]]

            self.basic_handler("item{num}", item)

    return Json


async def scenario(sim, plan):
    """Run."""
    seen: list = []
    healthy = not plan["lossy"]
    kind = plan["kind"]
    base = (
        TcpJsonMessageConnection if kind == "tcp" else UdpJsonMessageConnection
    )
    cls = make(base, sim, seen, ByteOrder[plan["order"]])
    # Connections initialize on a fast network (their own initialization
    # has a fixed, short timeout).
    was = sim.net.cfg
    sim.net.cfg = NetCfg()
    if kind == "tcp":
        async with cls.create_pair() as (server, client):
            await body(sim, plan, server, client, seen, healthy, was)
    elif kind == "udp":
        client, server = await cls.create_pair()
        await body(sim, plan, server, client, seen, healthy, was)
    else:
        await hub(sim, plan, cls, seen, healthy, was)


def request_for(i, oper, other):
    """A request and the response to it."""
    form = oper["op"]
    body_text = text(i, oper["size"])
    rec = {"tag": i, "d": oper["delay_us"], "t": body_text}
    want_rec = {"tag": i, "by": other, "t": body_text}
    if form == "rec":
        return {"rec": rec}, {"rec": want_rec}
    if form == "loopback":
        msg = {"loopback": {"tag": i, "t": body_text}}
        return msg, msg
    if form == "unknown":
        msg = {f"zz{i}": 1, f"aa{i}": {}}
        return msg, {"keys_ignored": sorted(msg)}
    if form == "item":
        # (the response is to the key that was registered)
        return (
            {f"item{i}": {"x": body_text}},
            {"item{num}": {"found": [str(i), body_text]}},
        )
    if form == "empty":
        return {}, {}
    return (
        {"rec": rec, "alt": {"x": i}},
        {"rec": want_rec, "alt": {"twice": 2 * i}},
    )


async def body(sim, plan, server, client, seen, healthy, was):
    """Run with a pair of connections."""
    conns = {"c": client, "s": server}
    # Generous bound: every byte (escaped, both directions) in its own read,
    # plus all handlers one after the other.
    opers = [x for x in plan["ops"] if "size" in x]
    patience = 120.0 + sum(
        (x["size"] * 14 + 200) * 2 * was.lat_max_us / 1e6
        + x["delay_us"] / 1e6
        for x in opers
    )
    for side, conn in conns.items():
        conn.sim_side = side
        sim.net.labels[conn.local_address.port] = side
    stop = asyncio.Event()
    procs = [
        asyncio.create_task(conn.process(stop_sig=stop))
        for conn in conns.values()
    ]
    await sim.within(
        asyncio.gather(client.initialized.wait(), server.initialized.wait()),
        60, "init", "initialization",
    )
    sim.check(
        not client.disabled and not server.disabled, "init-failed",
        "a healthy connection failed its own initialization",
    )
    sim.net.cfg = was

    async def command(i, oper, conn):
        """Run a command in the peer's environment."""
        start = sim.now
        good = oper["op"] == "command"
        try:
            got = await conn.channel_command(
                f"set reg {i + 1}",
                environment="default" if good else "nowhere",
            )
        except (AssertionError, TimeoutError):
            sim.check(
                sim.now - start >= 2.99, "early-timeout",
                f"command {i} timed out after {sim.now - start:.6f} s",
            )
            return "slow"
        sim.check(
            got.success == good, "command-result",
            lambda: f"command {i} ({oper['op']}): {brief(got)}",
        )
        return "ok"

    async def request(i, oper):
        """Make one request and check its outcome."""
        side = oper["side"]
        other = "s" if side == "c" else "c"
        conn = conns[side]
        form = oper["op"]
        if form in ("command", "no_env"):
            return await command(i, oper, conn)
        msg, want = request_for(i, oper, other)
        timeout = oper["timeout_us"] / 1e6 if oper["short"] else patience
        start = sim.now
        sim.event("req", side, i)
        try:
            got = await conn.wait_json(dict(msg), timeout=timeout)
        except (AssertionError, TimeoutError):
            took = sim.now - start
            sim.event("req.timeout", side, i)
            sim.probe("timeout")
            sim.check(
                took >= timeout * 0.999, "early-timeout",
                f"request {i} timed out after {took:.6f} s of {timeout} s",
            )
            return "timeout"
        sim.event("req.done", side, i)
        sim.check(
            got == want, "wrong-response",
            lambda: f"request {i} of {side} ({form}): got {brief(got)}, "
            f"want {brief(want)}",
        )
        return "ok"

    tasks = []
    dropped = False
    for i, oper in enumerate(plan["ops"]):
        name = oper["op"]
        if name == "wait":
            await asyncio.sleep(oper["us"] / 1e6)
            continue
        if name == "drop":
            dropped = True
            sim.fault("op_drop")
            conns[oper["side"]].disable("op")
            continue
        if dropped:
            continue
        conn = conns[oper["side"]]
        if name == "log":
            conn.stage_remote_log("log %d %s.", i, text(i, oper["size"]))
            continue
        if name == "poll":
            conn.send_poll(loopback=oper["n"])
            continue
        if name == "meta":
            conn.send_json({"meta": conn.meta})
            continue
        if name == "remote":
            sim.check(
                conn.command.command(f"set -r reg {i + 1}"), "command-result",
                "a remote command wasn't accepted",
            )
            tasks.append(
                (i, oper, asyncio.create_task(conn.process_command_queue()))
            )
            continue
        if name == "oneway":
            conns[oper["side"]].send_json(
                {"rec": {"tag": i, "d": oper["delay_us"], "t": ""}}
            )
            continue
        tasks.append((i, oper, asyncio.create_task(request(i, oper))))

    await sim.within(
        asyncio.gather(*[t for _, _, t in tasks], return_exceptions=True),
        patience + 300, "stuck", "requests",
    )
    if len(tasks) > 1:
        sim.probe("concurrent")
    for i, oper, task in tasks:
        exc = task.exception()
        if exc is not None:
            raise exc
        if task.result() == "timeout" and not oper["short"]:
            sim.check(
                dropped or not healthy, "no-response",
                f"request {i} of {oper['side']} ({oper['op']}) got no "
                f"response on a healthy connection within {patience:.0f} s",
            )

    # Let stragglers arrive, then: handled exactly once.
    sim.net.heal()
    await asyncio.sleep(patience if healthy else 10 + len(plan["ops"]))
    for i, oper in enumerate(plan["ops"]):
        if oper["op"] not in ("rec", "two", "oneway"):
            continue
        other = "s" if oper["side"] == "c" else "c"
        count = seen.count((other, i))
        sim.check(
            (oper["side"], i) not in seen, "handled-by-sender",
            f"request {i} was handled by its sender",
        )
        if healthy and not dropped:
            sim.check(
                count == 1, "handled-count",
                f"request {i} was handled {count} times",
            )

    # The connection still works after all of that.
    if not dropped:
        sim.check(
            not client.disabled and not server.disabled, "disabled",
            "a connection was disabled",
        )
        for side in "cs":
            await sim.within(
                request(
                    10_000,
                    {"op": "rec", "side": side, "size": 5, "delay_us": 0,
                     "short": False, "timeout_us": 0},
                ),
                patience + 60, "after", "a final request",
            )
        await outcome(sim, plan, conns, healthy)
    stop.set()
    await sim.within(asyncio.gather(*procs), 30, "shutdown", "processing")
    sim.nontrivial = bool(tasks)


async def outcome(sim, plan, conns, healthy):
    """Everything else the connections were asked to do happened once."""
    before = [x.metrics.tx.messages.raw.value for x in conns.values()]
    await asyncio.sleep(30.0)
    after = [x.metrics.tx.messages.raw.value for x in conns.values()]
    sim.check(
        before == after, "not-quiet",
        f"messages are sent although nobody asks for any: {before} to {after}",
    )
    for side, other in ("cs", "sc"):
        conn = conns[side]
        polls, regs, logs = 0, [], []
        for i, oper in enumerate(plan["ops"]):
            mine = oper.get("side") == side
            if oper["op"] == "poll":
                # (they're answered with one less until there's none left)
                polls += (oper["n"] + 1) // 2 if mine else oper["n"] // 2 + 1
            elif mine:
                continue
            elif oper["op"] in ("command", "remote"):
                regs.append(i + 1)
            elif oper["op"] == "log":
                logs.append(f"log {i} {text(i, oper['size'])}.")
        for what, got, want in (
            ("polls", [conn.sim_polls], [polls]),
            ("commands", sorted(conn.sim_set), regs),
            ("logs", conn.sim_logs if plan["kind"] == "tcp"
             else sorted(conn.sim_logs),
             logs if plan["kind"] == "tcp" else sorted(logs)),
        ):
            if healthy:
                sim.check(
                    got == want, f"handled-{what}",
                    lambda: f"{side}: {what} of {other} handled: {brief(got)}"
                    f", want {brief(want)}",
                )
            elif what == "commands":
                sim.check(
                    set(got) <= set(want), f"handled-{what}",
                    lambda: f"{side}: {what} of {other} handled: {brief(got)}"
                    f", want {brief(want)}",
                )
    sim.probe("outcome")


async def hub(sim, plan, cls, seen, healthy, was):
    """One socket, several peers: responses go to who asked."""
    server = await cls.create_connection(
        local_addr=("127.0.0.1", 0), connect=False
    )
    server.sim_side = "s"
    port = server.local_address.port
    clients = []
    for i in range(3):
        clients.append(
            await cls.create_connection(remote_addr=("127.0.0.1", port))
        )
        clients[i].sim_side = f"c{i}"
        sim.net.labels[clients[i].local_address.port] = f"c{i}"
    sim.net.labels[port] = "s"
    stop = asyncio.Event()
    procs = [asyncio.create_task(server.process(stop_sig=stop))]
    await server.initialized.wait()
    for conn in clients:
        procs.append(asyncio.create_task(conn.process(stop_sig=stop)))
    await sim.within(
        asyncio.gather(*(x.initialized.wait() for x in clients)),
        60, "init", "initialization",
    )
    for conn in clients:
        sim.check(
            not conn.disabled, "init-failed", "failed its own initialization"
        )
    sim.net.cfg = was

    patience = 120.0 + sum(
        x.get("delay_us", 0) / 1e6 + 4 * was.lat_max_us / 1e6
        for x in plan["ops"]
    )

    async def request(i, oper, conn, addr, other):
        msg, want = request_for(i, oper, other)
        try:
            got = await conn.wait_json(
                dict(msg), addr=addr, timeout=patience
            )
        except (AssertionError, TimeoutError):
            sim.check(
                not healthy, "no-response",
                f"request {i} ({oper['op']}) got no response",
            )
            return
        sim.check(
            got == want, "wrong-response",
            lambda: f"request {i} ({oper['op']}): got {brief(got)}, "
            f"want {brief(want)}",
        )

    tasks = []
    want_seen = []
    for i, oper in enumerate(plan["ops"]):
        if oper["op"] == "wait":
            await asyncio.sleep(oper["us"] / 1e6)
        elif oper["op"] in ("rec", "two", "loopback", "unknown", "empty"):
            peer = clients[oper["n"] % 3]
            if oper["side"] == "c":
                conn, addr, other = peer, None, "s"
            else:
                conn, other = server, peer.sim_side
                addr = ("127.0.0.1", peer.local_address.port)
            if oper["op"] in ("rec", "two"):
                want_seen.append((other, i))
            tasks.append(
                asyncio.create_task(request(i, oper, conn, addr, other))
            )
    await sim.within(
        asyncio.gather(*tasks), patience + 60.0, "stuck", "requests"
    )
    if healthy:
        sim.check(
            sorted(seen) == sorted(want_seen), "handled-count",
            lambda: f"handled {brief(sorted(seen))}, want "
            f"{brief(sorted(want_seen))}",
        )
    sim.probe("hub")
    stop.set()
    await sim.within(asyncio.gather(*procs), 30, "shutdown", "processing")
    sim.nontrivial = bool(tasks)

"""
C11: every awaited SCPI command gets the complete reply to that command or an
explicit timeout.
"""

import asyncio

from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.scpi import ScpiConnection

from dst.util import brief, cancel_all, swarm_loop, swarm_net

CHARS = "abcXYZ019 ,;+-.#\"'\t\u00e9\u00df\u4e16\u754c\U0001f600\u20ac"


def reply_of(index: int, size: int) -> str:
    """A reply which identifies its command."""
    val = (index * 40503 + 7) & 0x7FFFFFFF
    out = [f"<{index}:"]
    for _ in range(size):
        val = (val * 1103515245 + 12345) & 0x7FFFFFFF
        out.append(CHARS[(val >> 8) % len(CHARS)])
    return "".join(out) + f":{index}>"


def gen(rng, tier):
    """Generate a plan."""
    mode = rng.choice(["together", "together", "late", "late", "session"])
    net = swarm_net(rng, tcp=True)
    ops = []
    for i in range(rng.choice([1, 2, 4, 8, 16, 40])):
        oper = {
            "query": rng.random() < 0.5,
            "size": rng.choice([0, 1, 8, 8, 90]),
            "delay_us": rng.choice([0, 0, 10, 3_000, 200_000]),
            "wait_us": rng.choice([0, 0, 0, 10, 5_000, 400_000]),
            # Pieces of the reply: (share of its bytes, delay after it).
            "cuts": [
                [rng.random(), rng.choice([0, 1, 50, 20_000, 700_000])]
                for _ in range(rng.choice([0, 0, 1, 2, 3]))
            ],
            "by": rng.randrange(4),
        }
        kind = rng.random()
        if kind < 0.15:
            oper["lost"] = True
        elif kind < 0.3:
            oper["silent"] = True  # no reply is expected (and none is sent)
            oper["query"] = False
        elif kind < 0.6 and mode == "late":
            oper["timeout_us"] = rng.choice([1, 1_000, 50_000, 300_000])
        elif kind < 0.75 and mode == "late":
            oper["cancel_us"] = rng.choice([0, 1, 1_000, 50_000, 300_000])
        elif kind < 0.5 and mode == "session":
            oper["drop"] = rng.choice(["before", "mid", "after", "partial"])
        if mode == "session" and rng.random() < 0.5:
            oper["outage_us"] = rng.choice([1, 1_000, 300_000])
        ops.append(oper)
    plan = {
        "mode": mode,
        "idn_us": rng.choice([0, 0, 5_000, 200_000]),
        "eol": rng.choice(["\n", "\n", "\r\n"]),
        "net": net,
        "loop": swarm_loop(rng, stall=rng.random() < 0.5),
        "ops": ops,
    }
    for oper in ops:
        if oper["query"] and rng.random() < 0.3:
            # (a reply to a query is always awaited)
            oper["noresp"] = True
    if mode == "late":
        roll = rng.random()
        if roll < 0.05:
            plan["mute"] = True
        elif roll < 0.35:
            # A device which doesn't terminate replies: what was received
            # when time is up is the reply, and nothing tells replies apart.
            plan["eol"] = ""
            plan["loop"] = swarm_loop(rng, stall=False)
            net["lat_max_us"] = min(net.get("lat_max_us", 20), 2_000)
            net["lat_min_us"] = min(net.get("lat_min_us", 20), 2_000)
            for oper in ops:
                if "timeout_us" in oper:
                    oper["delay_us"] = oper["timeout_us"] + 300_000
                if "timeout_us" in oper or "cancel_us" in oper:
                    oper["cuts"] = []
    return plan


async def scenario(sim, plan):
    """Run."""
    loop = asyncio.get_running_loop()
    ops, eol = plan["ops"], plan["eol"].encode()
    sent: dict = {}  # bytes sent to each session
    handled: dict = {}  # bytes handled in the session
    port = 30_000
    sim.net.labels[port] = "dev"
    seen: list = []
    stall = plan["loop"].get("stall_max_s", 0) if plan["loop"].get(
        "p_stall") else 0

    class Device(asyncio.Protocol):
        """An instrument: answers commands in order."""

        devices: list = []

        def connection_made(self, transport):
            self.transport = transport
            self.buf = b""
            self.queue: asyncio.Queue = asyncio.Queue()
            self.index = len(self.devices)
            self.devices.append(self)
            self.worker = loop.create_task(self.work())
            sim.event("session", self.index)

        def connection_lost(self, exc):
            self.worker.cancel()

        def data_received(self, data):
            self.buf += data
            *lines, self.buf = self.buf.split(b"\n")
            for line in lines:
                self.queue.put_nowait(line.decode().strip())

        def out(self, data: bytes) -> None:
            if not self.transport.is_closing():
                sent[self.index] = sent.get(self.index, 0) + len(data)
                self.transport.write(data)

        async def work(self):
            while True:
                line = await self.queue.get()
                if line.startswith("*IDN"):
                    if plan.get("mute"):
                        continue
                    await asyncio.sleep(plan["idn_us"] / 1e6)
                    self.out(b"Sim,Instrument,1.0" + eol)
                    continue
                idx = int(line.strip("?").removeprefix("cmd"))
                oper = ops[idx]
                sim.check(
                    line == f"cmd{idx}" + "?" * oper["query"],
                    "command-garbled", f"device received {line!r}",
                )
                sim.check(
                    idx not in seen, "command-twice",
                    f"device received command {idx} twice",
                )
                seen.append(idx)
                drop = oper.get("drop")
                if oper.get("silent"):
                    continue
                if drop == "before":
                    self.transport.close()
                    return
                if oper["delay_us"]:
                    await asyncio.sleep(oper["delay_us"] / 1e6)
                if oper.get("lost"):
                    sim.fault("lost_reply")
                    continue
                data = reply_of(idx, oper["size"]).encode() + eol
                cuts = sorted(
                    (1 + int(x * (len(data) - 2)), y)
                    for x, y in oper["cuts"]
                )
                if drop == "partial":
                    self.out(data[: len(data) // 2])
                    await asyncio.sleep(0.01)
                    self.transport.close()
                    sim.fault("partial_reply")
                    return
                pos = 0
                for end, delay in cuts:
                    self.out(data[pos:end])
                    pos = max(pos, end)
                    if delay:
                        sim.fault("split_reply")
                        await asyncio.sleep(delay / 1e6)
                if drop == "mid":
                    self.transport.abort()
                    return
                self.out(data[pos:])
                if drop == "after":
                    self.transport.close()
                    return

    class Client(ScpiConnection):
        """Counts what it handled."""

        async def process_binary(self, data):
            res = await super().process_binary(data)
            idx = len(Device.devices) - 1
            handled[idx] = handled.get(idx, 0) + len(data)
            return res

    server = await loop.create_server(Device, host="127.0.0.1", port=port)
    conn = await Client.create_connection(host="127.0.0.1", port=port)
    conn._auto_restart.value = plan["mode"] == "session"
    stop = asyncio.Event()
    manager = ConnectionManager()
    managing = asyncio.create_task(manager.manage(stop))
    manager.queue.put_nowait(conn)
    await sim.within(conn.initialized.wait(), 4000, "init-stuck",
                     "initialization")
    if plan.get("mute"):
        sim.probe("mute")
        sim.check(conn.disabled, "init-failed",
                  "a device which doesn't identify itself is used")
        stop.set()
        await managing
        server.close()
        return
    if stall or conn.disabled:
        # Initialization itself may have timed out.
        if conn.disabled and plan["mode"] != "session":
            cfg = sim.net.cfg
            sim.check(
                stall or cfg.lat_max_us > 10_000, "init-failed",
                "the device answered but initialization failed",
            )
            stop.set()
            await managing
            server.close()
            return

    cfg = sim.net.cfg
    generous = 50 + 300 * cfg.lat_max_us / 1e6 * 2 + 400 * stall
    slack = 5.0 + 20 * stall

    async def settle() -> None:
        """Wait for what the device sent to arrive (at least some of it)."""
        idx = len(Device.devices) - 1
        want = sent.get(idx, 0)

        async def wait():
            while handled.get(idx, 0) < want and not conn.disabled:
                await asyncio.sleep(0.001)

        await sim.within(wait(), generous * 10, "reply-unhandled",
                         "handling of the device's reply")

    late_seen: list = []

    async def command(idx: int, timeout: float) -> None:
        oper = ops[idx]
        start = sim.now
        want = reply_of(idx, oper["size"])
        task = asyncio.ensure_future(
            conn.send_command(
                f"cmd{idx}", response=not (
                    oper.get("silent") or oper.get("noresp")
                ),
                query=oper["query"], timeout=timeout,
            )
        )
        if "cancel_us" in oper:
            await asyncio.wait([task], timeout=oper["cancel_us"] / 1e6)
            if not task.done():
                sim.fault("cancelled_command")
                await cancel_all(task)
                late_seen.append(idx)
                return
        # The caller gives up once the connection is down.
        if oper.get("drop") in ("before", "partial", "mid"):
            down = asyncio.ensure_future(conn.disabled_event.wait())
            await asyncio.wait([task, down],
                               return_when=asyncio.FIRST_COMPLETED)
            await cancel_all(down)
            if not task.done():
                sim.fault("session_lost")
                await cancel_all(task)
                return
        got = await task
        if oper.get("silent"):
            sim.check(got == "", "unexpected-reply",
                      f"command {idx} awaits no reply, got {brief(got)}")
            return
        sim.event("reply", idx, got == want)
        if got == "":
            sim.probe("timeout")
            late_seen.append(idx)
            sim.check(
                conn.disabled or plan["mode"] == "session"
                or sim.now - start >= timeout * 0.999,
                "early-timeout",
                f"command {idx} timed out after {sim.now - start:.6f} s "
                f"(timeout {timeout})",
            )
            sim.check(
                oper.get("lost") or "timeout_us" in oper
                or plan["mode"] == "session",
                "reply-missed",
                f"command {idx} timed out, the device's reply was {want!r}",
            )
        else:
            sim.probe("replied")
            sim.check(
                got == want and not oper.get("lost"), "wrong-reply",
                f"command {idx} got {brief(got)}, its reply is "
                f"{'lost' if oper.get('lost') else brief(want)} "
                f"(missed before: {late_seen[-3:]})",
            )

    def budget(oper) -> float:
        return generous + sum(x[1] for x in oper["cuts"]) / 1e6 + \
            oper["delay_us"] / 1e6

    async def one(idx: int) -> None:
        oper = ops[idx]
        if oper["wait_us"]:
            await asyncio.sleep(oper["wait_us"] / 1e6)
        timeout = oper.get("timeout_us", 0) / 1e6 or budget(oper)
        if conn.disabled and "outage_us" in oper:
            sim.probe("command_in_outage")
            timeout = oper["outage_us"] / 1e6
        await command(idx, timeout)

    total = sum(budget(x) + x["wait_us"] / 1e6 for x in ops) + slack

    if plan["mode"] == "together":
        async def actor(num: int) -> None:
            for idx, oper in enumerate(ops):
                if oper["by"] == num:
                    await one(idx)

        await sim.within(
            asyncio.gather(*(actor(x) for x in range(4))), total,
            "command-stuck", "commands",
        )
        sim.check(
            not conn.disabled, "disabled", "the connection was disabled",
        )
        # (No reply tells when the last ones arrived.)
        await asyncio.sleep(generous)
        sim.check(
            sorted(seen) == list(range(len(ops))), "command-lost",
            lambda: f"the device received {sorted(seen)} of {len(ops)}",
        )

    elif plan["mode"] == "late":
        for idx, oper in enumerate(ops):
            await sim.within(one(idx), budget(oper) + 2 * slack,
                             "command-stuck", f"command {idx}")
            # Some of the reply has to arrive before the next command (there
            # is no way to tell which command a reply is for, then).
            if idx in late_seen and not (
                oper.get("lost") or oper.get("silent")
            ):
                index = len(Device.devices) - 1
                before = sent.get(index, 0)

                async def begun():
                    while idx not in seen:
                        await asyncio.sleep(0.001)
                    # Wait for the last reply to begin (or be complete).
                    while not replying(idx):
                        await asyncio.sleep(0.001)

                def replying(num, index=index) -> bool:
                    """Whether a reply began to be sent."""
                    size = len(b"Sim,Instrument,1.0" + eol) + sum(
                        len(reply_of(x, ops[x]["size"]).encode() + eol)
                        for x in seen
                        if x != num
                        and not ops[x].get("lost")
                        and not ops[x].get("silent")
                    )
                    return sent.get(index, 0) > size

                # A command which was cancelled may never have been sent.
                if "cancel_us" in oper:
                    await asyncio.sleep(generous)
                    if idx not in seen:
                        continue
                await sim.within(begun(), budget(oper), "device",
                                 f"reply {idx} ({before})")
                await settle()
                sim.probe("late_reply")
        sim.check(
            not conn.disabled, "disabled", "the connection was disabled",
        )
    else:
        for idx, oper in enumerate(ops):
            if conn.disabled and "outage_us" not in oper:
                await asyncio.sleep(
                    sim.choices.pick(
                        "outage", 0, lambda r: r.choice([0, 0.01, 60])
                    )
                )
            before = len(Device.devices)
            await sim.within(one(idx), budget(oper) + 2 * slack,
                             "command-stuck", f"command {idx}")
            if len(Device.devices) > before:
                sim.probe("new_session")
        # It's usable again.
        async def back():
            while conn.disabled or not conn.initialized.is_set():
                await asyncio.sleep(0.05)

        await sim.within(back(), 400 + generous, "not-back",
                         "re-establishing the connection")

    stop.set()
    await sim.within(managing, 30 + slack, "manage-stuck", "managing")
    server.close()

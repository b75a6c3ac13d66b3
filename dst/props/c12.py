"""
C12: telnet streams parse identically under every segmentation.
"""

import asyncio

from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.telnet import BasicTelnet, TelnetCode, TelnetNvt
from runtimepy.net.tcp.telnet.np_05b import Np05bConnection

from dst.util import brief, first_diff, swarm_loop, swarm_net

CHARS = ["a", "Z", " ", "\r", "\n", "\t", "\r\n", "0", "\u00e9", "\u4e16",
         "\U0001f600", "\x7f", "\x1b", "\x01", "$", ">"]
PLAIN_NVT = [0, 7, 8, 11, 12]
COMMANDS = list(range(240, 251))


def gen_stream(rng, raw: bool) -> list:
    """A sequence of telnet tokens."""
    out = []
    for _ in range(rng.choice([1, 3, 10, 40])):
        kind = rng.random()
        if kind < 0.45:
            out.append(
                ["text",
                 "".join(rng.choice(CHARS) for _ in range(
                     rng.choice([1, 1, 4, 30])))]
            )
        elif kind < 0.6:
            out.append(["command", rng.choice(COMMANDS)])
        elif kind < 0.75:
            out.append(
                ["option", rng.randrange(251, 255),
                 rng.choice([0, 1, 3, 13, 31, 240, 251, 255])]
            )
        elif kind < 0.88:
            out.append(["nvt", rng.choice(PLAIN_NVT)])
        elif raw:
            out.append(
                ["bytes", [rng.choice([255, 255, 128, 200, 254, 65])
                           for _ in range(rng.choice([1, 2, 5]))]]
            )
    return out


def gen(rng, tier):
    """Generate a plan."""
    mode = rng.choice(["parse", "parse", "parse", "driver"])
    net = swarm_net(rng, tcp=True)
    plan: dict = {"mode": mode, "net": net}
    if mode == "parse":
        raw = rng.random() < 0.6
        plan["raw"] = raw
        plan["loop"] = swarm_loop(rng)
        plan["stop_at"] = rng.random() < 0.2
        plan["stop_how"] = rng.choice(["disable", "return"])
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append(
                {
                    "tokens": gen_stream(rng, raw),
                    "cuts": [
                        [rng.random(), rng.choice([0, 0, 1, 50, 20_000])]
                        for _ in range(rng.choice([0, 1, 4, 20]))
                    ],
                    "end": rng.choice([1.0, 1.0, rng.random()]),
                    "close": rng.choice(["close", "abort"]),
                }
            )
        if plan["stop_at"]:
            # A line of text which ends the session.
            for oper in ops:
                for i, token in enumerate(oper["tokens"][1:]):
                    if token[0] not in ("text", "bytes") and (
                        rng.random() < 0.1
                    ):
                        oper["tokens"].insert(i + 1, ["text", "quit"])
                        break
        plan["ops"] = ops
        return plan
    net["lat_max_us"] = min(net.get("lat_max_us", 20), 600)
    net["lat_min_us"] = min(net.get("lat_min_us", 20), 100)
    plan["loop"] = swarm_loop(rng, stall=False)
    plan["eol_status"] = rng.random() < 0.5
    plan["prompt"] = rng.random() < 0.6
    plan["together"] = rng.random() < 0.3
    plan["ops"] = [
        {
            "op": rng.choice(["set", "set", "set", "command", "toggle",
                              "all_on", "all_off"]),
            "idx": rng.choice([1, 1, 2, 3, 4, 5, 5, 0, 6, -1]),
            "state": rng.random() < 0.5,
            "fail": rng.choice([False] * 12 + [True, "both"]),
            "drop": rng.random() if rng.random() < 0.08 else None,
            "us": rng.choice([0, 0, 10, 3_000, 200_000]),
            "cuts": [rng.random() for _ in range(rng.choice([0, 1, 3]))],
        }
        for _ in range(rng.choice([1, 3, 8, 16]))
    ]
    return plan


def encode(token) -> bytes:
    """A token on the wire."""
    kind = token[0]
    if kind == "text":
        return token[1].encode()
    if kind == "command":
        return bytes([255, token[1]])
    if kind == "option":
        return bytes([255, token[1], token[2]])
    if kind == "nvt":
        return bytes([token[1]])
    return b"".join(b"\xff\xff" if x == 255 else bytes([x]) for x in token[1])


def join(events: list) -> list:
    """Merge adjacent text."""
    out: list = []
    for evt in events:
        if evt[0] == "text" and out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + evt[1])
        elif evt[0] != "text" or evt[1]:
            out.append(evt)
    return out


def expected(tokens: list, size: int, raw: bool, stop_at: bool) -> list:
    """What the first bytes of a stream are."""
    out = []
    for token in tokens:
        data = encode(token)
        whole = len(data) <= size
        kind = token[0]
        if kind == "text":
            part = data[:size]
            if stop_at and whole and token[1] == "quit":
                out.append(("text", part if raw else part.decode()))
                break
            out.append(
                ("text", part if raw else part.decode(errors="ignore"))
            )
        elif kind == "bytes":
            part, used = b"", 0
            for val in token[1]:
                used += 2 if val == 255 else 1
                if used <= size:
                    part += bytes([val])
            out.append(("text", part))
        elif whole:
            out.append(tuple(token))
            if kind == "command" and token[1] == 244 and stop_at:
                break
        size -= len(data)
        if size <= 0:
            break
    return join(out)


async def parse(sim, plan) -> None:
    """Compare what is handed to the handlers with what was sent."""
    loop = asyncio.get_running_loop()
    port = 30_000
    sim.net.labels[port] = "srv"
    raw, stop_at = plan["raw"], plan["stop_at"]
    sessions: list = []
    arrived: asyncio.Queue = asyncio.Queue()

    class Server(asyncio.Protocol):
        """The remote end."""

        def connection_made(self, transport):
            self.transport = transport
            arrived.put_nowait(self)

    class Recorder(BasicTelnet):
        """Records what it's handed."""

        async def async_init(self):
            return True

        def note(self, *evt) -> None:
            sim.check(
                not self.disabled, "handled-after-end",
                f"{evt} handled after the connection was disabled",
            )
            sessions[-1].append(evt)

        async def process_command(self, code):
            self.note("command", int(code))
            sim.check(isinstance(code, TelnetCode), "bad-code", f"{code!r}")
            if code is TelnetCode.IP and stop_at:
                self.disable("IP")

        async def handle_nvt(self, action):
            self.note("nvt", int(action))
            sim.check(isinstance(action, TelnetNvt), "bad-nvt", f"{action!r}")

        async def process_option(self, code, option, _):
            self.note("option", int(code), option)

        async def text(self, data):
            """Handle text, which can end the session."""
            self.note("text", data)
            if stop_at:
                if join(sessions[-1])[-1][1].endswith(
                    b"quit" if raw else "quit"
                ):
                    sim.probe("quit")
                    if plan["stop_how"] == "return":
                        return False
                    self.disable("quit")
            return True

    class Raw(Recorder):
        """Handles data bytes."""

        async def process_telnet_message(self, data):
            return await self.text(bytes(data))

    class Text(Recorder):
        """Handles text."""

        async def process_text(self, data):
            return await self.text(data)

    ops = plan["ops"]
    server = await loop.create_server(Server, host="127.0.0.1", port=port)
    conn = await (Raw if raw else Text).create_connection(
        host="127.0.0.1", port=port
    )
    conn._auto_restart.value = len(ops) > 1
    stop = asyncio.Event()
    manager = ConnectionManager()
    managing = asyncio.create_task(manager.manage(stop))
    stall = plan["loop"].get("stall_max_s", 0) if plan["loop"].get(
        "p_stall") else 0

    for num, oper in enumerate(ops):
        peer = await sim.within(
            arrived.get(), 100 + 200 * stall, "not-connected",
            f"session {num}",
        )
        sessions.append([])
        if not num:
            manager.queue.put_nowait(conn)
        data = b"".join(encode(x) for x in oper["tokens"])
        size = int(len(data) * oper["end"])
        want = expected(oper["tokens"], size, raw, stop_at)
        pos = 0
        for share, delay in sorted(oper["cuts"]) + [[1.0, 0]]:
            end = int(size * share)
            peer.transport.write(data[pos:end])
            pos = max(pos, end)
            if delay:
                await asyncio.sleep(delay / 1e6)
        if size < len(data):
            sim.fault("cut_stream")
        if pos:
            sim.probe("bytes", pos)
        stopped = bool(want) and stop_at and (
            want[-1] == ("command", 244)
            or want[-1][0] == "text"
            and want[-1][1][-4:] in (b"quit", "quit")
        )

        async def handled(num=num, want=want):
            while join(sessions[num]) != want:
                await asyncio.sleep(0.002)

        cfg = sim.net.cfg
        bound = 20 + size * (cfg.lat_max_us / 1e6 + stall) * 2 + 50 * stall
        try:
            await asyncio.wait_for(handled(), bound)
        except asyncio.TimeoutError:
            sim.check(
                False, "misparsed",
                "session %d (%s): %s" % (
                    num, "bytes" if raw else "text",
                    first_diff(join(sessions[num]), want)),
            )
        # Nothing else comes out of it.
        await asyncio.sleep(0.05)
        if stopped:
            sim.probe("stopped")
        if not stopped or num + 1 < len(ops):
            sim.check(
                conn.disabled == stopped or stopped, "disabled",
                f"session {num} ended (after {brief(data)})",
            )
        if oper["close"] == "abort":
            peer.transport.abort()
        else:
            peer.transport.close()
        sim.probe("session")
        got = join(sessions[num])
        sim.check(
            got == want, "misparsed",
            lambda: f"session {num}: {first_diff(got, want)}",
        )

    stop.set()
    await sim.within(managing, 30 + 20 * stall, "manage-stuck", "managing")
    for num, oper in enumerate(ops):
        size = int(len(b"".join(map(encode, oper["tokens"]))) * oper["end"])
        got = join(sessions[num])
        want = expected(oper["tokens"], size, raw, stop_at)
        sim.check(
            got == want, "misparsed",
            lambda: f"session {num}, finally: {first_diff(got, want)}",
        )
    server.close()


async def driver(sim, plan) -> None:
    """The outlet states a driver reports are those of the device."""
    loop = asyncio.get_running_loop()
    port = 30_000
    sim.net.labels[port] = "pdu"
    ops = plan["ops"]
    state = [False] * 5
    current: dict = {"op": {}}
    peers: list = []
    wrong: list = []
    drops = [0]
    # (the device doesn't tell its state)
    refused = [False]

    class Pdu(asyncio.Protocol):
        """A simulated PDU."""

        def connection_made(self, transport):
            self.transport = transport
            self.buf = b""
            self.queue: asyncio.Queue = asyncio.Queue()
            self.worker = loop.create_task(self.work())
            peers.append(self)
            sim.event("session", len(peers))
            self.transport.write(b"Synaccess Telnet V6.2\r\n")
            self.prompt()

        def connection_lost(self, exc):
            self.worker.cancel()

        def prompt(self) -> None:
            if plan["prompt"]:
                self.transport.write(b">")

        def data_received(self, data):
            self.buf += data
            *lines, self.buf = self.buf.split(b"\r\n")
            for line in lines:
                self.queue.put_nowait(line.decode())

        async def out(self, text: str) -> None:
            """Send a response, in pieces."""
            oper = current["op"]
            data = text.encode()
            end = len(data)
            if oper.get("drop") is not None:
                end = int(oper["drop"] * len(data))
            pos = 0
            for share in sorted(oper.get("cuts", [])):
                cut = min(int(share * len(data)), end)
                if cut > pos:
                    self.transport.write(data[pos:cut])
                    pos = cut
                    sim.fault("split_response")
                    await asyncio.sleep(0.002)
            self.transport.write(data[pos:end])
            if oper.get("drop") is not None:
                oper["drop"] = None
                sim.fault("drop")
                drops[0] += 1
                self.transport.close()

        async def work(self):
            while True:
                line = await self.queue.get()
                eol = "\r\n"
                parts = line.split(" ")
                if parts[0] == "$A5":
                    bits = "".join("01"[x] for x in reversed(state))
                    if current["op"].get("fail") == "both":
                        sim.fault("status_failed")
                        refused[0] = True
                        await self.out(line + eol + "$AF" + eol)
                        self.prompt()
                        continue
                    refused[0] = False
                    await self.out(
                        line + (eol if plan["eol_status"] else "")
                        + f"$A0,{bits}{eol}"
                    )
                elif parts[0] in ("$A3", "$A7"):
                    fail = current["op"].get("fail")
                    if not fail:
                        for i in range(5):
                            if parts[0] == "$A7" or str(i + 1) == parts[1]:
                                state[i] = parts[-1] == "1"
                    await self.out(
                        f"{line}{eol}{'$AF' if fail else '$A0'}{eol}"
                    )
                else:
                    wrong.append(line)
                self.prompt()

    server = await loop.create_server(Pdu, host="127.0.0.1", port=port)
    conn = await Np05bConnection.create_connection(
        host="127.0.0.1", port=port
    )
    stop = asyncio.Event()
    manager = ConnectionManager()
    managing = asyncio.create_task(manager.manage(stop))
    manager.queue.put_nowait(conn)

    async def ready():
        while conn.disabled or not conn.initialized.is_set():
            await asyncio.sleep(0.01)

    def agree(what: str) -> None:
        """The driver and its device agree."""
        got = [conn.env.value(f"outlet.{i + 1}.on") for i in range(5)]
        sim.check(
            conn.outlets_on == state and (refused[0] or got == state),
            "wrong-outlets",
            f"{what}: driver {conn.outlets_on} channels {got} "
            f"device {state}",
        )
        sim.probe("agreed")

    async def act(oper: dict) -> None:
        idx, verb = oper["idx"], oper["op"]
        if verb == "set":
            res = await conn.set_outlet_state(idx, oper["state"])
            if not plan["together"]:
                sim.check(
                    res == (1 <= idx <= 5
                            and state[idx - 1] == oper["state"]),
                    "wrong-result",
                    f"set_outlet_state({idx}, {oper['state']}) -> {res}, "
                    f"device {state}",
                )
        elif verb in ("all_on", "all_off"):
            conn.command.command(f"custom {verb}")
            await conn.process_command_queue()
        elif 1 <= idx <= 5:
            conn.command.command(
                f"set outlet.{idx}.on {str(oper['state']).lower()}"
                if verb == "command"
                else f"toggle outlet.{idx}.on"
            )
            await conn.process_command_queue()

    await sim.within(ready(), 30, "init-stuck", "initialization")
    agree("initially")

    if plan["together"]:
        async def one(oper):
            await asyncio.sleep(oper["us"] / 1e6)
            await act(oper)

        await sim.within(
            asyncio.gather(*(one(x) for x in ops)), 100, "command-stuck",
            "commands",
        )
        agree("finally")
    else:
        for oper in ops:
            oper = dict(oper)
            current["op"] = oper
            dropping = oper["drop"] is not None
            want = list(state)
            if oper["us"]:
                await asyncio.sleep(oper["us"] / 1e6)
            try:
                await sim.within(act(oper), 20, "command-stuck", f"{oper}")
            except asyncio.TimeoutError:
                sim.check(
                    dropping and oper["drop"] is None, "command-timeout",
                    f"{oper} timed out",
                )
                sim.probe("timed_out")
            if dropping and oper["drop"] is None:
                await sim.within(ready(), 60, "not-back", "reconnecting")
            current["op"] = {}
            agree(f"after {oper}")
            if not dropping and oper["op"] in ("all_on", "all_off") and (
                not oper["fail"]
            ):
                want = [oper["op"] == "all_on"] * 5
                sim.check(state == want, "wrong-effect", f"{oper}: {state}")
    sim.check(not wrong, "garbled-command", f"device received {wrong}")
    sim.check(
        len(peers) <= 1 + drops[0], "dropped",
        f"{len(peers)} sessions, the device ended {drops[0]}",
    )
    stop.set()
    await sim.within(managing, 30, "manage-stuck", "managing")
    server.close()


async def scenario(sim, plan):
    """Run."""
    await (parse if plan["mode"] == "parse" else driver)(sim, plan)

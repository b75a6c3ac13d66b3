"""
C15: peer processes - messages, commands, logs, configuration and telemetry
between a host and its peer program, and how either's end is noticed.

Real: the host's peer, the spawned script's text, the peer program, the
subprocess protocol and managers, environments, event streams. Stub: the
operating system's processes and pipes (``dst.procs``), psutil.
"""

import asyncio
from io import BytesIO
import json
import logging
from signal import SIGKILL
import warnings

from runtimepy.net.arbiter.info import RuntimeStruct
from runtimepy.primitives import create
from runtimepy.subprocess import spawn_exec, spawn_shell
from runtimepy.subprocess.peer import RuntimepyPeer
from runtimepy.subprocess.program import PeerProgram

from dst.core import Violation
from dst.procs import ChildExit
from dst.util import brief, first_diff, payload, swarm_loop, text

DIED = ("kill", "crash", "exit")


class World:
    """What happened in a run (seen by both processes)."""

    def __init__(self, sim, plan) -> None:
        self.sim = sim
        self.plan = plan
        self.sent: dict = {"host": [], "child": []}
        self.seen: dict = {"host": [], "child": []}
        self.asked: dict = {"host": [], "child": []}
        self.answered: dict = {"host": [], "child": []}
        self.logs: list = []
        self.host_logs: list = []
        self.changes: dict = {}
        self.host_changes: dict = {}
        self.commands: list = []
        self.polls = {"host": 0, "child": 0}
        self.polls_sent = {"host": 0, "child": 0}
        self.next = 0
        self.child = None
        self.host = None
        self.child_done = asyncio.Event()
        self.cleanups = 0
        self.eof_at = None
        self.noise = False
        self.booms = 0
        self.pause_until = 0.0

    def fresh(self) -> int:
        self.next += 1
        return self.next


WORLD: World = None  # type: ignore


def gen_lane(rng, side: str, count: int) -> list:
    """Generate a sequence of operations."""
    ops = []
    for _ in range(count):
        roll = rng.random()
        us = rng.choice([0, 0, 0, 0, 500, 9_000, 11_000, 70_000, 200_000])
        size = rng.choice([0, 1, 5, 40, 300, 3000, 20_000])
        if roll < 0.3:
            oper = {"op": "note", "size": size}
        elif roll < 0.5:
            oper = {"op": "ask", "size": size,
                    "ms": rng.choice([0, 0, 0, 0, 1, 20, 90])}
        elif roll < 0.56:
            oper = {"op": "log", "kind": rng.randrange(5)}
        elif roll < 0.6:
            oper = {"op": "poll", "loops": rng.randrange(4)}
        elif roll < 0.62:
            oper = {"op": "share"}
        elif roll < 0.65:
            oper = {"op": "boom", "how": rng.randrange(6)}
        elif roll < 0.66:
            oper = {"op": "burst", "count": rng.choice([20, 100, 300])}
        elif side == "host":
            oper = {"op": rng.choice(["cmd", "qcmd", "qcmd"]),
                    "chan": rng.randrange(2)}
        else:
            oper = {"op": "set", "chan": rng.randrange(4),
                    "count": rng.choice([1, 1, 1, 3, 30])}
            if roll > 0.95:
                oper = {"op": rng.choice(["cmd", "qcmd"]),
                        "chan": rng.randrange(2)}
        oper["us"] = us
        ops.append(oper)
    return ops


def gen(rng, tier):
    """Generate a plan."""
    plan = {
        "env_seed": rng.getrandbits(32),
        "loop": dict(swarm_loop(rng), max_steps=600_000),
        "procs": {
            "p_cut": rng.choice([0, 0.1, 0.6]),
            "delay_max": rng.choice([0.0001, 0.005, 0.05]),
            "start_max": rng.choice([0.01, 0.5, 2.0]),
            "p_slow": rng.choice([0, 0.2, 0.8]),
            "unbuffered": rng.random() < 0.3,
        },
    }
    if rng.random() < 0.2:
        plan["mode"] = "tool"
        plan["tools"] = []
        for _ in range(rng.choice([1, 1, 2, 5])):
            plan["tools"].append({
                "shell": rng.random() < 0.5,
                "echo": rng.random() < 0.3,
                "queues": rng.choice(["both", "both", "out", "err"]),
                "writes": [
                    {"fd": rng.choice([1, 1, 2]),
                     "size": rng.choice([1, 10, 1000, 70_000]),
                     "us": rng.choice([0, 0, 0, 300, 20_000, 600_000])}
                    for _ in range(rng.choice([0, 1, 1, 2, 10, 40]))
                ],
                "code": rng.choice([0, 0, 1, 42]),
                "us": rng.choice([0, 0, 1000, 300_000]),
                "hang": rng.random() < 0.15,
            })
        return plan

    plan["mode"] = "peer"
    count = rng.choice([2, 8, 25, 60])
    plan["host"] = [
        gen_lane(rng, "host", rng.randrange(count))
        for _ in range(rng.choice([0, 1, 1, 2, 3]))
    ]
    plan["child"] = [
        gen_lane(rng, "child", rng.randrange(count))
        for _ in range(rng.choice([0, 1, 1, 2, 3]))
    ]
    if rng.random() < 0.2:
        plan["child"].append([{"op": "noise", "us": 100_000}])
    plan["main"] = rng.choice(["wait", "wait", "wait", "arbiter", "return"])
    plan["sync"] = rng.random() < 0.5
    plan["end"] = rng.choice(
        ["leave"] * 6
        + ["early", "kill", "kill", "crash", "exit", "host-crash",
           "host-crash", "stop", "stop", "stop-leave", "slow-start"]
    )
    plan["end_us"] = int(
        rng.choice([1e3, 3e4, 3e5, 2e6]) * (0.1 + rng.random())
    )
    plan["stop_s"] = rng.choice([0.05, 0.5, 2.5, 4.0, 8.0])
    plan["config"] = {"name": text(3, rng.choice([0, 10, 2000])),
                      "list": list(range(rng.choice([0, 3, 500])))}
    return plan


CHANNELS = ["c_int", "c_bool", "c_float", "c_byte"]
KINDS = ["int32", "bool", "double", "uint16"]
COMMANDED = ["h_int", "h_float"]


class Struct(RuntimeStruct):
    """Channels of each end."""

    def init_env(self) -> None:
        """Add channels."""
        for name, kind in zip(CHANNELS, KINDS):
            prim = create(kind)
            setattr(self, name, prim)
            self.env.channel(name, kind=prim)
        for name, kind in zip(COMMANDED, ["uint32", "double"]):
            prim = create(kind)
            setattr(self, name, prim)
            self.env.channel(name, kind=prim, commandable=True)
        self.env.channel("locked", kind=create("uint8"))


class Actor:
    """Behavior of both ends."""

    side = ""

    def _register_handlers(self) -> None:
        super()._register_handlers()  # type: ignore
        self.basic_handler("note", self.on_note)  # type: ignore
        self.basic_handler("ask", self.on_ask)  # type: ignore
        self.basic_handler("boom", self.on_boom)  # type: ignore

    async def on_note(self, outbox, inbox) -> None:
        """A notification."""
        del outbox
        WORLD.seen[self.side].append((inbox["n"], inbox["data"]))
        WORLD.sim.event("note", self.side, inbox["n"])

    async def on_ask(self, outbox, inbox) -> None:
        """A request (or the answer to one)."""
        if "answer" in inbox:
            return
        WORLD.answered[self.side].append(inbox["n"])
        if inbox["ms"]:
            await asyncio.sleep(inbox["ms"] / 1e3)
        outbox["n"] = inbox["n"]
        outbox["answer"] = inbox["data"] + "!"

    async def on_boom(self, outbox, inbox) -> None:
        """A handler that fails."""
        del outbox
        raise RuntimeError(f"boom {inbox}")

    def send_raw(self, data: bytes) -> None:
        """Send a framed message that isn't what it should be."""
        with BytesIO() as stream:
            self.processor.encode(stream, data)  # type: ignore
            self.write(stream.getvalue())  # type: ignore

    async def poll_handler(self) -> None:
        """Handle a 'poll' message."""
        WORLD.polls[self.side] += 1

    async def lane(self, ops: list) -> None:
        """Run operations."""
        world = WORLD
        for oper in ops:
            if oper["us"]:
                await asyncio.sleep(oper["us"] / 1e6)
            await getattr(self, "do_" + oper["op"])(world, oper)

    def note(self, world, size: int) -> None:
        """Send a note."""
        num = world.fresh()
        data = text(num, size)
        world.sent[self.side].append((num, data))
        self.send_json({"note": {"n": num, "data": data}})  # type: ignore

    async def do_note(self, world, oper) -> None:
        self.note(world, oper["size"])

    async def do_burst(self, world, oper) -> None:
        for _ in range(oper["count"]):
            self.note(world, 3)

    async def do_ask(self, world, oper) -> None:
        num = world.fresh()
        data = text(num, oper["size"])
        entry = {"n": num, "start": world.sim.now, "result": None}
        world.asked[self.side].append(entry)
        try:
            got = await self.wait_json(  # type: ignore
                {"ask": {"n": num, "data": data, "ms": oper["ms"]}}
            )
        except AssertionError:
            entry["result"] = "timeout"
            took = world.sim.now - entry["start"]
            entry["took"] = took
        else:
            entry["result"] = "ok"
            world.sim.check(
                got.get("ask") == {"n": num, "answer": data + "!"},
                "wrong-answer",
                lambda: f"{self.side} asked {num} ({brief(data)}), "
                f"got {brief(got)}",
            )

    async def do_poll(self, world, oper) -> None:
        # The peer is polled, then this end, ...
        loops = oper["loops"]
        other = "child" if self.side == "host" else "host"
        world.polls_sent[other] += loops // 2 + 1
        world.polls_sent[self.side] += (loops + 1) // 2
        self.send_poll(loopback=loops)  # type: ignore

    async def do_share(self, world, oper) -> None:
        del oper
        try:
            await self.share_config(  # type: ignore
                {"config": {"from": self.side}}
            )
        except AssertionError:
            world.sim.probe("share-timeout")
        else:
            # Either end's configuration arrived at the other one.
            for one, two in (
                (world.host, world.child), (world.child, world.host),
            ):
                got = one.peer_config
                want = [{"from": two.side}, two.struct.config]
                world.sim.check(
                    got in want, "shared-config",
                    lambda o=one, g=got, w=want: f"{o.side} holds "
                    f"{brief(g)}, not one of {brief(w)}",
                )
            world.sim.probe("shared")

    async def do_boom(self, world, oper) -> None:
        if self.side == "child":
            world.booms += 1
        world.sim.fault("bad-message")
        how = oper["how"]
        if how == 0:
            self.send_json({"boom": {"a": 1}})  # type: ignore
        elif how == 1:
            # A request that's never answered.
            try:
                await self.wait_json(  # type: ignore
                    {"boom": {}}, timeout=0.05
                )
            except AssertionError:
                pass
        else:
            self.send_raw(
                [b"{not json", b"[]", b'{"note": 5}', b"\xff\xfe"][how - 2]
            )

    async def do_log(self, world, oper) -> None:
        """Log something (the host's aren't forwarded)."""
        num = world.fresh()
        form = [
            ("tag=%d x", (num,)),
            ("tag=%d 100%% %s", (num, "%s")),
            ("tag=%d %s", (num, {1, 2})),
            (f"tag={num} 50% done", ()),
            ("tag=%(n)d y", ({"n": num},)),
        ][oper["kind"]]
        if self.side == "child":
            msg = form[0] % (
                form[1][0] if oper["kind"] == 4 else form[1]
            ) if form[1] else form[0]
            world.logs.append(msg)
            self.logger.warning(form[0], *form[1])  # type: ignore

    async def do_cmd(self, world, oper) -> None:
        """Command a channel of the other end."""
        name = COMMANDED[oper["chan"]]
        num = world.fresh()
        entry = {"to": "child" if self.side == "host" else "host",
                 "chan": name, "n": num, "result": None, "how": "direct"}
        world.commands.append(entry)
        try:
            res = await self.channel_command(  # type: ignore
                f"set {name} {num}"
            )
            entry["result"] = bool(res)
        except AssertionError:
            entry["result"] = "timeout"

    async def do_qcmd(self, world, oper) -> None:
        """Command a channel through this end's copy."""
        if self.peer is None:  # type: ignore
            return
        name = COMMANDED[oper["chan"]]
        num = world.fresh()
        entry = {"to": "child" if self.side == "host" else "host",
                 "chan": name, "n": num, "result": None, "how": "queue"}
        world.commands.append(entry)
        res = self.peer.command(f"set {name} {num}")  # type: ignore
        world.sim.check(
            bool(res), "command-rejected", lambda: f"{entry}: {res}"
        )

    def watch(self, log: dict, env) -> None:
        """Record changes of channels."""
        for name in CHANNELS + COMMANDED:
            seq = log.setdefault(name, [])
            prim = env[name][0].raw
            prim.register_callback(
                lambda prev, curr, x=seq: x.append(curr)
            )


class Host(Actor, RuntimepyPeer):
    """The host's side."""

    side = "host"
    struct_type = Struct

    def handle_log_message(self, message) -> None:
        """Handle a log message of the peer."""
        WORLD.host_logs.append(message)
        super().handle_log_message(message)

    def _set_peer_env(self, data) -> bool:
        result = super()._set_peer_env(data)
        if result:
            self.watch(WORLD.host_changes, self.peer.env)
        return result


class Child(Actor, PeerProgram):
    """The peer program."""

    side = "child"
    struct_type = Struct

    def pre_environment_exchange(self) -> None:
        """Early initialization."""
        WORLD.child = self
        self.own_changes: dict = {}
        self.watch(WORLD.changes, self.struct.env)

    async def do_set(self, world, oper) -> None:
        """Change a channel."""
        idx = oper["chan"]
        for _ in range(oper["count"]):
            prim = getattr(self.struct, CHANNELS[idx])
            num = world.fresh()
            if idx == 1:
                prim.toggle()
            elif idx == 2:
                prim.value = num + 0.5
            else:
                prim.value = num % 60_000

    async def do_noise(self, world, oper) -> None:
        """Something that isn't telemetry ends up in the stream."""
        del oper
        world.noise = True
        world.sim.fault("stderr-noise")
        self.stream_output.write(b"warning: something happened\n")
        self.stream_output.flush()

    async def cleanup(self) -> None:
        WORLD.cleanups += 1

    async def main(self, argv) -> None:
        """Program entry."""
        world = WORLD
        plan = world.plan
        world.sim.check(
            self.struct.config.get("config") == plan["config"],
            "config", "the program's configuration isn't what was given",
        )
        end = plan["end"]

        async def lanes() -> None:
            try:
                await asyncio.gather(*(self.lane(x) for x in plan["child"]))
            finally:
                world.child_done.set()

        if plan["main"] == "arbiter":
            task = asyncio.create_task(lanes())
            await super().main(argv)
            await cancel_quietly(task)
        else:
            task = asyncio.create_task(lanes())
            if end in ("crash", "exit"):
                await asyncio.sleep(plan["end_us"] / 1e6)
                world.sim.fault(f"child-{end}")
                if end == "exit":
                    raise ChildExit(3)
                raise RuntimeError("the program's main crashed")
            if plan["main"] == "wait":
                await self.got_eof.wait()
                await cancel_quietly(task)
            else:
                await task


async def cancel_quietly(task) -> None:
    """Cancel a task, wait for its end."""
    task.cancel()
    await asyncio.wait([task])
    if not task.cancelled() and isinstance(task.exception(), Violation):
        raise task.exception()


async def scenario(sim, plan):
    """Run a plan."""
    global WORLD  # pylint: disable=global-statement
    WORLD = World(sim, plan)
    warnings.simplefilter("ignore")
    logging.getLogger().setLevel(logging.WARNING)
    sim.procs.install(**plan["procs"])
    sim.loop.procs = sim.procs
    if plan["mode"] == "tool":
        await tools(sim, plan)
    else:
        await peers(sim, plan, WORLD)


async def tools(sim, plan) -> None:
    """Run programs that write output (and end)."""
    jobs = [tool(sim, num, x) for num, x in enumerate(plan["tools"])]
    await asyncio.gather(*jobs)


async def tool(sim, num: int, spec: dict) -> None:
    """Run one program."""
    written = {1: b"", 2: b""}
    received = []

    def program(proc, args):
        async def run() -> None:
            for idx, item in enumerate(spec["writes"]):
                if item["us"]:
                    await asyncio.sleep(item["us"] / 1e6)
                data = payload(num * 1000 + idx, item["size"])
                written[item["fd"]] += data
                out = proc.stdout if item["fd"] == 1 else proc.stderr
                out.write(data)
                out.flush()
            if spec["echo"]:
                while True:
                    data = proc.stdin.read()
                    if data:
                        received.append(data)
                        written[1] += data
                        proc.stdout.write(data)
                        proc.stdout.flush()
                    elif data is not None:
                        break
                    await asyncio.sleep(0.001)
            while spec["hang"]:
                await asyncio.sleep(1.0)
            raise ChildExit(spec["code"])

        del args
        return run()

    name = f"prog{num}"
    sim.procs.tools[name] = program
    queues = {
        1: asyncio.Queue() if spec["queues"] in ("both", "out") else None,
        2: asyncio.Queue() if spec["queues"] in ("both", "err") else None,
    }
    if spec["us"]:
        await asyncio.sleep(spec["us"] / 1e6)
    got = {1: b"", 2: b""}
    if spec["shell"]:
        ctx = spawn_shell(name, stdout=queues[1], stderr=queues[2])
    else:
        ctx = spawn_exec(name, stdout=queues[1], stderr=queues[2])
    total = sum(x["us"] for x in spec["writes"]) / 1e6

    def drain() -> None:
        for fd, queue in queues.items():
            while queue is not None and not queue.empty():
                got[fd] += queue.get_nowait()

    proto = None
    try:
        async with ctx as proto:
            if spec["echo"]:
                for idx in range(5):
                    proto.stdin.write(payload(idx + 7, 1000))
                await asyncio.sleep(0.1)
                proto.stdin.write_eof()
            if spec["hang"]:
                await asyncio.sleep(total + 8.0)
            else:
                await sim.within(
                    proto.exited.wait(), total + 30.0, "exit-not-noticed",
                    "noticing that a program exited",
                )
                # What's in the pipes.
                await asyncio.sleep(1.0)
            drain()
            left = sim.now
    finally:
        pass
    took = sim.now - left
    sim.check(took < 8.0, "leave-bound", f"leaving took {took} s")
    proc = proto.transport
    sim.check(
        proto.exited.is_set() and not proc.alive, "left-running",
        "the program is still running",
    )
    sim.check(
        proc.get_returncode() == (-SIGKILL if spec["hang"] else spec["code"]),
        "exit-code", lambda: f"{proc.get_returncode()}, {spec}",
    )
    sim.check(
        proto.elapsed_time >= 0, "elapsed", f"{proto.elapsed_time}"
    )
    for fd, queue in queues.items():
        if queue is not None:
            sim.check(
                got[fd] == written[fd], "output-lost",
                lambda fd=fd: f"fd {fd}: {len(written[fd])} bytes written, "
                f"{len(got[fd])} bytes received",
            )
    sim.probe("tool-ok")
    if spec["echo"]:
        sim.probe("tool-echo")


async def peers(sim, plan, world) -> None:
    """Run a host and its peer program."""
    end = plan["end"]
    loop = sim.loop
    if end == "slow-start":
        sim.procs.cfg["start_max"] = 30.0
    procs: list = []
    sim.procs.on_spawn = procs.append
    crash_ok = end in ("crash", "exit", "host-crash", "early", "slow-start",
                       "stop", "stop-leave", "kill")

    def on_crash(proc, exc) -> None:
        sim.probe("program-raised")
        if not crash_ok and not slow(sim):
            raise Violation(
                "program-raised", f"the peer program raised {exc!r}"
            ) from exc

    sim.procs.on_crash = on_crash
    leave = asyncio.Event()
    left_at = [0.0]
    info: dict = {}

    async def host_main() -> None:
        async with Host.running_program(
            "unit", {"config": plan["config"]}, "dst.props.c15.Child"
        ) as host:
            world.host = host
            if host.peer is not None:
                sim.probe("connected")
            info["connected"] = sim.now
            lanes = asyncio.gather(*(host.lane(x) for x in plan["host"]))
            waiter = asyncio.ensure_future(leave.wait())
            await asyncio.wait(
                [waiter, lanes], return_when=asyncio.FIRST_COMPLETED
            )
            if lanes.done():
                lanes.result()
                info["lanes"] = True
                await waiter
            else:
                lanes.cancel()
                await asyncio.wait([lanes])
            left_at[0] = sim.now
        info["left"] = sim.now

    before = {x for x in asyncio.all_tasks() if not x.done()}
    main = asyncio.ensure_future(host_main())

    # Let things happen.
    while not procs:
        await asyncio.sleep(0.001)
    proc = procs[0]
    if end == "leave":
        await leave_calmly(sim, plan, world, proc, main, info)
        leave.set()
    else:
        await asyncio.sleep(plan["end_us"] / 1e6)
        sim.fault(f"end-{end}")
        if end in ("early", "slow-start"):
            leave.set()
        elif end == "kill":
            was = proc.alive
            proc.kill()
            sim.event("kill", was)
            await after_death(sim, plan, world, proc, main, info)
            leave.set()
        elif end in ("crash", "exit"):
            await sim.within(
                gone(proc), 60.0, "hang", "the program's end"
            ) if plan["main"] != "arbiter" else None
            if plan["main"] != "arbiter":
                await after_death(sim, plan, world, proc, main, info)
            leave.set()
        elif end == "host-crash":
            proc.host_crash()
            await sim.within(
                gone(proc), 25.0, "orphan",
                "the peer program's end after its host crashed",
            )
            proc.returncode = proc.exit_code
            world.host.protocol.exited.set() if world.host else None
            main.cancel()
            await check_history(sim, plan, world, final=False)
            return
        elif end in ("stop", "stop-leave"):
            proc.stop(plan["stop_s"] if end == "stop" else 1e5)
            if end == "stop":
                await asyncio.sleep(plan["stop_s"])
                # The ends may have given up on each other.
                await asyncio.sleep(4.0)
            leave.set()

    await sim.within(main, 30.0, "host-hang", "leaving the peer's context")
    took = sim.now - left_at[0]
    sim.check(
        took < 8.0, "leave-bound", f"leaving the context took {took:.3f} s"
    )
    sim.check(
        not proc.alive, "left-running",
        "the peer program is running although its context was left",
    )
    if end == "leave" and not proc.error:
        sim.check(
            not proc.killed_by_close and proc.exit_code == 0,
            "not-graceful",
            lambda: f"the program was ended with {proc.exit_code}, killed: "
            f"{proc.killed_by_close}",
        )
        sim.check(
            world.cleanups == 1, "cleanup", f"cleanup ran {world.cleanups}x"
        )

    # Nothing is left behind.
    await asyncio.sleep(5.0)
    tasks = [
        x for x in asyncio.all_tasks()
        if x not in before and x is not main and not x.done()
        and x.get_context().get(_proc()) is None
        and "within" not in x.get_coro().__qualname__
    ]
    sim.check(
        not tasks, "tasks-left",
        lambda: "\n".join(x.get_coro().__qualname__ for x in tasks),
    )
    await check_history(sim, plan, world, final=end == "leave" and not proc.error)


def _proc():
    from dst.procs import PROC

    return PROC


async def gone(proc) -> None:
    """Wait for a process's end."""
    while proc.alive:
        await asyncio.sleep(0.01)


def slow(sim) -> bool:
    """Determine if stalls alone can make requests time out."""
    return sim.loop.stalled_ns > 500_000_000


async def leave_calmly(sim, plan, world, proc, main, info) -> None:
    """Everything is expected to finish by itself."""

    async def finished() -> None:
        while "lanes" not in info:
            if main.done():
                main.result()
                raise Violation("host-ended", "the host's context ended")
            await asyncio.sleep(0.01)
        while not world.child_done.is_set() and not proc.error:
            await asyncio.sleep(0.01)

    wait = sum(
        x.get("ms", 0) + x["us"] / 1e3
        for side in ("host", "child") for lane in plan[side] for x in lane
    ) / 1e3
    await sim.within(
        finished(), 200.0 + 2 * wait + 4 * sim.loop.stalled_ns / 1e9, "stuck",
        "the operations of the host and the peer program",
    )
    if proc.error:
        return

    # Time for what's on its way.
    start = sim.now
    while sim.now - start < 20.0 and any(
        len(world.sent[x]) != len(world.seen[y])
        for x, y in (("host", "child"), ("child", "host"))
    ):
        await asyncio.sleep(0.1)
    await asyncio.sleep(2.0)
    sim.check(
        proc.alive, "program-ended", lambda: f"with {proc.exit_code}"
    )
    host = world.host
    sim.probe("calm")
    sim.check(
        host.peer is not None and world.child.peer is not None,
        "no-exchange", "the environments weren't exchanged",
    )
    # Everything that changed arrived (unless something else was written to
    # the stream, it can take changes with it).
    env = host.peer.env
    own = world.child.struct.env
    for name in CHANNELS + COMMANDED if not world.noise else []:
        sim.check(
            env.value(name) == own.value(name), "not-converged",
            lambda n=name: f"'{n}': {env.value(n)} != {own.value(n)}",
        )
    if not world.noise:
        for name in CHANNELS + COMMANDED:
            seen = world.host_changes[name]
            seq = world.changes[name]
            sim.check(
                not seen or seen == seq[-len(seen):], "telemetry",
                lambda n=name: f"'{n}': changed {brief(seq)}, the host saw "
                f"{brief(world.host_changes[n])}",
            )
    # Traffic: what was taken from the queues.
    for what, got, num, queue in (
        ("stdout", host.stdout_metrics, 1, host.protocol.stdout),
        ("stderr", host.stderr_metrics, 2, host.protocol.stderr),
    ):
        want = proc.pipes[num].delivered - sum(map(len, queue._queue))
        sim.check(
            got.bytes.value == want, "traffic",
            lambda x=what, g=got, w=want: f"{x} received: reported "
            f"{g.bytes.value}, was {w}",
        )
    got = host.stdin_metrics.bytes.value
    want = proc.stdin_transport.written
    sim.check(got == want, "traffic", f"stdin: reported {got}, was {want}")


async def after_death(sim, plan, world, proc, main, info) -> None:
    """The program ended on its own: the host notices."""

    async def noticed() -> None:
        while not main.done() and (
            world.host is None or not world.host.protocol.exited.is_set()
        ):
            await asyncio.sleep(0.01)

    await sim.within(
        noticed(), 10.0, "exit-not-noticed", "noticing the program's end"
    )
    start = sim.now
    while "lanes" not in info and sim.now - start < 40.0 and not main.done():
        await asyncio.sleep(0.05)


async def check_history(sim, plan, world, final: bool) -> None:
    """Check everything recorded."""

    for src, dst in (("host", "child"), ("child", "host")):
        want, got = world.sent[src], world.seen[dst]
        sim.check(
            got == want[:len(got)] and (not final or len(got) == len(want)),
            "messages",
            lambda s=src, w=want, g=got: f"sent by {s}: {len(w)}, received "
            f"{len(g)}: {first_diff(g, w)}",
        )
        answered = world.answered[dst]
        asked = world.asked[src]
        sim.check(
            len(set(answered)) == len(answered), "request-repeated",
            lambda a=answered: brief(a),
        )
        for entry in asked:
            if entry["result"] == "ok":
                sim.check(
                    entry["n"] in answered, "invented-answer",
                    lambda e=entry: str(e),
                )
            if entry["result"] == "timeout":
                sim.check(
                    not final or slow(sim), "request-failed",
                    lambda e=entry: f"without any fault: {e}",
                )
                limit = 3.0 + 1.5 + (
                    plan["stop_s"] if plan["end"] == "stop" else 0
                )
                if "stop" not in plan["end"] and not slow(sim):
                    sim.check(
                        2.99 <= entry["took"] < limit, "timeout-bound",
                        lambda e=entry: str(e),
                    )
        if final:
            sim.check(
                world.polls[dst] == world.polls_sent[dst], "polls",
                lambda d=dst: f"{d}: {world.polls[d]}, expected "
                f"{world.polls_sent[d]}",
            )

    # Log messages.
    got = []
    for message in world.host_logs:
        args = message.get("args", [])
        msg = message["msg"]
        if args:
            msg = msg % tuple(args)
        if msg.startswith("tag="):
            got.append(msg)
    # (Those attached to a message whose handler fails aren't handled.)
    rest = iter(world.logs)
    sim.check(
        all(x in rest for x in got)
        and (
            world.booms
            or got == world.logs[:len(got)]
            and (not final or len(got) == len(world.logs))
        ),
        "logs",
        lambda: f"logged {brief(world.logs)}, host saw {brief(got)}",
    )

    # Commands.
    by_chan: dict = {}
    for entry in world.commands:
        by_chan.setdefault((entry["to"], entry["chan"]), []).append(entry)
    for (dst, name), entries in by_chan.items():
        if dst == "child":
            seq = world.changes.get(name, [])
        else:
            continue
        for entry in entries:
            count = seq.count(entry["n"])
            need = entry["result"] is True or (
                final and entry["how"] == "queue"
            )
            sim.check(
                count == 1 if need else count <= 1, "command",
                lambda e=entry, c=count: f"{e} took effect {c}x",
            )
            sim.check(
                entry["result"] is not False, "command-failed",
                lambda e=entry: str(e),
            )
        queued = [x["n"] for x in entries if x["how"] == "queue"]
        order = [x for x in seq if x in set(queued)]
        sim.check(
            order == sorted(order), "command-order",
            lambda q=queued, o=order: f"issued {q}, effects {o}",
        )
        if queued:
            sim.probe("queued-commands")

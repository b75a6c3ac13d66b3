"""
C14: the runtime starts applications in stages once everything is ready,
reports a faithful result and shuts down completely, however it ends.
"""

import asyncio
import json
import sys

from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.net.arbiter import ConnectionArbiter
from runtimepy.net.arbiter.tcp import TcpConnectionFactory
from runtimepy.net.arbiter.task import ArbiterTask, TaskFactory
from runtimepy.net.arbiter.udp import UdpConnectionFactory
from runtimepy.net.arbiter.websocket import WebsocketConnectionFactory
from runtimepy.net.tcp.connection import TcpConnection
from runtimepy.net.udp.connection import UdpConnection
from runtimepy.net.websocket.connection import WebsocketConnection

from runtimepy.primitives import Uint32

from dst.util import cancel_all, sane_ws, swarm_loop, swarm_net

# The run's state (every run has its own process).
RUN: dict = {}
BASE_PORT = 30_000
EXT_PORT = 31_000


def gen(rng, tier):
    """Generate a plan."""
    net = sane_ws(swarm_net(rng, tcp=True))
    delays = [0, 0, 10, 3_000, 200_000, 2_000_000]
    servers = [
        {"kind": rng.choice(["tcp", "tcp", "ws"]),
         "conflict": rng.random() < 0.05}
        for _ in range(rng.choice([0, 0, 1, 1, 2]))
    ]
    clients = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        kind = rng.choice(["tcp", "tcp", "tcp", "udp", "ws"])
        same = [i for i, x in enumerate(servers) if x["kind"] == kind]
        target = -1
        if kind == "ws" and not same:
            kind = "tcp"
            same = [i for i, x in enumerate(servers) if x["kind"] == kind]
        if kind != "udp" and same and (kind == "ws" or rng.random() < 0.6):
            target = rng.choice(same)
        clients.append(
            {
                "kind": kind,
                "target": target,
                "defer": target >= 0 or rng.random() < 0.6,
                "init": rng.choice(["ok"] * 12 + ["false", "raise", "hang"]),
                "init_us": rng.choice(delays),
                "create": rng.choice(["ok"] * 20 + ["refused", "raise"]),
                "work": rng.choice(["", "", "", "busy", "busy", "fails"]),
            }
        )
        if target >= 0:
            clients[-1]["create"] = "ok"
        if kind == "udp" and clients[-1]["create"] == "refused":
            clients[-1]["create"] = "ok"
    healthy = rng.random() < 0.35
    stages: dict = {"init": [], "app": []}
    for key, most in (("init", 2), ("app", 3)):
        for _ in range(rng.choice([0, 1, most])):
            stages[key].append(
                [
                    {
                        "us": rng.choice(delays),
                        "end": rng.choice(
                            ["ok"] * 8 + ["stop"]
                            + ([] if healthy else
                               ["code", "code", "raise", "cancelled"])
                        ),
                        "code": rng.choice([1, -1, 2, -2, 255, 256, 1]),
                        "linger_us": rng.choice([0, 0, 0, 50_000]),
                        "cmds": [
                            [rng.randrange(4),
                             rng.choice(["ok", "ok", "slow", "raise"])]
                            for _ in range(rng.choice([0, 0, 0, 1, 3]))
                        ],
                    }
                    for _ in range(rng.choice([1, 1, 2, 3]))
                ]
            )
    if healthy:
        for client in clients:
            client.update(init="ok", create="ok", work=client["work"] and
                          "busy")
        for server in servers:
            server["conflict"] = False
    tasks = [
        {
            "period_us": rng.choice([2_000, 50_000, 1_000_000]),
            "dur_us": rng.choice([0, 0, 10_000, 400_000]),
            "init": rng.choice(["ok"] * (9 if not healthy else 1000)
                               + ["raise"]),
            "init_us": rng.choice(delays[:5]),
            "end": rng.choice(["", "", "", "false", "raise"]),
        }
        for _ in range(rng.choice([0, 0, 1, 2]))
    ]
    hang = any(x["init"] == "hang" for x in clients) or any(
        x["end"] == "stop" for y in stages.values() for z in y for x in z
    )
    plan = {
        "net": net,
        "loop": swarm_loop(rng, stall=False),
        "servers": servers,
        "clients": clients,
        "stages": stages,
        "tasks": tasks,
        "ext": {
            "us": rng.choice([0, 0, 0, 300_000, 3_000_000]),
            "close_us": rng.choice([None, None, None, 0, 10, 50_000,
                                    1_000_000])
            if not healthy else None,
        },
        "outsiders": [
            {"us": rng.choice(delays), "server": rng.randrange(len(servers)),
             "talk": rng.random() < 0.5}
            for _ in range(rng.choice([0, 0, 1, 3]))
        ] if servers else [],
    }
    if hang or rng.random() < 0.25:
        plan["stop_us"] = rng.choice(
            [0, 0, 1, 1_000, 100_000, 1_000_000, 5_000_000]
        )
    elif rng.random() < 0.08:
        plan["cancel_us"] = rng.choice([0, 1, 1_000, 100_000, 2_000_000])
    plan["ops"] = []
    return plan


class SimulatedError(Exception):
    """What broken parts raise."""


class Common(AsyncCommandProcessingMixin):
    """What the connections have in common."""

    sim_conf: dict = {}

    def init(self):
        super().init()
        RUN["conns"].append(self)
        self.sim_conf = {}
        self.sim_ready = False
        self.sim_handled: list = []
        self.sim_value = Uint32()
        self.env.channel("sim_value", self.sim_value, commandable=True)
        self._setup_async_commands()

    async def handle_command(self, args, channel):
        number, kind = RUN["commands"][int(args.extra[0])]
        self.sim_handled.append(number)
        if kind == "slow":
            await asyncio.sleep(0.2)
        if kind == "raise":
            RUN["sim"].fault("command_raises")
            raise SimulatedError("command")

    async def async_init(self):
        conf = self.sim_conf
        if conf.get("init_us"):
            await asyncio.sleep(conf["init_us"] / 1e6)
        kind = conf.get("init", "ok")
        if kind == "hang":
            await asyncio.Event().wait()
        if kind == "raise":
            RUN["sim"].fault("init_raises")
            raise SimulatedError("init")
        if kind == "false":
            RUN["sim"].fault("init_fails")
        self.sim_ready = kind == "ok"
        if conf.get("work"):
            self._conn_tasks.append(
                asyncio.create_task(self.sim_work(conf["work"]))
            )
        return kind == "ok"

    async def sim_work(self, kind: str) -> None:
        """Some task of the connection."""
        await asyncio.sleep(0.03)
        if kind == "fails":
            RUN["sim"].fault("connection_task_raises")
            raise SimulatedError("connection task")

    async def process_text(self, data):
        return True

    async def process_binary(self, data):
        return True

    async def process_datagram(self, data, addr):
        return True


class Tcp(Common, TcpConnection):
    """A TCP connection."""


class Udp(Common, UdpConnection):
    """A UDP connection."""


class Ws(Common, WebsocketConnection):
    """A websocket connection."""


def configured(base):
    """A factory whose connections are set up as planned."""

    class Factory(base):
        """A factory."""

        async def client(self, name, *args, **kwargs):
            conf = RUN["plan"]["clients"][int(name)]
            if conf["create"] == "raise":
                await asyncio.sleep(conf["init_us"] / 1e6)
                RUN["sim"].fault("create_raises")
                raise SimulatedError("create")
            conn = await super().client(name, *args, **kwargs)
            conn.sim_conf = conf
            return conn

    return Factory


class SimTcpConn(configured(TcpConnectionFactory)):
    """TCP."""

    kind = Tcp


class SimUdpConn(configured(UdpConnectionFactory)):
    """UDP."""

    kind = Udp


class SimWsConn(configured(WebsocketConnectionFactory)):
    """Websocket."""

    kind = Ws


class SimTask(ArbiterTask):
    """A periodic task."""

    async def init(self, app):
        await super().init(app)
        conf = RUN["plan"]["tasks"][int(self.name[1:])]
        RUN["task_inits"].append(self.name)
        await asyncio.sleep(conf["init_us"] / 1e6)
        if conf["init"] == "raise":
            RUN["sim"].fault("task_init_raises")
            raise SimulatedError("task init")
        RUN["task_ready"].append(self.name)

    async def dispatch(self):
        sim = RUN["sim"]
        conf = RUN["plan"]["tasks"][int(self.name[1:])]
        sim.check(
            not RUN["returned"], "dispatch-after-return",
            f"task {self.name} dispatched after the runtime returned",
        )
        sim.check(
            self.name in RUN["task_ready"], "dispatch-before-init",
            f"task {self.name} dispatched before its initialization finished",
        )
        RUN["dispatches"] += 1
        if conf["dur_us"]:
            await asyncio.sleep(conf["dur_us"] / 1e6)
        if conf["end"] == "raise":
            sim.fault("task_raises")
            raise SimulatedError("dispatch")
        return conf["end"] != "false"


class SimTaskFactory(TaskFactory[SimTask]):
    """Creates tasks."""

    kind = SimTask


async def issue(info, cmds):
    """Command connections, which has to get handled in the background."""
    sim = RUN["sim"]
    conns = [x for x, _ in RUN["clients"]() if x is not None]
    if not conns:
        return
    expect: dict = {}
    for which, kind in cmds:
        conn = conns[which % len(conns)]
        number = len(RUN["commands"])
        RUN["commands"].append((number, kind))
        result = conn.command.command(f"set sim_value {number}")
        sim.check(bool(result), "command-refused", f"{result}")
        expect.setdefault(conn, []).append(number)
    for _ in range(100):
        await asyncio.sleep(0.1)
        if info.stop.is_set():
            return
        if all(
            x in conn.sim_handled for conn in expect for x in expect[conn]
        ):
            break
    for conn, numbers in expect.items():
        sim.check(
            [x for x in conn.sim_handled if x in numbers] == numbers,
            "command-not-handled",
            f"{conn.logger.name}: commands {numbers}, handled "
            f"{conn.sim_handled}",
        )
        sim.probe("commands_handled")


def make_app(key: str, stage: int, idx: int, conf: dict):
    """Create an application."""
    ident = (key, stage, idx)

    async def app(info):
        sim, plan = RUN["sim"], RUN["plan"]
        sim.event("app", *ident)
        sim.check(
            not RUN["returned"], "app-after-return",
            f"{ident} started after the runtime returned",
        )
        sim.check(ident not in RUN["started"], "app-twice", f"{ident}")
        # Everything is ready.
        for conn, _ in RUN["clients"]():
            sim.check(
                conn is not None and conn.sim_ready, "not-ready",
                f"{ident} started although client {conn} isn't ready",
            )
        sim.check(
            len(RUN["task_ready"]) == len(plan["tasks"]), "not-ready",
            f"{ident} started although tasks aren't initialized",
        )
        # The previous stages are over.
        for other in RUN["order"]:
            if other[:2] == ident[:2]:
                break
            sim.check(
                RUN["ended"].get(other) == 0, "stage-order",
                f"{ident} started, {other}: {RUN['ended'].get(other)}",
            )
        RUN["started"].append(ident)
        code = -1
        try:
            if conf["us"]:
                await asyncio.sleep(conf["us"] / 1e6)
            if conf["cmds"]:
                await issue(info, conf["cmds"])
            if conf["end"] == "stop":
                await info.stop.wait()
                if conf["linger_us"]:
                    await asyncio.sleep(conf["linger_us"] / 1e6)
            if conf["end"] == "raise":
                sim.fault("app_raises")
                raise SimulatedError("app")
            if conf["end"] == "cancelled":
                sim.fault("app_cancelled")
                raise asyncio.CancelledError
            code = conf["code"] if conf["end"] == "code" else 0
            if code:
                sim.fault("app_fails")
            return code
        finally:
            sim.check(
                not RUN["returned"], "app-after-return",
                f"{ident} was still running after the runtime returned",
            )
            RUN["ended"][ident] = code

    app.__name__ = f"{key}_{stage}_{idx}"
    return app


async def scenario(sim, plan):
    """Run."""
    loop = asyncio.get_running_loop()
    module = sys.modules[__name__]
    stop = asyncio.Event()
    RUN.update(
        sim=sim, plan=plan, conns=[], returned=False, started=[], ended={},
        commands=[], cancelled=False, task_inits=[], task_ready=[], dispatches=0, order=[],
    )
    config: dict = {
        "factories": [
            {"name": f"{__name__}.{x}"}
            for x in ("SimTcpConn", "SimUdpConn", "SimWsConn",
                      "SimTaskFactory")
        ],
        "clients": [], "servers": [], "tasks": [],
    }
    for key in ("init", "app"):
        if plan["stages"][key]:
            config[key] = []
        for i, stage in enumerate(plan["stages"][key]):
            names = []
            for j, conf in enumerate(stage):
                name = f"{key}_{i}_{j}"
                setattr(module, name, make_app(key, i, j, conf))
                names.append(f"{__name__}.{name}")
                RUN["order"].append((key, i, j))
            config[key].append(names)
    for i, server in enumerate(plan["servers"]):
        port = BASE_PORT + i
        sim.net.labels[port] = f"srv{i}"
        config["servers"].append(
            {"factory": f"sim_{server['kind']}_conn",
             "kwargs": {"port": port, "host": "127.0.0.1"}}
        )
    sim.net.labels[EXT_PORT] = "ext"
    for i, client in enumerate(plan["clients"]):
        port = EXT_PORT if client["target"] < 0 else (
            BASE_PORT + client["target"]
        )
        if client["create"] == "refused":
            port = 32_000
        item = {"factory": f"sim_{client['kind']}_conn", "name": str(i),
                "defer": client["defer"]}
        if client["kind"] == "tcp":
            item["kwargs"] = {"host": "127.0.0.1", "port": port}
        elif client["kind"] == "udp":
            item["kwargs"] = {"remote_addr": ["127.0.0.1", 33_000]}
        else:
            item["args"] = [f"ws://127.0.0.1:{port}"]
        config["clients"].append(item)
    for i, task in enumerate(plan["tasks"]):
        config["tasks"].append(
            {"factory": "SimTaskFactory", "name": f"t{i}",
             "period_s": task["period_us"] / 1e6}
        )
    path = sim.tmp / "config.json"
    path.write_text(json.dumps(config))

    ext_conns: list = []

    class Ext(asyncio.Protocol):
        """Whatever clients connect to."""

        def connection_made(self, transport):
            ext_conns.append(transport)
            if plan["ext"]["close_us"] is not None:
                loop.call_later(plan["ext"]["close_us"] / 1e6, self.bye,
                                transport)

        def bye(self, transport):
            sim.fault("peer_closes")
            transport.close()

    async def ext_server():
        await asyncio.sleep(plan["ext"]["us"] / 1e6)
        return await loop.create_server(Ext, host="127.0.0.1", port=EXT_PORT)

    harness = {asyncio.current_task()}
    ext_task = loop.create_task(ext_server())
    harness.add(ext_task)
    await asyncio.sleep(0)

    blockers = []
    for i, server in enumerate(plan["servers"]):
        if server["conflict"]:
            sim.fault("port_in_use")
            blockers.append(
                await loop.create_server(
                    asyncio.Protocol, host="127.0.0.1", port=BASE_PORT + i
                )
            )

    outside: list = []

    class Outsider(asyncio.Protocol):
        """A client of the runtime's servers which doesn't go away."""

        def connection_made(self, transport):
            self.transport = transport
            outside.append(self)

        def eof_received(self):
            return False

    async def outsider(conf):
        await asyncio.sleep(conf["us"] / 1e6)
        for _ in range(20):
            if RUN["returned"]:
                return
            try:
                _, prot = await loop.create_connection(
                    Outsider, host="127.0.0.1",
                    port=BASE_PORT + conf["server"]
                )
            except OSError:
                await asyncio.sleep(0.1)
                continue
            sim.probe("outsider")
            if conf["talk"]:
                prot.transport.write(b"hello there\r\n\r\n")
            return

    for conf in plan["outsiders"]:
        harness.add(loop.create_task(outsider(conf)))

    arbiter = ConnectionArbiter(stop_sig=stop)

    def clients():
        return [
            (next((y for x, y in arbiter._connections.items()
                   if x.split(".")[-1] == str(i)
                   or x.split("/")[-1] == str(i) or x == str(i)), None), conf)
            for i, conf in enumerate(plan["clients"])
        ]

    RUN["clients"] = clients

    spent = sum(
        x["us"] + x["linger_us"] + 10_100_000 * bool(x["cmds"])
        for y in plan["stages"].values() for z in y for x in z
    ) + sum(x["init_us"] for x in plan["clients"]) + sum(
        x["init_us"] + x["dur_us"] + x["period_us"] for x in plan["tasks"]
    ) + plan["ext"]["us"] + plan.get("stop_us", 0) + plan.get("cancel_us", 0)
    bound = 60 + spent / 1e6

    loading = loop.create_task(arbiter.load_configs([str(path)]))
    try:
        await sim.within(loading, 60, "load-stuck", "loading")
    except (SimulatedError, AssertionError):
        # The runtime never started.
        sim.check(
            any(x["create"] != "ok" and not x["defer"]
                for x in plan["clients"]),
            "load-failed", f"{loading.exception()!r}",
        )
        sim.nontrivial = False
        return

    async def stopper():
        await asyncio.sleep(plan["stop_us"] / 1e6)
        sim.fault("stop_signal")
        stop.set()

    if "stop_us" in plan:
        harness.add(loop.create_task(stopper()))

    main = loop.create_task(arbiter.app())
    main.add_done_callback(lambda _: RUN.update(returned=True))
    harness.add(main)

    async def canceller():
        await asyncio.sleep(plan["cancel_us"] / 1e6)
        if not main.done():
            sim.fault("cancelled")
            RUN["cancelled"] = True
            main.cancel()

    if "cancel_us" in plan:
        harness.add(loop.create_task(canceller()))
    done, _ = await asyncio.wait([main], timeout=bound)
    if not done:
        stacks = "".join(
            f"\n    {x.get_coro().__qualname__} at "
            f"{x.get_stack(limit=1)[-1].f_lineno if x.get_stack() else '?'}"
            for x in sorted(asyncio.all_tasks(), key=hash)
            if x not in harness
        )
        sim.check(
            False, "never-returned",
            f"still running after {bound} s (started {RUN['started']}, "
            f"stop {stop.is_set()}){stacks}",
        )
    code, exc = None, None
    if main.cancelled():
        sim.check(RUN["cancelled"], "raised-cancelled",
                  "the runtime raised CancelledError")
    else:
        exc = main.exception()
        if exc is None:
            code = main.result()
    sim.event("returned", code, type(exc).__name__)
    sim.probe("returned_zero" if code == 0 else "returned_failure")
    if code == 0 and RUN["started"]:
        sim.probe("stages_passed")

    # Nothing listens.
    for i, server in enumerate(plan["servers"]):
        if not server["conflict"]:
            sim.check(
                not any(k[1] == BASE_PORT + i for k in sim.net.listeners),
                "still-listening", f"server {i} is still listening",
            )

    # The result.
    good = len(RUN["started"]) == len(RUN["order"]) and all(
        RUN["ended"].get(x) == 0 for x in RUN["order"]
    )
    broken = [
        x for x in plan["clients"] if x["create"] != "ok" or x["init"] != "ok"
    ] + [x for x in plan["servers"] if x["conflict"]] + [
        x for x in plan["tasks"] if x["init"] != "ok"
    ]
    sim.check(
        not (code == 0 and not good), "false-success",
        f"exit code 0, started {RUN['started']} of {RUN['order']}, ended "
        f"{RUN['ended']}",
    )
    sim.check(
        not (broken and code == 0), "false-success",
        f"exit code 0 although something didn't initialize: {broken}",
    )
    if not broken and good and RUN["order"] and not main.cancelled():
        # (Closing peers, or stopping, may keep applications from starting.)
        sim.check(
            code == 0, "false-failure",
            f"every application succeeded, exit code {code}, {exc!r}",
        )
    if not broken and not stop_early(plan) and (
        plan["ext"]["close_us"] is None
    ):
        for num, ident in enumerate(RUN["order"]):
            prev = [RUN["ended"].get(x) for x in RUN["order"]
                    if (x[0] == "init") >= (ident[0] == "init")
                    and x[:2] != ident[:2] and RUN["order"].index(x) < num]
            if all(x == 0 for x in prev):
                sim.check(
                    ident in RUN["started"], "app-not-run",
                    f"{ident} never ran, exit code {code}, {exc!r}, ended "
                    f"{RUN['ended']}",
                )

    # Shutdown is complete.
    await asyncio.sleep(0.5)
    for conn in RUN["conns"]:
        sim.check(
            conn.disabled, "connection-enabled",
            f"connection {conn.logger.name} is still enabled",
        )
        if isinstance(conn, Ws):
            closed = conn.protocol.state.name in ("CLOSED", "CLOSING")
        else:
            closed = conn._transport.is_closing()
        sim.check(
            closed, "connection-open",
            f"connection {conn.logger.name} is still open",
        )
        sim.probe("closed")
    for task in arbiter.task_manager.tasks:
        sim.check(
            task._task is None or task._task.done(), "task-running",
            f"task {task.name} is still running",
        )
    await asyncio.sleep(1.0)
    left = [
        x for x in sorted(asyncio.all_tasks(), key=hash)
        if x not in harness
        # The websocket library's own (it waits for the peer to close).
        and "websockets" not in x.get_coro().cr_code.co_filename
    ]
    sim.check(
        not left, "tasks-left",
        lambda: "tasks left: " + "; ".join(
            f"{x.get_coro().__qualname__}" for x in left),
    )
    await cancel_all(*(x for x in harness if x is not
                       asyncio.current_task()))
    for blocker in blockers:
        blocker.close()


def stop_early(plan) -> bool:
    """Whether the run may be stopped before applications start."""
    return "stop_us" in plan or "cancel_us" in plan

"""
C18: channel commands, synchronous and through the asynchronous queue that the
housekeeping task of the runtime services.

Callers submit commands, generated together with their meaning, to several
command processors while handlers of earlier ones are slow or fail. A model of
the channels predicts each result and the environment after each command.
"""

import asyncio
import ctypes
import logging
import math
from types import SimpleNamespace

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.mixins.async_command import AsyncCommandProcessingMixin
from runtimepy.mixins.environment import ChannelEnvironmentMixin
from runtimepy.net.arbiter.housekeeping import housekeeping
from runtimepy.net.manager import ConnectionManager
from runtimepy.primitives.field.fields import BitFields

from dst.util import brief, first_diff, swarm_loop

MODES = {"idle": 0, "run": 1, "halt": 5}
KINDS = {
    # name -> (kind, scaling)
    "i8": ("int8", None),
    "u16": ("uint16", [1.0, 0.5]),
    "i64": ("int64", None),
    "f32": ("float", None),
    "f64": ("double", [1.0, 2.0]),
    "flag": ("bool", None),
    "sw": ("bool", "OnOff"),
    "mode": ("uint8", "Mode"),
}
FIELDS = {"bits": (3, None), "bit": (1, None), "sel": (3, "Mode")}
BOUNDS = {"int8": (-128, 127), "uint16": (0, 65535), "uint8": (0, 255),
          "int64": (-(2**63), 2**63 - 1)}
NAMES = [x + y for x in list(KINDS) + list(FIELDS) for y in ("", "_ro")]
TOKENS = {
    "i8": ["5", "-7", "127", "128", "-1000", "0", "x", "1.5", "nan", "true"],
    "i64": ["5", "-7", "9" * 30, "0x10", "1e3", "-9223372036854775808"],
    "u16": ["5", "1.5", "-3", "1e9", "nan", "inf", "1e400", "true", "7.25"],
    "f32": ["0.1", "-2.5", "inf", "nan", "1e300", "x", "3"],
    "f64": ["0.1", "-2.5", "1e400", "nan", "on", "3"],
    "flag": ["true", "false", "True", "1", "on", "yes", "0"],
    "sw": ["on", "off", "true", "false", "1", "dim"],
    "mode": ["idle", "run", "halt", "5", "2", "IDLE", "true"],
    "bits": ["5", "7", "9", "true", "false", "-1", "x", "2.5"],
    "bit": ["1", "0", "true", "false", "on", "2"],
    "sel": ["idle", "run", "halt", "1", "2", "x"],
}


def gen_command(rng) -> dict:
    """Generate one command with its meaning."""
    roll = rng.random()
    if roll < 0.14:
        name = rng.choice(NAMES)
        base = name.removesuffix("_ro")
        return {
            "bad": rng.choice(
                [
                    "", "bogus", "help", "set", "toggle", "get", "-f", "set -f",
                    f"set {name}", f"sett {name} 1", f"set nope{name} 1",
                    f"toggle {name}x", f"get x{name}", f"{name} set 1",
                    f"set {name} {TOKENS[base][0]} --unknown",
                    f"toggle {name} -e", f"SET {name} 1", "custom",
                    f"set -x {name} 1", f"set {name} -f {TOKENS[base][0]}",
                ]
            )
        }
    flags = []
    if rng.random() < 0.4:
        flags.append(rng.choice(["-f", "--force"]))
    remote = rng.random() < 0.1
    if remote:
        flags.append(rng.choice(["-r", "--remote"]))
    if rng.random() < 0.1:
        flags.append("-e other")
    if roll < 0.24:
        return {
            "verb": "custom",
            "chan": rng.choice(["go", "fail", "unknown"]),
            "extra": [str(rng.randint(0, 99))],
            "flags": flags, "where": rng.choice("ame"), "remote": True,
        }
    name = rng.choice(NAMES)
    verb = rng.choice(["set", "set", "set", "toggle", "get"])
    extra = []
    if verb == "set":
        extra = [rng.choice(TOKENS[name.removesuffix("_ro")])]
        if rng.random() < 0.1:
            extra.append("9")
    return {
        "verb": verb, "chan": name, "extra": extra, "flags": flags,
        "where": rng.choice("ame"), "remote": remote,
    }


def gen(rng, tier):
    """Generate a plan."""
    count = rng.choice([1, 1, 2, 3])
    ops = []
    for _ in range(rng.choice([3, 10, 30, 80])):
        ops.append(
            {
                "to": rng.randrange(count),
                "by": rng.randrange(rng.choice([1, 3])),
                "us": rng.choice([0, 0, 0, 50, 5_000, 90_000, 300_000]),
                **gen_command(rng),
            }
        )
    return {
        "kinds": [rng.choice(["conn", "task", "struct"])
                  for _ in range(count)],
        "period_us": rng.choice([1_000, 20_000, 100_000]),
        "slow_us": rng.choice([0, 0, 200, 30_000, 400_000]),
        "p_fail": rng.choice([0, 0, 0.1, 0.5]),
        "p_nest": rng.choice([0, 0, 0.2]),
        "loop": swarm_loop(rng),
        "net": {},
        "ops": ops,
    }


def render(item: dict) -> str:
    """Render a command."""
    if "bad" in item:
        return item["bad"]
    flags = " ".join(item["flags"])
    body = " ".join([item["chan"]] + item["extra"])
    if item["where"] == "a":
        res = f"{flags} {item['verb']} {body}"
    elif item["where"] == "m":
        res = f"{item['verb']} {flags} {body}"
    else:
        res = f"{item['verb']} {body} {flags}"
    return " ".join(res.split())


class SimulatedError(Exception):
    """What a broken handler raises."""


def to_float(token):
    """A float or none."""
    try:
        return float(token)
    except ValueError:
        return None


def to_int(token):
    """An integer or none."""
    try:
        return int(token)
    except ValueError:
        return None


def to_bool(token):
    """A boolean or none."""
    return {"true": True, "false": False}.get(token.lower())


class Model:
    """The channels of one environment, modelled."""

    def __init__(self):
        self.raw = {}
        for name in NAMES:
            base = name.removesuffix("_ro")
            self.raw[name] = 0
            if base in ("f32", "f64"):
                self.raw[name] = 0.0

    def resolve(self, base: str, token: str):
        """The raw value a token stands for (none if there isn't any)."""
        if base in FIELDS:
            width, enum = FIELDS[base]
            mask = (1 << width) - 1
            if enum:
                val = MODES.get(token)
                if val is None and to_int(token) in MODES.values():
                    val = to_int(token)
            else:
                val = to_bool(token)
                if val is None:
                    val = to_int(token)
            return None if val is None else int(val) & mask
        kind, extra = KINDS[base]
        if base == "mode":
            val = MODES.get(token)
            if val is None and to_int(token) in MODES.values():
                val = to_int(token)
            return val
        if base == "sw":
            val = {"on": True, "off": False}.get(token)
            return to_bool(token) if val is None else val
        if base == "flag":
            return to_bool(token)
        if kind in BOUNDS:
            if extra:
                val = to_float(token)
                if val is None or not math.isfinite(val):
                    return None
                val = round((val - extra[0]) / extra[1])
            else:
                val = to_int(token)
                if val is None:
                    return None
            low, high = BOUNDS[kind]
            return max(low, min(high, val))
        val = to_float(token)
        if val is None:
            return None
        if extra:
            val = (val - extra[0]) / extra[1]
        return ctypes.c_float(val).value if kind == "float" else val

    def shown(self, name: str):
        """What reading a channel yields (none if unspecified)."""
        base = name.removesuffix("_ro")
        raw = self.raw[name]
        names = {v: k for k, v in MODES.items()}
        if base in ("mode", "sel"):
            return names.get(raw)
        if base == "sw":
            return "on" if raw else "off"
        if base in ("flag", "bit"):
            return str(bool(raw))
        if base == "u16":
            return str(1.0 + 0.5 * raw)
        if base == "f64":
            return str(1.0 + 2.0 * raw)
        return str(raw)

    def apply(self, item: dict):
        """Apply a command, return (success, hooks run, channel or none)."""
        if "bad" in item:
            return False, False, None
        name = item["chan"]
        if item["remote"]:
            return True, True, None
        base = name.removesuffix("_ro")
        if item["verb"] == "get":
            return True, False, None
        if name.endswith("_ro") and not any(
            x in ("-f", "--force") for x in item["flags"]
        ):
            return False, False, None
        if item["verb"] == "toggle":
            if base in FIELDS:
                self.raw[name] ^= (1 << FIELDS[base][0]) - 1
            elif base in ("flag", "sw"):
                self.raw[name] = not self.raw[name]
            else:
                return False, False, None
            return True, True, name
        val = self.resolve(base, item["extra"][0])
        if val is None:
            return False, False, None
        self.raw[name] = val
        return True, True, name


def build() -> ChannelEnvironment:
    """Build an environment."""
    env = ChannelEnvironment()
    env.enum("Mode", "int", items=MODES)
    env.enum("OnOff", "bool", items={"on": True, "off": False})
    for suffix, cmd in (("", True), ("_ro", False)):
        for name, (kind, extra) in KINDS.items():
            kwargs = {"commandable": cmd}
            if isinstance(extra, str):
                kwargs["enum"] = extra
            elif extra:
                kwargs["scaling"] = extra
            func = env.int_channel
            if kind == "bool":
                func = env.bool_channel
            elif kind in ("float", "double"):
                func = env.float_channel
            func(name + suffix, kind, **kwargs)
        fields = BitFields.new()
        fields.field("bits" + suffix, 3, commandable=cmd)
        fields.flag("bit" + suffix, commandable=cmd)
        fields.field("sel" + suffix, 3, enum="Mode", commandable=cmd)
        env.fields.add(fields)
    env.finalize(strict=False)
    return env


def key_of(args) -> tuple:
    """What identifies a command to a handler."""
    return (str(args.command), args.channel, tuple(args.extra),
            bool(args.force), bool(args.remote), args.env)


class Commander(ChannelEnvironmentMixin, AsyncCommandProcessingMixin):
    """Something with commands."""

    def __init__(self, sim, plan, label):
        self.sim = sim
        self.plan = plan
        self.label = label
        self.model = Model()
        self.hooked: list = []
        self.handled: list = []
        self.want_hooked: list = []
        self.want_handled: list = []
        self.busy = False
        self.nested = 0
        ChannelEnvironmentMixin.__init__(self, env=build())
        AsyncCommandProcessingMixin.__init__(
            self, logger=logging.getLogger(label)
        )
        self.command = ChannelCommandProcessor(self.env, self.logger)
        self.command.hooks.append(self.sync_hook)

        async def go(args, channel):
            assert channel is None
            await self.handle(args, channel)

        async def fail(args, channel):
            await self.handle(args, channel)
            sim.fault("failing_custom_command")
            raise SimulatedError(f"custom {args.extra}")

        self._setup_async_commands(go)
        self._setup_async_commands(fail)

    def sync_hook(self, args, channel):
        """Record a hook call."""
        self.hooked.append((key_of(args), self.name_of(channel)))

    def name_of(self, channel):
        """The name of a channel or field."""
        if channel is None:
            return None
        for name in NAMES:
            if self.env.field_or_channel(name) is channel:
                return name
        return "?"

    async def handle(self, args, channel):
        """Handle a queued command."""
        sim = self.sim
        if self.busy:
            sim.check(
                False, "overlapping-handlers",
                f"{self.label}: a command handler started while another ran",
            )
        self.busy = True
        try:
            self.handled.append((key_of(args), self.name_of(channel)))
            sim.event("handled", self.label, *map(str, key_of(args)))
            if self.plan["slow_us"]:
                await asyncio.sleep(
                    sim.choices.pick(
                        f"slow.{self.label}", 0,
                        lambda r: int(r.random() ** 2 * self.plan["slow_us"]),
                    ) / 1e6
                )
            if self.nested < 20 and sim.choices.pick(
                f"nest.{self.label}", 0,
                lambda r: int(r.random() < self.plan["p_nest"]),
            ):
                self.nested += 1
                sim.probe("submitted_by_handler")
                self.submit(
                    {"verb": "set", "chan": "i64",
                     "extra": [str(self.nested)], "flags": [], "where": "a",
                     "remote": False}
                )
        finally:
            self.busy = False
        if sim.choices.pick(
            f"fail.{self.label}", 0,
            lambda r: int(r.random() < self.plan["p_fail"]),
        ):
            sim.fault("failing_handler")
            raise SimulatedError("handler")

    async def handle_command(self, args, channel):
        """Handle a command."""
        await self.handle(args, channel)

    def submit(self, item) -> None:
        """Submit a command and check its outcome."""
        text = render(item)
        env, model = self.env, self.model
        want, hooks, chan = model.apply(item)
        hooked, queued = len(self.hooked), self.outgoing_commands.qsize()
        try:
            result = self.command.command(text)
        except Exception as exc:  # pylint: disable=broad-except
            import traceback

            self.sim.check(
                False, "no-result",
                f"{self.label}: command {text!r} raised {exc!r} instead of "
                f"yielding a result: {traceback.format_exc()[-900:]}",
            )
        self.sim.event("cmd", self.label, text, result.success)

        def why(what) -> str:
            return f"{self.label}: command {text!r} -> {result}: {what}"

        self.sim.check(
            bool(result) == want, "wrong-result", lambda: why(f"want {want}")
        )
        for name in NAMES:
            raw = env.value(name, resolve_enum=False, scaled=False)
            exp = model.raw[name]
            self.sim.check(
                raw == exp or (raw != raw and exp != exp), "wrong-effect",
                lambda: why(f"{name} is {raw!r}, expected {exp!r}"),
            )
        if not want:
            self.sim.check(
                bool(result.reason), "no-reason", lambda: why("no reason")
            )
        elif item["verb"] == "get" and not item["remote"]:
            shown = model.shown(item["chan"])
            if shown is not None and shown != "nan":
                self.sim.check(
                    result.reason == shown, "wrong-reading",
                    lambda: why(f"expected {shown!r}"),
                )
        self.sim.check(
            len(self.hooked) == hooked + int(hooks)
            and self.outgoing_commands.qsize() == queued + int(hooks),
            "hook-calls",
            lambda: why(
                f"{len(self.hooked) - hooked} hook calls, "
                f"{self.outgoing_commands.qsize() - queued} queued"
            ),
        )
        if hooks:
            key = (
                item["verb"], item["chan"], tuple(item["extra"]),
                any(x in ("-f", "--force") for x in item["flags"]),
                any(x in ("-r", "--remote") for x in item["flags"]),
                "other" if "-e other" in item["flags"] else "default",
            )
            self.want_hooked.append((key, chan))
            if not (item["verb"] == "custom" and item["chan"] == "unknown"):
                self.want_handled.append((key, chan))


async def caller(commanders, ops) -> None:
    """Submit commands."""
    for item in ops:
        if item["us"]:
            await asyncio.sleep(item["us"] / 1e6)
        commanders[item["to"]].submit(item)


async def scenario(sim, plan):
    """Run."""
    commanders = [
        Commander(sim, plan, f"{kind}{i}")
        for i, kind in enumerate(plan["kinds"])
    ]
    manager = ConnectionManager()
    task = housekeeping(manager, period_s=plan["period_us"] / 1e6)
    task.app = SimpleNamespace(
        connections={}, tasks={"housekeeping": task}, structs={},
        conn_manager=manager,
    )
    for kind, item in zip(plan["kinds"], commanders):
        {"conn": task.app.connections, "task": task.app.tasks,
         "struct": task.app.structs}[kind][item.label] = item

    runner = await task.task()
    callers = {}
    for item in plan["ops"]:
        callers.setdefault(item["by"], []).append(item)
    await sim.within(
        asyncio.gather(*(caller(commanders, x) for x in callers.values())),
        3600.0, "stuck-caller", "callers",
    )
    bound = 20.0 + sum(
        len(x.want_hooked) + 25 for x in commanders
    ) * (plan["slow_us"] / 1e6 + 0.6)
    for item in commanders:
        await sim.within(
            item.outgoing_commands.join(), bound, "queue-not-drained",
            f"{item.label}: {item.outgoing_commands.qsize()} queued commands "
            f"weren't processed (processing task: {runner})",
        )
    await asyncio.sleep(0.001)
    sim.check(
        not runner.done(), "processing-died",
        lambda: f"the task processing commands ended: {runner}",
    )
    for item in commanders:
        sim.check(
            item.hooked == item.want_hooked, "hook-history",
            lambda: first_diff(item.hooked, item.want_hooked),
        )
        sim.check(
            item.handled == item.want_handled, "handler-history",
            lambda: f"{item.label}: handlers ran for "
            f"{first_diff(item.handled, item.want_handled)}: "
            f"{brief(item.handled[-4:], 500)}",
        )
    await sim.within(task.stop(), 10.0, "stop", "housekeeping stop")
    sim.nontrivial = any(x.hooked for x in commanders)

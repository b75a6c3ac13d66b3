"""
C17: waiting on channel conditions, sampling channels and change callbacks.

A number of tasks update channels (through every way the interfaces offer),
while others wait for conditions, sample, register and remove callbacks. The
history of updates decides what each of them had to see.
"""

import asyncio
from io import BytesIO
import math

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.primitives import Bool, Double, Float, Int8, Int32, Uint16
from runtimepy.primitives.evaluation import (
    OPERATOR_MAP,
    EvalResult,
    Operator,
)

from dst.util import brief, cancel_all, swarm_loop

SLACK = 3.0
OPS = [x.name for x in OPERATOR_MAP]
CHANS = ["i8", "i32", "u16s", "f32", "f64", "f64s", "flag", "mode"]
SCALED = {"u16s": [10, 0.5], "f64s": [-4.0, 2.0]}
FLOATS = {"f32", "f64", "f64s"}
MODES = {"idle": 0, "run": 1, "halt": 5, "lost": 9}


def gen_value(rng, name: str):
    """A raw value for a channel."""
    if name == "flag":
        return rng.random() < 0.5
    if name == "mode":
        return rng.choice(list(MODES.values()))
    if name in FLOATS:
        if rng.random() < 0.06:
            return "nan"
        if rng.random() < 0.1:
            return rng.choice([0.1, 1e-3, 3.3])
        return rng.randint(-4, 4) * 0.5
    low = 0 if name == "u16s" else -3
    return rng.randint(low, low + rng.choice([3, 6]))


def gen_us(rng) -> int:
    """Some duration."""
    return rng.choice([0, 0, 10, 500, 20_000, 300_000]) or 0


def gen(rng, tier):
    """Generate a plan."""
    chans = rng.sample(CHANS, rng.choice([1, 1, 2, 3]))
    writers = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 6, 15, 40])):
            name = rng.choice(chans)
            ops.append(
                {
                    "chan": name,
                    "value": gen_value(rng, name),
                    "via": rng.choice(
                        ["value", "value", "call", "set", "env", "apply",
                         "bytes", "stream", "inc"]
                    ),
                    "us": gen_us(rng),
                }
            )
        writers.append(ops)
    actors = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        name = rng.choice(chans)
        kind = rng.choice(
            ["wait", "wait", "wait", "sample", "callback", "once", "churn",
             "clamp"] if rng.random() < 0.3 else
            ["wait", "wait", "sample", "callback", "once", "churn"]
        )
        item = {
            "kind": kind,
            "chan": name,
            "at_us": gen_us(rng),
            "timeout_us": rng.choice([0, 100, 5000, 400_000, 2_000_000]),
            "cancel_us": rng.choice([0, 0, 0, 50, 30_000, 400_000]),
            "target": gen_value(rng, name),
        }
        if item["target"] == "nan" or (
            name in FLOATS and item["target"] * 2 % 1
        ):
            item["target"] = 1.5
        if kind == "wait":
            item["op"] = rng.choice(OPS + ["EQUAL"] * 3)
            item["close"] = name in FLOATS and rng.random() < 0.3
            item["repeat"] = rng.choice([1, 1, 3])
        elif kind == "sample":
            item["count"] = rng.choice([-1, -1, 1, 2, 5])
            item["current"] = rng.random() < 0.6
            item["slow_us"] = rng.choice([0, 0, 100, 30_000, 500_000])
            item["break"] = rng.choice([0, 0, 0, 1, 3])
        else:
            item["hold_us"] = rng.choice([100, 50_000, 1_000_000])
            item["adds"] = rng.choice([0, 1, 2])
            item["drops"] = rng.choice([0, 1, 3])
        actors.append(item)
    return {
        "chans": chans,
        "loop": swarm_loop(rng),
        "net": {},
        "ops": [{"writers": w} for w in writers]
        + [{"actor": a} for a in actors],
    }


class Entry:
    """One update."""

    def __init__(self, when, old, stored, given, stamp):
        self.when = when
        self.old = old
        self.stored = stored
        self.given = given
        self.stamp = stamp
        self.told: dict = {}
        self.fuzzy: set = set()
        self.nested = False

    @property
    def changed(self) -> bool:
        """Whether this update is a change callbacks must hear about."""
        return self.stored == self.stored and self.old != self.stored

    def __repr__(self) -> str:
        return f"{self.old}->{self.stored}@{self.when:.6f}"


class Watched:
    """A channel with a history of its updates."""

    def __init__(self, sim, env, name):
        self.sim = sim
        self.env = env
        self.name = name
        self.prim = env.field_or_channel(name).raw
        self.history: list = []
        self.active: list = []
        self.live: dict = {}  # callback -> history index registered at
        self.idents: dict = {}
        self.everyone: list = []
        self.reentrant = False

    def update(self, value, via: str) -> None:
        """Update the channel one way or another."""
        prim = self.prim
        if value == "nan":
            value = math.nan
        if self.name == "flag":
            value = bool(value)
        old = prim.value
        inc = 0
        if via == "inc":
            if self.name in FLOATS or self.name == "flag":
                via = "value"
            else:
                inc = value - old
        probe = prim.kind.instance()
        probe.value = value
        # The values handed over over the wire are those of the type.
        given = probe.value if via in ("bytes", "stream") else value
        entry = Entry(self.sim.now, old, probe.value, given,
                      None)
        entry.nested = bool(self.active)
        if self.active:
            self.reentrant = True
        self.history.append(entry)
        self.active.append(entry)
        self.sim.event("set", self.name, repr(value))
        if via == "call":
            prim(value)
        elif via == "set":
            entry.stamp = 1_000 + len(self.history)
            prim.set_value(value, timestamp_ns=entry.stamp)
        elif via == "env":
            self.env.set(self.name, value, scaled=False)
        elif via == "apply":
            if self.name == "mode":
                names = {v: k for k, v in MODES.items()}
                self.env.apply({self.name: names[value]})
            elif value == value and prim.invert(prim.scale(value)) == value:
                self.env.apply({self.name: prim.scale(value)})
            else:
                prim.value = value
        elif via == "bytes":
            prim.update(prim.encode(value))
        elif via == "stream":
            prim.from_stream(BytesIO(prim.encode(value)))
        elif via == "inc":
            prim.increment(inc)
        else:
            prim.value = value
        self.active.remove(entry)
        if not entry.nested and not self.reentrant:
            if via == "set":
                self.sim.check(
                    prim.last_updated_ns == entry.stamp, "timestamp",
                    f"{self.name}: explicit timestamp not kept",
                )
            entry.stamp = prim.last_updated_ns
        if entry.stored == entry.stored and not self.reentrant:
            self.sim.check(
                prim.value == entry.stored, "value-lost",
                lambda: f"{self.name}: set to {value!r} by {via} but reads "
                f"{prim.value!r}",
            )

    def register(self, item) -> None:
        """Register a callback and expect its calls from now on."""
        for entry in self.active:
            entry.fuzzy.add(item)
        self.live[item] = len(self.history)
        self.everyone.append(item)
        item.start = len(self.history)
        item.ident = self.prim.register_callback(item, once=item.once)

    def unregister(self, item) -> None:
        """Remove a callback."""
        if item.stop is not None:
            return
        for entry in self.active:
            entry.fuzzy.add(item)
        item.stop = len(self.history)
        self.live.pop(item, None)
        found = self.prim.remove_callback(item.ident)
        self.sim.check(
            found or item.once, "callback-vanished",
            f"{self.name}: registered callback was gone",
        )


class Cb:
    """A recording callback."""

    def __init__(self, watched, spec):
        self.watched = watched
        self.spec = spec
        self.once = spec["kind"] == "once"
        self.calls: list = []
        self.start = 0
        self.stop = None
        self.ident = -1
        self.adds = spec.get("adds", 0) if spec["kind"] == "churn" else 0
        self.drops = spec.get("drops", 0) if spec["kind"] == "churn" else 0

    def __call__(self, old, new) -> None:
        self.calls.append((old, new))
        wat = self.watched
        wat.sim.event("cb", wat.name, repr(new))
        if self.adds:
            self.adds -= 1
            kind = "once" if self.adds else "callback"
            wat.sim.probe("callback_added_in_callback")
            wat.register(Cb(wat, {"kind": kind}))
        elif self.drops:
            self.drops -= 1
            if wat.live:
                wat.sim.probe("callback_removed_in_callback")
                keys = [x for x in wat.live if not x.once]
                if keys:
                    wat.unregister(
                        keys[wat.sim.choices.pick(
                            f"drop.{wat.name}", 0,
                            lambda r: r.randrange(len(keys))
                        ) % len(keys)]
                    )
        if self.spec["kind"] == "clamp" and wat.name != "flag":
            low = self.spec["target"]
            if new > low and len(wat.active) < 4:
                wat.sim.probe("nested_set")
                wat.update(low, "value")

    def verify(self) -> None:
        """Check the calls against the history."""
        wat = self.watched
        stop = len(wat.history) if self.stop is None else self.stop
        want = []
        for idx, entry in enumerate(wat.history):
            if not entry.changed:
                continue
            if self.start <= idx < stop and self not in entry.fuzzy:
                want.append((entry, True))
            elif self in entry.fuzzy:
                want.append((entry, False))
        calls = [(a, b) for a, b in self.calls]
        fail = None
        if self.once:
            # Once is once, and at the first certain change at the latest.
            sure = [e for e, must in want if must]
            if len(calls) > 1:
                fail = f"one-shot callback ran {len(calls)} times"
            elif sure and not calls and not wat.reentrant:
                fail = "one-shot callback never ran"
            elif calls and not any(
                match(calls[0], e) for e, _ in want
            ):
                fail = f"one-shot callback ran for {calls[0]}"
            elif calls and sure and not wat.reentrant:
                first = want[: [m for _, m in want].index(True) + 1]
                if not any(match(calls[0], e) for e, _ in first):
                    fail = f"one-shot callback missed {sure[0]}"
        else:
            rest = list(calls)
            if wat.reentrant:
                # The order of nested changes isn't specified.
                for entry, must in sorted(want, key=lambda x: not x[1]):
                    for i, call in enumerate(rest):
                        if match(call, entry):
                            del rest[i]
                            break
                    else:
                        if must:
                            fail = f"missed {entry}"
                            break
            else:
                # At most the changes during which it came and went are
                # optional.
                maybe = [e for e, must in want if not must]
                for mask in range(1 << len(maybe)):
                    skip = [e for i, e in enumerate(maybe) if mask >> i & 1]
                    seq = [e for e, _ in want if e not in skip]
                    if len(seq) == len(calls) and all(
                        match(c, e) for c, e in zip(calls, seq)
                    ):
                        break
                else:
                    fail = f"expected {brief([e for e, _ in want], 400)}"
                rest = []
            if fail is None and rest:
                fail = f"spurious or repeated calls {brief(rest)}"
        wat.sim.check(
            fail is None, "callback-calls",
            lambda: f"{wat.name}: {fail}; history {brief(wat.history, 600)}; "
            f"calls {brief(self.calls, 600)}",
        )


def match(call, entry) -> bool:
    """Whether a call belongs to a change."""
    old, new = call
    same_old = old == entry.old or (old != old and entry.old != entry.old)
    return same_old and new in (entry.given, entry.stored)


def build() -> ChannelEnvironment:
    """Build an environment."""
    env = ChannelEnvironment()
    env.enum("Mode", "int", items=MODES)
    env.int_channel("i8", Int8())
    env.int_channel("i32", Int32())
    env.int_channel("u16s", Uint16(), scaling=SCALED["u16s"])
    env.float_channel("f32", Float())
    env.float_channel("f64", Double())
    env.float_channel("f64s", Double(), scaling=SCALED["f64s"])
    env.bool_channel("flag", Bool())
    env.int_channel("mode", "uint8", enum="Mode")
    env.finalize(strict=False)
    return env


async def waiter(sim, wat, spec) -> None:
    """Wait for a condition."""
    await asyncio.sleep(spec["at_us"] / 1e6)
    env, name, prim = wat.env, wat.name, wat.prim
    target = spec["target"]
    oper = Operator[spec["op"]]
    timeout = spec["timeout_us"] / 1e6
    scaled = prim.scale(target)

    for _ in range(spec["repeat"]):
        def met(value) -> bool:
            if name == "flag" or name == "mode":
                return value == target
            if spec["close"]:
                return math.isclose(prim.scale(value), scaled, abs_tol=0.6)
            return OPERATOR_MAP[oper](target, value)

        if name == "flag":
            coro = env.wait_for_bool(name, target, timeout)
        elif name == "mode":
            names = {v: k for k, v in MODES.items()}
            coro = env.wait_for_enum(name, names[target], timeout)
        elif spec["close"]:
            coro = env.wait_for_numeric_isclose(
                name, scaled, timeout, abs_tol=0.6
            )
        else:
            coro = env.wait_for_numeric(name, scaled, timeout, operation=oper)

        start = len(wat.history)
        began = sim.now
        initial = prim.value
        try:
            result = await coro
        except asyncio.CancelledError:
            sim.probe("wait_cancelled")
            raise
        ended = sim.now
        sim.event("wait", name, spec["op"], int(result))
        sim.check(
            isinstance(result, EvalResult), "wait-result", repr(result)
        )
        during = wat.history[start:]
        hit = None
        if met(initial):
            hit = began
        else:
            for entry in during:
                if entry.changed and met(entry.given):
                    hit = entry.when
                    break

        def why() -> str:
            return (
                f"{name}: wait for {spec['op']} {target} (from {initial}, "
                f"{began:.6f}..{ended:.6f}, timeout {timeout}) returned "
                f"{result!r}; updates {brief(during, 500)}"
            )

        if result:
            sim.check(hit is not None, "false-success", why)
            sim.check(ended - hit <= SLACK, "late-success", why)
            sim.probe("wait_success")
        else:
            sim.check(
                hit is None or hit >= began + timeout - 1e-9,
                "missed-success", why,
            )
            sim.check(ended >= began + timeout - 1e-6, "early-timeout", why)
            sim.check(ended <= began + timeout + SLACK, "late-timeout", why)
            sim.probe("wait_timeout")


async def sampler(sim, wat, spec) -> None:
    """Sample a channel."""
    await asyncio.sleep(spec["at_us"] / 1e6)
    env, name, prim = wat.env, wat.name, wat.prim
    timeout = spec["timeout_us"] / 1e6
    kwargs = {"count": spec["count"], "current": spec["current"]}
    if name == "flag":
        agen = env.sample_bool_for(name, timeout, **kwargs)
    elif name == "mode":
        agen = env.sample_enum_for(name, timeout, **kwargs)
    elif name in FLOATS:
        agen = env.sample_float_for(name, timeout, scale=False, **kwargs)
    else:
        agen = env.sample_int_for(name, timeout, scale=False, **kwargs)

    start = len(wat.history)
    began = sim.now
    initial = (prim.value, prim.last_updated_ns)
    got = []
    stopped = False
    own = asyncio.current_task()
    try:
        async for sample in agen:
            if name == "mode":
                sample = (MODES[sample[0]], sample[1])
            got.append(sample)
            sim.event("sample", name, repr(sample[0]))
            if spec["slow_us"]:
                sim.probe("slow_consumer")
                await asyncio.sleep(spec["slow_us"] / 1e6)
            if spec["break"] and len(got) >= spec["break"]:
                stopped = True
                sim.probe("sampler_left")
                break
    except asyncio.CancelledError:
        sim.check(
            getattr(own, "sim_cancelled", False), "consumer-cancelled",
            f"{name}: sampling with timeout {timeout} cancelled the task "
            f"that consumes the samples (after {len(got)} samples)",
        )
        # The traceback would keep it alive.
        await agen.aclose()
        raise
    del agen
    ended = sim.now

    want = [(initial[0], initial[1], began)] if spec["current"] else []
    for entry in wat.history[start:]:
        if entry.changed:
            want.append((entry.given, entry.stamp, entry.when))
    if spec["count"] > 0:
        want = want[: spec["count"]]

    def why() -> str:
        return (
            f"{name}: sampled {brief(got, 400)} of {brief(want, 400)} "
            f"({began:.6f}..{ended:.6f}, timeout {timeout}, "
            f"count {spec['count']})"
        )

    for i, (value, stamp) in enumerate(got):
        sim.check(i < len(want), "extra-sample", why)
        if not wat.reentrant:
            sim.check(
                value == want[i][0] or value != value, "wrong-sample", why
            )
            sim.check(stamp == want[i][1], "sample-timestamp", why)
    if not stopped:
        limit = began + timeout
        must = [x for x in want if x[2] < limit - 1e-9]
        sim.check(len(got) >= len(must), "missed-sample", why)
        if not (spec["count"] > 0 and len(got) == spec["count"]):
            sim.check(ended >= limit - 1e-6, "early-end", why)
        sim.check(
            ended <= limit + SLACK + (len(got) + 1) * spec["slow_us"] / 1e6
            + (len(got) * 0.6 if spec["slow_us"] else 0),
            "late-end", why,
        )
        sim.probe("sampler_done")


async def callbacks(sim, wat, spec) -> None:
    """Register a callback for some time."""
    await asyncio.sleep(spec["at_us"] / 1e6)
    item = Cb(wat, spec)
    wat.register(item)
    await asyncio.sleep(spec["hold_us"] / 1e6)
    if not item.once or sim.choices.pick(
        f"leave.{wat.name}", 0, lambda r: int(r.random() < 0.5)
    ):
        wat.unregister(item)


async def writer(sim, watched, ops) -> None:
    """Update channels."""
    for item in ops:
        if item["us"]:
            await asyncio.sleep(item["us"] / 1e6)
        watched[item["chan"]].update(item["value"], item["via"])


async def canceller(task, secs) -> None:
    """Cancel a task after a while."""
    await asyncio.sleep(secs)
    if not task.done():
        task.sim_cancelled = True
        task.cancel()


async def scenario(sim, plan):
    """Run."""
    env = build()
    watched = {x: Watched(sim, env, x) for x in plan["chans"]}
    tasks = []
    helpers = []
    loop = asyncio.get_running_loop()
    for item in plan["ops"]:
        if "writers" in item:
            tasks.append(
                loop.create_task(writer(sim, watched, item["writers"]))
            )
            continue
        spec = item["actor"]
        wat = watched[spec["chan"]]
        func = {"wait": waiter, "sample": sampler}.get(
            spec["kind"], callbacks
        )
        task = loop.create_task(func(sim, wat, spec))
        tasks.append(task)
        if spec["cancel_us"] and func is not callbacks:
            sim.fault("cancelled_waiter")
            helpers.append(
                loop.create_task(canceller(task, spec["cancel_us"] / 1e6))
            )

    done, pending = await asyncio.wait(tasks, timeout=300.0)
    sim.check(not pending, "stuck", f"{len(pending)} tasks never finished")
    for task in tasks:
        if task.cancelled():
            sim.check(
                getattr(task, "sim_cancelled", False), "consumer-cancelled",
                "a task was cancelled by someone else",
            )
        else:
            task.result()
    await cancel_all(*helpers)
    await asyncio.sleep(1.0)

    for wat in watched.values():
        for item in wat.everyone:
            item.verify()
        for item in list(wat.live):
            if not item.once:
                wat.unregister(item)
            else:
                # Either it ran, or it's still there.
                sim.check(
                    wat.prim.remove_callback(item.ident) != bool(item.calls),
                    "one-shot-registration",
                    f"{wat.name}: one-shot callback with "
                    f"{len(item.calls)} calls",
                )
        sim.check(
            not wat.prim.callbacks, "left-registered",
            lambda: f"{wat.name}: {len(wat.prim.callbacks)} callbacks "
            "remain after every waiter and sampler ended",
        )
    sim.nontrivial = any(len(w.history) > 1 for w in watched.values())

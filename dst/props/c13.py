"""
C13: periodic tasks - serial dispatch, pacing, ending and running again.
"""

import asyncio

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.task import AsyncTask, PeriodicTask, PeriodicTaskManager

from dst.util import cancel_all, swarm_loop

SLACK = 2.5
EPS = 1e-6


def gen(rng, tier):
    """Generate a plan."""
    kind = rng.choice(["periodic"] * 3 + ["async"])
    count = 1 if kind == "async" else rng.choice([1, 1, 2])
    ops = []
    actors = rng.choice([1, 1, 2, 3])
    verbs = (
        ["run", "disable", "cancel", "sig", "command", "wait_end"]
        if kind == "async"
        else ["start", "start", "stop", "stop", "disable", "sig", "cancel",
              "pause", "unpause", "period", "quiet_pause", "all_start",
              "all_stop"]
    )
    ops.append({"by": 0, "task": 0, "op": verbs[0], "us": 0})
    for _ in range(rng.choice([1, 3, 8, 16])):
        ops.append(
            {
                "by": rng.randrange(actors),
                "task": rng.randrange(count),
                "op": rng.choice(verbs),
                "us": rng.choice([0, 0, 10, 700, 40_000, 300_000, 2_000_000]),
                "period_us": rng.choice([2_000, 10_000, 50_000, 400_000]),
            }
        )
    return {
        "kind": kind,
        "count": count,
        "period_us": rng.choice([2_000, 10_000, 50_000, 400_000, 1_000_000]),
        "dur_us": rng.choice([0, 0, 1_000, 30_000, 500_000, 1_500_000]),
        "p_false": rng.choice([0, 0, 0.02, 0.2]),
        "p_raise": rng.choice([0, 0, 0.02, 0.2]),
        "p_self": rng.choice([0, 0, 0, 0.1]),
        "max_iterations": rng.choice([0, 0, 1, 7, 300]),
        "loop": swarm_loop(rng),
        "net": {},
        "ops": ops,
        "final": rng.choice(["start", "exit", "raise", "cancel", "sig"]),
    }


class SimulatedError(Exception):
    """What a broken dispatch raises."""


class Watch:
    """What is known about a task."""

    def __init__(self, sim, plan, name):
        self.sim = sim
        self.plan = plan
        self.name = name
        self.busy = False
        self.starts: list = []
        self.returned = 0
        self.raised = 0
        self.sure_overruns = 0
        self.maybe_overruns = 0
        self.last_start = None
        self.last_end = 0.0
        self.task = None
        self.run_began = None  # since when it's known to run
        self.allowed = None  # dispatches still allowed (none: any)
        self.end_cause = ""
        self.ends_at = None  # when the run has to have ended
        self.starting = 0
        self.start_calls = 0
        self.stopping = 0
        self.paused = False
        self.paused_at = 0.0
        self.resumed = 0.0
        self.periods: list = []  # (when, period)
        self.self_stop = None
        # Whether a stop overlapped a start (either may have come last).
        self.ambiguous = False
        self.cause_at = 0.0
        loop = plan["loop"]
        self.exact = not loop.get("p_stall")
        self.tight = 0.001 + 200e-9 * loop.get("iter_cost_ns", 1000)
        self.extras = 0
        self.jitter = EPS + 20e-9 * loop.get("iter_cost_ns", 1000)
        if loop.get("p_stall"):
            self.jitter += loop["stall_max_s"] * 3

    def period_range(self, since: float):
        """The periods in effect since some time."""
        vals = []
        for idx, (_, val) in enumerate(self.periods):
            nxt = (
                self.periods[idx + 1][0]
                if idx + 1 < len(self.periods)
                else float("inf")
            )
            if nxt >= since - EPS:
                vals.append(val)
        return min(vals), max(vals)

    def set_period(self, val: float) -> None:
        """Record a new period."""
        self.periods.append((self.sim.now, val))

    def caused(self, cause: str, allowed: int, extra: float = 0.0) -> None:
        """The run has to end."""
        if self.allowed != 0:
            self.cause_at = self.sim.now
        if self.ends_at is None:
            self.sim.event("cause", self.name, cause)
            self.end_cause = cause
            wait = self.period_range(self.sim.now)[1]
            dur = self.plan["dur_us"] / 1e6
            self.ends_at = self.sim.now + (wait + dur) * (1 + allowed) + \
                SLACK + extra
        if self.allowed is None or allowed < self.allowed:
            self.allowed = allowed

    def began(self) -> None:
        """A new run was started."""
        self.allowed = None
        self.ends_at = None
        self.end_cause = ""
        self.run_began = self.sim.now
        self.last_start = None

    def ended(self) -> None:
        """The run is known to have ended."""
        self.run_began = None
        self.ends_at = None
        self.allowed = 0
        self.cause_at = -1e9
        self.end_cause = self.end_cause or "ended"

    def check_gap(self, now: float, final: bool = False) -> None:
        """Check that dispatches keep coming."""
        if self.run_began is None or self.paused or self.ends_at is not None:
            return
        if self.starting or self.stopping or self.busy or self.ambiguous:
            return
        since = max(self.run_began, self.resumed)
        if self.last_start is not None:
            since = max(since, self.last_end)
        _, most = self.period_range(since)
        self.sim.check(
            now - since <= most + SLACK, "late-dispatch",
            f"{self.name}: no dispatch between {since:.6f} and {now:.6f} "
            f"(period {most}{', at the end' if final else ''})",
        )

    def enter(self) -> None:
        """A dispatch starts."""
        sim, now = self.sim, self.sim.now
        sim.event("dispatch", self.name)
        sim.check(
            not self.busy, "overlapping-dispatches",
            f"{self.name}: dispatch started at {now:.6f} while the previous "
            "one hadn't finished",
        )
        self.check_gap(now)
        if self.allowed is not None and not (
            self.starting or self.ambiguous
        ):
            # The dispatch may have been on its way when the cause occurred.
            sim.check(
                self.allowed > 0 or now - self.cause_at <= self.jitter,
                "dispatch-after-end",
                f"{self.name}: dispatched at {now:.6f} after it ended by "
                f"{self.end_cause}",
            )
            self.allowed -= 1
        sim.check(
            not self.paused or now - self.paused_at <= self.jitter,
            "dispatch-while-paused",
            f"{self.name}: dispatched at {now:.6f} while paused",
        )
        if self.last_start is not None and not (
            self.starting or self.ambiguous
        ):
            least, _ = self.period_range(self.last_start)
            gap = now - self.last_start
            sim.check(
                gap >= least * (1 - 1e-6) - self.jitter, "dispatched-early",
                f"{self.name}: dispatched {gap} s after the previous "
                f"dispatch, period {least}",
            )
            _, most = self.period_range(self.last_start)
            took = self.last_end - self.last_start
            if self.exact and self.resumed < self.last_start and (
                not self.paused and not self.stopping
                and isinstance(self.task, PeriodicTask)
            ):
                self.sim.probe("paced")
                sim.check(
                    gap <= max(most, took) * (1 + 1e-6) + self.tight,
                    "off-pace",
                    f"{self.name}: dispatched {gap} s after the previous "
                    f"dispatch, which took {took} s, period {most}",
                )
        self.last_start = now
        self.starts.append(now)
        self.busy = True

    def leave(self, period: float) -> None:
        """A dispatch ends."""
        self.busy = False
        self.last_end = self.sim.now
        took = self.last_end - self.last_start
        # Stalls happen between the measurement and this point, and the period
        # can change between them, too.
        vals = [period] + [x for _, x in self.periods]
        if took > max(vals) + EPS:
            self.sure_overruns += 1
        if took > min(vals) - EPS - SLACK:
            self.maybe_overruns += 1

    async def body(self, task) -> bool:
        """A dispatch."""
        sim, plan = self.sim, self.plan
        self.task = task
        self.enter()
        period = float(task.period_s.value) if isinstance(
            task, PeriodicTask) else 0.0
        try:
            if plan["dur_us"]:
                await asyncio.sleep(
                    sim.choices.pick(
                        f"dur.{self.name}", 0,
                        lambda r: int(r.random() ** 2 * plan["dur_us"]),
                    ) / 1e6
                )
            if sim.choices.pick(
                f"self.{self.name}", 0,
                lambda r: int(r.random() < plan["p_self"]),
            ):
                sim.probe("stopped_by_itself")
                if isinstance(task, PeriodicTask) and sim.choices.pick(
                    f"selfstop.{self.name}", 0, lambda r: r.randrange(2)
                ):
                    self.caused("own stop", 0)
                    self.self_stop = sim.now
                    await task.stop()
                    self.self_stop = None
                else:
                    if task.disable() is not False:
                        self.caused("own disable", 0)
        except asyncio.CancelledError:
            sim.check(
                False, "dispatch-interrupted",
                f"{self.name}: a dispatch in progress was cancelled",
            )
        finally:
            self.leave(period)
        if sim.choices.pick(
            f"raise.{self.name}", 0, lambda r: int(r.random() < plan["p_raise"])
        ):
            sim.fault("dispatch_raises")
            self.raised += 1
            self.caused("exception", 0)
            raise SimulatedError("dispatch")
        self.returned += 1
        if sim.choices.pick(
            f"false.{self.name}", 0, lambda r: int(r.random() < plan["p_false"])
        ):
            sim.fault("dispatch_fails")
            self.caused("failed dispatch", 0)
            return False
        return True


def check_ended(wat, run) -> None:
    """Check that a run which had to end did."""
    if wat.ends_at is None or wat.ambiguous:
        return
    if run is None or run.done():
        return
    wat.sim.check(
        wat.sim.now <= wat.ends_at, "never-ended",
        f"{wat.name}: still running at {wat.sim.now:.6f} after "
        f"{wat.end_cause} (had to end by {wat.ends_at:.6f})",
    )


async def periodic(sim, plan) -> None:
    """Exercise periodic tasks."""

    class Task(PeriodicTask):
        """A task."""

        watch: Watch

        async def dispatch(self) -> bool:
            return await self.watch.body(self)

        async def stop_extra(self) -> None:
            self.watch.extras += 1

    manager: PeriodicTaskManager = PeriodicTaskManager()
    tasks, runs, sigs = [], {}, {}
    for i in range(plan["count"]):
        task = Task(f"task{i}")
        task.watch = Watch(sim, plan, task.name)
        task.watch.set_period(plan["period_us"] / 1e6)
        manager.register(task, period_s=plan["period_us"] / 1e6)
        tasks.append(task)
    other = Task("task0")
    sim.check(
        not manager.register(other) and manager["task0"] is tasks[0],
        "replaced-task", "registering a name again replaced a task",
    )

    async def start(task) -> None:
        wat = task.watch
        if not wat.starting and not wat.stopping:
            wat.ambiguous = False
        wat.starting += 1
        wat.start_calls += 1
        sig = asyncio.Event()

        async def go() -> None:
            # Nothing happens between the start and what follows it.
            try:
                run = await task.task(stop_sig=sig)
            finally:
                wat.starting -= 1
            if not wat.starting:
                sim.probe("started")
                runs[task] = run
                sigs[task] = sig
                run.add_done_callback(
                    lambda _, w=wat, r=run, t=task: over(t, r)
                )
                wat.began()
            else:
                runs[task] = None

        await sim.within(
            go(), 10.0 + plan["dur_us"] / 1e6 * 3,
            "start-stuck", f"{wat.name}: starting it",
        )

    def over(task, run) -> None:
        """A run ended."""
        wat = task.watch
        if not run.cancelled():
            run.exception()
        if runs.get(task) is run and not wat.starting:
            sim.check(
                bool(wat.end_cause) or wat.ambiguous, "ended-alone",
                f"{wat.name}: ended at {sim.now:.6f} for no reason: {run}",
            )
            sim.event("over", wat.name)
            sim.check(
                not wat.busy or wat.self_stop is not None,
                "abandoned-dispatch",
                f"{wat.name}: the task ended (by {wat.end_cause}) while a "
                "dispatch was in progress",
            )
            wat.ended()

    async def stop(task) -> None:
        wat = task.watch
        wat.stopping += 1
        calls = wat.start_calls
        quiet = not wat.starting
        extras = wat.extras
        if quiet:
            wat.caused("stop", 0)
        else:
            wat.ambiguous = True
            sim.probe("stop_overlaps_start")
        try:
            stopped = await sim.within(
                task.stop(), 10.0 + plan["dur_us"] / 1e6 * 3,
                "stop-stuck", f"{wat.name}: stopping it",
            )
            sim.check(
                not stopped or wat.extras > extras, "no-cleanup",
                f"{wat.name}: stopped without its additional actions",
            )
        finally:
            wat.stopping -= 1
        if quiet and calls == wat.start_calls:
            sim.probe("stopped")
            sim.check(
                not wat.busy or wat.self_stop is not None,
                "abandoned-dispatch",
                f"{wat.name}: stop() returned while a dispatch was in "
                "progress",
            )
            run = runs.get(task)
            sim.check(
                run is None or run.done(), "not-stopped",
                f"{wat.name}: stop() returned but it's running",
            )
            wat.ended()
            wat.ambiguous = False

    async def act(item) -> None:
        task = tasks[item["task"]]
        wat = task.watch
        verb = item["op"]
        run = runs.get(task)
        check_ended(wat, run)
        wat.check_gap(sim.now)
        if verb == "start":
            await start(task)
        elif verb == "stop":
            await stop(task)
        elif verb == "all_start":
            await asyncio.gather(*(start(x) for x in tasks))
        elif verb == "all_stop":
            await asyncio.gather(*(stop(x) for x in tasks))
        elif verb == "disable":
            if task.disable() and not wat.starting:
                sim.probe("disabled_busy" if wat.busy else "disabled")
                wat.caused("disable", 0)
        elif verb == "sig":
            if run is not None and not run.done() and not wat.starting:
                sim.probe("stop_signal")
                sigs[task].set()
                wat.caused("stop signal", 1)
        elif verb == "cancel":
            if run is not None and not run.done() and not wat.starting:
                sim.fault("cancel_busy" if wat.busy else "cancel")
                wat.caused("cancellation", 0)
                run.cancel()
        elif verb in ("pause", "quiet_pause"):
            task.paused.value = True
            if not wat.paused:
                wat.paused_at = sim.now
            wat.paused = True
            if verb == "quiet_pause":
                steps = sim.loop.steps
                await asyncio.sleep(3.0)
                steps = sim.loop.steps - steps
                least = min(x[1] for t in tasks for x in t.watch.periods)
                sim.check(
                    steps <= 500 * plan["count"] + 60 * 3.0 / least
                    * plan["count"],
                    "busy-loop",
                    f"{wat.name}: {steps} scheduler steps in 3 s while "
                    f"paused (period {least})",
                )
        elif verb == "unpause":
            task.paused.value = False
            if wat.paused:
                wat.resumed = sim.now
            wat.paused = False
        elif verb == "period":
            task.set_period(item["period_us"] / 1e6)
            wat.set_period(item["period_us"] / 1e6)

    async def actor(ops) -> None:
        for item in ops:
            if item["us"]:
                await asyncio.sleep(item["us"] / 1e6)
            await act(item)

    actors: dict = {}
    for item in plan["ops"]:
        actors.setdefault(item["by"], []).append(item)
    await asyncio.gather(*(actor(x) for x in actors.values()))

    # Let things settle: whatever has to end ends, the rest keeps going.
    await asyncio.sleep(2 * SLACK + 4 * (plan["dur_us"] / 1e6 + 1.0))
    for task in tasks:
        check_ended(task.watch, runs.get(task))
        task.watch.check_gap(sim.now, final=True)
    for task in tasks:
        await stop(task)
    done = [len(x.watch.starts) for x in tasks]
    await asyncio.sleep(3.0)
    sim.check(
        done == [len(x.watch.starts) for x in tasks], "dispatch-after-end",
        "dispatched after everything was stopped",
    )
    for task in tasks:
        wat, met = task.watch, task.metrics
        sim.check(
            wat.returned <= met.dispatches.value <= wat.returned + wat.raised,
            "dispatch-count",
            f"{wat.name}: reports {met.dispatches.value} dispatches, "
            f"{wat.returned} returned and {wat.raised} raised",
        )
        sim.check(
            wat.sure_overruns - wat.raised <= met.overruns.value
            <= wat.maybe_overruns,
            "overrun-count",
            f"{wat.name}: reports {met.overruns.value} overruns, expected "
            f"{wat.sure_overruns}..{wat.maybe_overruns}",
        )
    # It can be run again.
    if plan["final"] == "start":
        for task in tasks:
            wat = task.watch
            if wat.paused:
                task.paused.value = False
                wat.paused = False
            wat.resumed = sim.now
            count = len(wat.starts)
            await start(task)
            await asyncio.sleep(SLACK)
            sim.check(
                len(wat.starts) > count, "does-not-run-again",
                f"{wat.name}: not dispatched again: {runs[task]}",
            )
            await stop(task)
    else:
        await managed(sim, plan, manager, tasks)
    sim.nontrivial = any(x.watch.starts for x in tasks)


async def managed(sim, plan, manager, tasks) -> None:
    """Run all tasks for as long as something else lasts."""
    for task in tasks:
        task.paused.value = False
        task.watch.paused = False
        # What ends tasks isn't of interest here.
        task.watch.ambiguous = True
        task.watch.starting = 1
    final = plan["final"]
    count = [len(x.watch.starts) for x in tasks]
    sig = asyncio.Event()

    async def body() -> None:
        async with manager.running(stop_sig=sig):
            await asyncio.sleep(SLACK)
            for task, num in zip(tasks, count):
                sim.check(
                    len(task.watch.starts) > num, "does-not-run-again",
                    f"{task.name}: not dispatched while running",
                )
            if final == "sig":
                sig.set()
                limit = max(
                    x.watch.period_range(sim.now)[1] for x in tasks
                ) + 2 * plan["dur_us"] / 1e6 + SLACK
                await asyncio.sleep(limit)
                now = [len(x.watch.starts) for x in tasks]
                await asyncio.sleep(limit)
                sim.check(
                    now == [len(x.watch.starts) for x in tasks],
                    "dispatch-after-end", "dispatched after the stop signal",
                )
            elif final == "raise":
                raise SimulatedError("body")
            elif final == "cancel":
                await asyncio.sleep(3600)

    task = asyncio.ensure_future(body())
    if final == "cancel":
        await asyncio.wait([task], timeout=2 * SLACK)
        task.cancel()
    bound = 40 + 10 * (plan["dur_us"] / 1e6) + SLACK
    done, _ = await asyncio.wait([task], timeout=bound)
    sim.check(done, "stop-stuck", f"running tasks ({final})")
    if not task.cancelled() and not isinstance(
        task.exception(), (SimulatedError, type(None))
    ):
        raise task.exception()
    sim.probe(f"managed_{final}")
    for item in tasks:
        sim.check(not item.watch.busy, "abandoned-dispatch",
                  f"{item.name}: dispatching after its manager stopped")
    now = [len(x.watch.starts) for x in tasks]
    await asyncio.sleep(3.0)
    sim.check(
        now == [len(x.watch.starts) for x in tasks], "dispatch-after-end",
        f"dispatched after the manager stopped ({final})",
    )


async def asynchronous(sim, plan) -> None:
    """Exercise an asynchronous task."""

    class Task(AsyncTask):
        """A task."""

        watch: Watch

        async def dispatch(self, *_, **__) -> bool:
            return await self.watch.body(self)

    env = ChannelEnvironment()
    task = Task("task", plan["period_us"] / 1e6, env,
                max_iterations=plan["max_iterations"])
    env.finalize(strict=False)
    wat = task.watch = Watch(sim, plan, "task")
    wat.set_period(plan["period_us"] / 1e6)
    state = {"run": None, "sig": None, "base": 0}
    limit = plan["max_iterations"]

    def over(run) -> None:
        if not run.cancelled():
            run.exception()
        sim.check(
            not wat.busy, "abandoned-dispatch",
            f"the task ended (by {wat.end_cause}) while a dispatch was in "
            "progress",
        )
        count = wat.returned - state["base"]
        if limit and not wat.end_cause:
            sim.check(
                count == limit, "wrong-iterations",
                f"ended after {count} of {limit} iterations",
            )
            sim.probe("max_iterations")
            wat.end_cause = "maximum iterations"
        sim.check(
            not limit or count <= limit, "wrong-iterations",
            f"{count} of at most {limit} iterations",
        )
        sim.check(bool(wat.end_cause), "ended-alone", f"ended: {run}")
        sim.check(
            task.dispatches.raw.value == count or run.cancelled() or
            wat.end_cause == "exception", "dispatch-count",
            f"reports {task.dispatches.raw.value} dispatches of {count}",
        )
        wat.ended()

    async def act(item) -> None:
        verb, run = item["op"], state["run"]
        if run is not None and run.done():
            # What follows its end also comes first here.
            await asyncio.sleep(0.001)
            run = state["run"]
        live = run is not None and not run.done()
        check_ended(wat, run)
        if not (limit and live):
            wat.check_gap(sim.now)
        if verb == "run":
            if not live:
                sim.check(not wat.busy, "abandoned-dispatch", "busy")
                wat.began()
                state["base"] = wat.returned
                state["sig"] = asyncio.Event()
                state["run"] = asyncio.create_task(
                    task.run(stop_sig=state["sig"])
                )
                state["run"].add_done_callback(over)
                await asyncio.sleep(0)
                await asyncio.sleep(0)
                await asyncio.sleep(0)
        elif verb in ("disable", "command") and live and task.enabled:
            sim.probe("disabled_busy" if wat.busy else "disabled")
            wat.caused(verb, 0)
            if verb == "disable":
                task.disable()
            else:
                env.set("task.enabled", "false")
        elif verb == "cancel" and live:
            sim.fault("cancel_busy" if wat.busy else "cancel")
            wat.caused("cancellation", 0)
            run.cancel()
        elif verb == "sig" and live:
            wat.caused("stop signal", 1)
            state["sig"].set()
        elif verb == "wait_end" and live and wat.ends_at:
            await asyncio.sleep(max(0, wat.ends_at - sim.now))

    async def actor(ops) -> None:
        for item in ops:
            if item["us"]:
                await asyncio.sleep(item["us"] / 1e6)
            await act(item)

    actors: dict = {}
    for item in plan["ops"]:
        actors.setdefault(item["by"], []).append(item)
    await asyncio.gather(*(actor(x) for x in actors.values()))
    run = state["run"]
    if limit and not run.done():
        # Run to the end.
        await asyncio.wait(
            [run],
            timeout=limit * (plan["period_us"] + plan["dur_us"] + 50_000)
            / 1e6 * 1.5 + SLACK,
        )
        sim.check(
            run.done(), "wrong-iterations",
            f"still running after {wat.returned - state['base']} of {limit} "
            "iterations",
        )
    await asyncio.sleep(2 * SLACK + 4 * (plan["dur_us"] / 1e6 + 1.0))
    check_ended(wat, run)
    if not run.done():
        wat.check_gap(sim.now, final=True)
    if not run.done():
        wat.caused("disable", 0)
        task.disable()
        await asyncio.sleep(wat.ends_at - sim.now)
        check_ended(wat, run)
        sim.check(run.done(), "never-ended", "still running")
    await cancel_all(run)
    sim.nontrivial = bool(wat.starts)


async def scenario(sim, plan):
    """Run."""
    if plan["kind"] == "async":
        await asynchronous(sim, plan)
    else:
        await periodic(sim, plan)

"""
One simulated run: set-up, execution of a property's scenario, tear-down and
classification of the outcome.
"""

import asyncio
import gc
import json
import logging
import os
from pathlib import Path
import random
import secrets
import shutil
import signal
import socket
import sys
import tempfile
import traceback
import uuid

from dst import clock as _clock
from dst.core import Choices, SimDeadlock, SimLimit, SimLoop, Violation
from dst.disk import SimDisk
from dst.net import FakeSocket, NetCfg, SimNet

REPO = os.environ.get("DST_REPO", "/repo")


class Sim:
    """Everything a scenario needs."""

    def __init__(self, plan: dict, choices: Choices, tmp: Path) -> None:
        self.plan = plan
        self.choices = choices
        self.tmp = tmp
        loop_cfg = dict(plan.get("loop", {}))
        self.loop = SimLoop(choices, **loop_cfg)
        self.net = SimNet(self.loop, NetCfg(**plan.get("net", {})))
        from dst.procs import SimProcs

        self.procs = SimProcs(self.loop)
        self.disk = SimDisk(self, tmp)
        self.nontrivial = True
        self.notes: dict = {}

    # Shorthand.
    def event(self, kind: str, *detail) -> None:
        self.loop.event(kind, *detail)

    def probe(self, name: str, count: int = 1) -> None:
        self.loop.probe(name, count)

    def fault(self, name: str, count: int = 1) -> None:
        self.loop.fault(name, count)

    @property
    def now(self) -> float:
        return self.loop.elapsed_s

    def check(self, cond, cls: str, msg) -> None:
        """Assert an oracle condition."""
        if not cond:
            raise Violation(cls, msg() if callable(msg) else str(msg))

    async def within(self, aw, secs: float, cls: str, what: str):
        """Await something which must finish in bounded simulated time."""
        task = asyncio.ensure_future(aw)
        done, _ = await asyncio.wait([task], timeout=secs)
        if not done:
            stack = "".join(
                f"\n    {f.f_code.co_filename}:{f.f_lineno} "
                f"{f.f_code.co_name}"
                for f in task.get_stack()
            ) if isinstance(task, asyncio.Task) else ""
            task.cancel()
            raise Violation(
                cls, f"{what}: not finished after {secs} simulated s{stack}"
            )
        return task.result()


class Outcome(dict):
    """JSON-able result of a run."""


def _patch_process(rng: random.Random) -> None:
    """Seams which aren't event-loop methods (in the forked child only)."""

    socket.getfqdn = lambda name="": "sim.host"
    socket.gethostname = lambda: "sim.host"

    def gethostbyaddr(addr):
        if addr == "127.0.0.1":
            return ("localhost", [], [addr])
        raise socket.herror(1, "Unknown host")

    socket.gethostbyaddr = gethostbyaddr

    def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
        addr = {"localhost": "127.0.0.1", "sim.host": "127.0.0.1"}.get(
            host, host or "0.0.0.0"
        )
        return [(socket.AF_INET, type or 1, 0, "", (addr, port or 0))]

    socket.getaddrinfo = getaddrinfo
    socket.socket = FakeSocket

    def urandom(count):
        return rng.randbytes(count)

    os.urandom = urandom
    secrets.token_bytes = lambda n=32: rng.randbytes(n)
    secrets.token_hex = lambda n=16: rng.randbytes(n).hex()
    secrets.randbits = rng.getrandbits
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)
    random.seed(rng.getrandbits(64))


def execute(mod, plan: dict, seed, recorded, tmp: Path,
            verbose: bool = False) -> Outcome:
    """Run one simulation to completion in this process."""

    choices = Choices(seed, recorded)
    _patch_process(random.Random(f"env-{plan.get('env_seed', 0)}"))
    gc.disable()
    out = Outcome(status="ok", cls="", msg="")
    sim = Sim(plan, choices, tmp)
    sim.disk.install()
    tempfile.tempdir = str(tmp)
    loop = sim.loop
    _clock.activate(loop.clock)
    asyncio.set_event_loop(loop)
    if verbose:
        logging.basicConfig(
            level=logging.DEBUG if verbose == 2 else logging.INFO,
            stream=sys.stderr,
            format="%(created).6f %(name)s %(levelname)s %(message)s",
            force=True,
        )
    else:
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        root.handlers[:] = [logging.NullHandler()]
        root.setLevel(logging.INFO)

    try:
        loop.run_until_complete(mod.scenario(sim, plan))
    except Violation as exc:
        out.update(status="violation", cls=exc.cls, msg=exc.msg)
    except SimDeadlock as exc:
        out.update(
            status="violation", cls="deadlock",
            msg=f"{exc} at {loop.elapsed_s:.6f} s{_stacks(loop)}",
        )
    except SimLimit as exc:
        out.update(
            status="violation", cls="no-progress",
            msg=f"{exc} at {loop.elapsed_s:.6f} s{_stacks(loop)}",
        )
    except BaseException as exc:  # pylint: disable=broad-except
        frames = traceback.extract_tb(exc.__traceback__)
        text = "".join(
            traceback.format_exception(type(exc), exc, exc.__traceback__)
        )
        if any(f.filename.startswith(REPO + "/runtimepy") for f in frames):
            out.update(
                status="violation",
                cls=f"unexpected-{type(exc).__name__}",
                msg=text[-3000:],
            )
        else:
            out.update(
                status="harness_error", cls=type(exc).__name__,
                msg=text[-3000:],
            )
    if Violation.first is not None:
        out.update(
            status="violation", cls=Violation.first.cls,
            msg=Violation.first.msg,
        )
    if verbose:
        for msg, exc in loop.errors:
            print("loop error:", msg, repr(exc), file=sys.stderr)
    _clock.activate(None)
    out.update(
        trace=loop.trace_hash,
        sig=loop.sig_hash,
        events=len(loop.log_events),
        steps=loop.steps,
        sim_s=loop.elapsed_s,
        faults=loop.faults,
        probes=loop.probes,
        net=sim.net.counts,
        nontrivial=bool(sim.nontrivial),
        notes=sim.notes,
        choices=choices.recorded,
        decisions=choices.total,
    )
    if verbose == 2:
        for evt in loop.log_events:
            print(evt, file=sys.stderr)
    return out


def _stacks(loop) -> str:
    lines = []
    for task in sorted(asyncio.all_tasks(loop), key=hash)[:12]:
        stack = task.get_stack(limit=1)
        if stack:
            frame = stack[-1]
            lines.append(
                f"\n    {task.get_coro().__qualname__} at "
                f"{frame.f_code.co_filename}:{frame.f_lineno}"
            )
    return "".join(lines)


def run_forked(mod, plan: dict, seed, recorded, wall_s: float = 60.0,
               verbose: bool = False) -> Outcome:
    """Run one simulation in a forked child: runs can't see each other."""

    tmp = Path(f"/tmp/dst-run-{os.getpid():08d}")
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        code = 1
        try:
            os.chdir(tmp)
            if not verbose:
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
            # The alarm's default action ends the child.
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, wall_s)
            out = execute(mod, plan, seed, recorded, tmp, verbose=verbose)
            data = json.dumps(out).encode()
            with os.fdopen(wfd, "wb") as stream:
                stream.write(data)
            code = 0
        except BaseException:  # pylint: disable=broad-except
            try:
                with os.fdopen(wfd, "wb") as stream:
                    stream.write(
                        json.dumps(
                            {
                                "status": "harness_error",
                                "cls": "child",
                                "msg": traceback.format_exc()[-3000:],
                            }
                        ).encode()
                    )
            except BaseException:  # pylint: disable=broad-except
                pass
        finally:
            os._exit(code)

    os.close(wfd)
    chunks = []
    with os.fdopen(rfd, "rb") as stream:
        while True:
            chunk = stream.read(1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(tmp, ignore_errors=True)
    data = b"".join(chunks)
    base = dict(
        trace="", sig="", events=0, steps=0, sim_s=0.0, faults={}, probes={},
        net={}, nontrivial=False, notes={}, choices={}, decisions=0,
    )
    if data:
        base.update(json.loads(data))
    elif os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
        base.update(
            status="violation", cls="wall-hang",
            msg=f"no control returned to the scheduler for {wall_s} s",
        )
    else:
        base.update(
            status="harness_error", cls="child-died",
            msg=f"wait status {status}",
        )
    return Outcome(base)

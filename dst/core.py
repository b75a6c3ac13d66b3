"""
The simulator core: seeded choices, the virtual-time event loop and its
event log.
"""

import asyncio
import asyncio.base_events
import hashlib
import random
import socket as _socket

from dst import clock as _clock


class SimLimit(BaseException):
    """A run exceeded its step or simulated-time budget."""


class SimDeadlock(BaseException):
    """Nothing is runnable and no timer or event is pending."""


class Violation(Exception):
    """A property violation ('cls' is the stable class of the failure)."""

    # The first violation of this process: it may be raised where something
    # swallows it or where clean-up then hangs.
    first = None

    def __init__(self, cls: str, msg: str) -> None:
        super().__init__(f"[{cls}] {msg}")
        self.cls = cls
        self.msg = msg
        if Violation.first is None:
            Violation.first = self


class Choices:
    """
    Every nondeterministic decision of a run.

    In search mode decisions are drawn from per-site PRNG streams derived from
    the run's seed and each decision that differs from the site's default is
    recorded under 'site#n'. In replay mode a decision is what was recorded,
    else the default. A run is therefore a pure function of
    (plan, recorded choices, code).
    """

    def __init__(self, seed, recorded=None) -> None:
        self.seed = seed
        self.replay = recorded is not None
        self.recorded = dict(recorded) if recorded else {}
        self._rngs: dict = {}
        self._counts: dict = {}
        self.total = 0

    def rng(self, site: str) -> random.Random:
        """The PRNG stream for one site."""
        if site not in self._rngs:
            digest = hashlib.sha256(f"{self.seed}|{site}".encode()).digest()
            self._rngs[site] = random.Random(int.from_bytes(digest[:8], "big"))
        return self._rngs[site]

    def pick(self, site: str, default, gen):
        """Make one decision."""
        n = self._counts.get(site, 0)
        self._counts[site] = n + 1
        self.total += 1
        key = f"{site}#{n}"
        if self.replay:
            return self.recorded.get(key, default)
        val = gen(self.rng(site))
        if val != default:
            self.recorded[key] = val
        return val

    def chance(self, site: str, prob: float) -> bool:
        """Decide whether or not something with a probability occurs."""
        if prob <= 0.0 and not self.replay:
            # Occurrence numbers must not depend on the search mode.
            self._counts[site] = self._counts.get(site, 0) + 1
            return False
        return bool(self.pick(site, 0, lambda r: int(r.random() < prob)))


class SimTask(asyncio.Task):
    """A task whose hash (thus set order) doesn't depend on its address."""

    _seq = 0

    def __init__(self, *args, **kwargs) -> None:
        SimTask._seq += 1
        self._sim_seq = SimTask._seq
        super().__init__(*args, **kwargs)

    def __hash__(self) -> int:
        return self._sim_seq


class SimFuture(asyncio.Future):
    """A future whose hash doesn't depend on its address."""

    _seq = 0

    def __init__(self, *args, **kwargs) -> None:
        SimFuture._seq += 1
        self._sim_seq = SimFuture._seq + (1 << 40)
        super().__init__(*args, **kwargs)

    def __hash__(self) -> int:
        return self._sim_seq


class _Selector:
    """The selector of a simulated loop: advances simulated time."""

    def __init__(self, loop: "SimLoop") -> None:
        self.loop = loop

    def select(self, timeout):
        self.loop._advance(timeout)
        return []

    def get_map(self):
        return {}

    def close(self) -> None:
        return None


class SimLoop(asyncio.base_events.BaseEventLoop):
    """An asyncio event loop which runs in simulated time."""

    def __init__(
        self,
        choices: Choices,
        max_steps: int = 200_000,
        max_time_s: float = 200_000.0,
        iter_cost_ns: int = 2_000,
        p_stall: float = 0.0,
        stall_max_s: float = 0.5,
    ) -> None:
        self.clock = _clock.SimClock()
        self.start_ns = self.clock.now_ns
        super().__init__()
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.choices = choices
        self.max_steps = max_steps
        self.limit_ns = self.clock.now_ns + int(max_time_s * 1e9)
        self.iter_cost_ns = iter_cost_ns
        self.p_stall = p_stall
        self.stall_max_s = stall_max_s
        self.steps = 0
        self.stalled_ns = 0
        self.net = None
        self.procs = None
        self.exec_max_s = 0.02

        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.log_events: list = []
        self._trace = hashlib.sha256()
        self._sig = hashlib.sha256()
        self.errors: list = []
        self.set_exception_handler(self._on_exception)
        self.set_task_factory(
            lambda loop, coro, **kw: SimTask(coro, loop=loop, **kw)
        )

    # -- time ---------------------------------------------------------------
    def time(self) -> float:
        return self.clock.now_ns / 1e9

    @property
    def elapsed_s(self) -> float:
        return (self.clock.now_ns - self.start_ns) / 1e9

    def _advance(self, timeout) -> None:
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimLimit(f"step budget exhausted ({self.max_steps})")
        clk = self.clock
        if timeout is None:
            if not self._ready and not self._scheduled:
                raise SimDeadlock("nothing runnable and nothing pending")
            timeout = 0
        if timeout > 0:
            # Jump exactly to the next timer.
            when = self._scheduled[0]._when if self._scheduled else None
            if when is not None:
                clk.now_ns = max(clk.now_ns, _ceil_ns(when))
            else:
                clk.now_ns += int(timeout * 1e9)
        else:
            clk.now_ns += self.iter_cost_ns
            if self.p_stall and self.choices.chance("stall", self.p_stall):
                stall = self.choices.pick(
                    "stall.len",
                    1_000_000,
                    lambda r: int(r.random() ** 2 * self.stall_max_s * 1e9),
                )
                clk.now_ns += stall
                self.stalled_ns += stall
                self.fault("stall")
        if clk.now_ns > self.limit_ns:
            raise SimLimit("simulated-time budget exhausted")

    # -- log ----------------------------------------------------------------
    def fault(self, kind: str, count: int = 1) -> None:
        """Count a fault that actually fired."""
        self.faults[kind] = self.faults.get(kind, 0) + count

    def probe(self, name: str, count: int = 1) -> None:
        """Count a 'rare condition reached' probe."""
        self.probes[name] = self.probes.get(name, 0) + count

    def event(self, kind: str, *detail) -> None:
        """Record one event (order and time) of this execution."""
        text = f"{self.clock.now_ns}|{kind}|{detail}\n"
        self._trace.update(text.encode())
        self._sig.update(f"{kind}|{detail[:1]}\n".encode())
        self.log_events.append((self.clock.now_ns, kind, detail))

    @property
    def trace_hash(self) -> str:
        return self._trace.hexdigest()[:24]

    @property
    def sig_hash(self) -> str:
        """Hash of event order only (no times, no payloads)."""
        return self._sig.hexdigest()[:16]

    # -- asyncio plumbing ---------------------------------------------------
    def _on_exception(self, loop, context) -> None:
        exc = context.get("exception")
        self.errors.append(
            (context.get("message", ""), exc)
        )

    def create_future(self):
        return SimFuture(loop=self)

    def _process_events(self, event_list) -> None:
        return None

    def _write_to_self(self) -> None:
        return None

    def close(self) -> None:
        if not self.is_closed():
            super().close()

    def add_signal_handler(self, sig, callback, *args) -> None:
        return None

    def remove_signal_handler(self, sig) -> bool:
        return True

    def add_reader(self, fd, callback, *args):
        raise NotImplementedError("add_reader")

    def add_writer(self, fd, callback, *args):
        raise NotImplementedError("add_writer")

    # -- thread-pool seam ---------------------------------------------------
    def run_in_executor(self, executor, func, *args):
        """Run on the loop's thread, completing after a chosen delay."""
        fut = self.create_future()
        delay = self.choices.pick(
            "exec",
            0,
            lambda r: 0
            if r.random() < 0.5
            else int(r.random() ** 3 * self.exec_max_s * 1e9),
        )

        def work() -> None:
            if fut.cancelled():
                # A started thread-pool job can't be cancelled: run it.
                try:
                    func(*args)
                except Exception:  # pylint: disable=broad-except
                    pass
                return
            try:
                result = func(*args)
            except StopIteration as exc:
                fut.set_exception(RuntimeError(str(exc)))
            except Exception as exc:  # pylint: disable=broad-except
                fut.set_exception(exc)
            else:
                if not fut.cancelled():
                    fut.set_result(result)

        self.call_later(delay / 1e9, work)
        return fut

    async def getaddrinfo(self, host, port, **kwargs):
        kwargs.pop("family", None)
        addr = self.net.resolve(host)
        return [
            (
                _socket.AF_INET,
                kwargs.get("type", 0) or _socket.SOCK_STREAM,
                0,
                "",
                (addr, port or 0),
            )
        ]

    async def getnameinfo(self, sockaddr, flags=0):
        return (sockaddr[0], str(sockaddr[1]))

    # -- network seam -------------------------------------------------------
    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kwargs):
        return await self.net.connect_tcp(
            protocol_factory, host, port, **kwargs
        )

    async def create_server(self, protocol_factory, host=None, port=None,
                            **kwargs):
        return await self.net.listen_tcp(
            protocol_factory, host, port, **kwargs
        )

    async def create_datagram_endpoint(self, protocol_factory,
                                       local_addr=None, remote_addr=None,
                                       **kwargs):
        return await self.net.open_udp(
            protocol_factory, local_addr, remote_addr, **kwargs
        )

    # -- subprocess and pipe seams ------------------------------------------
    async def subprocess_exec(self, protocol_factory, *args, **kwargs):
        return await self.procs.spawn(protocol_factory, list(args), **kwargs)

    async def subprocess_shell(self, protocol_factory, cmd, **kwargs):
        return await self.procs.spawn(protocol_factory, cmd, **kwargs)

    async def connect_read_pipe(self, protocol_factory, pipe):
        return await self.procs.connect_read_pipe(protocol_factory, pipe)

    async def connect_write_pipe(self, protocol_factory, pipe):
        return await self.procs.connect_write_pipe(protocol_factory, pipe)


def _ceil_ns(when: float) -> int:
    val = int(when * 1e9)
    while val / 1e9 < when:
        val += 1
    return val

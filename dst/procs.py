"""
Simulated subprocesses: a child "process" runs in the host's event loop but in
its own context (``PROC``), with its own standard streams, command-environment
registry and log handlers. Every callback scheduled from that context passes a
gate, so that the simulator can stop (SIGSTOP) a process between any two of
its steps, or kill it without it ever running again.

The host's end models ``asyncio.base_subprocess``: pipes are connected after a
delay, data that arrived before that is delivered right after
``connection_made`` (before whoever spawned the process resumes), exit of the
process and the end of its pipes aren't ordered, closing the transport closes
the pipes and kills the process.

A stub where reality isn't: pipes never fill up (writing never blocks).
"""

import asyncio
from collections import deque
import contextvars
import errno
import logging
import os
from pathlib import Path
import signal
import sys

PROC: contextvars.ContextVar = contextvars.ContextVar("proc", default=None)


class ChildExit(Exception):
    """A simulated program calls exit()."""

    def __init__(self, code: int) -> None:
        super().__init__(code)
        self.code = code


class _Stdin:
    """A child's standard input (non-blocking raw reads)."""

    def __init__(self, proc) -> None:
        self.proc = proc
        self.data = bytearray()
        self.eof = False
        self._fd = os.open(os.devnull, os.O_RDONLY)

    def fileno(self) -> int:
        return self._fd

    def read(self, size: int = -1):
        """Non-blocking read: None if nothing is available."""
        if not self.data:
            return b"" if self.eof else None
        size = len(self.data) if size is None or size < 0 else size
        out = bytes(self.data[:size])
        del self.data[:size]
        return out


class _Output:
    """A child's standard output or error (a BufferedWriter)."""

    def __init__(self, proc, num: int) -> None:
        self.proc = proc
        self.num = num
        self.buf = bytearray()
        self.total = 0

    def write(self, data) -> int:
        data = bytes(data)
        self.buf += data
        if self.proc.unbuffered or len(self.buf) > 8192:
            self.flush()
        return len(data)

    def flush(self) -> None:
        """Move buffered data to the pipe."""
        if not self.buf:
            return
        pipe = self.proc.pipes[self.num]
        if pipe.reader_closed:
            self.buf.clear()
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        data = bytes(self.buf)
        self.buf.clear()
        self.total += len(data)
        pipe.write(data)

    def fileno(self) -> int:
        return self.num


class _Pipe:
    """One direction of data between processes."""

    def __init__(self, proc, name: str, deliver, eof) -> None:
        self.proc = proc
        self.name = name
        self.deliver = deliver
        self.on_eof = eof
        self.last = 0.0
        self.reader_closed = False
        self.ended = False
        self.eof_seen = False
        self.in_flight = 0
        self.delivered = 0
        self.queue: deque = deque()

    def _when(self) -> float:
        sim = self.proc.procs
        delay = sim.delay(f"pipe.{self.name}")
        self.last = max(self.last, sim.loop.time() + delay)
        return self.last

    def _later(self, func, *args) -> None:
        # Timers that are due at the same time run in any order.
        self.queue.append((func, args))
        self.proc.procs.loop.call_at(
            self._when(), self._next, context=self.proc.procs.host
        )

    def _next(self) -> None:
        func, args = self.queue.popleft()
        func(*args)

    def write(self, data: bytes) -> None:
        """Send data, in arbitrary pieces."""
        assert not self.ended
        procs = self.proc.procs
        self.in_flight += len(data)
        while data:
            size = procs.loop.choices.pick(
                f"pipe.{self.name}.cut",
                len(data),
                lambda r, n=len(data): n
                if r.random() > procs.cfg["p_cut"]
                else r.randint(1, n),
            )
            size = max(1, min(size, len(data)))
            if size < len(data):
                procs.loop.fault("pipe-split")
            self._later(self._arrive, data[:size])
            data = data[size:]

    def _arrive(self, data: bytes) -> None:
        self.in_flight -= len(data)
        if not self.reader_closed:
            self.deliver(data)

    def end(self) -> None:
        """The writing end closes."""
        if not self.ended:
            self.ended = True
            self._later(self._eof)

    def _eof(self) -> None:
        if not self.eof_seen:
            self.eof_seen = True
            self.on_eof()

    def close_reader(self) -> None:
        """The reading end closes."""
        self.reader_closed = True


class _StdinTransport:
    """The host's writing end of a child's standard input."""

    def __init__(self, proc) -> None:
        self.proc = proc
        self.closing = False
        self.written = 0

    def write(self, data) -> None:
        pipe = self.proc.pipes[0]
        if self.closing or pipe.ended or not data:
            return
        if pipe.reader_closed:
            # EPIPE.
            self.closing = True
            self.proc._pipe_lost(0, BrokenPipeError(errno.EPIPE, "pipe"))
            return
        self.written += len(data)
        pipe.write(bytes(data))

    def can_write_eof(self) -> bool:
        return True

    def write_eof(self) -> None:
        if not self.closing:
            self.closing = True
            self.proc.pipes[0].end()
            self.proc._pipe_lost(0, None)

    def close(self) -> None:
        self.write_eof()

    def is_closing(self) -> bool:
        return self.closing

    def get_write_buffer_size(self) -> int:
        return 0


class _ReadTransport:
    """The host's reading end of one of the child's outputs."""

    def __init__(self, proc, num: int) -> None:
        self.proc = proc
        self.num = num
        self.closing = False

    def close(self) -> None:
        if not self.closing:
            self.closing = True
            self.proc.pipes[self.num].close_reader()
            self.proc._pipe_lost(self.num, None)

    def is_closing(self) -> bool:
        return self.closing


class SimProcess:
    """A process, and its asyncio transport."""

    def __init__(self, procs, pid: int, args, protocol) -> None:
        self.procs = procs
        self.pid = pid
        self.args = args
        self.protocol = protocol
        self.unbuffered = procs.cfg["unbuffered"]
        self.context = contextvars.copy_context()
        self.context.run(PROC.set, self)
        self.stdin = _Stdin(self)
        self.stdout = _Output(self, 1)
        self.stderr = _Output(self, 2)
        self.stdin_transport = _StdinTransport(self)
        self.readers = {n: _ReadTransport(self, n) for n in (1, 2)}
        self.pipes = {
            0: _Pipe(self, "in", self.stdin.data.extend, self._stdin_eof),
            1: _Pipe(self, "out", lambda d: self._data(1, d),
                     lambda: self.readers[1].close()),
            2: _Pipe(self, "err", lambda d: self._data(2, d),
                     lambda: self.readers[2].close()),
        }
        # What the host's loop would call before the pipes are connected.
        self.pending: list | None = []
        self.lost: set = set()
        # The child.
        self.envs: dict = {}
        self.env_keys_seen: set = set()
        self.coro = None
        self.error = None
        self.alive = True
        self.stopped_until: float | None = None
        self.backlog: list = []
        self.exit_code: int | None = None
        self.exit_time: float | None = None
        # The host's view.
        self.returncode: int | None = None
        self.closed = False
        self.killed_by_close = False
        self.host_gone = False

    # -- child side ---------------------------------------------------------
    def _stdin_eof(self) -> None:
        self.stdin.eof = True

    def gate(self, callback, args) -> None:
        """Run one of the process's callbacks, if it may run."""
        if not self.alive:
            return
        if self.stopped_until is not None:
            self.backlog.append((callback, args))
            return
        callback(*args)

    def stop(self, secs: float) -> None:
        """SIGSTOP, then SIGCONT."""
        if not self.alive or self.stopped_until is not None:
            return
        loop = self.procs.loop
        loop.fault("proc-stop")
        loop.event("proc-stop", self.pid)
        self.stopped_until = loop.time() + secs
        loop.call_later(secs, self._cont, context=self.procs.host)

    def _cont(self) -> None:
        self.stopped_until = None
        loop = self.procs.loop
        loop.event("proc-cont", self.pid)
        backlog, self.backlog = self.backlog, []
        for callback, args in backlog:
            self.context.run(loop.call_soon, callback, *args)

    def start(self) -> None:
        """Start running the program."""
        if not self.alive:
            return
        loop = self.procs.loop
        loop.event("proc-start", self.pid)
        try:
            coro = self.procs.load(self)
        except ChildExit as exc:
            self.exit(exc.code)
            return
        if coro is None:
            self.exit(self.exit_code or 0)
            return
        task = loop.create_task(coro)
        task.add_done_callback(self._main_done)

    def _main_done(self, task) -> None:
        """The program's entry is done: end other tasks, then exit."""
        code = 0
        if task.cancelled():
            code = 1
        elif task.exception() is not None:
            exc = task.exception()
            if isinstance(exc, ChildExit):
                code = exc.code
            else:
                self.error = exc
                code = 1
                if self.procs.on_crash is not None:
                    self.procs.on_crash(self, exc)
        left = [
            x
            for x in asyncio.all_tasks(self.procs.loop)
            if x.get_context().get(PROC) is self
        ]
        for other in sorted(left, key=hash):
            other.cancel()

        async def finish() -> None:
            if left:
                await asyncio.wait(left)
            self.exit(code)

        self.procs.loop.create_task(finish())

    def exit(self, code: int) -> None:
        """The process ends: flush, then everything's closed."""
        if not self.alive:
            return
        for out in (self.stdout, self.stderr):
            try:
                out.flush()
            except BrokenPipeError:
                pass
        self._ended(code)

    def kill(self, sig: int = signal.SIGKILL) -> None:
        """The process ends without running another instruction."""
        if self.alive:
            self._ended(-int(sig))

    def _ended(self, code: int) -> None:
        loop = self.procs.loop
        self.alive = False
        self.exit_code = code
        self.exit_time = loop.time()
        self.backlog.clear()
        loop.event("proc-exit", self.pid, code)
        self.pipes[0].close_reader()
        self.pipes[1].end()
        self.pipes[2].end()
        loop.call_later(
            self.procs.delay("reap"), self._reaped, context=self.procs.host
        )

    # -- host side ----------------------------------------------------------
    def _call(self, func, *args) -> None:
        if self.host_gone:
            return
        if self.pending is not None:
            self.pending.append((func, args))
        else:
            self.procs.loop.call_soon(
                self._event, func, *args, context=self.procs.host
            )

    def _event(self, func, *args) -> None:
        if not self.host_gone:
            func(*args)

    def _data(self, num: int, data: bytes) -> None:
        if not self.readers[num].closing:
            self._call(self._deliver, num, data)

    def _deliver(self, num: int, data: bytes) -> None:
        self.pipes[num].delivered += len(data)
        self.protocol.pipe_data_received(num, data)

    def _pipe_lost(self, num: int, exc) -> None:
        if num not in self.lost:
            self.lost.add(num)
            self._call(self.protocol.pipe_connection_lost, num, exc)
            self._finish()

    def _reaped(self) -> None:
        self.returncode = self.exit_code
        self._call(self.protocol.process_exited)
        self._finish()

    def _finish(self) -> None:
        if self.returncode is not None and len(self.lost) == 3:
            self._call(self.protocol.connection_lost, None)

    def host_crash(self) -> None:
        """The host's end disappears."""
        self.host_gone = True
        self.stdin_transport.closing = True
        self.pipes[0].end()
        self.pipes[1].close_reader()
        self.pipes[2].close_reader()

    # Transport.
    def get_pid(self) -> int:
        return self.pid

    def get_returncode(self):
        return self.returncode

    def get_extra_info(self, name, default=None):
        return self if name == "subprocess" else default

    def get_pipe_transport(self, num: int):
        return self.stdin_transport if num == 0 else self.readers[num]

    def is_closing(self) -> bool:
        return self.closed

    def close(self) -> None:
        """Close the transport."""
        if self.closed:
            return
        self.closed = True
        self.stdin_transport.close()
        self.readers[1].close()
        self.readers[2].close()
        if self.returncode is None and self.alive:
            self.procs.loop.probe("killed-by-close")
            self.killed_by_close = True
            self.kill()

    def send_signal(self, sig) -> None:
        self.kill(sig)

    def terminate(self) -> None:
        self.kill(signal.SIGTERM)


class _Std:
    """A standard stream of whichever process is running."""

    def __init__(self, name: str, original) -> None:
        self._name = name
        self._original = original

    @property
    def buffer(self):
        proc = PROC.get()
        if proc is None:
            return self._original.buffer
        return getattr(proc, self._name)

    def __getattr__(self, name):
        return getattr(self._original, name)


class SimProcs:
    """Subprocess table of a simulated host."""

    def __init__(self, loop) -> None:
        self.loop = loop
        loop.procs = self
        self.host = None
        self.table: list[SimProcess] = []
        self.cfg = {
            "p_cut": 0.2, "delay_max": 0.02, "start_max": 0.5,
            "unbuffered": False, "p_slow": 0.2,
        }
        self.on_crash = None
        self.on_spawn = None
        self.tools: dict = {}

    def install(self, **cfg) -> None:
        """Install the seams (this OS process runs one simulation only)."""

        self.cfg.update(cfg)
        self.host = contextvars.copy_context()
        self._gate_callbacks()
        self._isolate_environments()
        self._isolate_logging()
        sys.stdin = _Std("stdin", sys.stdin)  # type: ignore
        sys.stdout = _Std("stdout", sys.stdout)  # type: ignore
        sys.stderr = _Std("stderr", sys.stderr)  # type: ignore
        self._stub_psutil()

        # A child that ignores interrupts must not affect the simulator.
        signal.signal = lambda *args: None  # type: ignore

        import vcorelib.asyncio

        def run_handle_interrupt(to_run, *args, **kwargs) -> None:
            """Capture what a script would run."""
            del args, kwargs
            PROC.get().coro = to_run

        vcorelib.asyncio.run_handle_interrupt = run_handle_interrupt

    def _gate_callbacks(self) -> None:
        """Make callbacks of a process pass its gate."""

        loop = self.loop
        call_soon = loop.call_soon
        call_at = loop.call_at

        def wrap(callback, args, context):
            proc = PROC.get() if context is None else context.get(PROC)
            if proc is None:
                return callback, args
            return proc.gate, (callback, args)

        def gated_call_soon(callback, *args, context=None):
            func, fargs = wrap(callback, args, context)
            return call_soon(func, *fargs, context=context)

        def gated_call_at(when, callback, *args, context=None):
            func, fargs = wrap(callback, args, context)
            return call_at(when, func, *fargs, context=context)

        loop.call_soon = gated_call_soon
        loop.call_at = gated_call_at

        # The base class's call_later uses call_at (of the instance).

    @staticmethod
    def _isolate_environments() -> None:
        from runtimepy.channel.environment import command

        kind = type(command.GLOBAL)
        host_data = command.GLOBAL.data

        class Isolated(kind):  # type: ignore
            """One registry per process."""

            @property
            def data(self):
                proc = PROC.get()
                return host_data if proc is None else proc.envs

            @data.setter
            def data(self, value) -> None:
                raise AssertionError("not expected")

        command.GLOBAL.__class__ = Isolated

    @staticmethod
    def _isolate_logging() -> None:
        init = logging.Handler.__init__
        handle = logging.Handler.handle

        def isolated_init(self, *args, **kwargs) -> None:
            init(self, *args, **kwargs)
            self.sim_proc = PROC.get()

        def isolated_handle(self, record):
            if getattr(self, "sim_proc", None) is not PROC.get():
                return False
            return handle(self, record)

        logging.Handler.__init__ = isolated_init  # type: ignore
        logging.Handler.handle = isolated_handle  # type: ignore

    def _stub_psutil(self) -> None:
        from contextlib import contextmanager

        from runtimepy.mixins import psutil as mixin

        choices = self.loop.choices

        class Memory:
            percent = 12.5

        class Process:
            """A process with made up statistics."""

            @contextmanager
            def oneshot(self):
                yield

            def cpu_percent(self):
                return choices.pick(
                    "psutil", 1.0, lambda r: float(r.randint(0, 4))
                )

        class Psutil:
            """What the package uses."""

            @staticmethod
            def virtual_memory():
                return Memory

        Psutil.Process = Process
        mixin.psutil = Psutil

    def delay(self, site: str) -> float:
        """Some latency (of a pipe, of noticing an exit)."""
        cfg = self.cfg
        nanos = self.loop.choices.pick(
            f"proc.{site}",
            50_000,
            lambda r: 50_000
            if r.random() > cfg["p_slow"]
            else int((r.random() ** 3) * cfg["delay_max"] * 1e9) + 1000,
        )
        return nanos / 1e9

    def load(self, proc: SimProcess):
        """Load a program (in its context) and get its coroutine."""

        if isinstance(proc.args, str):
            words = proc.args.split()
        else:
            words = list(proc.args)
        name = words[0]
        if name in self.tools:
            return self.tools[name](proc, words[1:])

        # A Python script.
        from runtimepy.subprocess import program

        script = Path(words[1])
        program.PROGRAM = None
        argv, sys.argv = sys.argv, words[1:]
        try:
            code = compile(script.read_text(), str(script), "exec")
            exec(code, {"__name__": "__main__"})  # pylint: disable=exec-used
        except SystemExit:
            pass
        except Exception as exc:  # pylint: disable=broad-except
            proc.error = exc
            proc.exit_code = 1
            if self.on_crash is not None:
                self.on_crash(proc, exc)
            return None
        finally:
            sys.argv = argv

        # Nothing is shared by processes.
        self._unshare(proc)
        return proc.coro

    @staticmethod
    def _unshare(proc) -> None:
        from runtimepy.subprocess.program import PeerProgram

        todo = [PeerProgram]
        while todo:
            kind = todo.pop()
            if kind is PeerProgram or "_singleton" in kind.__dict__:
                kind._singleton = None
            todo.extend(kind.__subclasses__())

    async def spawn(self, protocol_factory, args, **kwargs):
        """Start a process (see 'BaseSubprocessTransport')."""

        del kwargs
        pid = 100 + len(self.table)
        protocol = protocol_factory()
        proc = SimProcess(self, pid, args, protocol)
        self.table.append(proc)
        self.loop.event("spawn", pid)
        if self.on_spawn is not None:
            self.on_spawn(proc)

        start = self.loop.choices.pick(
            "proc.start",
            1_000_000,
            lambda r: 10_000
            if r.random() < 0.3
            else int(r.random() ** 2 * self.cfg["start_max"] * 1e9) + 10_000,
        )
        self.loop.call_later(start / 1e9, proc.start, context=proc.context)

        # Connect the pipes.
        connect = self.loop.choices.pick(
            "proc.connect",
            0,
            lambda r: 0 if r.random() < 0.6 else int(r.random() ** 2 * 5e7),
        )
        for _ in range(3):
            await asyncio.sleep(0)
        if connect:
            await asyncio.sleep(connect / 1e9)

        waiter = self.loop.create_future()
        self.loop.call_soon(protocol.connection_made, proc)
        pending, proc.pending = proc.pending, None
        if pending:
            self.loop.probe("early-pipe-events")
        for func, fargs in pending or []:
            self.loop.call_soon(func, *fargs)
        self.loop.call_soon(
            lambda: None if waiter.done() else waiter.set_result(None)
        )
        await waiter
        return proc, protocol

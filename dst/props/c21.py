"""
C21: tailed log files: every complete line once, whole and in order.
"""

import asyncio
import logging
import os
from contextlib import AsyncExitStack

import aiofiles.threadpool
from vcorelib.logging import ListLogger, LoggerMixin

from runtimepy.mixins.logging import LogCaptureMixin, LogLevel

from dst.util import first_diff, swarm_loop

LEVELS = ["debug", "info", "warning", "error", "critical"]


def gen(rng, tier):
    """Generate a plan."""
    files = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        files.append({
            "level": rng.choice(LEVELS),
            "missing": rng.random() < 0.1,
            "start": rng.choice(["", "", "old\n", "old\nfirst ha",
                                 "x" * 9000 + "\ny\n"]),
            "crlf": rng.random() < 0.2,
        })
    if all(x["missing"] for x in files):
        files[0]["missing"] = False
    ops = []
    for _ in range(rng.choice([3, 10, 40, 150])):
        us = rng.choice([0, 0, 0, 100, 3_000, 60_000])
        roll = rng.random()
        if roll < 0.5:
            size = rng.choice([0, 1, 1, 5, 40, 40, 300, 9_000, 20_000])
            ops.append({
                "op": "write", "us": us, "file": rng.randrange(len(files)),
                "size": size, "val": rng.randint(0, 1 << 30),
                "pieces": rng.choice([1, 1, 2, 2, 3, 8]),
                "gap_us": rng.choice([0, 100, 5_000, 60_000]),
                "end": rng.random() < 0.9,
                "lines": rng.choice([1, 1, 1, 2, 30]),
            })
        elif roll < 0.9:
            ops.append({"op": "poll", "us": us})
        elif roll < 0.93:
            ops.append({"op": "unlink", "us": us,
                        "file": rng.randrange(len(files))})
        elif roll < 0.96:
            ops.append({"op": "error", "us": us, "count": rng.choice([1, 3]),
                        "file": rng.randrange(len(files))})
        else:
            ops.append({"op": "broken", "us": us,
                        "file": rng.randrange(len(files))})
    return {
        "loop": swarm_loop(rng, stall=False), "files": files, "ops": ops,
        "safe": rng.random() < 0.7, "p_short": rng.choice([0, 0, 0.3, 0.9]),
        "bulk": rng.random() < 0.5,
    }


CHARS = "abcdef 0123 {}%s%d\t\"\\\u00e9\u00df\u4e16\u754c\U0001f600"


def make_line(val: int, size: int) -> str:
    """A deterministic line."""
    out = []
    state = val & 0x7FFFFFFF
    for _ in range(size):
        state = (state * 1103515245 + 12345) & 0x7FFFFFFF
        out.append(CHARS[(state >> 8) % len(CHARS)])
    return "".join(out)


class Tail(LoggerMixin, LogCaptureMixin):
    """Observe lines."""

    def __init__(self, logger) -> None:
        super().__init__(logger=logger)
        self.lines: list = []

    def log_line(self, level: int, data: str) -> None:
        self.lines.append((level, data))
        super().log_line(level, data)


async def scenario(sim, plan):
    """Run."""
    aiofiles.threadpool.sync_open = sim.disk.open
    sim.disk.p_short = plan["p_short"]
    loop = asyncio.get_running_loop()

    logger = logging.getLogger("dst.tail")
    logger.setLevel(logging.DEBUG)
    logger.propagate = False
    captured = ListLogger.create()
    logger.addHandler(captured)
    tail = Tail(logger)
    tail.safe_to_log = plan["safe"]

    paths, handles = [], []
    for i, conf in enumerate(plan["files"]):
        path = sim.tmp / f"file{i}.log"
        paths.append(path)
        handles.append(None)
        if not conf["missing"]:
            handles[i] = os.open(
                path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644
            )
            os.write(handles[i], conf["start"].encode())

    # Raw text appended to each file since tailing started.
    content = [b"" for _ in paths]
    errors = {"expected": 0}
    writers: dict = {}
    broken: set = set()

    def owner(level: int, i: int) -> bool:
        return LogLevel.normalize(plan["files"][i]["level"]) == level

    def expected(i: int, data: bytes) -> list:
        """Lines of a file."""
        if plan["files"][i]["missing"]:
            return []
        lines = [
            x.decode().rstrip() for x in data.split(b"\n")[:-1]
        ]
        return [x for x in lines if x]

    # Lines say which file they belong to, except for the rest of a line that
    # started before tailing did.
    def split(lines: list) -> list:
        result: list = [[] for _ in paths]
        for level, line in lines:
            head = line.lstrip()[:3]
            if head[:1] == "<" and head[1:2].isdigit() and head[2:3] == ">":
                idx = int(head[1])
                sim.check(
                    owner(level, idx), "level",
                    f"line {line[:40]!r} logged with level {level}",
                )
                result[idx].append(line)
            else:
                hit = [
                    i for i in range(len(paths))
                    if line in rests[i] and owner(level, i)
                ]
                sim.check(
                    bool(hit), "unknown", f"unknown line {line[:60]!r} "
                    f"({len(line)})",
                )
                result[hit[0]].append(line)
        return result

    rests: list = [[] for _ in paths]
    counts = [0 for _ in paths]

    def check(final: bool = False) -> None:
        """Forwarded lines are a prefix of what was written."""
        got = split(tail.lines)
        for i, lines in enumerate(got):
            want = expected(i, content[i])
            sim.check(
                lines == want[:len(lines)], "lines",
                lambda i=i, lines=lines, want=want: f"file {i}: "
                f"{first_diff(lines, want)}",
            )
            if final and i not in broken:
                sim.check(
                    len(lines) == len(want), "missing",
                    lambda i=i, lines=lines, want=want: f"file {i}: "
                    f"forwarded {len(lines)} of {len(want)} lines",
                )
            counts[i] = len(want)

    async def write(i: int, oper: dict, previous) -> None:
        """Append to a file, piece by piece."""
        if previous is not None:
            await asyncio.wait([previous])
        end = "\r\n" if plan["files"][i]["crlf"] else "\n"
        text = ""
        for num in range(oper["lines"]):
            size = oper["size"]
            line = make_line(oper["val"] + num, size)
            if size:
                line = f"<{i}>{line}"
            text += line + end
        if not oper["end"]:
            text = text[:-len(end)]
        data = text.encode()
        if content[i] and not content[i].endswith(b"\n") or (
            not content[i]
            and plan["files"][i]["start"][-1:] not in ("", "\n")
        ):
            # The rest of a line: its end belongs to the line as well.
            first = (content[i].split(b"\n")[-1] + data.split(b"\n")[0])
            rests[i].append(first.decode(errors="replace").rstrip())
        at = 0
        count = min(oper["pieces"], max(len(data), 1))
        for num in range(count):
            upto = len(data) * (num + 1) // count
            # (cut anywhere, multi-byte characters included)
            piece = data[at:upto]
            content[i] += piece
            if handles[i] is not None:
                os.write(handles[i], piece)
            at = upto
            if oper["gap_us"] and num + 1 < count:
                await asyncio.sleep(oper["gap_us"] / 1e6)
            if count > 1:
                sim.probe("pieces")

    async def poll() -> None:
        """One pass."""
        try:
            await tail.dispatch_log_capture()
        except OSError as exc:
            sim.check(
                "EIO" in str(exc) or exc.errno == 5, "error",
                f"unexpected error {exc!r}",
            )
            sim.probe("reported")
        check()

    async with AsyncExitStack() as stack:
        await tail.init_log_capture(
            stack,
            [(x["level"], y) for x, y in zip(plan["files"], paths)],
        )
        for oper in plan["ops"]:
            if oper["us"]:
                await asyncio.sleep(oper["us"] / 1e6)
            if oper["op"] == "write":
                writers[oper["file"]] = loop.create_task(
                    write(oper["file"], oper, writers.get(oper["file"]))
                )
                if plan["bulk"]:
                    await asyncio.sleep(0)
                else:
                    await writers[oper["file"]]
            elif oper["op"] == "poll":
                await poll()
            elif oper["op"] == "unlink":
                if paths[oper["file"]].exists():
                    paths[oper["file"]].unlink()
                    sim.fault("unlink")
            elif oper["op"] == "error":
                sim.disk.fail(f"file{oper['file']}.log", "read", "EIO",
                              count=oper["count"])
            elif oper["op"] == "broken":
                sim.disk.fail(f"file{oper['file']}.log", "read", "EIO")
                broken.add(oper["file"])
        if writers:
            await asyncio.wait(list(writers.values()))
        for task in writers.values():
            task.result()

        # Everything is forwarded, even if some other file can't be read.
        total = sum(x.count(b"\n") for x in content)
        for _ in range(total + 8):
            before = len(tail.lines)
            await poll()
            if len(tail.lines) == before and _ > 8:
                break
        check(final=True)
        if broken:
            # It's readable again.
            sim.disk.rules.clear()
            broken.clear()
            for _ in range(total + 8):
                before = len(tail.lines)
                await poll()
                if len(tail.lines) == before and _ > 8:
                    break
            check(final=True)

    for handle in handles:
        if handle is not None:
            os.close(handle)
    count = len(tail.lines)
    sim.probe("lines", count)
    sim.nontrivial = count > 0
    # The list logger got what was forwarded.
    logged = [x.getMessage() if hasattr(x, "getMessage") else x.msg
              for x in captured.drain()]
    want = [x[1] for x in tail.lines]
    got = [x for x in logged if x in set(want)]
    sim.check(
        got == want, "logged", lambda: "logged lines differ: "
        + first_diff(got, want),
    )

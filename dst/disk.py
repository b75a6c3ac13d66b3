"""
The simulated disk: files below a run's scratch directory are opened through
this layer, which injects errors, full disks and short transfers.
"""

import builtins
import errno
import io
import os


class FaultyRaw(io.FileIO):
    """A raw file whose operations can fail."""

    disk: "SimDisk" = None
    sim_path = ""

    def readinto(self, buf):
        self.disk.maybe_fail(self.sim_path, "read", self.tell())
        count = self.disk.shorten(self.sim_path, len(buf))
        if count < len(buf):
            view = memoryview(buf)[:count]
            return super().readinto(view)
        return super().readinto(buf)

    def readall(self):
        chunks = []
        while True:
            buf = bytearray(4096)
            count = self.readinto(buf)
            if not count:
                return b"".join(chunks)
            chunks.append(bytes(buf[:count]))

    def write(self, data):
        room = self.disk.maybe_fail(self.sim_path, "write", self.tell(),
                                    len(data))
        count = self.disk.shorten(self.sim_path, len(data))
        if room is not None:
            count = min(count, room)
        data = bytes(memoryview(data)[:count])
        if data and self.disk.rots(self.sim_path):
            data = data[:-1] + bytes([data[-1] ^ 1])
        return super().write(data)


class SimDisk:
    """All files of one simulated process."""

    def __init__(self, sim, root) -> None:
        self.sim = sim
        self.root = os.path.realpath(str(root))
        # Rules: dicts with 'match' (part of a path), 'op' (open, read, write,
        # fsync), 'errno' (name), 'after' (bytes) and 'count' (how often).
        self.rules: list = []
        self.p_short = 0.0
        self.ops = {"open": 0, "read": 0, "write": 0}
        self._real_open = io.open
        self._real_fsync = os.fsync
        self._fds: dict = {}

    def install(self) -> None:
        """Replace the process's file-opening functions."""
        io.open = self.open
        builtins.open = self.open
        os.fsync = self.fsync

    def _mine(self, path) -> bool:
        return isinstance(path, (str, os.PathLike)) and (
            os.path.realpath(os.fspath(path)).startswith(self.root + "/")
        )

    def fail(self, match: str, oper: str, err: str = "EIO", after: int = 0,
             count: int = 1 << 30) -> dict:
        """Add a rule."""
        rule = {"match": match, "op": oper, "errno": err, "after": after,
                "count": count}
        self.rules.append(rule)
        return rule

    def maybe_fail(self, path: str, oper: str, pos: int = 0, size: int = 0,
                   mode: str = ""):
        """Raise if a rule applies, or limit how much can be written."""
        self.ops[oper] = self.ops.get(oper, 0) + 1
        for rule in self.rules:
            if rule["count"] <= 0 or rule["match"] not in path:
                continue
            name = oper
            if oper == "open" and rule["op"] in ("open-w", "open-r"):
                name = "open-w" if any(c in mode for c in "wax+") else "open-r"
            if rule["op"] != name:
                continue
            room = rule["after"] - pos
            if oper == "write" and room > 0:
                return min(room, size)
            if oper == "read" and room > 0:
                continue
            rule["count"] -= 1
            self.sim.fault(f"disk_{oper}_{rule['errno']}")
            self.sim.event("disk.error", oper, os.path.basename(path),
                           rule["errno"])
            num = getattr(errno, rule["errno"])
            raise OSError(num, os.strerror(num), path)
        return None

    def rots(self, path: str) -> bool:
        """Determine if what's written is damaged (once per rule)."""
        for rule in self.rules:
            if (rule["op"] == "rot" and rule["match"] in path
                    and rule["count"] == 1 << 30):
                rule["count"] -= 1
                self.sim.fault("disk_rot")
                return True
        return False

    def shorten(self, path: str, size: int) -> int:
        """Choose how much of a transfer takes place."""
        if self.p_short <= 0 or size <= 1:
            return size
        got = self.sim.choices.pick(
            f"disk.short.{os.path.basename(path)}", 0,
            lambda r: r.randint(1, size) if r.random() < self.p_short else 0,
        )
        if got and got < size:
            self.sim.fault("disk_short")
            return got
        return size

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        """Stand-in for io.open."""
        if not self._mine(file) or opener is not None:
            return self._real_open(file, mode, buffering, encoding, errors,
                                   newline, closefd, opener)
        path = os.path.realpath(os.fspath(file))
        self.maybe_fail(path, "open", mode=mode)
        kind = mode.replace("b", "").replace("t", "")
        raw = FaultyRaw(path, kind)
        raw.disk = self
        raw.sim_path = path
        self._fds[raw.fileno()] = path
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in kind:
            buf = io.BufferedRandom(raw, size)
        elif kind == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering=buffering == 1)

    def fsync(self, fdesc):
        """Stand-in for os.fsync."""
        path = self._fds.get(fdesc, "")
        if path:
            self.maybe_fail(path, "fsync", 1 << 40)
        return None

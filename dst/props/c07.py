"""
C07: a TFTP server survives any datagram and any client; transfers of
different clients are isolated.
"""

import asyncio

from runtimepy.net.manager import ConnectionManager
from runtimepy.net.udp.tftp import TftpConnection, tftp

from dst.tftp import World, brief_gap, content, data_of
from dst.util import brief, payload, swarm_loop


def gen(rng, tier):
    """Generate a plan."""
    net: dict = {}
    if rng.random() < 0.7:
        net["lat_min_us"] = rng.choice([5, 20, 200])
        net["lat_max_us"] = net["lat_min_us"] + rng.choice([0, 500, 9_000])
    if rng.random() < 0.3:
        net["p_dup"] = rng.choice([0.05, 0.3])
        net["dup_max_us"] = rng.choice([500, 20_000])
    sizes = [0, 3, 512, 700, 1024, 3000]
    clients = []
    for i in range(rng.choice([1, 2, 3, 5])):
        ops = []
        for j in range(rng.choice([1, 2, 3])):
            ops.append(
                {
                    "op": rng.choice(["put", "get", "shared", "missing"]),
                    "tag": rng.randint(0, 999),
                    "size": rng.choice(sizes),
                    "verify": rng.random() < 0.4,
                    "wait_ms": rng.choice([0, 0, 1, 100, 900]),
                }
            )
            if ops[-1]["op"] != "missing" and rng.random() < 0.15:
                ops[-1]["disk"] = rng.choice(
                    [["open-r", "EACCES", 0], ["read", "EIO", 0],
                     ["read", "EIO", 512], ["open-w", "ENOSPC", 0],
                     ["write", "ENOSPC", 10], ["open-w", "EACCES", 0],
                     ["open-r", "EMFILE", 0]]
                )
        clients.append(
            {"ops": ops, "start_ms": rng.choice([0, 0, 1, 50, 400]),
             # Vanishes this long after it began.
             "vanish_ms": rng.choice([1, 3, 30, 300])
             if rng.random() < 0.3 else 0}
        )
    junk = []
    for _ in range(rng.choice([0, 3, 10, 30])):
        junk.append(
            {"kind": rng.choice(JUNK), "ms": rng.randint(0, 1500),
             "port": rng.randint(0, 2), "val": rng.randint(0, 1 << 30)}
        )
    return {"net": net, "loop": swarm_loop(rng, stall=False),
            "par": {"period": 0.2, "timeout": 1.0}, "clients": clients,
            "junk": junk, "busy": rng.choice([0, 0, 1, 2]),
        "managed": rng.random() < 0.4}


JUNK = [
    "random", "one", "opcode", "noname", "nomode", "badutf", "long", "dir",
    "data", "ack", "short_ack", "error", "bad_error", "short_error",
    "error_utf", "rrq", "wrq", "nul", "big", "mode", "hugeblock", "oack",
]


def junk_bytes(rng, kind: str) -> bytes:
    """A strange datagram. No name leaves the server's directory."""
    if kind == "random":
        # Never a valid read or write request.
        data = bytes([rng.randint(2, 255)]) + rng.randbytes(rng.randint(0, 60))
        return data
    name = rng.choice([b"x1", b"x2", b"nofile", b"shared.bin"])
    return {
        "one": lambda: b"\x00",
        "opcode": lambda: bytes([0, rng.choice([0, 6, 7, 99, 255])]) + b"hi",
        "noname": lambda: b"\x00" + bytes([rng.choice([1, 2])]),
        "nomode": lambda: b"\x00" + bytes([rng.choice([1, 2])]) + b"x1",
        "badutf": lambda: b"\x00" + bytes([rng.choice([1, 2])])
        + b"\xff\xfe\x00octet\x00",
        "long": lambda: b"\x00" + bytes([rng.choice([1, 2])])
        + b"y" * rng.choice([255, 256, 600]) + b"\x00octet\x00",
        "dir": lambda: b"\x00" + bytes([rng.choice([1, 2])])
        + rng.choice([b"", b"sub", b"."]) + b"\x00octet\x00",
        "data": lambda: b"\x00\x03\x00" + bytes([rng.randint(0, 5)])
        + rng.randbytes(rng.choice([0, 5, 512])),
        "ack": lambda: b"\x00\x04\x00" + bytes([rng.randint(0, 5)]),
        "short_ack": lambda: b"\x00" + bytes([rng.choice([3, 4])])
        + rng.choice([b"", b"\x00"]),
        "error": lambda: b"\x00\x05\x00\x01oops\x00",
        "bad_error": lambda: b"\x00\x05\x01\x2coops\x00",
        "short_error": lambda: b"\x00\x05" + rng.choice([b"", b"\x00"]),
        "error_utf": lambda: b"\x00\x05\x00\x01\xff\xfe\xfd",
        "rrq": lambda: b"\x00\x01" + name + b"\x00octet\x00",
        "wrq": lambda: b"\x00\x02" + rng.choice([b"x1", b"x2"])
        + b"\x00octet\x00",
        "nul": lambda: b"\x00" + bytes([rng.choice([1, 2])]) + bytes(20),
        "big": lambda: b"\x00\x03\x00\x01" + bytes(rng.choice([513, 1400])),
        "mode": lambda: b"\x00\x01shared.bin\x00"
        + rng.choice([b"netascii", b"", b"zz", b"\xff"]) + b"\x00",
        "hugeblock": lambda: b"\x00" + bytes([rng.choice([3, 4])])
        + b"\xff\xff",
        "oack": lambda: b"\x00\x06blksize\x001024\x00",
    }[kind]()


class Raw(asyncio.DatagramProtocol):
    """A peer that isn't a TFTP client."""

    def __init__(self) -> None:
        self.got = 0

    def datagram_received(self, data, addr) -> None:
        self.got += 1


async def scenario(sim, plan):
    """Run."""
    import random

    world = World(sim, plan)
    (world.root / "sub").mkdir()
    net = sim.net
    par = plan["par"]
    shared = payload(5000, 2000)
    (world.root / "shared.bin").write_bytes(shared)

    server = await TftpConnection.create_connection(
        local_addr=("127.0.0.1", 0)
    )
    server.set_root(world.root)
    world.server = server
    net.labels[server.local_address.port] = "srv"
    world.addr = ("127.0.0.1", server.local_address.port)
    stop = asyncio.Event()
    if plan["managed"]:
        manager = ConnectionManager()
        main = asyncio.create_task(manager.manage(stop))
        manager.queue.put_nowait(server)
    else:
        main = asyncio.create_task(server.process(stop_sig=stop))
    await asyncio.sleep(0.5)

    async def junk() -> None:
        rng = random.Random(f"junk-{plan.get('env_seed', 0)}")
        ports = []
        for _ in range(3):
            ports.append(
                (await sim.loop.create_datagram_endpoint(
                    Raw, remote_addr=world.addr
                ))[0]
            )
        start = sim.now
        for item in sorted(plan["junk"], key=lambda x: x["ms"]):
            delay = item["ms"] / 1e3 - (sim.now - start)
            if delay > 0:
                await asyncio.sleep(delay)
            data = junk_bytes(random.Random(item["val"]), item["kind"])
            ports[item["port"]].sendto(data)
            sim.fault(f"junk_{item['kind']}")
        await asyncio.sleep(0.1)
        for port in ports:
            port.close()
        del rng

    async def one(conn, i: int, j: int, oper: dict) -> None:
        data = data_of(oper)
        what = f"client {i} operation {j} ({oper['op']}, {len(data)} bytes)"
        name = f"c{i}-{j}.bin"
        rule = None
        if oper["op"] == "shared":
            name, data = "shared.bin", shared
        elif oper["op"] == "get":
            (world.root / name).write_bytes(data)
        if "disk" in oper and oper["op"] != "shared":
            rule = sim.disk.fail(f"srv/{name}", *oper["disk"])
        dest = world.local / f"dst{i}-{j}"
        if oper["op"] == "put":
            result = await sim.within(
                conn.request_write(data, name, verify=oper["verify"],
                                   addr=world.addr),
                world.bound(len(data)), "unbounded", what,
            )
        else:
            result = await sim.within(
                conn.request_read(dest, name, addr=world.addr),
                world.bound(len(data)), "unbounded", what,
            )
        hit = rule is not None and rule["count"] < 1 << 30
        if rule is not None:
            sim.disk.rules.remove(rule)
        sim.event("done", i, j, bool(result))
        if oper["op"] == "missing":
            sim.check(not result, "false-success", f"{what}: succeeded")
            return
        if not result:
            sim.check(
                hit, "client-affected",
                lambda: f"{what} failed although nothing is wrong with this "
                "client or its file",
            )
            sim.probe("failed_by_disk")
            return
        sim.probe("transferred")
        got = content(dest if oper["op"] != "put" else world.root / name)
        sim.check(
            got == data, "mixed-content",
            lambda: f"{what} succeeded with {brief(got)} instead of "
            f"{brief(data)}",
        )

    async def client(i: int, spec: dict) -> None:
        await asyncio.sleep(spec["start_ms"] / 1e3)
        async with tftp(world.addr, timeout_s=par["timeout"],
                        reemit_period_s=par["period"]) as conn:
            for j, oper in enumerate(spec["ops"]):
                await one(conn, i, j, oper)
                await asyncio.sleep(
                    max(oper["wait_ms"] / 1e3,
                        3.5 if "disk" in oper or "p_dup" in plan["net"]
                        else brief_gap(plan, j))
                )

    async def vanishing(i: int, spec: dict) -> None:
        """A client that's gone in the middle of something."""
        await asyncio.sleep(spec["start_ms"] / 1e3)
        async with tftp(world.addr, timeout_s=par["timeout"],
                        reemit_period_s=par["period"]) as conn:
            name = f"v{i}.bin"
            data = payload(i, 3000)
            if spec["ops"][0]["op"] == "put":
                oper = asyncio.ensure_future(
                    conn.request_write(data, name, addr=world.addr)
                )
            else:
                oper = asyncio.ensure_future(
                    conn.request_read(world.local / name, "shared.bin",
                                      addr=world.addr)
                )
            await asyncio.sleep(spec["vanish_ms"] / 1e3)
            conn.disable("vanished")
            sim.fault("client_vanished")
            await asyncio.wait([oper])

    jobs = [asyncio.ensure_future(junk())] + [
        asyncio.ensure_future(
            vanishing(i, spec) if spec["vanish_ms"] else client(i, spec)
        )
        for i, spec in enumerate(plan["clients"])
    ]
    await sim.within(
        asyncio.gather(*jobs), 400, "unbounded", "clients of the server"
    )
    sim.check(not server.disabled, "server-gone",
              "the server is disabled although nobody asked for that")

    # A new client is still served.
    data = payload(77, 1500)
    async with tftp(world.addr, timeout_s=par["timeout"],
                    reemit_period_s=par["period"]) as conn:
        result = await sim.within(
            conn.request_write(data, "last.bin", addr=world.addr), 60,
            "unbounded", "final upload",
        )
        sim.check(result and content(world.root / "last.bin") == data,
                  "server-broken", "a later client's upload failed")
    async with tftp(world.addr, timeout_s=par["timeout"],
                    reemit_period_s=par["period"]) as conn:
        result = await sim.within(
            conn.request_read(world.local / "last", "shared.bin",
                              addr=world.addr), 60,
            "unbounded", "final download",
        )
        sim.check(
            result and content(world.local / "last") == shared,
            "server-broken", "a later client's download failed",
        )
    # Stopping the server ends the transfers it's busy with.
    peers = []
    for i in range(plan["busy"]):
        transport, _ = await sim.loop.create_datagram_endpoint(
            Raw, remote_addr=world.addr
        )
        peers.append(transport)
        transport.sendto(
            b"\x00\x01shared.bin\x00octet\x00" if i % 2 == 0
            else b"\x00\x02busy.bin\x00octet\x00"
        )
    await asyncio.sleep(0.05)
    stop.set()
    await sim.within(main, 30, "shutdown", "stopping the server")
    await asyncio.sleep(0.05)
    for transport in peers:
        sim.probe("busy_stop")
        transport.close()
    left = [
        x.get_coro().__qualname__ for x in asyncio.all_tasks()
        if x is not asyncio.current_task()
        # (those belong to 'vcorelib', which ends them on its own)
        and "repeat_until" not in x.get_coro().__qualname__
    ]
    sim.check(
        not left, "leftover-tasks",
        f"tasks left behind by a stopped server: {sorted(left)}",
    )

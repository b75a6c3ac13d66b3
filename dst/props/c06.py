"""
C06: TFTP downloads: success means the client holds exactly the file's bytes.
"""

import asyncio

from runtimepy.net.udp.tftp import tftp_read  # noqa: F401

from dst.tftp import (
    SIZES,
    World,
    brief_gap,
    content,
    data_of,
    gap,
    gen_net,
)
from dst.util import brief, payload


def gen(rng, tier):
    """Generate a plan."""
    mode = rng.choice(["clean", "dups", "budget", "budget", "wild", "wild"])
    net, loop, par = gen_net(rng, mode)
    pair = rng.random() < 0.4
    ops = []
    sizes = SIZES if mode in ("clean", "dups") else SIZES[:-1]
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        ops.append(
            {
                "op": "get",
                "tag": rng.randint(0, 999),
                "size": rng.choice(sizes),
                "name": rng.choice(["a.bin", "b.bin", "sub/c.bin", "d e.txt"]),
            }
        )
        if rng.random() < 0.1:
            ops[-1]["op"] = "missing"
        elif rng.random() < 0.15:
            ops[-1]["disk"] = rng.choice(
                [["srv", "open-r", "EACCES", 0], ["srv", "read", "EIO", 0],
                 ["srv", "read", "EIO", 600], ["cli", "write", "ENOSPC", 100],
                 ["srv", "open-r", "EMFILE", 0],
                 ["cli", "write", "EIO", 600], ["cli", "fsync", "EIO", 0]]
            )
        if mode in ("clean", "dups") and rng.random() < 0.04:
            ops[-1]["size"] = rng.choice([65535, 66_048, 70_000])
        if rng.random() < 0.3:
            ops[-1]["old"] = rng.choice([0, 5, 700, 9000])
    form = "pair" if pair else "server"
    stale = []
    if rng.random() < 0.25:
        # A server that isn't ours.
        form = "tid"
        if mode == "clean" or (mode == "budget" and rng.random() < 0.3):
            stale = rng.choice([["start"], ["mid"], ["start", "mid"]])
            net, loop, _ = gen_net(rng, "clean")
            mode = "clean"
        for oper in ops:
            oper.pop("disk", None)
    if form == "pair" and rng.random() < 0.12:
        mode = "clean"
        net, loop, _ = gen_net(rng, mode)
        net.pop("lat_max_us", None)
        net.pop("lat_min_us", None)
    steady = net.get("lat_max_us", 0) == net.get("lat_min_us", 0)
    twins = form == "pair" and mode == "clean" and steady
    plan = {"mode": mode, "stale": stale, "twins": twins, "net": net, "loop": loop, "par": par,
            "form": form, "ops": ops,
            "p_short": rng.choice([0, 0, 0.5])}
    if mode == "wild" and rng.random() < 0.4:
        plan["cut"] = {"at_ms": rng.choice([0, 1, 5, 50, 400, 2000]),
                       "ms": rng.choice([100, 900, 3000, 20_000])}
    return plan


async def scenario(sim, plan):
    """Run."""
    world = World(sim, plan)
    (world.root / "sub").mkdir()
    fresh = plan["form"] == "server"
    await world.start(plan["form"])
    sim.disk.p_short = plan["p_short"]
    net = sim.net

    async def cutter():
        await asyncio.sleep(plan["cut"]["at_ms"] / 1e3)
        net.partition()
        await asyncio.sleep(plan["cut"]["ms"] / 1e3)
        net.unpartition()

    if plan.get("twins"):
        await twins(sim, plan, world)
    cut = asyncio.create_task(cutter()) if "cut" in plan else None
    for i, oper in enumerate(plan["ops"]):
        path = world.root / oper["name"]
        data = data_of(oper)
        if oper["op"] == "missing":
            path.unlink(missing_ok=True)
        else:
            path.write_bytes(data)
        dest = world.local / f"dst{i % 2}"
        if "old" in oper:
            dest.write_bytes(b"\xaa" * oper["old"])
        rule = None
        if "disk" in oper:
            where, kind, err, after = oper["disk"]
            match = (
                f"srv/{oper['name']}" if where == "srv"
                else f"cli/{dest.name}"
            )
            rule = sim.disk.fail(match, kind, err, after)
        start = sim.now
        what = (
            f"download {i} ({oper['name']}, {len(data)} bytes, "
            f"{plan['form']}, {plan['mode']})"
        )
        try:
            result = await sim.within(
                world.read(oper["name"], dest, fresh),
                world.bound(len(data)), "unbounded", what,
            )
        except OSError:
            # The client's disk failed, that's an explicit failure.
            sim.check(
                rule is not None and "cli" in oper["disk"],
                "unexpected-error", f"{what} raised an OS error",
            )
            sim.probe("client_disk_failed")
            result = False
        sim.event("get", i, bool(result))
        hit = rule is not None and rule["count"] < 1 << 30
        if rule is not None:
            sim.disk.rules.remove(rule)
        if result:
            sim.probe("downloaded")
            sim.check(
                oper["op"] == "get", "false-success",
                f"{what} of a missing file reported success",
            )
            got = content(dest)
            sim.check(
                got == data, "false-success",
                lambda: f"{what} reported success at {sim.now:.3f} s, but "
                f"the client's file is {brief(got)} instead of "
                f"{brief(data)}",
            )
        else:
            sim.probe("download_failed")
            if not hit and oper["op"] == "get":
                sim.check(
                    plan["mode"] == "wild", "spurious-failure",
                    lambda: f"{what} failed after {sim.now - start:.3f} s "
                    "although nothing prevented it",
                )
        if plan["mode"] == "clean" and result:
            await asyncio.sleep(brief_gap(plan, i))
        else:
            await asyncio.sleep(gap(plan))
        if result:
            after = content(dest)
            sim.check(
                after == data, "content-lost",
                lambda: f"{what} reported success, later the client's file "
                f"became {brief(after)} instead of {brief(data)}",
            )
    if cut is not None:
        await cut
    await asyncio.sleep(gap(plan))
    net.heal()
    oper = {"tag": 1000, "size": 700}
    (world.root / "last.bin").write_bytes(data_of(oper))
    dest = world.local / "last"
    result = await sim.within(
        world.read("last.bin", dest, fresh), 60,
        "unbounded", "final download",
    )
    sim.check(result, "server-broken",
              "a download on a healthy network failed after earlier ones")
    sim.check(content(dest) == data_of(oper),
              "false-success", "content of the final download differs")
    await world.stop()


async def twins(sim, plan, world):
    """Several downloads (and an upload) over one connection at once."""
    sizes = [700, 1, 1024]
    jobs = []
    for i, size in enumerate(sizes):
        (world.root / f"twin{i}.bin").write_bytes(payload(i, size))
        jobs.append(
            world.read(f"twin{i}.bin", world.local / f"twin{i}", False)
        )
    jobs.append(world.write("up.bin", payload(9, 1500), False, False))
    results = await sim.within(
        asyncio.gather(*jobs), 60.0, "unbounded", "simultaneous transfers"
    )
    sim.check(
        all(results), "spurious-failure",
        f"results of simultaneous transfers: {results}",
    )
    sim.probe("twins")
    for i, size in enumerate(sizes):
        got = content(world.local / f"twin{i}")
        sim.check(
            got == payload(i, size), "false-success",
            lambda: f"simultaneous download {i} ({size} bytes) reported "
            f"success but the client's file is {brief(got)}",
        )
    sim.check(
        content(world.root / "up.bin") == payload(9, 1500), "false-success",
        "a simultaneous upload reported success with something else",
    )
    await asyncio.sleep(gap(plan))

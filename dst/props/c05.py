"""
C05: TFTP uploads: success means the server holds exactly the sent bytes.
"""

import asyncio

from runtimepy.net.udp.tftp import tftp_write  # noqa: F401

from dst.tftp import (
    SIZES,
    World,
    brief_gap,
    content,
    data_of,
    gap,
    gen_net,
    source,
)
from dst.util import brief, payload


def gen(rng, tier):
    """Generate a plan."""
    mode = rng.choice(["clean", "dups", "budget", "budget", "wild", "wild"])
    net, loop, par = gen_net(rng, mode)
    pair = rng.random() < 0.3
    ops = []
    sizes = SIZES if mode in ("clean", "dups") else SIZES[:-1]
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        ops.append(
            {
                "op": "put",
                "tag": rng.randint(0, 999),
                "size": rng.choice(sizes),
                "name": rng.choice(["a.bin", "b.bin", "sub/c.bin", "d e.txt"]),
                "verify": rng.random() < 0.4,
                "src": rng.choice(["path", "bytes"]),
            }
        )
        if rng.random() < 0.3:
            # Something that was there before.
            ops[-1]["old"] = rng.choice([0, 5, 700])
        if rng.random() < 0.15:
            ops[-1]["disk"] = rng.choice(
                [["open-w", "ENOSPC", 0], ["write", "ENOSPC", 0],
                 ["write", "ENOSPC", 100], ["write", "EIO", 600],
                 ["open-w", "EACCES", 0]]
            )
            if ops[-1]["verify"] and ops[-1]["size"] and rng.random() < 0.3:
                # Silently stores something else.
                ops[-1]["disk"] = ["rot", "EIO", 0]
        if mode in ("clean", "dups") and rng.random() < 0.04:
            ops[-1]["size"] = rng.choice([65535, 66_048, 70_000])
    form = "pair" if pair else "server"
    stale = []
    if rng.random() < 0.25:
        # A server that isn't ours.
        form = "tid"
        if mode == "clean" or (mode == "budget" and rng.random() < 0.3):
            stale = rng.choice([["start"], ["mid"], ["start", "mid"]])
            net, loop, _ = gen_net(rng, "clean")
            mode = "clean"
        for oper in ops:
            oper.pop("disk", None)
    if form == "pair" and rng.random() < 0.12:
        mode = "clean"
        net, loop, _ = gen_net(rng, mode)
        net.pop("lat_max_us", None)
        net.pop("lat_min_us", None)
    steady = net.get("lat_max_us", 0) == net.get("lat_min_us", 0)
    twins = form == "pair" and mode == "clean" and steady
    plan = {"mode": mode, "stale": stale, "twins": twins, "net": net, "loop": loop, "par": par,
            "form": form, "ops": ops,
            "p_short": rng.choice([0, 0, 0.5])}
    if mode == "wild" and rng.random() < 0.4:
        plan["cut"] = {"at_ms": rng.choice([0, 1, 5, 50, 400, 2000]),
                       "ms": rng.choice([100, 900, 3000, 20_000])}
    return plan


async def scenario(sim, plan):
    """Run."""
    world = World(sim, plan)
    (world.root / "sub").mkdir()
    fresh = plan["form"] == "server"
    await world.start(plan["form"])
    sim.disk.p_short = plan["p_short"]
    net = sim.net

    async def cutter():
        await asyncio.sleep(plan["cut"]["at_ms"] / 1e3)
        net.partition()
        await asyncio.sleep(plan["cut"]["ms"] / 1e3)
        net.unpartition()

    if plan.get("twins"):
        await twins(sim, plan, world)
    cut = asyncio.create_task(cutter()) if "cut" in plan else None
    for i, oper in enumerate(plan["ops"]):
        path = world.root / oper["name"]
        data = data_of(oper)
        if "old" in oper:
            path.write_bytes(b"\xaa" * oper["old"])
        src = source(world, oper["src"], i, data)
        rule = None
        if "disk" in oper:
            kind, err, after = oper["disk"]
            rule = sim.disk.fail(f"srv/{oper['name']}", kind, err, after)
        start = sim.now
        what = (
            f"upload {i} ({oper['name']}, {len(data)} bytes, "
            f"{plan['form']}, {plan['mode']})"
        )
        result = await sim.within(
            world.write(oper["name"], src, oper["verify"], fresh),
            world.bound(len(data)), "unbounded", what,
        )
        sim.event("put", i, bool(result))
        hit = rule is not None and rule["count"] < 1 << 30
        if result:
            sim.probe("uploaded")
            got = content(path)
            sim.check(
                got == data, "false-success",
                lambda: f"{what} reported success at {sim.now:.3f} s, but "
                f"the server's file is {brief(got)} instead of "
                f"{brief(data)}",
            )
        else:
            sim.probe("upload_failed")
            if not hit:
                sim.check(
                    plan["mode"] == "wild", "spurious-failure",
                    lambda: f"{what} failed after {sim.now - start:.3f} s "
                    "although nothing prevented it",
                )
        if rule is not None:
            sim.disk.rules.remove(rule)
        # Anything of this transfer that is still on its way.
        if plan["mode"] == "clean":
            await asyncio.sleep(brief_gap(plan, i))
        else:
            await asyncio.sleep(gap(plan))
        if result:
            after = content(path)
            sim.check(
                after == data, "content-lost",
                lambda: f"{what} reported success, later the server's file "
                f"became {brief(after)} instead of {brief(data)}",
            )
    if cut is not None:
        await cut
    await asyncio.sleep(gap(plan))
    # A server that went through all of that still works.
    net.heal()
    oper = {"tag": 1000, "size": 700}
    if not fresh and world.conn.disabled:
        sim.probe("client_disabled")
    result = await sim.within(
        world.write("last.bin", data_of(oper), False, fresh), 60,
        "unbounded", "final upload",
    )
    sim.check(result, "server-broken",
              "an upload on a healthy network failed after earlier ones")
    sim.check(content(world.root / "last.bin") == data_of(oper),
              "false-success", "content of the final upload differs")
    await world.stop()


async def twins(sim, plan, world):
    """Several uploads (and a download) over one connection at once."""
    (world.root / "fixed.bin").write_bytes(payload(7, 1500))
    jobs = [
        world.write(f"twin{i}.bin", data_of({"tag": i, "size": size}), i == 2,
                    False)
        for i, size in enumerate([700, 1, 1024])
    ] + [world.read("fixed.bin", world.local / "fixed", False)]
    results = await sim.within(
        asyncio.gather(*jobs), 60.0, "unbounded", "simultaneous transfers"
    )
    sim.check(
        all(results), "spurious-failure",
        f"results of simultaneous transfers: {results}",
    )
    sim.probe("twins")
    for i, size in enumerate([700, 1, 1024]):
        got = content(world.root / f"twin{i}.bin")
        sim.check(
            got == data_of({"tag": i, "size": size}), "false-success",
            lambda: f"simultaneous upload {i} ({size} bytes) reported success "
            f"but the server's file is {brief(got)}",
        )
    sim.check(
        content(world.local / "fixed") == payload(7, 1500), "false-success",
        "a simultaneous download reported success with something else",
    )
    await asyncio.sleep(gap(plan))

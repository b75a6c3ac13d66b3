"""Shared helpers of the property workloads."""

import asyncio


def payload(tag: int, size: int) -> bytes:
    """A deterministic, position-dependent payload."""
    if size <= 0:
        return b""
    seed = (tag * 2654435761 + 12345) & 0xFFFFFFFF
    head = f"<{tag}>".encode()
    out = bytearray(head)
    val = seed
    while len(out) < size:
        val = (val * 1103515245 + 12345) & 0x7FFFFFFF
        out += val.to_bytes(4, "big")
    return bytes(out[:size])


ALPHABET = "abc XYZ 019 {}[]\"\\\n\t\u00e9\u00df\u4e16\u754c\U0001f600\u20ac"


def text(tag: int, size: int) -> str:
    """A deterministic text (multi-byte characters included)."""
    out = []
    val = (tag * 40503 + 7) & 0x7FFFFFFF
    for _ in range(size):
        val = (val * 1103515245 + 12345) & 0x7FFFFFFF
        out.append(ALPHABET[(val >> 8) % len(ALPHABET)])
    return "".join(out)


def swarm_net(rng, tcp: bool = True, udp: bool = False,
              breaks: bool = False) -> dict:
    """A swarm configuration of the network."""
    cfg: dict = {}
    if rng.random() < 0.7:
        cfg["lat_min_us"] = rng.choice([5, 20, 200])
        cfg["lat_max_us"] = cfg["lat_min_us"] + rng.choice(
            [0, 10, 500, 5_000, 40_000]
        )
    if tcp:
        if rng.random() < 0.8:
            cfg["p_short"] = rng.choice([0.1, 0.5, 0.9, 1.0])
            cfg["short_max"] = rng.choice([1, 2, 3, 7, 64, 1400])
        if rng.random() < 0.3:
            cfg["sndbuf"] = rng.choice([1024, 16384])
        if rng.random() < 0.5:
            cfg["connect_max_us"] = rng.choice([20, 5_000, 100_000])
            cfg["accept_max_us"] = rng.choice([20, 5_000, 100_000])
        if breaks:
            if rng.random() < 0.5:
                cfg["rst_on_close"] = 1
            if rng.random() < 0.4:
                cfg["p_reset"] = rng.choice([0.002, 0.02, 0.1])
    if udp:
        if rng.random() < 0.6:
            cfg["p_drop"] = rng.choice([0.02, 0.1, 0.3])
        if rng.random() < 0.6:
            cfg["p_dup"] = rng.choice([0.02, 0.1, 0.4])
            cfg["dup_max_us"] = rng.choice([100, 5_000, 300_000])
        if rng.random() < 0.6:
            cfg["p_late"] = rng.choice([0.02, 0.1, 0.3])
            cfg["late_max_us"] = rng.choice([1_000, 50_000, 700_000])
    return cfg


def swarm_loop(rng, stall: bool = True) -> dict:
    """A swarm configuration of the scheduler."""
    cfg: dict = {}
    if rng.random() < 0.5:
        cfg["iter_cost_ns"] = rng.choice([500, 2_000, 50_000])
    if stall and rng.random() < 0.4:
        cfg["p_stall"] = rng.choice([0.002, 0.02])
        cfg["stall_max_s"] = rng.choice([0.005, 0.05, 0.5])
    return cfg


async def cancel_all(*tasks) -> None:
    """Cancel tasks and wait for them."""
    for task in tasks:
        if task is not None and not task.done():
            task.cancel()
    for task in tasks:
        if task is not None:
            try:
                await task
            except (asyncio.CancelledError, Exception):
                pass


def brief(val, limit: int = 120) -> str:
    """A short representation."""
    res = repr(val)
    if len(res) > limit:
        res = f"{res[:limit]}...({len(val)})"
    return res


def first_diff(got: list, want: list) -> str:
    """Describe where two sequences differ."""
    for i, (one, two) in enumerate(zip(got, want)):
        if one != two:
            return (
                f"item {i}: got {brief(one)} want {brief(two)} "
                f"(got {len(got)} items of {len(want)})"
            )
    return f"got {len(got)} items of {len(want)}" + (
        f", first extra {brief(got[len(want)])}"
        if len(got) > len(want)
        else ""
    )


def sane_ws(net: dict) -> dict:
    """
    Keep a network fast enough for the websocket library's own (wall-clock)
    handshake, keep-alive and closing time-outs.
    """
    if net.get("short_max", 999) < 64:
        net["lat_min_us"] = min(net.get("lat_min_us", 20), 20)
        net["lat_max_us"] = min(net.get("lat_max_us", 20), 520)
    return net

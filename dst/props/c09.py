"""
C09: the HTTP application server answers every request and outlives bad
clients.
"""

import asyncio
import json
import logging

from runtimepy.channel.environment import ChannelEnvironment
from runtimepy.channel.environment.command import GLOBAL, register_env
from runtimepy.channel.environment.command.processor import (
    ChannelCommandProcessor,
)
from runtimepy.net.server import RuntimepyServerConnection
from runtimepy.net.server.html import get_html

import aiofiles.threadpool
from vcorelib.paths import find_file

from dst.http import HttpError, encode_request, read_message, split_status
from dst.util import brief, cancel_all, payload, swarm_loop, swarm_net

FILES = {
    "a.bin": 700, "empty.bin": 0, "big.bin": 200_000, "page.html": 1500,
    "sub/x.txt": 33, "code.js": 4000, "data.json": 20, "unreadable.bin": 50,
    "noext": 5, "packed.gz": 90,
}
KINDS = [
    "file", "file", "file", "json", "json", "json_count", "app", "slow",
    "missing", "redirect", "favicon", "method", "set", "set", "toggle",
    "badset", "badenv", "force", "md", "query", "failing", "absolute",
    "jsonmissing", "jsonfile", "outside", "layered", "type",
]
BAD = [
    "garbage", "half_header", "half_body", "bad_version", "bad_method",
    "bad_length", "neg_length", "no_colon", "blank", "binary", "huge_line",
    "nul", "never_reads", "reset_mid", "close_mid_response", "idle",
    "hang", "long_path",
]


def gen(rng, tier):
    """Generate a plan."""
    net = swarm_net(rng, tcp=True)
    small = net.get("p_short", 0) > 0 and net.get("short_max", 99) < 64
    clients = []
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            oper = {"op": rng.choice(KINDS), "val": rng.randint(0, 10**6),
                    "wait_us": rng.choice([0, 0, 100, 20_000])}
            if small:
                oper["small"] = True
                if oper["op"] == "favicon":
                    oper["op"] = "json"
            ops.append(oper)
        clients.append({"ops": ops, "pipeline": rng.random() < 0.6,
                        "start_ms": rng.choice([0, 0, 1, 30])})
    bad = [
        {"kind": rng.choice(BAD), "start_ms": rng.choice([0, 0, 1, 30, 200]),
         "ms": rng.choice([0, 1, 20, 500]), "val": rng.randint(0, 1 << 30)}
        for _ in range(rng.choice([0, 1, 2, 5]))
    ]
    return {"net": net, "loop": swarm_loop(rng), "clients": clients,
            "bad": bad, "small": small, "front": rng.random() < 0.5, "p_disk_short": rng.choice([0, 0, 0.3])}


async def scenario(sim, plan):
    """Run."""
    www = sim.tmp / "www"
    (www / "sub").mkdir(parents=True)
    contents = {}
    for i, (name, size) in enumerate(FILES.items()):
        contents[name] = payload(i + 900, size)
        (www / name).write_bytes(contents[name])
    # Not served: next to what is.
    secret = b"secret-4711"
    (sim.tmp / "secret.txt").write_bytes(secret)
    (sim.tmp / "secret.md").write_bytes(secret)
    (sim.tmp / "www.md").write_bytes(secret)
    (sim.tmp / "www-old").mkdir()
    (sim.tmp / "www-old" / "secret.txt").write_bytes(secret)
    # Served, but only what the first directory doesn't have.
    more = sim.tmp / "more"
    (more / "sub").mkdir(parents=True)
    contents_more = {"a.bin": b"shadowed", "sub/y.txt": payload(33, 77)}
    for name, data in contents_more.items():
        (more / name).write_bytes(data)
    (www / "both.txt").write_bytes(b"www")
    front = sim.tmp / "front"
    front.mkdir()
    (front / "both.txt").write_bytes(b"front")
    (www / "doc.md").write_text("# Title-9281\n\nsome *text*\n")
    sim.disk.fail("www/unreadable.bin", "read", "EIO")
    sim.disk.p_short = plan["p_disk_short"]
    aiofiles.threadpool.sync_open = sim.disk.open

    # Commands.
    env = ChannelEnvironment()
    env.int_channel("num", commandable=True)
    env.bool_channel("flag", commandable=True)
    env.int_channel("fixed")
    env.finalize()
    proc = ChannelCommandProcessor(env, logging.getLogger("env"))
    executed: list = []
    proc.hooks.append(
        lambda args, chan: executed.append(
            (str(args.command), args.channel, tuple(args.extra))
        )
    )
    favicon = find_file("favicon.ico", package="runtimepy").read_bytes()
    GLOBAL.clear()
    register_env("env1", proc)
    count = {"val": 0}
    hang = asyncio.Event()

    async def app_main(document, request, response, request_data):
        document.body.text = f"main {request.target.path}"
        return document

    async def app_slow(document, request, response, request_data):
        await asyncio.sleep(0.25)
        document.body.text = "slow app"
        return document

    async def app_fail(document, request, response, request_data):
        await asyncio.sleep(0)
        raise ValueError("failing application")

    async def app_hang(document, request, response, request_data):
        await hang.wait()
        return document

    def counter():
        count["val"] += 1
        return count["val"]

    class Server(RuntimepyServerConnection):
        """The server under test."""

        apps = {"/slow": app_slow, "/fail": app_fail, "/hang": app_hang}
        default_app = app_main
        class_paths = [www, more]
        class_redirect_paths = {}
        json_data = {
            "test": {"a": 1, "b": {"c": [1, 2, 3]}, "s": "caf\u00e9"},
            "count": counter,
            "leaf": 5,
        }
        metrics_poll_period = 1e9

        def init(self):
            super().init()
            if plan.get("front"):
                self.add_path(front, front=True)

    Server.add_redirect_path("/a.bin", "old", "place")

    def document(text: str) -> bytes:
        doc = get_html()
        doc.body.text = text
        import io

        with io.StringIO() as stream:
            doc.render(stream)
            return stream.getvalue().encode()

    def parse(target: str, data: bytes):
        """Decode a JSON response."""
        try:
            return json.loads(data.decode())
        except ValueError:
            sim.check(False, "json-content",
                      f"{target}: not JSON: {brief(data)}")

    stop = asyncio.Event()
    port = 8080
    app = asyncio.create_task(Server.app(stop, host="127.0.0.1", port=port))
    await asyncio.sleep(0.01)
    cfg = sim.net.cfg
    wanted: list = []

    def build(oper: dict) -> tuple[bytes, object]:
        """The bytes of a request and a checker of its response."""
        kind, val = oper["op"], oper["val"]
        get = "GET"
        body = b""
        heads = {"Host": "localhost", "X-Val": str(val)}

        if kind in ("file", "query"):
            names = [
                x for x in contents if x not in ("unreadable.bin", "packed.gz")
                and (len(contents[x]) <= 1500 or not oper.get("small"))
            ]
            name = names[val % len(names)]
            target = f"/{name}" + ("?a=1&b=/c" if kind == "query" else "")

            def check(status, headers, data):
                sim.check(
                    status == 200 and data == contents[name], "file-content",
                    lambda: f"GET {target}: {status} {brief(data)} instead "
                    f"of {brief(contents[name])}",
                )
        elif kind == "failing":
            target = ["/unreadable.bin", "/packed.gz", "/fail"][val % 3]

            def check(status, headers, data):
                sim.check(
                    status >= 400 or target == "/packed.gz", "false-content",
                    f"GET {target}: {status} {brief(data)}",
                )
        elif kind in ("json", "jsonmissing"):
            paths = {
                "/json/test/a": {"__raw__": 1},
                "/json/test": {"a": 1, "b": {"c": [1, 2, 3]},
                               "s": "caf\u00e9"},
                "/json/test/b": {"c": [1, 2, 3]},
                "/x/json/leaf": {"__raw__": 5},
                "/json/test/s": {"__raw__": "caf\u00e9"},
            }
            target = list(paths)[val % len(paths)]
            expect = paths[target]
            if kind == "jsonmissing":
                target = ["/json/nope", "/json/test/a/b",
                          "/json/leaf/x/y"][val % 3]
                expect = None

            def check(status, headers, data):
                got = parse(target, data)
                sim.check(
                    status == 200
                    and headers["content-type"].startswith("application/json")
                    and ("error" in got if expect is None else got == expect),
                    "json-content", lambda: f"GET {target}: {status} {data!r}",
                )
        elif kind == "outside":
            target = [
                "/../secret.txt", "/sub/../../secret.txt", "/../www-old/"
                "secret.txt", "/" + str(sim.tmp / "secret.txt"), "/../secret",
                "/..//secret.txt", "/./../secret.txt",
            ][val % 7]

            def check(status, headers, data):
                sim.check(
                    secret not in data, "served-outside",
                    f"GET {target}: {status}, content of a file that isn't "
                    "in a served directory",
                )
        elif kind == "layered":
            name = ["sub/y.txt", "a.bin", "sub/../noext",
                    "both.txt"][val % 4]
            target = f"/{name}"

            def check(status, headers, data):
                want = {"sub/y.txt": contents_more["sub/y.txt"],
                        "a.bin": contents["a.bin"],
                        "both.txt": b"front" if plan.get("front")
                        else b"www"}.get(
                            name, contents["noext"])
                sim.check(
                    status == 200 and data == want, "file-content",
                    lambda: f"GET {target}: {status} {brief(data)}",
                )
        elif kind == "type":
            name, mime = [
                ("page.html", "text/html"), ("sub/x.txt", "text/plain"),
                ("data.json", "application/json"),
            ][val % 3]
            target = f"/{name}"

            def check(status, headers, data):
                got = headers.get("content-type", "")
                sim.check(
                    status == 200 and got.startswith(mime)
                    and data == contents[name], "file-type",
                    lambda: f"GET {target}: {status} {got}",
                )
        elif kind == "jsonfile":
            target = "/data.json"

            def check(status, headers, data):
                sim.check(status == 200 and data == contents["data.json"],
                          "file-content", f"GET {target}: {brief(data)}")
        elif kind == "json_count":
            target = "/json/count"
            before = {"val": count["val"]}

            def check(status, headers, data):
                got = parse(target, data)["__raw__"]
                sim.check(
                    before["val"] < got <= count["val"], "json-stale",
                    lambda: f"GET {target}: {got}, current value is "
                    f"{count['val']}, was {before['val']} when asked",
                )
        elif kind == "app":
            target = f"/page{val}" if val % 2 else "/"

            def check(status, headers, data):
                want = document(f"main {target}")
                sim.check(
                    status == 200 and data == want, "app-content",
                    lambda: f"GET {target}: {status} {brief(data, 400)}",
                )
        elif kind == "slow":
            target = "/slow"

            def check(status, headers, data):
                sim.check(status == 200 and data == document("slow app"),
                          "app-content", f"GET {target}: {brief(data)}")
        elif kind == "missing":
            target = "/unknown/file.bin"

            def check(status, headers, data):
                want = document(f"main {target}")
                sim.check(status == 200 and data == want, "app-content",
                          f"GET {target}: {brief(data)}")
        elif kind == "redirect":
            target = "/old/place"

            def check(status, headers, data):
                sim.check(
                    status == 307 and headers.get("location") == "/a.bin",
                    "redirect", f"GET {target}: {status} {headers}",
                )
        elif kind == "favicon":
            target = "/favicon.ico"

            def check(status, headers, data):
                sim.check(status == 200 and data == favicon, "favicon",
                          f"GET {target}: {status}")
        elif kind == "absolute":
            target = "http://localhost/a.bin"

            def check(status, headers, data):
                sim.check(
                    status in (400, 404)
                    or (status == 307 and headers.get("location"))
                    or (status == 200 and data == contents["a.bin"]),
                    "absolute", lambda: f"GET {target}: {status} {headers} "
                    f"{brief(data)}",
                )
        elif kind == "md":
            target = "/doc.md" if val % 2 else "/doc"

            def check(status, headers, data):
                sim.check(status == 200 and b"Title-9281" in data, "document",
                          f"GET {target}: {status} {brief(data)}")
        elif kind == "method":
            get = ["PUT", "DELETE", "OPTIONS", "PATCH"][val % 4]
            target = "/a.bin"
            body = b"x" * (val % 50)

            def check(status, headers, data):
                sim.check(status in (501, 405), "method",
                          f"{get} {target}: {status}")
        else:
            # Commands.
            get = "POST"
            good = True
            name = "num"
            if kind == "set":
                target = f"/env1/set/num/{val}"
                wanted.append(("set", "num", (str(val),)))
            elif kind == "toggle":
                target = "/env1/toggle/flag"
                wanted.append(("toggle", "flag", ()))
            elif kind == "force":
                target = f"/env1/set/-f/fixed/{val}"
                wanted.append(("set", "fixed", (str(val),)))
            elif kind == "badset":
                good = False
                target = ["/env1/set/fixed/3", "/env1/set/num/zebra",
                          "/env1/set/nothere/1", "/env1/bogus/num",
                          "/env1"][val % 5]
            else:
                good = False
                target = ["/nope/set/num/1", "/"][val % 2]

            def check(status, headers, data):
                got = parse(target, data)
                sim.check(
                    status == 200 and got["success"] is good,
                    "command-result",
                    lambda: f"POST {target}: {status} {data!r}",
                )
        return encode_request(get, target, heads, body), check

    async def client(i: int, spec: dict) -> None:
        await asyncio.sleep(spec["start_ms"] / 1e3)
        reader, writer = await asyncio.open_connection("127.0.0.1", port)
        pending: asyncio.Queue = asyncio.Queue()

        async def receive() -> None:
            for j in range(len(spec["ops"])):
                check, oper = await pending.get()
                try:
                    got = await read_message(reader)
                except (HttpError, ConnectionError) as exc:
                    sim.check(False, "bad-response",
                              f"client {i} request {j} ({oper}): {exc!r}")
                sim.check(
                    got is not None, "no-response",
                    f"client {i} request {j} ({oper}): connection closed "
                    "instead of a response",
                )
                check(split_status(got[0])[0], got[1], got[2])
                sim.probe("responses")

        recv = None
        if spec["pipeline"]:
            recv = asyncio.ensure_future(receive())
        for oper in spec["ops"]:
            if oper["wait_us"]:
                await asyncio.sleep(oper["wait_us"] / 1e6)
            data, check = build(oper)
            writer.write(data)
            if spec["pipeline"]:
                pending.put_nowait((check, oper))
                continue
            try:
                got = await read_message(reader)
            except (HttpError, ConnectionError) as exc:
                sim.check(False, "bad-response", f"client {i} {oper}: {exc!r}")
            sim.check(got is not None, "no-response",
                      f"client {i} {oper}: closed instead of a response")
            check(split_status(got[0])[0], got[1], got[2])
            sim.probe("responses")
        if recv is not None:
            await recv
        # Nothing but the responses was sent.
        writer.write_eof()
        try:
            rest = await reader.read()
        except ConnectionError:
            rest = b""
        sim.check(not rest, "extra-response",
                  lambda: f"client {i}: unexpected {brief(rest)}")
        writer.close()

    async def bad(spec: dict) -> None:
        import random

        rng = random.Random(spec["val"])
        await asyncio.sleep(spec["start_ms"] / 1e3)
        reader, writer = await asyncio.open_connection("127.0.0.1", port)
        kind = spec["kind"]
        sim.fault(f"bad_{kind}")
        get = b"GET /a.bin HTTP/1.1\r\n"
        data = {
            "garbage": lambda: rng.randbytes(200) + b"\r\n\r\n",
            "half_header": lambda: get + b"Host: x",
            "half_body": lambda: b"POST /env1/set/num/1 HTTP/1.1\r\n"
            b"Content-Length: 100\r\n\r\nabc",
            "bad_version": lambda: b"GET / HTTQ/x.y\r\n\r\n",
            "bad_method": lambda: b"BREW / HTTP/1.1\r\n\r\n",
            "bad_length": lambda: get + b"Content-Length: many\r\n\r\n",
            "neg_length": lambda: get + b"Content-Length: -5\r\n\r\n",
            "no_colon": lambda: get + b"nonsense\r\n\r\n",
            "blank": lambda: b"\r\n\r\n\r\n",
            "binary": lambda: b"\xff\xfe\xfd GET\r\n\r\n",
            "huge_line": lambda: get + b"A: " + b"x" * 3000,
            "nul": lambda: b"GET /\x00x HTTP/1.1\r\n\r\n",
            "never_reads": lambda: b"GET /big.bin HTTP/1.1\r\n\r\n" * 5,
            "reset_mid": lambda: b"GET /big.bin HTTP/1.1\r\n\r\n" * 2,
            "close_mid_response": lambda: b"GET /big.bin HTTP/1.1\r\n\r\n",
            "idle": lambda: b"",
            "hang": lambda: b"GET /hang HTTP/1.1\r\n\r\n",
            "long_path": lambda: b"GET /" + b"y" * 400 + b" HTTP/1.1\r\n\r\n",
        }[kind]()
        if plan["small"]:
            data = data.replace(b"big.bin", b"a.bin")
        writer.write(data)
        if kind in ("never_reads", "reset_mid"):
            writer.transport.pause_reading()
        await asyncio.sleep(spec["ms"] / 1e3)
        if kind in ("reset_mid", "half_body"):
            writer.transport.abort()
        elif kind not in ("never_reads", "idle", "hang"):
            writer.close()
        else:
            # Still around until the end.
            keep.append(writer)

    keep: list = []
    total = sum(len(x["ops"]) for x in plan["clients"])
    bytes_max = sum(
        (8_000 if x.get("small") else 400_000)
        for y in plan["clients"] for x in y["ops"]
    )
    patience = (
        60.0 + total
        + bytes_max * 2 * cfg.lat_max_us / 1e6
        * (1 if cfg.p_short else 1 / 500)
        + (2000 if plan["loop"].get("p_stall") else 0)
    )
    bads = [asyncio.ensure_future(bad(x)) for x in plan["bad"]]
    await sim.within(
        asyncio.gather(
            *[client(i, x) for i, x in enumerate(plan["clients"])]
        ),
        patience, "not-served", "well-behaved clients",
    )
    await sim.within(asyncio.gather(*bads), 60, "harness", "bad clients")

    # Commands took effect exactly once (and in order if one client).
    got = [x for x in executed]
    sim.check(
        sorted(got) == sorted(wanted)
        and (len(plan["clients"]) > 1 or got == wanted),
        "command-effect",
        lambda: f"requested commands {wanted}, executed {got}",
    )
    toggles = sum(x[0] == "toggle" for x in wanted)
    sim.check(env.value("flag") is bool(toggles % 2), "command-effect",
              lambda: f"{toggles} toggles: {env.value('flag')}")
    nums = [x for x in got if x[1] == "num"]
    if nums:
        sim.check(
            env.value("num") == int(nums[-1][2][0]), "command-effect",
            lambda: f"num is {env.value('num')} after {nums}",
        )

    # A new client is still served (others may be stuck).
    async def last() -> None:
        reader, writer = await asyncio.open_connection("127.0.0.1", port)
        writer.write(encode_request("GET", "/sub/x.txt", {}, b""))
        got = await read_message(reader)
        sim.check(
            got is not None and got[2] == contents["sub/x.txt"],
            "not-served", "a later client's request failed",
        )
        writer.close()

    await sim.within(
        last(), 30 + (2000 if plan["loop"].get("p_stall") else 0)
        + 4000 * cfg.lat_max_us / 1e6, "not-served", "a later client",
    )
    hang.set()
    for writer in keep:
        writer.close()
    stop.set()
    await sim.within(app, 60, "shutdown", "end of the server")
    await cancel_all(*bads)

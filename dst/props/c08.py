"""
C08: HTTP messages survive any segmentation and each request gets its own
response.
"""

import asyncio
import http

from runtimepy.net.http.header import RequestHeader
from runtimepy.net.http.response import ResponseHeader
from runtimepy.net.manager import ConnectionManager
from runtimepy.net.tcp.http import HttpConnection

from dst.http import (
    HttpError,
    encode_request,
    encode_response,
    read_message,
    split_status,
)
from dst.util import brief, cancel_all, payload, swarm_loop, swarm_net

METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"]
TARGETS = ["/", "/a", "/a/b/c.txt?x=1&y=2", "/%20enc", "*",
           "http://host:80/abs?q", "/long/" + "z" * 300]
VALUES = ["v", "", "a b", "x:y:z", "caf\u00e9", "\u4e16\u754c", "q" * 200,
          "tab\tbed", "\U0001f600"]
SIZES = [0, 0, 1, 2, 17, 300, 4000, 70_000]
STATUS = [200, 200, 200, 201, 204, 301, 404, 418, 500]
REASONS = ["", "OK", "Not Found", "two words: and colon"]


def gen(rng, tier):
    """Generate a plan."""
    form = rng.choice(
        ["pair", "pair", "raw_client", "raw_server", "restart"]
    )
    net = swarm_net(rng, tcp=True, breaks=rng.random() < 0.3)
    small = net.get("short_max", 999) <= 7 and net.get("p_short", 0) > 0
    ops = []
    for i in range(rng.choice([1, 2, 4, 8, 16])):
        oper = {
            "method": rng.choice(METHODS),
            "target": rng.choice(TARGETS),
            "headers": {
                f"X-Head{j}": rng.choice(VALUES)
                for j in range(rng.choice([0, 0, 1, 3, 8]))
            },
            "size": rng.choice(SIZES[:5] if small else SIZES),
            "rsize": rng.choice(SIZES[:5] if small else SIZES),
            "status": rng.choice(STATUS),
            "reason": rng.choice(REASONS),
            "delay_us": rng.choice([0, 0, 0, 200, 30_000]),
            "wait_us": rng.choice([0, 0, 0, 100, 50_000]),
        }
        if rng.random() < 0.12:
            oper["cancel_us"] = rng.choice([0, 1, 100, 5000, 40_000])
        if form == "pair" and rng.random() < 0.07:
            oper["raise"] = True
        ops.append(oper)
    plan = {"form": form, "net": net, "loop": swarm_loop(rng), "ops": ops,
            "together": rng.random() < 0.6}
    if not plan["together"]:
        for prev, oper in zip(ops, ops[1:]):
            if rng.random() < 0.2:
                # The same header object is used again.
                oper["reuse"] = True
                for key in ("method", "target", "headers"):
                    oper[key] = prev[key]
    if form.startswith("raw"):
        for oper in ops:
            oper["style"] = rng.choice(["", "", "lower", "upper", "tight",
                                        "spaces", "tab"])
    if form in ("pair", "raw_client") and rng.random() < 0.3:
        plan["unhandled"] = rng.choice(ops)["method"]
    if form == "restart":
        # Complete responses before the server goes away, and how much of
        # the next one it still sends.
        plan["sessions"] = [
            {"complete": rng.choice([0, 0, 1, 2, 3]),
             "part": rng.choice([0.0, 0.01, 0.3, 0.7, 0.99]),
             "how": rng.choice(["fin", "reset"])}
            for _ in range(rng.choice([1, 1, 2, 4]))
        ]
        plan["net"].pop("p_reset", None)
        return plan
    if rng.random() < 0.15:
        plan["close_us"] = rng.choice([0, 100, 2000, 50_000])
        plan["closer"] = rng.choice(["c", "s", "reset"])
    return plan


def want_headers(oper: dict) -> dict:
    """The header fields of a request."""
    return {k.lower(): v.strip() for k, v in oper["headers"].items()}


def response_of(i: int, oper: dict) -> tuple:
    """Status, reason, headers and body of a response."""
    bodiless = oper["method"] == "HEAD" or oper["status"] == 204
    return (
        oper["status"], oper["reason"],
        {"x-tag": str(i), **{
            k.lower().replace("x-", "y-"): v
            for k, v in oper["headers"].items()}},
        payload(i + 50_000, 0 if bodiless else oper["rsize"]),
    )


async def scenario(sim, plan):
    """Run."""
    ops = plan["ops"]
    seen: list = []

    class Http(HttpConnection):
        """Records requests."""

        def init(self):
            super().init()
            for method in http.HTTPMethod:
                self.handlers[method] = self.record
            if "unhandled" in plan:
                del self.handlers[http.HTTPMethod(plan["unhandled"])]

        async def record(self, response, request, request_data):
            tag = int(request["x-tag"])
            seen.append(
                (tag, str(request.method), request.target.raw,
                 dict(request.headers), request_data or b"")
            )
            oper = ops[tag]
            if oper["delay_us"]:
                await asyncio.sleep(oper["delay_us"] / 1e6)
            if oper.get("raise"):
                raise OSError("handler failed")
            status, reason, headers, body = response_of(tag, oper)
            response.status = http.HTTPStatus(status)
            response.reason = reason
            for key, val in headers.items():
                response[key] = val
            return body or None

    healthy = not plan["net"].get("p_reset") and "closer" not in plan
    cfg = sim.net.cfg
    patience = 60.0 + sum(
        (x["size"] + x["rsize"] + 1500) * 2 * cfg.lat_max_us / 1e6
        / (1 if cfg.p_short else 500)
        + x["delay_us"] / 1e6 + x["wait_us"] / 1e6
        for x in ops
    ) * (1 + 20 * plan["loop"].get("stall_max_s", 0))
    if plan["loop"].get("p_stall"):
        patience += 2000

    if plan["form"] == "raw_client":
        await raw_client(sim, plan, Http, seen, healthy, patience)
    elif plan["form"] == "raw_server":
        await raw_server(sim, plan, healthy, patience)
    elif plan["form"] == "restart":
        await restart(sim, plan, patience)
    else:
        await pair(sim, plan, Http, seen, healthy, patience)


def check_seen(sim, plan, seen, sent, complete: bool) -> None:
    """The handler saw what was sent."""
    ops = plan["ops"]
    sent = [x for x in sent if not unhandled(plan, ops[x])]
    order = [x[0] for x in seen]
    sim.check(
        order == sent[: len(order)], "request-order",
        lambda: f"sent requests {sent}, the peer handled {order}",
    )
    if complete:
        sim.check(
            len(order) == len(sent), "request-lost",
            lambda: f"sent requests {sent}, the peer handled {order}",
        )
    for tag, method, target, headers, body in seen:
        oper = ops[tag]
        sim.check(
            method == oper["method"] and target == oper["target"],
            "request-line",
            lambda: f"request {tag}: got {method} {target} instead of "
            f"{oper['method']} {oper['target']}",
        )
        for key, val in want_headers(oper).items():
            sim.check(
                headers.get(key) == val, "request-header",
                lambda: f"request {tag}: field {key} is "
                f"{headers.get(key)!r} instead of {val!r}",
            )
        extra = set(headers) - set(want_headers(oper)) - {
            "x-tag", "content-length", "user-agent",
        }
        sim.check(not extra, "request-header",
                  lambda: f"request {tag}: invented fields {extra}")
        want = payload(tag, oper["size"])
        sim.check(
            body == want, "request-body",
            lambda: f"request {tag}: body {brief(body)} instead of "
            f"{brief(want)}",
        )


def unhandled(plan, oper: dict) -> bool:
    """Determine if nothing handles a request."""
    return plan.get("unhandled") == oper["method"]


def check_response(
    sim, plan, i, oper, status, reason, headers, body
) -> None:
    """A response is the one to this request."""
    if unhandled(plan, oper):
        sim.check(
            status == 501 and not body and "x-tag" not in headers,
            "status-line",
            lambda: f"request {i}, which nothing handles: {status} "
            f"{headers} {brief(body)}",
        )
        return
    want = response_of(i, oper)
    sim.check(
        headers.get("x-tag") == str(i), "response-swapped",
        lambda: f"request {i} completed with the response to "
        f"{headers.get('x-tag')}",
    )
    sim.check(
        status == want[0] and reason == want[1], "status-line",
        lambda: f"response {i}: {status} {reason!r} instead of "
        f"{want[0]} {want[1]!r}",
    )
    for key, val in want[2].items():
        sim.check(
            headers.get(key) == val.strip(), "response-header",
            lambda: f"response {i}: field {key} is {headers.get(key)!r} "
            f"instead of {val!r}",
        )
    sim.check(
        body == want[3], "response-body",
        lambda: f"response {i}: body {brief(body)} instead of "
        f"{brief(want[3])}",
    )


async def client_requests(
    sim, plan, client, sent, healthy, patience, settled=None
) -> None:
    """Make all requests with the library's client."""
    ops = plan["ops"]
    latest: list = []
    orig = client._send

    def mark(head, data=None):
        sent.append(int(head["x-tag"]))
        orig(head, data)

    client._send = mark

    async def request(i: int, oper: dict) -> None:
        if oper.get("reuse"):
            header = latest[-1]
        else:
            header = RequestHeader(oper["method"], oper["target"])
            latest.append(header)
        header["X-Tag"] = str(i)
        for key, val in oper["headers"].items():
            header[key] = val
        body = payload(i, oper["size"])
        task = asyncio.ensure_future(client.request(header, body or None))
        if "cancel_us" in oper:
            await asyncio.wait([task], timeout=oper["cancel_us"] / 1e6)
            if not task.done():
                task.cancel()
                sim.fault("request_cancelled")
        done, _ = await asyncio.wait([task], timeout=patience)
        sim.check(
            done, "request-hangs",
            lambda: f"request {i} still waits after {patience:.0f} s "
            f"(connection disabled: {client.disabled})",
        )
        if task.cancelled():
            return
        exc = task.exception()
        if exc is not None:
            sim.check(
                isinstance(exc, (ConnectionError, TimeoutError)),
                "request-error", f"request {i} raised {exc!r}",
            )
            sim.check(
                not healthy, "request-error",
                lambda: f"request {i} on a healthy connection: {exc!r}",
            )
            sim.probe("request_failed")
            if settled is not None:
                await settled()
            return
        head, data = task.result()
        sim.probe("responses")
        if oper.get("raise") and not unhandled(plan, oper):
            # Something went wrong there, which isn't a success.
            sim.check(
                head.status >= 500, "status-line",
                f"request {i}: failing handler answered {head.status}",
            )
            return
        check_response(sim, plan, i, oper, int(head.status), head.reason,
                       head.headers, data or b"")

    if plan["together"]:
        await asyncio.gather(*[request(i, x) for i, x in enumerate(ops)])
    else:
        for i, oper in enumerate(ops):
            if oper["wait_us"]:
                await asyncio.sleep(oper["wait_us"] / 1e6)
            await request(i, oper)


async def pair(sim, plan, Http, seen, healthy, patience) -> None:
    """The library's client and server."""
    async with Http.create_pair() as (server, client):
        stop = asyncio.Event()
        procs = [
            asyncio.create_task(x.process(stop_sig=stop))
            for x in (server, client)
        ]

        async def closer():
            await asyncio.sleep(plan["close_us"] / 1e6)
            if plan["closer"] == "reset":
                sim.net.conns[0].reset("fault")
            else:
                (client if plan["closer"] == "c" else server).disable("test")
            sim.fault("closed")

        task = (
            asyncio.create_task(closer()) if "closer" in plan else None
        )
        sent: list = []
        await client_requests(sim, plan, client, sent, healthy, patience)
        check_seen(sim, plan, seen, sent, False)
        if healthy:
            sim.check(not client.disabled and not server.disabled,
                      "connection-lost", "a healthy connection was disabled")
        stop.set()
        if task is not None:
            await task
        await sim.within(asyncio.gather(*procs), 60, "shutdown",
                         "end of processing")


async def raw_client(sim, plan, Http, seen, healthy, patience) -> None:
    """An independent client against the library's server."""
    stop = asyncio.Event()
    port = 8080
    app = asyncio.create_task(Http.app(stop, host="127.0.0.1", port=port))
    await asyncio.sleep(0.01)
    reader, writer = await asyncio.open_connection("127.0.0.1", port)
    ops = plan["ops"]
    sent = []

    async def produce():
        for i, oper in enumerate(ops):
            if oper["wait_us"]:
                await asyncio.sleep(oper["wait_us"] / 1e6)
            sent.append(i)
            writer.write(
                encode_request(
                    oper["method"], oper["target"],
                    {"X-Tag": str(i), **oper["headers"]},
                    payload(i, oper["size"]), style=oper.get("style", ""),
                )
            )
            if not plan["together"]:
                await writer.drain()
        if "closer" in plan:
            await asyncio.sleep(plan["close_us"] / 1e6)
            sim.fault("closed")
            if plan["closer"] == "reset":
                sim.net.conns[0].reset("fault")
            else:
                writer.close()

    async def consume():
        for i, oper in enumerate(ops):
            try:
                got = await read_message(reader)
            except ConnectionError:
                got = None
            except HttpError as exc:
                sim.check(not healthy, "bad-response",
                          f"response {i}: {exc}")
                return
            if got is None:
                sim.check(not healthy, "response-lost",
                          f"connection ended instead of response {i}")
                return
            sim.probe("responses")
            status, reason = split_status(got[0])
            check_response(sim, plan, i, oper, status, reason, got[1], got[2])

    async def both():
        prod = asyncio.ensure_future(produce())
        await consume()
        if not healthy:
            await asyncio.wait([prod], timeout=5)
        await cancel_all(prod)

    await sim.within(both(), patience, "request-hangs",
                     "pipelined requests of a raw client")
    check_seen(sim, plan, seen, sent, healthy)
    writer.close()
    await asyncio.sleep(0.1)
    stop.set()
    await sim.within(app, 60, "shutdown", "end of the server")


async def raw_server(sim, plan, healthy, patience) -> None:
    """The library's client against an independent server."""
    ops = plan["ops"]
    seen: list = []
    writers = []

    async def serve(reader, writer):
        writers.append(writer)
        while True:
            try:
                got = await read_message(reader)
            except (ConnectionError, HttpError):
                break
            if got is None:
                break
            line, headers, body = got
            method, target, version = line.split(" ")
            sim.check(version == "HTTP/1.1", "request-line", line)
            tag = int(headers["x-tag"])
            seen.append((tag, method, target, headers, body))
            if ops[tag]["delay_us"]:
                await asyncio.sleep(ops[tag]["delay_us"] / 1e6)
            writer.write(encode_response(
                *response_of(tag, ops[tag]), style=ops[tag].get("style", "")
            ))
        writer.close()

    server = await asyncio.start_server(serve, "127.0.0.1", 8080)
    client = await HttpConnection.create_connection(
        host="127.0.0.1", port=8080
    )
    stop = asyncio.Event()
    proc = asyncio.create_task(client.process(stop_sig=stop))

    async def closer():
        await asyncio.sleep(plan["close_us"] / 1e6)
        sim.fault("closed")
        if plan["closer"] == "reset":
            sim.net.conns[0].reset("fault")
        elif plan["closer"] == "c":
            client.disable("test")
        else:
            for writer in writers:
                writer.close()

    task = asyncio.create_task(closer()) if "closer" in plan else None
    sent: list = []
    await client_requests(sim, plan, client, sent, healthy, patience)
    check_seen(sim, plan, seen, sent, False)
    if healthy:
        sim.check(not client.disabled, "connection-lost",
                  "a healthy connection was disabled")
    if task is not None:
        await task
    stop.set()
    await sim.within(proc, 60, "shutdown", "end of processing")
    server.close()


async def restart(sim, plan, patience) -> None:
    """The library's client connects again after losing its server."""
    ops, sessions = plan["ops"], list(plan["sessions"])
    connected: list = []

    async def serve(reader, writer):
        connected.append(writer)
        session = sessions.pop(0) if sessions else None
        count = 0
        while True:
            try:
                got = await read_message(reader)
            except (ConnectionError, HttpError):
                break
            if got is None:
                break
            line, headers, body = got
            tag = int(headers["x-tag"])
            oper = ops[tag]
            method, target, _ = line.split(" ")
            sim.check(
                (method, target) == (oper["method"], oper["target"])
                and body == payload(tag, oper["size"]), "request-body",
                lambda: f"request {tag}: {line} {brief(body)}",
            )
            if oper["delay_us"]:
                await asyncio.sleep(oper["delay_us"] / 1e6)
            data = encode_response(*response_of(tag, oper))
            if session is not None and count == session["complete"]:
                part = int(len(data) * session["part"])
                writer.write(data[:part])
                sim.fault(f"server_{session['how']}")
                if session["how"] == "reset":
                    await asyncio.sleep(0.01)
                    writer.transport.abort()
                    return
                break
            writer.write(data)
            count += 1
        writer.close()

    class Client(HttpConnection):
        """The client under test."""

        default_auto_restart = True

    server = await asyncio.start_server(serve, "127.0.0.1", 8080)
    client = await Client.create_connection(host="127.0.0.1", port=8080)
    stop = asyncio.Event()
    manager = ConnectionManager()
    manager.queue.put_nowait(client)
    task = asyncio.create_task(manager.manage(stop))
    # Responses (and requests) only start with processing.
    await asyncio.sleep(0.01)

    async def again() -> None:
        """The client connects again."""
        while client.disabled:
            await asyncio.sleep(0.05)
        sim.probe("connected_again")

    async def settled() -> None:
        await sim.within(again(), patience, "not-restarted",
                         "connecting again")

    plan = {**plan, "together": False}
    await client_requests(sim, plan, client, [], False, patience, settled)
    # Once the server stays, requests succeed.
    for _ in range(len(plan["sessions"]) + 2):
        if not sessions and len(connected) > len(plan["sessions"]):
            break
        await client_requests(
            sim, {**plan, "ops": ops[:1]}, client, [], False, patience,
            settled,
        )
    if len(connected) > len(plan["sessions"]):
        await settled()
        last = [{**x, "reuse": False} for x in ops]
        for oper in last:
            oper.pop("cancel_us", None)
        await client_requests(sim, {**plan, "ops": last}, client, [], True,
                              patience)
        sim.probe("served_again")
    stop.set()
    await sim.within(task, 60, "shutdown", "end of the manager")
    server.close()

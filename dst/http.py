"""
An independent, minimal HTTP/1.1 implementation: the oracle's side of HTTP
workloads (content-length framing only).
"""

import asyncio


class HttpError(Exception):
    """The peer sent something that isn't HTTP."""


def field(key: str, val: str, style: str = "") -> str:
    """Encode a field line, names are case-insensitive."""
    if style == "lower":
        key = key.lower()
    elif style == "upper":
        key = key.upper()
    return {
        "tight": f"{key}:{val}", "spaces": f"{key}:   {val}  ",
        "tab": f"{key}:\t{val} \t",
    }.get(style, f"{key}: {val}")


def encode_request(method: str, target: str, headers: dict, body: bytes,
                   always_length: bool = False, style: str = "") -> bytes:
    """Encode a request."""
    lines = [f"{method} {target} HTTP/1.1"]
    lines += [field(k, v, style) for k, v in headers.items()]
    if body or always_length:
        lines.append(field("Content-Length", str(len(body)), style))
    return ("\r\n".join(lines) + "\r\n\r\n").encode() + body


def encode_response(status: int, reason: str, headers: dict,
                    body: bytes, style: str = "") -> bytes:
    """Encode a response."""
    start = f"HTTP/1.1 {status}"
    if reason:
        start += f" {reason}"
    lines = [start]
    lines += [field(k, v, style) for k, v in headers.items()]
    lines.append(field("Content-Length", str(len(body)), style))
    return ("\r\n".join(lines) + "\r\n\r\n").encode() + body


async def read_message(reader: asyncio.StreamReader):
    """Read one message: (start line, headers, body) or None at the end."""
    raw = b""
    while not raw.endswith(b"\r\n\r\n"):
        try:
            raw += await reader.readuntil(b"\r\n\r\n")
        except asyncio.IncompleteReadError as exc:
            if exc.partial:
                raise HttpError(f"partial header {exc.partial!r}") from exc
            return None
    lines = raw[:-4].decode().split("\r\n")
    headers = {}
    for line in lines[1:]:
        key, sep, val = line.partition(":")
        if not sep or not key or key != key.strip():
            raise HttpError(f"bad field line {line!r}")
        headers[key.lower()] = val.strip()
    length = int(headers.get("content-length", "0"))
    try:
        body = await reader.readexactly(length)
    except asyncio.IncompleteReadError as exc:
        raise HttpError(
            f"{len(exc.partial)} of {length} body bytes"
        ) from exc
    return lines[0], headers, body


def split_status(line: str) -> tuple[int, str]:
    """Parse a status line."""
    parts = line.split(" ", 2)
    if len(parts) < 2 or parts[0] != "HTTP/1.1":
        raise HttpError(f"bad status line {line!r}")
    return int(parts[1]), parts[2] if len(parts) > 2 else ""

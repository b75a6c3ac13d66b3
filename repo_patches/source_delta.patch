From caad220c696f4f9ba4b349025a4139913f2d92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 01/52] fix: JSON peers must not mistake each other's request
 identifiers for their own

---
 runtimepy/message/interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f7f723d..ef188df 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -7,6 +7,7 @@ import asyncio
 from copy import copy
 from io import BytesIO
 import logging
+from random import randrange
 from typing import Any, Optional, Union
 
 # third-party
@@ -70,7 +71,11 @@ class JsonMessageInterface:
             "kind": type(self).__name__,
         }
 
+        # Both ends of a connection assign identifiers to their own requests,
+        # start at an arbitrary (odd) one so that a peer's request isn't
+        # mistaken for the response to one of ours.
         self.curr_id = Identifier()
+        self.curr_id.curr_id = randrange(1, 2**31, 2)
 
         self.ids_waiting: dict[int, asyncio.Event] = {}
         self.id_responses: dict[int, JsonMessage] = {}
-- 
2.43.0


From 64f0abe9f6896efd79c2fba06cd5c9514288322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 02/52] fix: don't answer late or duplicate JSON responses,
 forget timed-out requests

---
 runtimepy/message/interface.py | 13 ++++++++++---
 runtimepy/util.py              | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index ef188df..828b7c1 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -235,6 +235,10 @@ class JsonMessageInterface:
                 # Don't respond if we're receiving a reply.
                 should_respond = False
 
+            # Don't respond to a duplicate (or late) reply.
+            elif self.curr_id.issued(ident):
+                should_respond = False
+
             response["__id__"] = ident
 
         # Log messages sent by the peer.
@@ -271,9 +275,12 @@ class JsonMessageInterface:
         # Send message and await response.
         self.send_json(data, addr=addr)
 
-        assert await event_wait(
-            got_response, timeout
-        ), f"No response received in {timeout} seconds!"
+        try:
+            assert await event_wait(
+                got_response, timeout
+            ), f"No response received in {timeout} seconds!"
+        finally:
+            self.ids_waiting.pop(ident, None)
 
         # Return the result.
         result = self.id_responses[ident]
diff --git a/runtimepy/util.py b/runtimepy/util.py
index 8cf0558..8a41f09 100644
--- a/runtimepy/util.py
+++ b/runtimepy/util.py
@@ -5,7 +5,7 @@ A module implementing package utilities.
 # built-in
 from os import sep
 from pathlib import Path
-from typing import Iterator, Union
+from typing import Any, Iterator, Optional, Union
 
 # third-party
 import aiofiles
@@ -38,13 +38,24 @@ class Identifier:
         """Initialize this instance."""
         self.curr_id: int = 1
         self.scale = 2
+        self.first_id: Optional[int] = None
 
     def __call__(self) -> int:
         """Get the next identifier."""
         curr = self.curr_id
+        if self.first_id is None:
+            self.first_id = curr
         self.curr_id += self.scale
         return curr
 
+    def issued(self, ident: Any) -> bool:
+        """Determine if an identifier was issued by this instance."""
+        return (
+            isinstance(ident, int)
+            and self.first_id is not None
+            and ident in range(self.first_id, self.curr_id, self.scale)
+        )
+
 
 def path_has_part(path: str, key: str = "json") -> bool:
     """Determine if a key appears as a part of a path."""
-- 
2.43.0


From 5d8736c7cc2f95f46549e6177d532a048c4a38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 03/52] fix: end processing when a handler or initialization
 raises, close connections that were disabled beforehand

---
 runtimepy/net/connection.py     | 48 ++++++++++++++++++++-------------
 runtimepy/net/udp/connection.py | 23 +++++++++-------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..559fc90 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -212,13 +212,17 @@ class Connection(
     async def _async_init(self) -> None:
         """Run this connection's initialization routine."""
 
-        if not await self.async_init():
-            self.disable("init failed")
-        else:
-            self.logger.info("Initialized.")
+        success = False
+        try:
+            success = await self.async_init()
+        finally:
+            if not success:
+                self.disable("init failed")
+            else:
+                self.logger.info("Initialized.")
 
-        self.env.finalize(strict=False)
-        self.initialized.set()
+            self.env.finalize(strict=False)
+            self.initialized.set()
 
     async def restart(self) -> bool:
         """
@@ -276,6 +280,11 @@ class Connection(
         Process tasks for this connection while the connection is active.
         """
 
+        # If this connection was disabled before it was ever processed, its
+        # transport is still open.
+        if self.disabled:
+            await self.close()
+
         await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
         if self.disabled:
             return
@@ -323,20 +332,23 @@ class Connection(
 
         with suppress(KeyboardInterrupt):
             while self._enabled:
-                # Attempt to get the next message.
-                message = await self._await_message()
                 result = False
 
-                if message is not None:
-                    # Process a text or binary message.
-                    if isinstance(message, str):
-                        result = await self.process_text(message)
-                    else:
-                        result = await self.process_binary(message)
-
-                # If we failed to read a message, disable.
-                if not result:
-                    self.disable("read processing error")
+                try:
+                    # Attempt to get the next message.
+                    message = await self._await_message()
+
+                    if message is not None:
+                        # Process a text or binary message.
+                        if isinstance(message, str):
+                            result = await self.process_text(message)
+                        else:
+                            result = await self.process_binary(message)
+
+                # If we failed to read (or handle) a message, disable.
+                finally:
+                    if not result:
+                        self.disable("read processing error")
 
     async def _process_write_text(self) -> None:
         """Process outgoing text messages."""
diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index cfa4f8f..5ef8301 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -197,19 +197,22 @@ class UdpConnection(_Connection, _TransportMixin):
 
         with _suppress(KeyboardInterrupt):
             while self._enabled:
-                # Attempt to get the next message.
-                message = await self._protocol.queue.get()
                 result = False
 
-                if message is not None:
-                    data = message[0]
-                    self.latest_rx_address = message[1]
-                    result = await self.process_datagram(data, message[1])
-                    self.metrics.rx.increment(len(data))
+                try:
+                    # Attempt to get the next message.
+                    message = await self._protocol.queue.get()
 
-                # If we failed to read a message, disable.
-                if not result:
-                    self.disable("read processing error")
+                    if message is not None:
+                        data = message[0]
+                        self.latest_rx_address = message[1]
+                        result = await self.process_datagram(data, message[1])
+                        self.metrics.rx.increment(len(data))
+
+                # If we failed to read (or handle) a message, disable.
+                finally:
+                    if not result:
+                        self.disable("read processing error")
 
 
 class EchoUdpConnection(UdpConnection, _EchoConnection):
-- 
2.43.0


From 74369db0af5ead8562d424f81b09842724f0a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 04/52] fix: connection manager processes a connection once at
 a time and closes those it never started

---
 runtimepy/net/manager.py        | 50 ++++++++++++++++++++++++---------
 runtimepy/net/tcp/connection.py |  8 +++++-
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..230d208 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -64,6 +64,16 @@ class ConnectionManager(LoggerMixin):
         for conn in self._conns:
             conn.metrics.poll(time_ns=time_ns)
 
+    async def _process(
+        self, conn: _Connection, stop_sig: _asyncio.Event
+    ) -> None:
+        """Process a connection, unless it's already over."""
+
+        if conn.disabled and not conn.auto_restart:
+            await conn.close()
+        else:
+            await conn.process(stop_sig=stop_sig)
+
     async def manage(self, stop_sig: _asyncio.Event) -> None:
         """Handle incoming connections until the stop signal is set."""
 
@@ -75,7 +85,10 @@ class ConnectionManager(LoggerMixin):
         self._running = True
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
-        tasks: list[_asyncio.Task[None]] = []
+
+        # Tasks processing connections.
+        tasks: dict[_asyncio.Task[None], _Connection] = {}
+
         self._conns = []
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
@@ -87,12 +100,13 @@ class ConnectionManager(LoggerMixin):
 
             # Wait for any task to complete.
             await _asyncio.wait(
-                [stop_sig_task, new_conn_task] + tasks,  # type: ignore
+                [stop_sig_task, new_conn_task, *tasks],  # type: ignore
                 return_when=_asyncio.FIRST_COMPLETED,
             )
 
             # Filter completed tasks out of the working set.
-            next_tasks = _log_exceptions(tasks)
+            tasks = {x: tasks[x] for x in _log_exceptions(tasks)}
+            active = list(tasks.values())
 
             # Filter out disabled connections.
             enabled = []
@@ -100,11 +114,13 @@ class ConnectionManager(LoggerMixin):
                 if not conn.disabled:
                     enabled.append(conn)
 
-                # Check if this connection should be restarted.
+                # Check if this connection should be restarted (once it's no
+                # longer being processed).
                 elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
-                    )
+                    if not any(x is conn for x in active):
+                        tasks[
+                            _asyncio.create_task(self._process(conn, stop_sig))
+                        ] = conn
                     enabled.append(conn)
 
             self._conns = enabled
@@ -114,19 +130,27 @@ class ConnectionManager(LoggerMixin):
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
                 self._conns.append(new_conn)
-                next_tasks.append(
-                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
-                )
+                tasks[
+                    _asyncio.create_task(self._process(new_conn, stop_sig))
+                ] = new_conn
                 new_conn_task = None
 
-            tasks = next_tasks
-
         with self.log_time("Shutting down", reminder=True):
             # Allow existing tasks to clean up.
             if new_conn_task is not None:
                 new_conn_task.cancel()
+
+            # Close connections that never started processing.
+            while not self.queue.empty():
+                new_conn = self.queue.get_nowait()
+                new_conn.disable("stop signal")
+                tasks[_asyncio.create_task(new_conn.close())] = new_conn
+
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-                    await _asyncio.wait_for(_asyncio.gather(*tasks), 1.0)
+                    await _asyncio.wait_for(
+                        _asyncio.gather(*tasks, return_exceptions=True), 1.0
+                    )
+                _log_exceptions(tasks)
 
         self._running = False
diff --git a/runtimepy/net/tcp/connection.py b/runtimepy/net/tcp/connection.py
index 02e3950..5d81f2d 100644
--- a/runtimepy/net/tcp/connection.py
+++ b/runtimepy/net/tcp/connection.py
@@ -200,7 +200,13 @@ class TcpConnection(_Connection, _TransportMixin):
             if callback is not None:
                 callback(conn)
             assert manager is not None
-            manager.queue.put_nowait(conn)
+
+            # Nothing processes connections that arrive during shutdown.
+            if stop_sig.is_set():
+                conn.disable("stop signal")
+                conn._transport.close()
+            else:
+                manager.queue.put_nowait(conn)
 
         async with cls.serve(app_cb, **kwargs) as server:
             if serving_callback is not None:
-- 
2.43.0


From 3cbdb293b9bb4e3af6deddaeacba8d92c3b87b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 05/52] fix: report restart attempts (not restarts) in the
 'restart_attempts' channel

---
 runtimepy/net/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 559fc90..8db67e6 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -104,7 +104,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
-- 
2.43.0


From 035b0ed5d639162cd1ad0288e976f6d5230c630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 06/52] fix: don't attempt to restart a server's side of a TCP
 connection

---
 runtimepy/net/tcp/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/net/tcp/connection.py b/runtimepy/net/tcp/connection.py
index 5d81f2d..f358929 100644
--- a/runtimepy/net/tcp/connection.py
+++ b/runtimepy/net/tcp/connection.py
@@ -162,6 +162,10 @@ class TcpConnection(_Connection, _TransportMixin):
                 super().connection_made(transport)
 
                 self.conn = cls(transport, self)
+
+                # A server's side of a connection can't be restarted.
+                self.conn._auto_restart.value = False
+
                 if callback is not None:
                     callback(self.conn)
 
-- 
2.43.0


From 0890ceb5273ca1a2bdff0923ebafc07a2d852a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 07/52] fix: a late disconnect of an earlier transport must not
 disable a re-established connection

---
 runtimepy/net/tcp/protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/protocol.py b/runtimepy/net/tcp/protocol.py
index 00004b7..32f6f6c 100644
--- a/runtimepy/net/tcp/protocol.py
+++ b/runtimepy/net/tcp/protocol.py
@@ -43,4 +43,8 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
 
         msg = "Disconnected." if exc is None else f"Disconnected: '{exc}'."
         self.logger.info(msg)
-        self.conn.disable("disconnected")
+
+        # The connection may've already been re-established using another
+        # protocol instance.
+        if getattr(self.conn, "_protocol", self) is self:
+            self.conn.disable("disconnected")
-- 
2.43.0


From 758472b759871b27d5d09e4e100c065fdf9f3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 08/52] fix: treat any OS error while connecting (e.g. host
 unreachable) as a failed attempt

---
 runtimepy/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/util.py b/runtimepy/net/util.py
index 9b86d02..6a4299a 100644
--- a/runtimepy/net/util.py
+++ b/runtimepy/net/util.py
@@ -219,7 +219,7 @@ async def try_log_connection_error(
 
     try:
         result = await future
-    except ConnectionError as exc:
+    except OSError as exc:
         if logger:
             logger.exception(message, exc_info=exc)
 
-- 
2.43.0


From 1d42f27366c5f0f39309d44e0883149533e1db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 09/52] fix: a malformed TFTP datagram must not end the
 server's connection

---
 runtimepy/net/udp/tftp/base.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..bd34fb0 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -8,6 +8,7 @@ from contextlib import AsyncExitStack
 from io import BytesIO
 import logging
 from pathlib import Path
+from struct import error as StructError
 from typing import BinaryIO, Callable
 
 # third-party
@@ -357,14 +358,23 @@ class BaseTftpConnection(UdpConnection):
     ) -> bool:
         """Process a datagram."""
 
-        with BytesIO(data) as stream:
-            self.opcode.from_stream(stream)
-            code: int = self.opcode.value
-            if code in self.handlers:
-                await self.handlers[code](stream, addr)
-            else:
-                msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
-                self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+        try:
+            with BytesIO(data) as stream:
+                self.opcode.from_stream(stream)
+                code: int = self.opcode.value
+                if code in self.handlers:
+                    await self.handlers[code](stream, addr)
+                else:
+                    msg = f"Unknown opcode {code}"
+                    self.send_error(
+                        TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr
+                    )
+                    self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+
+        # A malformed message must not affect other clients.
+        except (IndexError, StructError, ValueError) as exc:
+            self.logger.error(
+                "Malformed message from %s:%d: '%s'.", addr[0], addr[1], exc
+            )
 
         return True
-- 
2.43.0


From 0473c3c895d4b382e28e43257ccc4eee4c4f78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 10/52] fix: TFTP uploads only replace a file's content when
 complete, repeated requests are ignored

---
 runtimepy/net/udp/tftp/base.py     |   3 +-
 runtimepy/net/udp/tftp/endpoint.py | 102 ++++++++++++++++++++++-------
 2 files changed, 79 insertions(+), 26 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index bd34fb0..99eecf7 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -156,7 +156,8 @@ class BaseTftpConnection(UdpConnection):
         """Set up an endpoint to wait for an initial block from a server."""
 
         endpoint = self.endpoint(addr)
-        await stack.enter_async_context(endpoint.lock)
+        await stack.enter_async_context(endpoint.rx_lock)
+
         event = asyncio.Event()
         endpoint.awaiting_blocks[1] = event
         self._awaiting_first_block[endpoint.addr.hostname] = endpoint
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..ebc01ac 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -5,9 +5,10 @@ A module implementing an interface for individual tftp endpoints.
 # built-in
 import asyncio
 from contextlib import AsyncExitStack, suppress
+from io import BytesIO
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import Any, BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -59,8 +60,13 @@ class TftpEndpoint(LoggerMixin):
         self.ack_sender = ack_sender
         self.error_sender = error_sender
 
-        # Avoid concurrency bugs when actively writing or reading.
+        # Avoid concurrency bugs when actively sending ('lock') or receiving
+        # ('rx_lock') file data.
         self.lock = asyncio.Lock()
+        self.rx_lock = asyncio.Lock()
+
+        # Requests currently being serviced.
+        self._requests: set[tuple[str, str]] = set()
 
         # Message receiving.
         self.awaiting_acks: dict[int, asyncio.Event] = {}
@@ -156,13 +162,17 @@ class TftpEndpoint(LoggerMixin):
             level=logging.ERROR,
         )
 
-    async def ingest_file(self, stream: BinaryIO) -> bool:
-        """Ingest incoming file data and write to a stream."""
+    async def ingest_file(
+        self, stream: BinaryIO, commit: Callable[[], None] = None
+    ) -> bool:
+        """
+        Ingest incoming file data and write to a stream. If provided, 'commit'
+        is called when all data has been received (but not yet acknowledged).
+        """
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        success = False
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -190,11 +200,11 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
                 keep_going = curr_size >= self.max_block_size
+                success = not keep_going
 
             # Ensure state is cleaned up.
             self.blocks.pop(idx, None)
@@ -204,8 +214,10 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
         if success:
+            if commit is not None:
+                commit()
+
             await repeat_until(
                 self._ack_sender(idx),
                 asyncio.Event(),
@@ -221,14 +233,21 @@ class TftpEndpoint(LoggerMixin):
         async with AsyncExitStack() as stack:
             # Claim write lock and ignore cancellation.
             stack.enter_context(suppress(asyncio.CancelledError))
-            await stack.enter_async_context(self.lock)
+            await stack.enter_async_context(self.rx_lock)
 
-            path_fd = stack.enter_context(path.open("wb"))
+            # Don't touch the file until all of its data has been received,
+            # the request could be a duplicate (or the client could be gone).
+            data = stack.enter_context(BytesIO())
+
+            def commit() -> None:
+                """Write file contents."""
+                with path.open("wb") as path_fd:
+                    path_fd.write(data.getvalue())
 
             with self.log_time(
                 "Ingesting (%s) '%s'", mode, path, reminder=True
             ):
-                success = await self.ingest_file(path_fd)
+                success = await self.ingest_file(data, commit=commit)
 
             self.logger.info(
                 "%s to write (%s) '%s' from %s:%d.",
@@ -247,10 +266,32 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        if self._in_progress(filename, "ab") or not self._check_permission(
+            path, "ab"
+        ):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        return self._request_task(
+            filename, "ab", self._process_write_request(path, mode)
+        )
+
+    def _in_progress(self, filename: str, mode: str) -> bool:
+        """
+        Determine if a request is already being serviced (i.e. this one is a
+        re-transmission or duplicate).
+        """
+        return (filename, mode) in self._requests
+
+    def _request_task(
+        self, filename: str, mode: str, coro: Coroutine[Any, Any, None]
+    ) -> asyncio.Task[None]:
+        """Create a task that services a request."""
+
+        key = (filename, mode)
+        self._requests.add(key)
+        task = asyncio.create_task(coro)
+        task.add_done_callback(lambda _: self._requests.discard(key))
+        return task
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
@@ -271,14 +312,17 @@ class TftpEndpoint(LoggerMixin):
                 event = asyncio.Event()
                 self.awaiting_acks[idx] = event
 
-                if not await repeat_until(
-                    self.chunk_sender(idx, chunk),
-                    event,
-                    self.period.value,
-                    self.timeout.value,
-                ):
-                    success = False
+                try:
+                    success = await repeat_until(
+                        self.chunk_sender(idx, chunk),
+                        event,
+                        self.period.value,
+                        self.timeout.value,
+                    )
+                finally:
                     self.awaiting_acks.pop(idx, None)
+
+                if not success:
                     break
 
                 idx += 1
@@ -318,12 +362,16 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_exists(path) or not self._check_permission(
-            path, "rb"
+        if (
+            self._in_progress(filename, "rb")
+            or not self._check_exists(path)
+            or not self._check_permission(path, "rb")
         ):
             return None
 
-        return asyncio.create_task(self._process_read_request(path, mode))
+        return self._request_task(
+            filename, "rb", self._process_read_request(path, mode)
+        )
 
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
@@ -337,7 +385,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
@@ -349,7 +397,11 @@ class TftpEndpoint(LoggerMixin):
     def _check_exists(self, path: Path) -> bool:
         """Check if a file exists, send an error if not."""
 
-        result = path.is_file()
+        result = False
+
+        # Not all errors (e.g. names that are too long) are handled for us.
+        with suppress(OSError):
+            result = path.is_file()
 
         if not result:
             self.error_sender(
-- 
2.43.0


From ea6e03129120e6be6a84764f0416e5e71d0435fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 11/52] fix: acknowledge the final block of a TFTP read

---
 runtimepy/net/udp/tftp/__init__.py | 29 ++++++++++++++++++-----------
 runtimepy/net/udp/tftp/base.py     |  5 +++++
 runtimepy/net/udp/tftp/endpoint.py |  3 +++
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..e1ec798 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -70,6 +70,9 @@ class TftpConnection(BaseTftpConnection):
                     endpoint.timeout.value,
                 ):
                     endpoint.awaiting_blocks.pop(idx, None)
+                    self._awaiting_first_block.pop(
+                        endpoint.addr.hostname, None
+                    )
                     self.logger.error("Didn't receive any data block.")
                     return False
 
@@ -89,11 +92,12 @@ class TftpConnection(BaseTftpConnection):
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                if end_of_data:
                     fsync(path_fd.fileno())
 
+                # Acknowledgements are for the previous block.
+                idx += 1
+
             write_block()
 
             success = True
@@ -107,21 +111,21 @@ class TftpConnection(BaseTftpConnection):
                     endpoint.period.value,
                     endpoint.timeout.value,
                 )
+                endpoint.awaiting_blocks.pop(idx, None)
                 if success:
                     write_block()
 
             # Repeat last ack in the background.
             if end_of_data:
-                self._conn_tasks.append(
-                    asyncio.create_task(
-                        repeat_until(  # type: ignore
-                            ack_sender,
-                            asyncio.Event(),
-                            endpoint.period.value,
-                            endpoint.timeout.value,
-                        )
+                endpoint.dally = asyncio.create_task(
+                    repeat_until(  # type: ignore
+                        ack_sender,
+                        asyncio.Event(),
+                        endpoint.period.value,
+                        endpoint.timeout.value,
                     )
                 )
+                self._conn_tasks.append(endpoint.dally)
 
                 # Ensure at least one ack sends.
                 await asyncio.sleep(0.01)
@@ -167,6 +171,9 @@ class TftpConnection(BaseTftpConnection):
                         endpoint.timeout.value,
                     ):
                         endpoint.awaiting_acks.pop(0, None)
+                        self._awaiting_first_ack.pop(
+                            endpoint.addr.hostname, None
+                        )
                         return result
 
                 result = await endpoint.serve_file(src)
diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 99eecf7..c81d035 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -158,6 +158,11 @@ class BaseTftpConnection(UdpConnection):
         endpoint = self.endpoint(addr)
         await stack.enter_async_context(endpoint.rx_lock)
 
+        # Don't acknowledge blocks of a previous file.
+        if endpoint.dally is not None:
+            endpoint.dally.cancel()
+            endpoint.dally = None
+
         event = asyncio.Event()
         endpoint.awaiting_blocks[1] = event
         self._awaiting_first_block[endpoint.addr.hostname] = endpoint
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ebc01ac..7a2b466 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -73,6 +73,9 @@ class TftpEndpoint(LoggerMixin):
         self.awaiting_blocks: dict[int, asyncio.Event] = {}
         self.blocks: dict[int, bytes] = {}
 
+        # Repeats the final acknowledgement of the previous read.
+        self.dally: Optional[asyncio.Task[Any]] = None
+
         # Can be upgraded via RFC 2347.
         self.max_block_size = TFTP_MAX_BLOCK
 
-- 
2.43.0


From 13d4dc57802a5c1eefa70747b5ba1a4e926aaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 12/52] fix: decode complete HTTP header lines instead of
 individual bytes

---
 runtimepy/net/http/state.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 0811587..050473d 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -21,12 +21,12 @@ class HeaderProcessingState:
     """A container for header-related processing state."""
 
     lines: list[str]
-    line: str
+    line: bytearray
 
     @staticmethod
     def create() -> "HeaderProcessingState":
         """Create a default instance."""
-        return HeaderProcessingState([], "")
+        return HeaderProcessingState([], bytearray())
 
     def service(self, buffer: ByteFifo, kind: type[T]) -> Optional[T]:
         """
@@ -39,13 +39,13 @@ class HeaderProcessingState:
         while result is None and buffer.size:
             curr_raw = buffer.pop(1)
             if curr_raw is not None:
-                curr = curr_raw.decode(encoding=DEFAULT_ENCODING)
-
                 # Any '\r\n' sequence signifies the end of a header line.
-                if curr == "\n":
+                if curr_raw == b"\n":
                     if self.line:
-                        self.lines.append(self.line)
-                        self.line = ""
+                        self.lines.append(
+                            self.line.decode(encoding=DEFAULT_ENCODING)
+                        )
+                        self.line.clear()
 
                     # Two sequences in a row signifies the end of the header
                     # section.
@@ -54,7 +54,7 @@ class HeaderProcessingState:
                         result.from_lines(self.lines)
                         self.lines = []
 
-                elif curr != "\r":
-                    self.line += curr
+                elif curr_raw != b"\r":
+                    self.line += curr_raw
 
         return result
-- 
2.43.0


From 5c32de774fe66c294a3dcd784cc95929e6074af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 13/52] fix: HTTP clients pair responses with requests also
 after cancellation and fail requests when disconnected

---
 runtimepy/net/tcp/http/__init__.py | 56 ++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 5351c07..68654c5 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -4,6 +4,7 @@ A module implementing a basic HTTP (multiple RFC's) connection interface.
 
 # built-in
 import asyncio
+from collections import deque
 from copy import copy
 import http
 from json import loads
@@ -55,8 +56,6 @@ class HttpConnection(_TcpConnection):
 
     identity = f"{PKG_NAME}/{VERSION}"
 
-    expecting_response: bool
-
     log_alias = "HTTP"
 
     # Handlers registered at the class level so that instances created at
@@ -71,13 +70,36 @@ class HttpConnection(_TcpConnection):
 
         # Outgoing request handling.
         self.request_ready = asyncio.BoundedSemaphore()
-        self.expecting_response = False
-        self.responses: asyncio.Queue[HttpResponse] = asyncio.Queue(maxsize=1)
+
+        # Responses arrive in the order of requests, including those to
+        # requests that nothing is waiting for anymore.
+        self.pending: deque[asyncio.Future[HttpResponse]] = deque()
 
         self.handlers = copy(self.handlers)
         self.handlers[http.HTTPMethod.GET] = self.get_handler
         self.handlers[http.HTTPMethod.POST] = self.post_handler
 
+    @property
+    def expecting_response(self) -> bool:
+        """Determine if a response is the next message to receive."""
+        return bool(self.pending)
+
+    def disable_extra(self) -> None:
+        """Additional tasks to perform when disabling."""
+
+        super().disable_extra()
+
+        # Responses to current requests will never arrive.
+        while self.pending:
+            future = self.pending.popleft()
+            if not future.done():
+                future.set_exception(
+                    ConnectionError("Connection closed before response.")
+                )
+
+        # Don't resume processing a message from a previous session.
+        self.processor = HttpMessageProcessor()
+
     @classmethod
     def get_log_prefix(cls, is_ssl: bool = False) -> str:
         """Get a logging prefix for this instance."""
@@ -137,10 +159,15 @@ class HttpConnection(_TcpConnection):
             # Set boilerplate header data.
             request["user-agent"] = self.identity
 
+            if self.disabled:
+                raise ConnectionError("Not connected.")
+
+            future: asyncio.Future[HttpResponse] = (
+                asyncio.get_running_loop().create_future()
+            )
+            self.pending.append(future)
             self._send(request, data)
-            self.expecting_response = True
-            result = await self.responses.get()
-            self.expecting_response = False
+            result = await future
 
         return result
 
@@ -174,13 +201,14 @@ class HttpConnection(_TcpConnection):
     async def process_binary(self, data: bytes) -> bool:
         """Process a binary frame."""
 
+        kind = RequestHeader if not self.expecting_response else ResponseHeader
+
         for header, payload in self.processor.ingest(
-            data,
-            RequestHeader if not self.expecting_response else ResponseHeader,
+            data, kind  # type: ignore
         ):
             header.log(self.logger, False)
 
-            if not self.expecting_response:
+            if isinstance(header, RequestHeader):
                 # Process request.
                 response = ResponseHeader()
                 self._send(
@@ -191,9 +219,9 @@ class HttpConnection(_TcpConnection):
                 )
 
             # Process the response to a pending request.
-            else:
-                await self.responses.put(
-                    (cast(ResponseHeader, header), payload)
-                )
+            elif self.pending:
+                future = self.pending.popleft()
+                if not future.done():
+                    future.set_result((cast(ResponseHeader, header), payload))
 
         return True
-- 
2.43.0


From 1fa33b7b71023f1febe4c69641137c080e61c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 14/52] fix: answer HTTP requests whose handler raises with an
 internal server error

---
 runtimepy/net/tcp/http/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 68654c5..1ad5721 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -134,9 +134,16 @@ class HttpConnection(_TcpConnection):
 
         # Handle request.
         if request_header.method in self.handlers:
-            result = await self.handlers[request_header.method](
-                response, request_header, request_data
-            )
+            try:
+                result = await self.handlers[request_header.method](
+                    response, request_header, request_data
+                )
+            except Exception as exc:  # pylint: disable=broad-except
+                self.logger.exception(
+                    "Handling '%s' failed.", request_header.request_line
+                )
+                response.status = http.HTTPStatus.INTERNAL_SERVER_ERROR
+                response.reason = type(exc).__name__
 
         # Set error code in response.
         else:
-- 
2.43.0


From 3648165eae4fa31b9f4baee942bcbdec4189995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:54 +0000
Subject: [PATCH 15/52] fix: channel waits report success once met, samplers
 don't cancel their consumers, callbacks may come and go during updates

---
 runtimepy/primitives/base.py       | 21 ++++++++---------
 runtimepy/primitives/evaluation.py | 36 +++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index e186bad..c2c0b9c 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -143,15 +143,13 @@ class Primitive(_Generic[T]):
         """Determine if any callbacks should be serviced."""
 
         if self.callbacks and curr != new:
-            to_remove = []
-            for ident, (callback, once) in self.callbacks.items():
-                callback(curr, new)
-                if once:
-                    to_remove.append(ident)
-
-            # Remove one-time callbacks.
-            for item in to_remove:
-                self.remove_callback(item)
+            # Callbacks may add or remove callbacks (or change the value).
+            for ident, (callback, once) in list(self.callbacks.items()):
+                if ident in self.callbacks:
+                    # Remove one-time callbacks.
+                    if once:
+                        self.remove_callback(ident)
+                    callback(curr, new)
 
     def set_value(self, value: T, timestamp_ns: int = None) -> None:
         """Set a new underlying value."""
@@ -163,7 +161,10 @@ class Primitive(_Generic[T]):
 
         curr: T = self.raw.value  # type: ignore
         self.raw.value = value
-        self._check_callbacks(curr, value)
+
+        # The stored value may not have changed (e.g. limited precision).
+        if self.raw.value != curr:
+            self._check_callbacks(curr, value)
 
     @property
     def scaled(self) -> Numeric:
diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..70eae68 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -8,7 +8,7 @@ import asyncio
 from enum import auto
 from math import isclose
 import operator
-from typing import AsyncIterator, Callable
+from typing import AsyncIterator, Callable, Optional
 
 # internal
 from runtimepy.enum.registry import RuntimeIntEnum
@@ -72,11 +72,12 @@ async def evaluate(
     def change_callback(curr: T, new: T) -> None:
         """Handle underlying value changes to the provided primitive."""
 
-        # Always update the result when called.
+        # Always update the result when called (until successful).
         nonlocal result
-        result = evaluator(curr, new)
-        if result:
-            event.set()
+        if not result:
+            result = evaluator(curr, new)
+            if result:
+                event.set()
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(change_callback):
@@ -120,7 +121,8 @@ async def sample_for(
     is set).
     """
 
-    sample_queue: asyncio.Queue[tuple[T, int]] = asyncio.Queue()
+    # A sentinel is enqueued when sampling times out.
+    sample_queue: asyncio.Queue[Optional[tuple[T, int]]] = asyncio.Queue()
     keep_sampling = True
     samples = 0
 
@@ -149,18 +151,26 @@ async def sample_for(
             sample_queue.put_nowait((new, primitive.last_updated_ns))
             poll_sample_event()
 
-    # Service the callback until resolved or this evaluation times out.
+    # Service the callback until resolved or this evaluation times out (only
+    # waiting for samples is subject to the timeout, not the consumer).
     with primitive.callback(sample):
+        timer = asyncio.get_running_loop().call_later(
+            timeout, sample_queue.put_nowait, None
+        )
         try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
-        except asyncio.TimeoutError:
-            pass
+            while keep_sampling:
+                item = await sample_queue.get()
+                if item is None:
+                    break
+                yield item
+        finally:
+            timer.cancel()
 
     # Drain queue.
     while not sample_queue.empty():
-        yield sample_queue.get_nowait()
+        item = sample_queue.get_nowait()
+        if item is not None:
+            yield item
 
 
 class PrimitiveIsCloseMixin(Primitive[T]):
-- 
2.43.0


From c972ddb4e40117a169f6b36769e1339768e8f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 16/52] fix: failing command handlers don't end command
 processing, commands always yield a result

---
 .../channel/environment/command/processor.py   |  9 +++++++--
 runtimepy/mixins/async_command.py              | 18 ++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..21f91e1 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,7 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (ValueError, KeyError, OverflowError) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
@@ -141,7 +141,12 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         if args.command == ChannelCommand.GET:
             if self.env.exists(args.channel):
-                return CommandResult(True, str(self.env.value(args.channel)))
+                try:
+                    value = self.env.value(args.channel)
+                except KeyError:
+                    # The current value may not belong to the enumeration.
+                    value = self.env.value(args.channel, resolve_enum=False)
+                return CommandResult(True, str(value))
 
         channel = self.env.field_or_channel(args.channel)
         if channel is None:
diff --git a/runtimepy/mixins/async_command.py b/runtimepy/mixins/async_command.py
index 1a168a8..1c6a048 100644
--- a/runtimepy/mixins/async_command.py
+++ b/runtimepy/mixins/async_command.py
@@ -55,9 +55,15 @@ class AsyncCommandProcessingMixin(LoggerMixin):
         while not self.outgoing_commands.empty():
             params = self.outgoing_commands.get_nowait()
 
-            if params[0].command == ChannelCommand.CUSTOM:
-                await self.command.handle_custom_command(*params)
-            else:
-                await self.handle_command(*params)
-
-            self.outgoing_commands.task_done()
+            # A failing command can't affect other commands.
+            try:
+                if params[0].command == ChannelCommand.CUSTOM:
+                    await self.command.handle_custom_command(*params)
+                else:
+                    await self.handle_command(*params)
+            except Exception as exc:  # pylint: disable=broad-except
+                self.logger.exception(
+                    "Exception handling command '%s':", params[0], exc_info=exc
+                )
+            finally:
+                self.outgoing_commands.task_done()
-- 
2.43.0


From 9f54fd617b03df5ad6397cd2bb1bd6a5893ed038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:01 +0000
Subject: [PATCH 17/52] fix: tasks end when disabled or stopped during a
 dispatch (without abandoning it) and can always run again

---
 runtimepy/task/asynchronous.py   | 18 ++++---
 runtimepy/task/basic/periodic.py | 80 ++++++++++++++++++++++++--------
 runtimepy/task/completion.py     | 28 +++++++++++
 3 files changed, 99 insertions(+), 27 deletions(-)
 create mode 100644 runtimepy/task/completion.py

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 9844391..71bdbb5 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -18,6 +18,7 @@ from runtimepy import METRICS_NAME
 from runtimepy.channel.environment import (
     ChannelEnvironment as _ChannelEnvironment,
 )
+from runtimepy.task.completion import complete
 
 
 class AsyncTask(_LoggerMixin):
@@ -55,7 +56,7 @@ class AsyncTask(_LoggerMixin):
 
             with env.names_pushed(METRICS_NAME):
                 # Track the number of times this task has been dispatched.
-                self.dispatches = env.int_channel("dispatches", kind="uint8")[
+                self.dispatches = env.int_channel("dispatches", kind="uint32")[
                     0
                 ]
 
@@ -139,18 +140,21 @@ class AsyncTask(_LoggerMixin):
         self.enable()
 
         # Run this task's initialization.
-        self.enabled.raw.value &= await _asyncio.shield(
-            self.init(*args, **kwargs)
-        )
+        if not await complete(
+            _asyncio.ensure_future(self.init(*args, **kwargs)), self.disable
+        ):
+            self.disable()
 
         while self.enabled:
             # Keep track of the rate that this task is running at.
             start = eloop.time()
             self.rate_hz.raw.value = self.dispatch_rate(to_nanos(start))
 
-            self.enabled.raw.value &= await _asyncio.shield(
-                self.dispatch(*args, **kwargs)
-            )
+            if not await complete(
+                _asyncio.ensure_future(self.dispatch(*args, **kwargs)),
+                self.disable,
+            ):
+                self.disable()
             exec_time = eloop.time() - start
 
             # Update runtime metrics.
diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..67477ec 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -8,7 +8,6 @@ from __future__ import annotations
 from abc import ABC as _ABC
 from abc import abstractmethod as _abstractmethod
 import asyncio as _asyncio
-from contextlib import suppress as _suppress
 from logging import getLogger as _getLogger
 from typing import Optional as _Optional
 
@@ -32,6 +31,7 @@ from runtimepy.mixins.logging import LoggerMixinLevelControl
 from runtimepy.primitives import Bool as _Bool
 from runtimepy.primitives import Double as _Double
 from runtimepy.primitives import Float as _Float
+from runtimepy.task.completion import complete
 from runtimepy.ui.controls import Controlslike
 
 
@@ -62,6 +62,7 @@ class PeriodicTask(
 
         LoggerMixinLevelControl.__init__(self, logger=_getLogger(self.name))
         self._task: _Optional[_asyncio.Task[None]] = None
+        self._dispatch: _Optional[_asyncio.Task[bool]] = None
 
         # Setup runtime state.
         self._enabled = _Bool()
@@ -153,6 +154,23 @@ class PeriodicTask(
             "Task starting at %s.", _rate_str(self.period_s.value)
         )
 
+        try:
+            await self._run(stop_sig=stop_sig)
+        finally:
+            # Always allow running again.
+            self.disable()
+
+        self.logger.debug("Task completed.")
+
+    def _cancelled(self) -> None:
+        """Handle this task being cancelled."""
+
+        self.logger.debug("Task was cancelled.")
+        self.disable()
+
+    async def _run(self, stop_sig: _asyncio.Event = None) -> None:
+        """Run dispatch iterations while this task is enabled."""
+
         iter_time = _Double()
 
         while self._enabled:
@@ -164,14 +182,19 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    self._dispatch = _asyncio.create_task(self.dispatch())
+                    try:
+                        if not await complete(self._dispatch, self._cancelled):
+                            self.disable()
+                    finally:
+                        self._dispatch = None
+            else:
+                iter_time.value = 0.0
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
@@ -181,10 +204,7 @@ class PeriodicTask(
 
                     await _asyncio.sleep(sleep_time)
                 except _asyncio.CancelledError:
-                    self.logger.debug("Task was cancelled.")
-                    self.disable()
-
-        self.logger.debug("Task completed.")
+                    self._cancelled()
 
     async def stop_extra(self) -> None:
         """Extra actions to perform when this task is stopping."""
@@ -192,20 +212,31 @@ class PeriodicTask(
     async def stop(self) -> bool:
         """Wait for this task to stop running (if it is)."""
 
-        result = False
-
         # Ensure that a previous version of this task gets cleaned up.
-        if self._task is not None:
-            if not self._task.done():
+        task = self._task
+        result = task is not None
+
+        if task is not None:
+            if not task.done():
                 # On Windows, setting enabled False here is not enough.
                 self.disable()
-                self._task.cancel()
-                with _suppress(_asyncio.CancelledError):
-                    await self._task
-            self._task = None
+
+                # A dispatch iteration can't wait for its own completion.
+                if self._dispatch is not _asyncio.current_task():
+                    task.cancel()
+                    await _asyncio.wait([task])
+
+            if task.done():
+                if not task.cancelled() and task.exception() is not None:
+                    self.logger.error(
+                        "Task raised an exception:", exc_info=task.exception()
+                    )
+
+                # Don't lose track of a new instance of this task.
+                if self._task is task:
+                    self._task = None
 
             await self.stop_extra()
-            result = True
 
         return result
 
@@ -214,7 +245,16 @@ class PeriodicTask(
     ) -> _asyncio.Task[None]:
         """Create an event-loop task for this periodic."""
 
-        await self.stop()
+        # A dispatch iteration can't wait for its own completion.
+        assert (
+            self._dispatch is None
+            or self._dispatch is not _asyncio.current_task()
+        ), "Can't restart a task from its own dispatch!"
+
+        # Another caller may have started this task while it was stopping.
+        while self._task is not None:
+            await self.stop()
+
         self._task = _asyncio.create_task(
             self.run(period_s=period_s, stop_sig=stop_sig)
         )
diff --git a/runtimepy/task/completion.py b/runtimepy/task/completion.py
new file mode 100644
index 0000000..626c05b
--- /dev/null
+++ b/runtimepy/task/completion.py
@@ -0,0 +1,28 @@
+"""
+A module implementing a method of awaiting an operation that must complete.
+"""
+
+# built-in
+import asyncio as _asyncio
+from typing import Any as _Any
+from typing import Callable as _Callable
+from typing import TypeVar as _TypeVar
+
+T = _TypeVar("T")
+
+
+async def complete(
+    task: _asyncio.Future[T], cancelled: _Callable[[], _Any]
+) -> T:
+    """
+    Wait for a task to complete, calling 'cancelled' when the waiting task gets
+    cancelled (instead of abandoning the awaited task).
+    """
+
+    while not task.done():
+        try:
+            await _asyncio.wait([task])
+        except _asyncio.CancelledError:
+            cancelled()
+
+    return task.result()
-- 
2.43.0


From f9a601654664626e4568ec0d0b27d0ee4519ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 18/52] fix: SCPI replies are assembled from segments; late
 ones aren't returned for later commands

---
 runtimepy/net/tcp/scpi/__init__.py | 89 ++++++++++++++++++++++++++++--
 1 file changed, 85 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/tcp/scpi/__init__.py b/runtimepy/net/tcp/scpi/__init__.py
index 57397ad..d2ec32c 100644
--- a/runtimepy/net/tcp/scpi/__init__.py
+++ b/runtimepy/net/tcp/scpi/__init__.py
@@ -4,6 +4,7 @@ A module implementing an SCPI interface.
 
 # built-in
 import asyncio
+import codecs
 
 # internal
 from runtimepy.net.arbiter.tcp import TcpConnectionFactory
@@ -17,7 +18,52 @@ class ScpiConnection(TcpConnection):
         """Initialize this instance."""
 
         self.command_lock = asyncio.Lock()
-        self.message_queue: asyncio.Queue[str] = asyncio.Queue(maxsize=1)
+        self.message_queue: asyncio.Queue[str] = asyncio.Queue()
+
+        # Whether or not this device terminates its replies (as it should).
+        self._terminates = False
+
+        self._reset_input()
+
+    def _reset_input(self) -> None:
+        """Reset the state of received data (for a new session)."""
+
+        self._discard_replies()
+        self._decoder = codecs.getincrementaldecoder("utf-8")()
+
+        # Received text that doesn't end a line (yet).
+        self._partial = ""
+
+        # Whether or not the text received so far belongs to a reply that is
+        # no longer awaited.
+        self._partial_stale = False
+
+    def _discard_replies(self) -> None:
+        """Discard replies to commands that are no longer awaited."""
+
+        while not self.message_queue.empty():
+            self.logger.warning(
+                "Discarding late reply '%s'.", self.message_queue.get_nowait()
+            )
+
+    def _take_partial(self) -> str:
+        """Take received text that isn't terminated."""
+
+        result = ""
+        if not self._terminates and not self._partial_stale:
+            result, self._partial = self._partial, ""
+        return result
+
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        # Replies don't carry over to the next session.
+        self._reset_input()
+
+        return await super().restart()
 
     async def async_init(self) -> bool:
         """Initialize this instance."""
@@ -28,15 +74,32 @@ class ScpiConnection(TcpConnection):
     async def process_text(self, data: str) -> bool:
         """Process a text frame."""
 
-        for item in data.splitlines():
+        lines = (self._partial + data).splitlines(keepends=True)
+        self._partial = ""
+
+        for line in lines:
+            item = "".join(line.splitlines())
+
+            # Wait for the rest of this line.
+            if item == line:
+                self._partial = line
+                break
+
+            self._terminates = True
+
+            # The end of a reply to some previous command.
+            if self._partial_stale:
+                self._partial_stale = False
+                continue
+
             if item:
-                await self.message_queue.put(item)
+                self.message_queue.put_nowait(item)
 
         return True
 
     async def process_binary(self, data: bytes) -> bool:
         """Process a binary frame."""
-        return await self.process_text(data.decode())
+        return await self.process_text(self._decoder.decode(data))
 
     async def send_command(
         self,
@@ -54,6 +117,17 @@ class ScpiConnection(TcpConnection):
             command += "?"
 
         async with self.command_lock:
+            # Don't let this command (and its reply) end up in some later
+            # session.
+            if self.disabled:
+                self.logger.error("Can't send '%s', not connected.", command)
+                return result
+
+            # Nothing received up to this point belongs to this command.
+            self._discard_replies()
+            self._take_partial()
+            self._partial_stale = bool(self._partial)
+
             self.send_text(command + "\n")
 
             if response or query:
@@ -64,6 +138,13 @@ class ScpiConnection(TcpConnection):
                     if log:
                         self.logger.info("(%s) %s", command, result)
                 except asyncio.TimeoutError:
+                    # Accommodate devices that don't terminate replies.
+                    result = self._take_partial()
+                    if result:
+                        if log:
+                            self.logger.info("(%s) %s", command, result)
+                        return result
+
                     self.logger.error(
                         "Peer didn't respond to '%s'! (timeout: %.2f)",
                         command,
-- 
2.43.0


From 73b852e52d17810476b615ed7337777f9de4af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:57 +0000
Subject: [PATCH 19/52] fix: telnet commands, options, characters and NP-05B
 lines may straddle reads

---
 runtimepy/net/tcp/telnet/__init__.py | 105 +++++++++++++++++++--------
 runtimepy/net/tcp/telnet/np_05b.py   |  29 +++++++-
 2 files changed, 101 insertions(+), 33 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..1e26588 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -4,9 +4,11 @@ A module implementing a basic telnet (RFC 854) connection interface.
 
 # built-in
 from abc import abstractmethod as _abstractmethod
+import codecs as _codecs
 from contextlib import ExitStack as _ExitStack
 from io import BytesIO as _BytesIO
 from typing import BinaryIO as _BinaryIO
+from typing import Optional as _Optional
 
 # third-party
 from vcorelib import DEFAULT_ENCODING
@@ -35,9 +37,37 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    def __init__(self, *args, **kwargs) -> None:
+        """Initialize this instance."""
+
+        self._reset_telnet()
+        super().__init__(*args, **kwargs)
+
+    def _reset_telnet(self) -> None:
+        """Reset the state of the byte-stream parser (for a new session)."""
+
+        # A simple state machine (sequences can straddle reads).
+        self._processing_option: _Optional[TelnetCode] = None
+        self._processing_command = False
+
+        self._text_decoder = _codecs.getincrementaldecoder(DEFAULT_ENCODING)(
+            errors="replace"
+        )
+
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        self._reset_telnet()
+        return await super().restart()
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
-        return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
+
+        text = self._text_decoder.decode(data)
+        return await self.process_text(text) if text else True
 
     @_abstractmethod
     async def process_command(self, code: TelnetCode) -> None:
@@ -65,65 +95,80 @@ class Telnet(_TcpConnection):
     ) -> None:
         """Process a telnet option."""
 
-    async def process_binary(self, data: bytes) -> bool:
-        """Process a binary frame."""
+    async def _process_pending(self, text: _BytesIO) -> bool:
+        """Process text that precedes something else."""
 
         result = True
 
-        last_val = 0
-        val = 0
+        data = text.getvalue()
+        if data:
+            text.seek(0)
+            text.truncate()
+            result = await self.process_telnet_message(data)
 
-        # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
+        return result and not self.disabled
+
+    async def process_binary(self, data: bytes) -> bool:
+        """Process a binary frame."""
+
+        result = True
 
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
             stream = stack.enter_context(_BytesIO(data))
 
-            while True:
+            while result:
                 data = stream.read(1)
                 if len(data) == 0:
+                    # Process the message that remains as data.
+                    if text.tell() > 0:
+                        result = await self.process_telnet_message(
+                            text.getvalue()
+                        )
                     break
 
-                last_val = val
                 val = data[0]
 
-                if processing_option:
-                    await self.process_option(
-                        TelnetCode(last_val), val, stream
-                    )
-                    processing_option = False
+                if self._processing_option is not None:
+                    option = self._processing_option
+                    self._processing_option = None
+
+                    result = await self._process_pending(text)
+                    if result:
+                        await self.process_option(option, val, stream)
+                        result = not self.disabled
+
+                elif self._processing_command:
+                    self._processing_command = False
 
-                elif processing_command:
                     if TelnetCode.is_option_code(val):
-                        processing_option = True
+                        self._processing_option = TelnetCode(val)
+
+                    # If 'IAC' appears twice in a row, it's being escaped.
+                    elif val == TelnetCode.IAC:
+                        text.write(data)
+
                     else:
-                        # If 'IAC' appears twice in a row, it's being
-                        # escaped.
-                        if val == TelnetCode.IAC:
-                            text.write(data)
-                        else:
+                        result = await self._process_pending(text)
+                        if result:
                             await self.process_command(TelnetCode(val))
-
-                    processing_command = False
+                            result = not self.disabled
 
                 elif val == TelnetCode.IAC:
-                    processing_command = True
+                    self._processing_command = True
 
                 elif TelnetNvt.is_nvt(val):
                     nvt = TelnetNvt(val)
                     if not nvt.to_stream(text):
-                        await self.handle_nvt(TelnetNvt(val))
+                        result = await self._process_pending(text)
+                        if result:
+                            await self.handle_nvt(nvt)
+                            result = not self.disabled
 
                 # Forward byte to the data stream.
                 else:
                     text.write(data)
 
-            # Process the message that remains as data.
-            if text.tell() > 0:
-                result = await self.process_telnet_message(text.getvalue())
-
         return result
 
 
diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 19bc5ab..5efba98 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -54,6 +54,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
 
     # Typing for some instance members.
     prev_cmd: str
+    partial_line: str
     chan_to_idx: dict[str, int]
 
     lock: asyncio.Lock
@@ -64,6 +65,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         self.lock = asyncio.Lock()
 
         self.prev_cmd = ""
+        self.partial_line = ""
         self.outlets_on: List[Union[None, bool]] = [
             None for _ in range(self.num_ports)
         ]
@@ -118,6 +120,23 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
             if to_set is not None:
                 await self.set_outlet_state(idx, to_set)
 
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+
+        # Neither partial responses nor anything waiting for a response carry
+        # over to the next session.
+        if result:
+            self.prev_cmd = ""
+            self.partial_line = ""
+            self.outlet_status_sem = asyncio.Semaphore(0)
+
+        return result
+
     async def async_init(self) -> bool:
         """Ensure that initial statuses get set."""
 
@@ -155,7 +174,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         result = False
         real_idx = idx - 1
 
-        if 0 <= real_idx <= self.num_ports:
+        if 0 <= real_idx < self.num_ports:
             if self.outlets_on[real_idx] != state:
                 await self.np05b_command(
                     Np05bStrings.SET_OUTLET, str(idx), "1" if state else "0"
@@ -209,13 +228,17 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     async def process_text(self, data: str) -> bool:
         """Process a text frame."""
 
-        line_stack = list(data.splitlines())
+        # Lines (and the prompt) can straddle reads.
+        data = self.partial_line + data
+        *line_stack, self.partial_line = (
+            data.replace(self.prompt, "\n").replace("\r", "\n").split("\n")
+        )
 
         while line_stack:
             line = line_stack.pop(0)
 
             # We can skip lines that don't mean anything.
-            if not line or line == self.prompt:
+            if not line:
                 continue
 
             # The device's response strings can end up on the same line. Split
-- 
2.43.0


From d922ec88903d2f28f2177e5588ef8fb6ad65f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:34 +0000
Subject: [PATCH 20/52] fix: end every application of a failed stage and report
 its failure

One application raising left its siblings running (also after the runtime
returned), one ending by cancellation escaped as if the runtime itself had
been cancelled, and exit codes could cancel out (1 + -1).
---
 runtimepy/net/arbiter/base.py   | 73 ++++++++++++++++++++++++---------
 runtimepy/net/arbiter/result.py |  2 +-
 2 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..e5f0fd3 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -7,6 +7,7 @@ import asyncio as _asyncio
 from contextlib import AsyncExitStack as _AsyncExitStack
 from contextlib import suppress as _suppress
 from inspect import isawaitable as _isawaitable
+from typing import Any as _Any
 from typing import Awaitable as _Awaitable
 from typing import Iterable as _Iterable
 from typing import MutableMapping as _MutableMapping
@@ -53,6 +54,14 @@ RuntimeProcessTask = tuple[
 ]
 
 
+async def cancel_pending(*tasks: _asyncio.Future[_Any]) -> None:
+    """Cancel tasks that aren't done and wait until they are."""
+
+    for task in tasks:
+        task.cancel()
+    await _asyncio.gather(*tasks, return_exceptions=True)
+
+
 async def init_only(app: AppInfo) -> int:
     """A network application that doesn't do anything."""
 
@@ -396,34 +405,60 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             inf.logger.debug("Starting.")
 
         total = 0
-        try:
-            with TIMER.measure_ns() as token:
-                results = await _asyncio.gather(
-                    *(app(inf) for app, inf in pairs)
+        codes: list[int] = []
+
+        async def run_app(app: NetworkApplication, inf: AppInfo) -> int:
+            """Run a single application."""
+
+            result = await app(inf)
+            inf.logger.debug("Returned %d.", result)
+            return int(result)
+
+        tasks = [_asyncio.create_task(run_app(*pair)) for pair in pairs]
+        with TIMER.measure_ns() as token:
+            try:
+                await _asyncio.wait(
+                    tasks, return_when=_asyncio.FIRST_EXCEPTION
                 )
 
-            duration_ns = TIMER.result(token)
+            # Nothing keeps running if an application raised an exception.
+            finally:
+                await cancel_pending(*tasks)
 
-            for idx, result in enumerate(results):
-                pairs[idx][1].logger.debug("Returned %d.", result)
-                total += result
+        duration_ns = TIMER.result(token)
 
-                # Capture a normal result.
+        for idx, task in enumerate(tasks):
+            # Keep track of applications that raise an exception.
+            exc: Optional[BaseException]
+            if task.cancelled():
+                exc = _asyncio.CancelledError()
+            else:
+                exc = task.exception()
+
+            if exc is not None:
                 stage_results[idx] = AppResult(
-                    apps[idx].__name__,
-                    ResultState.from_int(result),
-                    result,
-                    duration_ns=duration_ns,
+                    apps[idx].__name__, ResultState.EXCEPTION, exception=exc
                 )
+                continue
+
+            result = task.result()
+            codes.append(result)
 
-        # Keep track of stages that raise an exception.
-        except Exception as exc:  # pylint: disable=broad-exception-caught
-            stage_results = [
-                AppResult(app.__name__, ResultState.EXCEPTION, exception=exc)
-                for app in apps
-            ]
+            # Capture a normal result.
+            stage_results[idx] = AppResult(
+                apps[idx].__name__,
+                ResultState.from_int(result),
+                result,
+                duration_ns=duration_ns,
+            )
+
+        if any(x.exception is not None for x in stage_results):
             total = -1
 
+        # Failures must not cancel out.
+        else:
+            total = sum(codes) or next((x for x in codes if x != 0), 0)
+
         # Keep track of this stage's results.
         info.results.append(stage_results)
 
diff --git a/runtimepy/net/arbiter/result.py b/runtimepy/net/arbiter/result.py
index e376411..0798bca 100644
--- a/runtimepy/net/arbiter/result.py
+++ b/runtimepy/net/arbiter/result.py
@@ -45,7 +45,7 @@ class AppResult(NamedTuple):
     method: str
     state: ResultState = ResultState.NOT_RUN
     code: Optional[int] = None
-    exception: Optional[Exception] = None
+    exception: Optional[BaseException] = None
     duration_ns: Optional[int] = None
 
     def log(
-- 
2.43.0


From 8421a2d7d0d209550562e55e0840879062ffbef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 21/52] fix: don't wait forever for servers or connections that
 can't start

A server that failed to start (port in use), a connection disabled before it
was processed or a deferred connection that never completes kept the runtime
waiting, ignoring the stop signal; a failing initialization left the others
running.
---
 runtimepy/net/arbiter/base.py | 115 ++++++++++++++++++++++++++++++----
 1 file changed, 103 insertions(+), 12 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index e5f0fd3..760f2ab 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -12,6 +12,7 @@ from typing import Awaitable as _Awaitable
 from typing import Iterable as _Iterable
 from typing import MutableMapping as _MutableMapping
 from typing import Optional
+from typing import TypeVar as _TypeVar
 from typing import Union as _Union
 
 # third-party
@@ -48,6 +49,11 @@ from runtimepy.net.server import RuntimepyServerConnection
 from runtimepy.subprocess.peer import RuntimepyPeer as _RuntimepyPeer
 from runtimepy.tui.mixin import CursesWindow, TuiMixin
 
+T = _TypeVar("T")
+
+# How long initialization can still take once the stop signal is set.
+STOP_INIT_TIME = 1.0
+
 ServerTask = _Awaitable[None]
 RuntimeProcessTask = tuple[
     type[_RuntimepyPeer], str, _JsonObject, str, Optional[str]
@@ -62,6 +68,32 @@ async def cancel_pending(*tasks: _asyncio.Future[_Any]) -> None:
     await _asyncio.gather(*tasks, return_exceptions=True)
 
 
+async def gather_all(*awaitables: _Awaitable[T]) -> list[T]:
+    """Gather results, nothing keeps running if gathering one fails."""
+
+    tasks = [_asyncio.ensure_future(x) for x in awaitables]
+    try:
+        return await _asyncio.gather(*tasks)
+    finally:
+        await cancel_pending(*tasks)
+
+
+async def wait_initialized(conn: _Connection) -> None:
+    """
+    Wait for a connection to be initialized, or for it to be disabled without
+    any prospect of ever being initialized.
+    """
+
+    tasks = [_asyncio.create_task(conn.initialized.wait())]
+    if not conn.auto_restart:
+        tasks.append(_asyncio.create_task(conn.disabled_event.wait()))
+
+    try:
+        await _asyncio.wait(tasks, return_when=_asyncio.FIRST_COMPLETED)
+    finally:
+        await cancel_pending(*tasks)
+
+
 async def init_only(app: AppInfo) -> int:
     """A network application that doesn't do anything."""
 
@@ -216,22 +248,80 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         """Initialize network connections."""
 
         # Start deferred connections.
-        for key, value in zip(
-            self._deferred_connections,
-            await _asyncio.gather(*self._deferred_connections.values()),
-        ):
-            self._register_connection(value, key)
+        tasks = {
+            name: _asyncio.ensure_future(conn)
+            for name, conn in self._deferred_connections.items()
+        }
+        try:
+            await _asyncio.gather(*tasks.values())
+        finally:
+            await cancel_pending(*tasks.values())
+
+            # Connections that did start are managed even if others didn't.
+            for name, task in tasks.items():
+                if not task.cancelled() and task.exception() is None:
+                    self._register_connection(task.result(), name)
 
         # Ensure connections are all initialized.
-        await _asyncio.gather(
-            *(x.initialized.wait() for x in self._connections.values())
+        await gather_all(
+            *(wait_initialized(x) for x in self._connections.values())
         )
 
+    async def _start_servers(self) -> None:
+        """Wait for servers to start."""
+
+        started = _asyncio.create_task(self._acquire_servers())
+        servers = set(self._servers)
+        try:
+            while servers and not started.done():
+                done, servers = await _asyncio.wait(
+                    [started, *servers], return_when=_asyncio.FIRST_COMPLETED
+                )
+                servers.discard(started)
+
+                # A server that fails to start raises an exception.
+                if not started.done():
+                    for server in done:
+                        await server
+        finally:
+            await cancel_pending(started)
+
+    async def _acquire_servers(self) -> None:
+        """Wait for all servers to start."""
+
+        for _ in range(len(self._servers)):
+            await self._servers_started.acquire()
+
+    async def _unless_stopped(self, task: _Awaitable[None]) -> bool:
+        """
+        Complete some initialization, unless the stop signal is set before it's
+        done. Returns whether or not initialization is complete.
+        """
+
+        init = _asyncio.ensure_future(task)
+        stop = _asyncio.create_task(self.stop_sig.wait())
+
+        try:
+            await _asyncio.wait(
+                [init, stop], return_when=_asyncio.FIRST_COMPLETED
+            )
+            if not init.done():
+                await _asyncio.wait([init], timeout=STOP_INIT_TIME)
+
+            result = init.done()
+            if result:
+                await init
+            else:
+                self.logger.warning("Stopped before initialization finished.")
+            return result
+        finally:
+            await cancel_pending(init, stop)
+
     async def _build_structs(self, info: AppInfo) -> None:
         """Build structs."""
 
         with info.log_time("Building structs", reminder=True):
-            await _asyncio.gather(
+            await gather_all(
                 *(x.build(info) for x in self._structs.values())
             )
             for struct in self._structs.values():
@@ -269,14 +359,15 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         clear_env()
 
         # Wait for servers to start.
-        for _ in range(len(self._servers)):
-            await self._servers_started.acquire()
+        if not await self._unless_stopped(self._start_servers()):
+            return result, info
 
         # Start processes.
         await self._start_processes(stack)
 
         with self.log_time("Connection initialization", reminder=True):
-            await self._init_connections()
+            if not await self._unless_stopped(self._init_connections()):
+                return result, info
 
         # Register environments.
         self._register_envs()
@@ -311,7 +402,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
             # Initialize tasks.
             with info.log_time("Initializing periodic tasks", reminder=True):
-                await _asyncio.gather(
+                await gather_all(
                     *(x.init(info) for x in self.task_manager.tasks)
                 )
                 for task in self.task_manager.tasks:
-- 
2.43.0


From a07258244799771df0e5aa805c8b97f191a902dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:28 +0000
Subject: [PATCH 22/52] fix: finish shutting down before the runtime returns

Servers and the connection manager were cancelled right away (leaving
connections open and tasks running), nothing shut them down when the runtime
failed to initialize, and connections made meanwhile were never closed.
---
 runtimepy/net/arbiter/base.py | 35 ++++++++++++++++++++++-------------
 runtimepy/net/manager.py      | 22 ++++++++++++++++++----
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 760f2ab..7fd6bf8 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -5,7 +5,6 @@ A module implementing a base connection-arbiter interface.
 # built-in
 import asyncio as _asyncio
 from contextlib import AsyncExitStack as _AsyncExitStack
-from contextlib import suppress as _suppress
 from inspect import isawaitable as _isawaitable
 from typing import Any as _Any
 from typing import Awaitable as _Awaitable
@@ -54,6 +53,9 @@ T = _TypeVar("T")
 # How long initialization can still take once the stop signal is set.
 STOP_INIT_TIME = 1.0
 
+# How long servers and connections can take to close.
+SHUTDOWN_TIME = 2.0
+
 ServerTask = _Awaitable[None]
 RuntimeProcessTask = tuple[
     type[_RuntimepyPeer], str, _JsonObject, str, Optional[str]
@@ -569,21 +571,28 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         conns = _asyncio.create_task(self.manager.manage(self.stop_sig))
 
         # Run application.
-        result = await self._entry(
-            app=app, check_connections=check_connections, config=config
-        )
+        try:
+            result = await self._entry(
+                app=app, check_connections=check_connections, config=config
+            )
+        finally:
+            await self._shutdown(conns)
 
-        # Shutdown any pending tasks.
-        pending = log_exceptions(self._servers + [conns], logger=self.logger)
-        if pending:
-            for task in pending:
-                task.cancel()
-                with _suppress(KeyboardInterrupt, _asyncio.CancelledError):
-                    await task
+        return int(result)
 
-            assert not log_exceptions(pending, logger=self.logger)
+    async def _shutdown(self, conns: _asyncio.Task[None]) -> None:
+        """Wait for servers and connections to close."""
 
-        return int(result)
+        tasks = self._servers + [conns]
+        await _asyncio.wait(tasks, timeout=SHUTDOWN_TIME)
+        pending = log_exceptions(tasks, logger=self.logger)
+
+        # Shutdown any pending tasks.
+        await cancel_pending(*pending)
+        log_exceptions(pending, logger=self.logger)
+
+        # Connections may have been made once nothing managed them anymore.
+        await self.manager.close_queued()
 
     def run(
         self,
diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 230d208..96cb725 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -74,6 +74,23 @@ class ConnectionManager(LoggerMixin):
         else:
             await conn.process(stop_sig=stop_sig)
 
+    def _close_queued(self) -> dict[_asyncio.Task[None], _Connection]:
+        """Start closing connections that never started processing."""
+
+        tasks = {}
+        while not self.queue.empty():
+            conn = self.queue.get_nowait()
+            conn.disable("stop signal")
+            tasks[_asyncio.create_task(conn.close())] = conn
+        return tasks
+
+    async def close_queued(self) -> None:
+        """Close connections that never started processing."""
+
+        if tasks := self._close_queued():
+            await _asyncio.wait(tasks, timeout=1.0)
+            _log_exceptions(tasks)
+
     async def manage(self, stop_sig: _asyncio.Event) -> None:
         """Handle incoming connections until the stop signal is set."""
 
@@ -141,10 +158,7 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task.cancel()
 
             # Close connections that never started processing.
-            while not self.queue.empty():
-                new_conn = self.queue.get_nowait()
-                new_conn.disable("stop signal")
-                tasks[_asyncio.create_task(new_conn.close())] = new_conn
+            tasks.update(self._close_queued())
 
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-- 
2.43.0


From e0d01942189962109c9bc8d6f3f952d7ab7a50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:13 +0000
Subject: [PATCH 23/52] fix: keep housekeeping running if a connection's task
 fails

The first exception ended housekeeping: commands were never processed again.
---
 runtimepy/net/arbiter/housekeeping/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/housekeeping/__init__.py b/runtimepy/net/arbiter/housekeeping/__init__.py
index a7f7daa..e93e875 100644
--- a/runtimepy/net/arbiter/housekeeping/__init__.py
+++ b/runtimepy/net/arbiter/housekeeping/__init__.py
@@ -68,8 +68,16 @@ class ConnectionMetricsPoller(_ArbiterTask):
         self.processors += list(self.app.conn_manager.connection_tasks)
 
         if self.processors:
-            await asyncio.gather(*self.processors)
-            self.processors.clear()
+            processors, self.processors = self.processors, []
+
+            # A failing task can't affect housekeeping.
+            for result in await asyncio.gather(
+                *processors, return_exceptions=True
+            ):
+                if isinstance(result, Exception):
+                    self.logger.exception(
+                        "Task raised exception:", exc_info=result
+                    )
 
         return True
 
-- 
2.43.0


From cb295ee0e3eaa2b296986fbde96f50524d705fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:13 +0000
Subject: [PATCH 24/52] fix: don't leave servers running if shutting down gets
 cancelled

---
 runtimepy/net/arbiter/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 7fd6bf8..f4afd7a 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -584,12 +584,14 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         """Wait for servers and connections to close."""
 
         tasks = self._servers + [conns]
-        await _asyncio.wait(tasks, timeout=SHUTDOWN_TIME)
-        pending = log_exceptions(tasks, logger=self.logger)
+        try:
+            await _asyncio.wait(tasks, timeout=SHUTDOWN_TIME)
 
         # Shutdown any pending tasks.
-        await cancel_pending(*pending)
-        log_exceptions(pending, logger=self.logger)
+        finally:
+            pending = log_exceptions(tasks, logger=self.logger)
+            await cancel_pending(*pending)
+            log_exceptions(pending, logger=self.logger)
 
         # Connections may have been made once nothing managed them anymore.
         await self.manager.close_queued()
-- 
2.43.0


From 99ffc47b5f88644a68655d4c97f262ecf4d79347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:00 +0000
Subject: [PATCH 25/52] fix: don't leave tasks behind if managing connections
 gets cancelled

---
 runtimepy/net/manager.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 96cb725..9702b90 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -100,6 +100,13 @@ class ConnectionManager(LoggerMixin):
             return
 
         self._running = True
+        try:
+            await self._manage(stop_sig)
+        finally:
+            self._running = False
+
+    async def _manage(self, stop_sig: _asyncio.Event) -> None:
+        """Handle incoming connections until the stop signal is set."""
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
 
@@ -116,10 +123,19 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task = _asyncio.create_task(self.queue.get())
 
             # Wait for any task to complete.
-            await _asyncio.wait(
-                [stop_sig_task, new_conn_task, *tasks],  # type: ignore
-                return_when=_asyncio.FIRST_COMPLETED,
-            )
+            try:
+                await _asyncio.wait(
+                    [stop_sig_task, new_conn_task, *tasks],  # type: ignore
+                    return_when=_asyncio.FIRST_COMPLETED,
+                )
+
+            # Don't leave tasks waiting for connections.
+            except _asyncio.CancelledError:
+                stop_sig_task.cancel()
+                if new_conn_task.done():
+                    self.queue.put_nowait(new_conn_task.result())
+                new_conn_task.cancel()
+                raise
 
             # Filter completed tasks out of the working set.
             tasks = {x: tasks[x] for x in _log_exceptions(tasks)}
@@ -166,5 +182,3 @@ class ConnectionManager(LoggerMixin):
                         _asyncio.gather(*tasks, return_exceptions=True), 1.0
                     )
                 _log_exceptions(tasks)
-
-        self._running = False
-- 
2.43.0


From 707d81f983e024e9198a6ddb643bf94d510ca4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 26/52] fix: channel event streams are left registered when
 their context fails

---
 runtimepy/channel/event/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..6a70a5d 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            assert raw.remove_callback(ident)
+            self.streaming = False
 
     def _poll(
         self,
-- 
2.43.0


From 76715e958cd2e0e79285939aef807e85aad04023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 27/52] fix: channel events stop until a clock that stepped
 back catches up

---
 runtimepy/channel/event/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 6a70a5d..8f5c736 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -87,7 +87,9 @@ class PrimitiveEvent:
         raw = self.primitive
         curr_ns = raw.last_updated_ns
 
-        if force or curr_ns - self.prev_ns >= self.min_period_ns:
+        # Time can also step backwards (e.g. when a clock gets synchronized).
+        elapsed_ns = curr_ns - self.prev_ns
+        if force or elapsed_ns < 0 or elapsed_ns >= self.min_period_ns:
             self.prev_ns = curr_ns
             self.header["timestamp"] = curr_ns
 
-- 
2.43.0


From 0694b3d3762ec292e994f662cf07b64eb2319b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 28/52] fix: event metrics count polls that wrote nothing

---
 runtimepy/channel/event/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 8f5c736..2eb540c 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -100,7 +100,7 @@ class PrimitiveEvent:
             if flush:
                 stream.flush()
 
-        if channel is not None:
+        if channel is not None and written:
             channel.increment(written)
 
         return written
-- 
2.43.0


From f1c01044a1d7319c63dc66bb9d44f2335ad5a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 29/52] fix: ingested events scale values that are already raw

---
 runtimepy/channel/environment/telemetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..cc39ad6 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -83,7 +83,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         if self.fields.has_field(point.name):
             self.fields[point.name].raw.value = point.value  # type: ignore
         else:
-            self.set(point.name, point.value)
+            # Events contain underlying values (that aren't scaled).
+            self.set(point.name, point.value, scaled=False)
 
     def _parse_channel_event(self, name: str) -> Optional[ParsedEvent]:
         """Attempt to parse a channel event from the fifo."""
-- 
2.43.0


From 991ac808546b0b1ebfbbab16b4e2fa503e03d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:26 +0000
Subject: [PATCH 30/52] fix: event headers are forgotten between telemetry
 chunks

---
 runtimepy/channel/environment/telemetry.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index cc39ad6..a4f863b 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -135,9 +135,6 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
-        ident = -1
-        name = ""
-
         keep_going = True
         while keep_going:
             keep_going = False
@@ -149,17 +146,17 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                 if data is not None:
                     channels.event_header.array.update(data)
 
-                    # Update local variables.
-                    ident = cast(int, channels.event_header["identifier"])
-                    name = channels.names.name(ident)  # type: ignore
-                    assert name is not None, ident
-
                     # Update state.
                     channels.header_ready = True
                     keep_going = True
             else:
                 event = None
 
+                # The header may have been read from an earlier stream.
+                ident = cast(int, channels.event_header["identifier"])
+                name = channels.names.name(ident)
+                assert name is not None, ident
+
                 # Handle bit-field.
                 if self.fields.has_field(name):
                     event = self._parse_field_event(name)
@@ -169,8 +166,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     event = self._parse_channel_event(name)
 
                 if event is not None:
-                    yield event
-
-                    # Update state.
+                    # Update state (the caller may not resume iteration).
                     channels.header_ready = False
                     keep_going = True
+
+                    yield event
-- 
2.43.0


From 5a05ed74d07da116e47a0bff7a8c4f3853b0193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:44 +0000
Subject: [PATCH 31/52] fix: telemetry events get split when their stream isn't
 buffered

---
 runtimepy/channel/event/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 2eb540c..7498f13 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -4,6 +4,7 @@ A module implementing a channel-event protocol.
 
 # built-in
 from contextlib import contextmanager
+from io import BytesIO
 from typing import BinaryIO, Iterator
 
 # third-party
@@ -93,10 +94,13 @@ class PrimitiveEvent:
             self.prev_ns = curr_ns
             self.header["timestamp"] = curr_ns
 
-            # Write header then value.
+            # Write header and value (at once, so that events stay whole when
+            # the stream isn't buffered).
             array = self.header.array
-            written += array.to_stream(stream)
-            written += raw.to_stream(stream, byte_order=array.byte_order)
+            with BytesIO() as event:
+                written += array.to_stream(event)
+                written += raw.to_stream(event, byte_order=array.byte_order)
+                stream.write(event.getvalue())
             if flush:
                 stream.flush()
 
-- 
2.43.0


From dea9136e576223eedb01094813e89feea27d19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:58 +0000
Subject: [PATCH 32/52] fix: other output on a peer's telemetry stream ends
 message handling

---
 runtimepy/channel/environment/telemetry.py |  7 +++++++
 runtimepy/subprocess/interface.py          | 19 ++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index a4f863b..3d60121 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -7,6 +7,7 @@ from contextlib import ExitStack, contextmanager
 from typing import BinaryIO, Iterator, Optional, cast
 
 # third-party
+from vcorelib.io import ByteFifo
 from vcorelib.names import name_search
 
 # internal
@@ -127,6 +128,12 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
 
         return result
 
+    def drop_event_stream(self) -> None:
+        """Drop the parts of an event stream that haven't been parsed."""
+
+        self.channels.event_fifo = ByteFifo()
+        self.channels.header_ready = False
+
     def parse_event_stream(self, stream: BinaryIO) -> Iterator[ParsedEvent]:
         """Parse individual events from a stream."""
 
diff --git a/runtimepy/subprocess/interface.py b/runtimepy/subprocess/interface.py
index fe2bad7..28b13bd 100644
--- a/runtimepy/subprocess/interface.py
+++ b/runtimepy/subprocess/interface.py
@@ -230,9 +230,22 @@ class RuntimepyPeerInterface(
 
             # Parse channel events.
             if self.peer is not None:
-                with BytesIO(data) as stream:
-                    for event in self.peer.env.parse_event_stream(stream):
-                        self.peer.env.ingest(event)
+                try:
+                    with BytesIO(data) as stream:
+                        for event in self.peer.env.parse_event_stream(stream):
+                            self.peer.env.ingest(event)
+
+                # Any output (e.g. warnings) can end up in this stream, it
+                # can't prevent messages from being handled.
+                except AssertionError as exc:
+                    self.peer.env.drop_event_stream()
+                    self.governed_log(
+                        self.log_limiter,
+                        "Dropped %d bytes that aren't telemetry (%s).",
+                        count,
+                        exc,
+                        level=logging.WARNING,
+                    )
             else:
                 self.governed_log(
                     self.log_limiter,
-- 
2.43.0


From 2e8448853a966e76cb1f0b6647f60b7d90e43965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:46 +0000
Subject: [PATCH 33/52] fix: exported environments lose the scaling of their
 values

---
 runtimepy/channel/__init__.py         |  3 +++
 runtimepy/channel/environment/base.py | 12 ++++++++++--
 runtimepy/data/schemas/Channel.yaml   |  6 ++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/__init__.py b/runtimepy/channel/__init__.py
index 9852536..3b29891 100644
--- a/runtimepy/channel/__init__.py
+++ b/runtimepy/channel/__init__.py
@@ -89,6 +89,7 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
 
         # This is the underlying storage entity for this channel.
         self.raw: _T = _cast(_T, _normalize(_cast(str, data["type"]))())
+        self.raw.scaling = data.get("scaling")  # type: ignore
 
         _ctl: _Optional[Controls] = data.get("controls")  # type: ignore
         self.controls: _Optional[Controls] = _ctl
@@ -130,6 +131,8 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
             result["description"] = self.description
         if self.default is not None:
             result["default"] = self.default
+        if self.raw.scaling:
+            result["scaling"] = _cast(_JsonObject, self.raw.scaling)
 
         return _cast(_JsonObject, result)
 
diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..077146e 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -101,9 +101,17 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
             chan for chan in self.channels.items.values() if chan.type.is_float
         }
 
-        # Apply initial values if they were provided.
+        # Apply initial values if they were provided (some scaling can't be
+        # inverted).
         if values is not None:
-            self.apply(values)
+            self.apply(
+                {
+                    key: value
+                    for key, value in values.items()
+                    if self.fields.has_field(key)
+                    or len(self[key][0].raw.scaling or []) <= 2
+                }
+            )
 
     def __setitem__(self, key: _RegistryKey, value: ChannelValue) -> None:
         """Mapping-set interface."""
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..455f70a 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -34,3 +34,9 @@ properties:
         minimum: 1
       - type: string
         pattern: "^\\w+$"
+
+  # Polynomial coefficients (lowest order first).
+  scaling:
+    type: array
+    items:
+      type: number
-- 
2.43.0


From 491c7a953a4401d327612ca492f8a1c7b478e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 34/52] fix: send UDP struct telemetry to the connection's
 remote address

A transceiver whose socket isn't connected (connect=False) passed no
address to 'sendto', which aborts the transport.
---
 runtimepy/net/arbiter/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/struct/__init__.py b/runtimepy/net/arbiter/struct/__init__.py
index c6a2937..5ffab82 100644
--- a/runtimepy/net/arbiter/struct/__init__.py
+++ b/runtimepy/net/arbiter/struct/__init__.py
@@ -182,7 +182,7 @@ class UdpStructTransceiver(UdpConnection, Generic[T]):
 
             result = self.framer_tx.capture(sample=sample, flush=flush)
             if result:
-                self.sendto(result)
+                self.send_binary(result)
 
     def handle_update(
         self, timestamp_ns: int, instance: T, addr: tuple[str, int]
-- 
2.43.0


From 5ff07527783665f34399d3ce0fc4fea8c80938da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 35/52] fix: keep the remote address of an unconnected UDP
 connection when restarting

Restarting reset a manually-set remote address (connect=False) to None, so
'send_text' and 'send_binary' aborted the new transport.
---
 runtimepy/net/udp/connection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index 5ef8301..ed7ad57 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -121,7 +121,14 @@ class UdpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: UdpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            remote = self.remote_address
             self.set_transport(transport_protocol[0])
+
+            # Keep a manually-set remote address, if the socket isn't
+            # connected.
+            if self.remote_address is None:
+                self.remote_address = remote
+
             self._set_protocol(transport_protocol[1])
 
         result = await try_udp_transport_protocol(
-- 
2.43.0


From 811cffe3b8ab02d4665cfd6d8fed4af398bd7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 36/52] fix: report kilobits (not kilobytes) when polling
 channel metrics

---
 runtimepy/metrics/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..90a0450 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,8 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        # Multiply by 8 to get bits from bytes.
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
-- 
2.43.0


From 0516fe10c034af6f1d9515d65e3d27e7978230be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 37/52] fix: reset the message rate when resetting channel
 metrics

---
 runtimepy/metrics/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 90a0450..85f8eaa 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -79,6 +79,8 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
+        self._message_rate_tracker.reset()
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
-- 
2.43.0


From 049f09b6d1024128f18f14719123df44b9d30a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 38/52] fix: count received datagrams even if handling them
 fails

---
 runtimepy/net/udp/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index ed7ad57..4485209 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -213,8 +213,8 @@ class UdpConnection(_Connection, _TransportMixin):
                     if message is not None:
                         data = message[0]
                         self.latest_rx_address = message[1]
-                        result = await self.process_datagram(data, message[1])
                         self.metrics.rx.increment(len(data))
+                        result = await self.process_datagram(data, message[1])
 
                 # If we failed to read (or handle) a message, disable.
                 finally:
-- 
2.43.0


From 010cc22d8968ba2eee1ab8b92edd5e4385e7c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:50 +0000
Subject: [PATCH 39/52] fix: count websocket traffic in bytes and only what was
 sent

Text messages were counted in characters, and messages that couldn't be
sent because the connection was closed counted as transmitted.
---
 runtimepy/net/websocket/connection.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..e3231d4 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -41,6 +41,11 @@ V = _TypeVar("V")
 LOG = _getLogger(__name__)
 
 
+def message_size(data: _Union[BinaryMessage, str]) -> int:
+    """Get the size of a message's payload in bytes."""
+    return len(data.encode() if isinstance(data, str) else data)
+
+
 class WebsocketConnection(Connection):
     """A simple websocket connection interface."""
 
@@ -71,18 +76,22 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(message_size(data))
         return data
 
+    async def _send_data(self, data: _Union[BinaryMessage, str]) -> None:
+        """Send a message."""
+
+        await self.protocol.send(data)
+        self.metrics.tx.increment(message_size(data))
+
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        await self._handle_connection_closed(self._send_data(data))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        await self._handle_connection_closed(self._send_data(data))
 
     async def close(self) -> None:
         """Close this connection."""
-- 
2.43.0


From 5cdf92b3b3befead5350284ae20440532a867eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:21 +0000
Subject: [PATCH 40/52] fix: forward complete lines only, from every readable
 log stream

---
 runtimepy/mixins/logging.py | 39 ++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/runtimepy/mixins/logging.py b/runtimepy/mixins/logging.py
index d1d5003..af6a6f5 100644
--- a/runtimepy/mixins/logging.py
+++ b/runtimepy/mixins/logging.py
@@ -94,6 +94,7 @@ class LogCaptureMixin:
 
     # Open aiofiles handles.
     streams: list[tuple[int, Any]]
+    partial: list[bytes]
 
     # Set false to only forward to ListLogger handlers. Required for when the
     # system log / process-management logs are being forwarded (otherwise also
@@ -108,7 +109,9 @@ class LogCaptureMixin:
         self.streams = [
             (
                 LogLevel.normalize(level),
-                await stack.enter_async_context(aiofiles.open(path, mode="r")),
+                await stack.enter_async_context(
+                    aiofiles.open(path, mode="rb")
+                ),
             )
             for level, path in log_paths
             if normalize(path).is_file()
@@ -118,16 +121,38 @@ class LogCaptureMixin:
         for stream in self.streams:
             await stream[1].seek(0, io.SEEK_END)
 
+        # Data that isn't a complete line yet.
+        self.partial = [b"" for _ in self.streams]
+
     def log_line(self, level: int, data: str) -> None:
         """Log a line for output."""
 
         handle_safe_log(self.logger, level, data, self.safe_to_log)
 
     async def dispatch_log_capture(self) -> None:
-        """Get the next line from this log stream."""
+        """Forward every complete line that can be read from each stream."""
+
+        error = None
+
+        for idx, (level, stream) in enumerate(self.streams):
+            try:
+                data = await stream.read1()
+                while data:
+                    # The last element isn't a complete line (yet).
+                    *lines, self.partial[idx] = (
+                        self.partial[idx] + data
+                    ).split(b"\n")
+
+                    for line in lines:
+                        text = line.decode(errors="replace").rstrip()
+                        if text:
+                            self.log_line(level, text)
+
+                    data = await stream.read1()
+
+            # One stream's problem shouldn't prevent others from being handled.
+            except OSError as exc:
+                error = error or exc
 
-        for level, stream in self.streams:
-            line = (await stream.readline()).rstrip()
-            while line:
-                self.log_line(level, line)
-                line = (await stream.readline()).rstrip()
+        if error is not None:
+            raise error
-- 
2.43.0


From 4aa1c8346bd9c562245e41c3725c551f077fef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:34 +0000
Subject: [PATCH 41/52] fix: count and release UI websocket clients correctly

The connection count's change callback was never removed, a connection that
was never counted was subtracted, and nothing polled UI metrics anymore if the
connection doing it left while two or more others remained.
---
 runtimepy/net/server/struct/__init__.py    |  3 +++
 runtimepy/net/server/websocket/__init__.py | 28 ++++++++--------------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/runtimepy/net/server/struct/__init__.py b/runtimepy/net/server/struct/__init__.py
index 8783f51..e19a1f4 100644
--- a/runtimepy/net/server/struct/__init__.py
+++ b/runtimepy/net/server/struct/__init__.py
@@ -24,6 +24,9 @@ class UiState(RuntimeStruct, PsutilMixin):
 
     use_psutil: bool
 
+    # The connection that's currently updating metrics.
+    poller: Optional[object] = None
+
     @staticmethod
     def singleton() -> Optional["UiState"]:
         """Attempt to get the singleton UI struct instance."""
diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 1feaa59..8a0682b 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -27,7 +27,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     tabs: dict[str, TabState]
 
     poll_governor: RateLimiter
-    poll_connection_metrics: bool
 
     _ui: Optional[UiState]
 
@@ -51,19 +50,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             ui = UiState.singleton()
 
             if ui is not None and ui.env.finalized:
-
-                def check_metrics_poll(_: int, curr: int) -> None:
-                    """
-                    Register change handler on 'num_connections' primitive.
-                    """
-
-                    self.poll_connection_metrics = (
-                        self.poll_connection_metrics or curr == 1
-                    )
-
-                chan, _ = ui.env["num_connections"]
-                chan.raw.register_callback(check_metrics_poll)  # type: ignore
-
                 # Add to num_connections.
                 ui.env.add_int("num_connections", 1)
                 self._ui = ui
@@ -74,7 +60,10 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         """Update UI-specific state."""
 
         # Only one connection needs to perform this task.
-        if self.poll_connection_metrics and self.poll_governor():
+        if ui.poller is None:
+            ui.poller = self
+
+        if ui.poller is self and self.poll_governor():
             # Update time.
             ui.env["time_ms"] = time
             ui.env["frame_period_ms"] = time - self.ui_time
@@ -136,7 +125,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             to_nanos(1.0 / 250.0), source=metrics_time_ns
         )
 
-        self.poll_connection_metrics = False
         self._ui = None
 
     async def async_init(self) -> bool:
@@ -156,11 +144,15 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             state.clear_loggers()
 
         # Subtract from num_connections.
-        ui = self._get_ui()
+        ui = self._ui
         if ui:
-            self.poll_connection_metrics = False
+            self._ui = None
             ui.env.add_int("num_connections", -1)
 
+            # Allow another connection to poll.
+            if ui.poller is self:
+                ui.poller = None
+
 
 class RuntimepyDataWebsocketConnection(WebsocketConnection):
     """A class implementing a WebSocket connection for streaming raw data."""
-- 
2.43.0


From bdc5f3ca1b69182a91fd12692f173660c7637853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 42/52] fix: send the current values of a tab that's shown
 again

Points that weren't sent before a tab was hidden were considered received,
and showing a tab twice registered (and leaked) a second set of callbacks.
---
 runtimepy/net/server/app/env/tab/message.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..cf4acd2 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -34,8 +34,10 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
                 (self.command.env.value(name), prim.last_updated_ns)
             )
 
-        state.primitives[name] = prim
-        state.callbacks[name] = prim.register_callback(callback)
+        # Only register one callback if the tab was already shown.
+        if name not in state.callbacks:
+            state.primitives[name] = prim
+            state.callbacks[name] = prim.register_callback(callback)
 
     def handle_shown_state(
         self,
@@ -46,6 +48,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     ) -> None:
         """Handle 'shown' state changing."""
 
+        was_shown = state.shown
         state.shown = shown
         env = self.command.env
 
@@ -69,10 +72,17 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
             for name in env.names:
                 self._setup_callback(name, state)
         else:
+            # Points that weren't sent yet won't be, so the UI doesn't have
+            # the current value of these channels.
+            for name in state.points:
+                latest.pop(name, None)
+                state.latest_ui_values.pop(name, None)
+
             state.clear_telemetry()
 
         # Save current UI state.
-        state.latest_ui_values.update(latest)
+        if shown or was_shown:
+            state.latest_ui_values.update(latest)
 
         outbox["handle_shown_state"] = shown
 
-- 
2.43.0


From cf9fb52b7347c9124b6be575f1c094d2fed3eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 43/52] fix: don't send points that JSON can't represent to the
 UI

---
 runtimepy/net/server/app/env/tab/message.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index cf4acd2..bdf5c12 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -4,10 +4,12 @@ A module implementing a channel-environment tab message-handling interface.
 
 # built-in
 import logging
+import math
 from typing import Any, Callable
 
 # internal
 from runtimepy.channel import Channel
+from runtimepy.channel.environment.base import ChannelValue
 from runtimepy.message import JsonMessage
 from runtimepy.net.server.app.env.tab.base import ChannelEnvironmentTabBase
 from runtimepy.net.server.websocket.state import TabState
@@ -15,6 +17,14 @@ from runtimepy.net.server.websocket.state import TabState
 TabMessageSender = Callable[[JsonMessage], None]
 
 
+def is_encodable(value: ChannelValue) -> bool:
+    """
+    Determine if a value can be sent to the UI (browsers don't support decoding
+    NaN and infinities).
+    """
+    return isinstance(value, str) or math.isfinite(value)
+
+
 class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     """A channel-environment tab interface."""
 
@@ -30,9 +40,9 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Render enumerations etc. here instead of trying to do it
             # in the UI.
-            state.points[name].append(
-                (self.command.env.value(name), prim.last_updated_ns)
-            )
+            value = self.command.env.value(name)
+            if is_encodable(value):
+                state.points[name].append((value, prim.last_updated_ns))
 
         # Only register one callback if the tab was already shown.
         if name not in state.callbacks:
@@ -53,7 +63,7 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
         env = self.command.env
 
         # Always sample current values.
-        latest = env.values()
+        latest = {k: v for k, v in env.values().items() if is_encodable(v)}
 
         if state.shown:
             # Send missing or changed values.
-- 
2.43.0


From 0a1d9fc31cc7ddc6da84564f794878e27da59d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 44/52] fix: don't lose what a subprocess writes before its
 queues are set

---
 runtimepy/subprocess/__init__.py | 16 ++++++++--------
 runtimepy/subprocess/protocol.py | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index edc7f3d..9bc865c 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -5,6 +5,7 @@ A module implementing a subprocess management interface.
 # built-in
 from asyncio import Queue, get_running_loop, wait_for
 from contextlib import asynccontextmanager, suppress
+from functools import partial
 from logging import getLogger
 from typing import AsyncIterator
 
@@ -101,15 +102,15 @@ async def spawn_exec(
     program, list_args = reconcile_platform(args[0], args[1:])
 
     _, protocol = await get_running_loop().subprocess_exec(
-        RuntimepySubprocessProtocol, program, *list_args, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout=stdout, stderr=stderr),
+        program,
+        *list_args,
+        **kwargs,
     )
 
     rel = log_process_info(program, *list_args)
     logger.info("Started exec '%s %s' %d.", rel[0], rel[1], protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
@@ -129,14 +130,13 @@ async def spawn_shell(
     """Create a shell subprocess."""
 
     _, protocol = await get_running_loop().subprocess_shell(
-        RuntimepySubprocessProtocol, cmd, **kwargs
+        partial(RuntimepySubprocessProtocol, stdout=stdout, stderr=stderr),
+        cmd,
+        **kwargs,
     )
 
     logger.info("Started shell '%s' %d.", cmd, protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..fec329a 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -36,6 +36,18 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
     exited: Event
 
+    def __init__(
+        self, stdout: Queue[bytes] = None, stderr: Queue[bytes] = None
+    ) -> None:
+        """
+        Initialize this instance (output can arrive as soon as a connection is
+        made).
+        """
+
+        super().__init__()
+        self.stdout_queue = stdout
+        self.stderr_queue = stderr
+
     @property
     def stdout(self) -> Queue[bytes]:
         """Get this instance's standard output queue."""
@@ -59,8 +71,6 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
         self.start_time = metrics_time_ns()
         self.elapsed_time = -1
 
-        self.stdout_queue = None
-        self.stderr_queue = None
         self.exited = Event()
 
         self.transport = transport
-- 
2.43.0


From 37186a2e14c8f57b4fd379158a89f72706b61c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 45/52] fix: a peer's message that can't be handled doesn't
 affect later ones

---
 runtimepy/message/__init__.py     |  4 +++-
 runtimepy/subprocess/interface.py | 25 +++++++++++++++++++++----
 runtimepy/subprocess/program.py   |  7 +------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..63f5f14 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,9 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
+                    # The next message is expected whether or not a consumer
+                    # continues iteration (e.g. if it raises).
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
diff --git a/runtimepy/subprocess/interface.py b/runtimepy/subprocess/interface.py
index 28b13bd..c50b0a5 100644
--- a/runtimepy/subprocess/interface.py
+++ b/runtimepy/subprocess/interface.py
@@ -6,7 +6,7 @@ A module implementing a runtimepy peer interface.
 from argparse import Namespace
 import asyncio
 from io import BytesIO
-from json import dumps
+from json import dumps, loads
 import logging
 from logging import INFO, getLogger
 from typing import Optional
@@ -254,14 +254,31 @@ class RuntimepyPeerInterface(
                     level=logging.WARNING,
                 )
 
+    async def handle_messages(self, data: bytes) -> int:
+        """
+        Handle incoming messages, returns the number of messages. One that
+        can't be handled doesn't prevent others from being handled.
+        """
+
+        count = 0
+
+        for message in self.processor.process(data):
+            count += 1
+            try:
+                await self.process_json(loads(message.decode()))
+            except Exception as exc:  # pylint: disable=broad-except
+                self.logger.exception(
+                    "Exception handling a message:", exc_info=exc
+                )
+
+        return count
+
     async def handle_stdout(self, data: bytes) -> None:
         """Handle messages from stdout."""
 
         if data:
             self.stdout_metrics.increment(len(data))
-
-            for msg in self.processor.messages(data):
-                await self.process_json(msg)
+            await self.handle_messages(data)
 
     async def poll_handler(self) -> None:
         """Handle a 'poll' message."""
diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index 86fd710..e62ff2c 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -109,12 +109,7 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
                 accumulator += 1
 
                 # Process incoming messages.
-                saw_msg = False
-                for msg in self.processor.messages(data):
-                    await self.process_json(msg)
-                    saw_msg = True
-
-                if saw_msg:
+                if await self.handle_messages(data):
                     self.stdin_metrics.increment(accumulator)
                     accumulator = 0
 
-- 
2.43.0


From 59b62ddbdd4557d91d3862042a59250f27582046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 46/52] fix: log records with arguments that aren't JSON broke
 sending messages

---
 runtimepy/message/interface.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index 828b7c1..a6e1ce6 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -177,6 +177,18 @@ class JsonMessageInterface:
             data["args"] = [*args]
         self._log_messages.append(data)
 
+    def _stage_record(self, record: logging.LogRecord) -> None:
+        """Log a record on the remote."""
+
+        # Arguments (or messages) can be anything, but only text is sure to be
+        # encoded.
+        try:
+            msg = record.getMessage()
+        except Exception:  # pylint: disable=broad-except
+            msg = str(record.msg)
+
+        self.stage_remote_log(msg, level=record.levelno)
+
     def write(self, data: bytes, addr: tuple[str, int] = None) -> None:
         """Write data."""
 
@@ -191,9 +203,7 @@ class JsonMessageInterface:
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-                self.stage_remote_log(  # type: ignore
-                    record.msg, *record.args, level=record.levelno
-                )
+                self._stage_record(record)
 
         # Add any pending log messages to this message.
         if self._log_messages:
-- 
2.43.0


From a4802c1366e9b628dfc523768331f6050dd9485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 47/52] fix: end and clean up a peer program however it ends

---
 runtimepy/subprocess/program.py | 49 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index e62ff2c..82635b0 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -96,7 +96,7 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
 
         accumulator = 0
 
-        with suppress(asyncio.CancelledError):
+        try:
             while True:
                 data: bytes = buffer.read(1)
                 if data is None:
@@ -113,8 +113,12 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
                     self.stdin_metrics.increment(accumulator)
                     accumulator = 0
 
+        except asyncio.CancelledError:
+            pass
+
         # Signal the end of input processing.
-        self.got_eof.set()
+        finally:
+            self.got_eof.set()
 
     @classmethod
     def run_standard(
@@ -168,31 +172,42 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
 
         io_task, peer = cls.run_standard(name, config)
 
+        tasks = [io_task]
+
         # Set up logging.
         logger = logging.getLogger()
         logger.addHandler(peer.list_handler)
         peer.logger.info("Logging initialized.")
 
-        # Wait for environment exchange.
-        peer.pre_environment_exchange()
-        await peer._peer_env_event.wait()
-        peer.logger.info("Environments exchanged.")
-
-        # Start main loop.
-        main_task = asyncio.create_task(peer.main(argv))
-        peer.logger.info("Main started.")
-
-        await peer.wait_json()
-        heartbeat = asyncio.create_task(peer.heartbeat_task())
-
         try:
+            # Wait for environment exchange (or the host's departure).
+            peer.pre_environment_exchange()
+            exchanged = asyncio.create_task(peer._peer_env_event.wait())
+            tasks.append(exchanged)
+            await asyncio.wait(
+                [exchanged, io_task], return_when=asyncio.FIRST_COMPLETED
+            )
+            if not peer._peer_env_event.is_set():
+                raise EOFError("No environments were exchanged.")
+            peer.logger.info("Environments exchanged.")
+
+            # Start main loop.
+            main_task = asyncio.create_task(peer.main(argv))
+            tasks.append(main_task)
+            peer.logger.info("Main started.")
+
+            await peer.wait_json()
+            tasks.append(asyncio.create_task(peer.heartbeat_task()))
+
             with peer.streaming_events():
                 yield io_task, main_task, peer
         finally:
             logger.removeHandler(peer.list_handler)
-            for cancel in (io_task, main_task, heartbeat):
-                cancel.cancel()
-                await cancel
+
+            # Clean up no matter how these tasks end.
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
             await peer.cleanup()
 
-- 
2.43.0


From 0689e253fe068c7176b783e7720cc36753f3351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 48/52] fix: don't leave a task behind when a peer's context
 ends

---
 runtimepy/subprocess/peer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/subprocess/peer.py b/runtimepy/subprocess/peer.py
index 68930c5..ad79125 100644
--- a/runtimepy/subprocess/peer.py
+++ b/runtimepy/subprocess/peer.py
@@ -69,6 +69,12 @@ class RuntimepyPeer(RuntimepyPeerInterface):
             except asyncio.CancelledError:
                 keep_going = False
 
+        # Commands may be waiting for responses.
+        if task is not None:
+            task.cancel()
+            with suppress(asyncio.CancelledError):
+                await task
+
     @asynccontextmanager
     async def _context(self: T) -> AsyncIterator[T]:
         """A managed context for the peer."""
-- 
2.43.0


From 79a8ec28af776898bd7d9593b99d97c855547813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 49/52] fix: ignore tftp messages from a previous transfer's
 address

---
 runtimepy/net/udp/tftp/base.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index c81d035..934a296 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -318,7 +318,21 @@ class BaseTftpConnection(UdpConnection):
             self._endpoints[endpoint.addr] = to_update
             endpoint = to_update.update_from_other(endpoint)
 
-        endpoint.handle_data(block, stream.read())
+        if self._current(endpoint, addr):
+            endpoint.handle_data(block, stream.read())
+
+    def _current(self, endpoint: TftpEndpoint, addr: tuple[str, int]) -> bool:
+        """
+        Determine if a message is from the address that an endpoint is
+        currently using, instead of from one used by a previous transfer.
+        """
+
+        result = endpoint.addr == normalize_host(*addr)
+        if not result:
+            self.send_error(
+                TftpErrorCode.UNKNOWN_ID, "Unknown transfer ID", addr=addr
+            )
+        return result
 
     async def _handle_ack(
         self, stream: BinaryIO, addr: tuple[str, int]
@@ -338,7 +352,8 @@ class BaseTftpConnection(UdpConnection):
             self._endpoints[endpoint.addr] = to_update
             endpoint = to_update.update_from_other(endpoint)
 
-        endpoint.handle_ack(block)
+        if self._current(endpoint, addr):
+            endpoint.handle_ack(block)
 
     def _read_block_number(self, stream: BinaryIO) -> int:
         """Read block number from the stream."""
-- 
2.43.0


From c7dab93b70c1f8dad404a57ce90f22590964cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 50/52] fix: don't end tftp transfers because of duplicated
 data

---
 runtimepy/net/udp/tftp/endpoint.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 7a2b466..dff8b09 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -124,6 +124,18 @@ class TftpEndpoint(LoggerMixin):
             self.blocks[block] = data
             self.awaiting_blocks[block].set()
             del self.awaiting_blocks[block]
+
+        # An error would end the transfer this is likely a re-transmission of.
+        elif self.rx_lock.locked() or (
+            self.dally is not None and not self.dally.done()
+        ):
+            self.governed_log(
+                self.log_limiter,
+                "Ignored block %d (%d bytes).",
+                block,
+                len(data),
+                level=logging.DEBUG,
+            )
         else:
             self.error_sender(
                 TftpErrorCode.UNKNOWN_ID,
-- 
2.43.0


From a1aff26581994be428140897b57184c0a00d3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:37 +0000
Subject: [PATCH 51/52] fix: don't serve files outside of the served
 directories

---
 runtimepy/net/server/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..b148ffb 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -7,6 +7,7 @@ import http
 from io import StringIO
 import logging
 import mimetypes
+from os.path import normpath
 from pathlib import Path
 from typing import Any, Optional, TextIO, Union
 
@@ -170,7 +171,11 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            candidate = Path(normpath(search.joinpath(path[0][1:])))
+
+            # Don't serve files that are outside of the search path.
+            if search not in candidate.parents:
+                continue
 
             # Handle markdown sources.
             if candidate.name:
-- 
2.43.0


From 3fd47fad3a0980538a1c477e0ee2131787c7b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:49 +0000
Subject: [PATCH 52/52] fix: keep updating UI metrics when one client stops
 sending frames

---
 runtimepy/net/server/struct/__init__.py    |  1 +
 runtimepy/net/server/websocket/__init__.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/server/struct/__init__.py b/runtimepy/net/server/struct/__init__.py
index e19a1f4..2445a97 100644
--- a/runtimepy/net/server/struct/__init__.py
+++ b/runtimepy/net/server/struct/__init__.py
@@ -26,6 +26,7 @@ class UiState(RuntimeStruct, PsutilMixin):
 
     # The connection that's currently updating metrics.
     poller: Optional[object] = None
+    poll_time_ns: int = 0
 
     @staticmethod
     def singleton() -> Optional["UiState"]:
diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 8a0682b..12dc1e7 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -18,6 +18,8 @@ from runtimepy.net.server.struct import UiState
 from runtimepy.net.server.websocket.state import TabState
 from runtimepy.net.websocket import WebsocketConnection
 
+POLL_TIMEOUT_NS = to_nanos(1.0)
+
 
 class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     """A class implementing a package-specific WebSocket connection."""
@@ -59,11 +61,16 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     def _poll_ui_state(self, ui: UiState, time: float) -> None:
         """Update UI-specific state."""
 
-        # Only one connection needs to perform this task.
-        if ui.poller is None:
+        # Only one connection needs to perform this task. Take over from a
+        # connection that stopped sending frames (browsers don't render tabs
+        # in the background).
+        now = metrics_time_ns()
+        if ui.poller is None or now - ui.poll_time_ns > POLL_TIMEOUT_NS:
             ui.poller = self
 
         if ui.poller is self and self.poll_governor():
+            ui.poll_time_ns = now
+
             # Update time.
             ui.env["time_ms"] = time
             ui.env["frame_period_ms"] = time - self.ui_time
-- 
2.43.0


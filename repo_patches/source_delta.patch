From 87226bb83c68480afde51cadba28919e454bf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:30 +0000
Subject: [PATCH 01/13] fix: refuse non-canonical encodings in canonical_unpack

Truncated length fields, a zero or oddly sized blocksize declaration, and
surplus blocks of padding were accepted, or caused a ZeroDivisionError.
They're all refused with a CanonicalEncodingError now.
---
 aiootp/generics/canon.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 0dd0904..f692838 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -30,6 +30,7 @@ __all__ = [
     "fullblock_ljust",
     "encode_items",
     "encode_key",
+    "test_canonical_blocksize",
     "test_canonical_padding",
 ]
 
@@ -265,9 +266,10 @@ async def adecode_items(
     the number of bytes that were used to encode item lengths.
     """
     async for _ in arange(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        size_blob = read(int_bytes)
+        item_size = int.from_bytes(size_blob, BIG)
         item = read(item_size)
-        if len(item) != item_size:
+        if len(size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
@@ -286,9 +288,10 @@ def decode_items(
     the number of bytes that were used to encode item lengths.
     """
     for _ in range(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        size_blob = read(int_bytes)
+        item_size = int.from_bytes(size_blob, BIG)
         item = read(item_size)
-        if len(item) != item_size:
+        if len(size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
@@ -313,6 +316,23 @@ def test_canonical_padding(
         raise CanonicalIssue.invalid_padding()
 
 
+def test_canonical_blocksize(
+    items: deque[bytes],
+    int_bytes: int,
+    padding_size: int,
+) -> None:
+    """
+    Raises `CanonicalEncodingError` if the declared blocksize is encoded
+    with an unexpected width, is zero, or if there's more padding than
+    is necessary to reach the nearest blocksize multiple.
+    """
+    if items and (
+        len(items[0]) != int_bytes
+        or padding_size >= int.from_bytes(items[0], BIG)
+    ):
+        raise CanonicalIssue.data_length_blocksize_mismatch()
+
+
 async def acanonical_unpack(items: bytes) -> deque[bytes]:
     """
     Extracts the bytes-type values that have been canonically encoded
@@ -320,7 +340,8 @@ async def acanonical_unpack(items: bytes) -> deque[bytes]:
     that were used to encode item lengths.
     """
     total_size = len(items)
-    read = io.BytesIO(items).read
+    data = io.BytesIO(items)
+    read = data.read
     int_bytes = int.from_bytes(read(1), BIG)
     item_count = int.from_bytes(read(int_bytes), BIG)
     if total_size < int_bytes * (item_count + 1) + 3:
@@ -329,6 +350,7 @@ async def acanonical_unpack(items: bytes) -> deque[bytes]:
         [item async for item in adecode_items(read, item_count, int_bytes)],
         maxlen=item_count,
     )
+    test_canonical_blocksize(items, int_bytes, total_size - data.tell())
     test_canonical_padding(read, items, total_size)
     return items
 
@@ -340,7 +362,8 @@ def canonical_unpack(items: bytes) -> deque[bytes]:
     that were used to encode item lengths.
     """
     total_size = len(items)
-    read = io.BytesIO(items).read
+    data = io.BytesIO(items)
+    read = data.read
     int_bytes = int.from_bytes(read(1), BIG)
     item_count = int.from_bytes(read(int_bytes), BIG)
     if total_size < int_bytes * (item_count + 1) + 3:
@@ -349,6 +372,7 @@ def canonical_unpack(items: bytes) -> deque[bytes]:
         decode_items(read, item_count, int_bytes),
         maxlen=item_count,
     )
+    test_canonical_blocksize(items, int_bytes, total_size - data.tell())
     test_canonical_padding(read, items, total_size)
     return items
 
@@ -375,5 +399,6 @@ module_api = dict(
     fullblock_ljust=fullblock_ljust,
     encode_items=encode_items,
     encode_key=encode_key,
+    test_canonical_blocksize=test_canonical_blocksize,
     test_canonical_padding=test_canonical_padding,
 )
-- 
2.43.0


From 1cb23fa106b728b7d022d2ef85576dbb5b945afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:11 +0000
Subject: [PATCH 02/13] fix: use integer division when reading clocks

Dividing as floats loses precision for times beyond 2**53 nanoseconds after
the epoch. Nanosecond clocks were off by several units and every other unit
could read one too many just before a boundary.
---
 aiootp/asynchs/clocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..90520fe 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,7 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        return int((time_ns() - epoch) // unit.as_ns)
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From 83fb9e38b81fd4b2e0ee83f4fca9d81ce2cf4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:18 +0000
Subject: [PATCH 03/13] fix: keep testing the timestamp until it has passed

A decryption stream marked its timestamp as tested before testing it. Reading
the stream before the first packet, or from a second task during the test,
skipped the time-to-live of the whole stream.
---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From 6beb8d83295affc023255e5705423bd1d432ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:54 +0000
Subject: [PATCH 04/13] fix: leave a stream's byte count alone when a chunk is
 refused

Feeding a value that is not bytes raised a TypeError after its length had been
added to the count, so the padding of the rest of the stream was wrong.
---
 aiootp/ciphers/cipher_streams.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiootp/ciphers/cipher_streams.py b/aiootp/ciphers/cipher_streams.py
index 74223a2..dc8db93 100644
--- a/aiootp/ciphers/cipher_streams.py
+++ b/aiootp/ciphers/cipher_streams.py
@@ -258,8 +258,8 @@ class AsyncCipherStream(CipherStreamProperties, metaclass=AsyncInit):
         async with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
-            self._byte_count += len(data)
-            data = io.BytesIO(data).read
+            size, data = len(data), io.BytesIO(data).read
+            self._byte_count += size
             _buffer, append = self._buffer_shortcuts
             await self._adigest_data(data, _buffer, append)
         return self
@@ -487,8 +487,8 @@ class CipherStream(CipherStreamProperties):
         with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
-            self._byte_count += len(data)
-            data = io.BytesIO(data).read
+            size, data = len(data), io.BytesIO(data).read
+            self._byte_count += size
             _buffer, append = self._buffer_shortcuts
             self._digest_data(data, _buffer, append)
         return self
-- 
2.43.0


From 1f1a06aedf7d159811f6e5b4a6dee08f96d77c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:54 +0000
Subject: [PATCH 05/13] fix: refuse tokens that are neither str nor bytes with
 a TypeError

They used to surface as an AttributeError about a missing encode method.
---
 aiootp/ciphers/cipher_interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aiootp/ciphers/cipher_interface.py b/aiootp/ciphers/cipher_interface.py
index d8e35b4..d055195 100644
--- a/aiootp/ciphers/cipher_interface.py
+++ b/aiootp/ciphers/cipher_interface.py
@@ -511,8 +511,10 @@ class CipherInterface(FrozenInstance):
         `ttl`: An amount of seconds that dictate the allowable age of
                 the decrypted message.
         """
-        if token.__class__ is not bytes:
+        if issubclass(token.__class__, str):
             token = token.encode()
+        elif token.__class__ is not bytes:
+            raise Issue.must_be_type("token", bytes)
         ciphertext = await ByteIO.aurlsafe_to_bytes(token)
         return await self.abytes_decrypt(ciphertext, aad=aad, ttl=ttl)
 
@@ -537,8 +539,10 @@ class CipherInterface(FrozenInstance):
         `ttl`: An amount of seconds that dictate the allowable age of
                 the decrypted message.
         """
-        if token.__class__ is not bytes:
+        if issubclass(token.__class__, str):
             token = token.encode()
+        elif token.__class__ is not bytes:
+            raise Issue.must_be_type("token", bytes)
         ciphertext = ByteIO.urlsafe_to_bytes(token)
         return self.bytes_decrypt(ciphertext, aad=aad, ttl=ttl)
 
-- 
2.43.0


From 57f90410f607aeed427150a466fa8124604baaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:20 +0000
Subject: [PATCH 06/13] fix: keep a frozen namespace's contents when clearing
 it is refused

---
 aiootp/commons/slots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 4ff4b12..cb855fd 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -327,10 +327,12 @@ class Slots:
         """
         Deletes the instance's attribute references from its slots & dict.
         """
-        getattr(self, DICT, []).clear()
+        for name in (*self,):
+            del self[name]
         for name in self.__slots__:
             if hasattr(self, name):
                 del self[name]
+        getattr(self, DICT, []).clear()
 
 
 class OpenSlots(Slots):
-- 
2.43.0


From 7771e4c69174608a12d32663dccd350d6a65b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:43:05 +0000
Subject: [PATCH 07/13] fix: give up a guard's place when waiting or leaving is
 cancelled

---
 aiootp/asynchs/guards/concurrency_guard.py | 30 ++++++++++++++++++----
 aiootp/asynchs/guards/manager.py           |  4 +--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..df9a8c4 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -316,6 +316,16 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _stop_waiting(self, /) -> None:
+        """
+        Gives up the instance's place in the order queue when waiting
+        for its turn was interrupted, such as by a task's cancellation.
+        """
+        if self.policy.is_exclusive():
+            self.policy.notify_off(self)
+        self.queue.remove(self)
+        self._use_tracker.enter_fault_state()
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -331,7 +341,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+            try:
+                await asleep(self.probe_delay)
+            except BaseException:
+                self._stop_waiting()
+                raise
 
         return self
 
@@ -349,7 +363,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            sleep(self.probe_delay)
+            try:
+                sleep(self.probe_delay)
+            except BaseException:
+                self._stop_waiting()
+                raise
 
         return self
 
@@ -370,9 +388,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
         return exc_type is None
 
     def __exit__(
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..b7820dd 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -270,7 +270,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await manager._ainitialize_guard(target, self)
         try:
             return await super().__aenter__()
-        except Exception as error:
+        except BaseException as error:
             await manager._acleanup_references(target)
             raise error
 
@@ -288,7 +288,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         manager._initialize_guard(target, self)
         try:
             return super().__enter__()
-        except Exception as error:
+        except BaseException as error:
             manager._cleanup_references(target)
             raise error
 
-- 
2.43.0


From 7e59c7cce09247d33e0e1e6affeebe4fe0776d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:52 +0000
Subject: [PATCH 08/13] fix: forget a managed guard's failed second entry

---
 aiootp/asynchs/guards/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index b7820dd..c2ad820 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -267,8 +267,8 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await asleep()
 
         manager, target = self._refs.manager, self._refs.target
-        await manager._ainitialize_guard(target, self)
         try:
+            await manager._ainitialize_guard(target, self)
             return await super().__aenter__()
         except BaseException as error:
             await manager._acleanup_references(target)
@@ -285,8 +285,8 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         guard's place in the order queue.
         """
         manager, target = self._refs.manager, self._refs.target
-        manager._initialize_guard(target, self)
         try:
+            manager._initialize_guard(target, self)
             return super().__enter__()
         except BaseException as error:
             manager._cleanup_references(target)
-- 
2.43.0


From e47ee065ee0713371e747144aa9dd09ade27c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:39 +0000
Subject: [PATCH 09/13] fix: let concurrent readers of a salt file take turns

---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..c47cf12 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From 3ba3ceef1dff883c0daea0980ef9538693baa374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:52 +0000
Subject: [PATCH 10/13] fix: wait for a salt file asynchronously before
 deleting it

---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index c47cf12..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From 1cdc1c5be327adee5505fa7ad1c613725c422cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:52 +0000
Subject: [PATCH 11/13] fix: lock a new salt file even if writing it fails

---
 aiootp/_paths.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..ea2e95b 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -163,9 +163,11 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
-            await salt_file.write(salt)
-        await aos.chmod(path, 0o000)
+        try:
+            async with aiofiles.open(path, "wb") as salt_file:
+                await salt_file.write(salt)
+        finally:
+            await aos.chmod(path, 0o000)
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -180,8 +182,10 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
-        path.chmod(0o000)
+        try:
+            path.write_bytes(salt)
+        finally:
+            path.chmod(0o000)
 
 
 async def aread_salt_file(path: Path) -> bytes:
-- 
2.43.0


From 14f9f450569c97fd766de7a5ed1bc39451fa2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:18 +0000
Subject: [PATCH 12/13] fix: leave foreign files alone when deleting a database

Deleting a database removed the files named by every entry of its
manifest.  Two entries hold maintenance records and name no file, so
files of other programs with these names were removed.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..21308cb 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -744,7 +744,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         for metatag in self.metatags:
             sub_db = await self.ametatag(metatag, preload=False)
             await sub_db.adelete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
         await self._adelete_profile_tokens()
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..2995c8c 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -692,7 +692,7 @@ class Database(DatabaseProperties):
         """
         for metatag in self.metatags:
             self.metatag(metatag, preload=False).delete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
         self._delete_profile_tokens()
-- 
2.43.0


From b4e153740b949744d95a356aef56e3b8e445cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:16 +0000
Subject: [PATCH 13/13] fix: take the result of a worker process before waiting
 for its end

A process with a large result does not end before its result is read.
The caller waited for the end first, so both waited for ever.
---
 aiootp/asynchs/concurrency_interface.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..6b0962c 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -132,10 +132,14 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             await asleep(delay)
-        task.join()
-        return queue.get_nowait()
+        try:
+            return queue.get_nowait()
+        finally:
+            while task.is_alive():
+                await asleep(delay)
+            task.join()
 
     @classmethod
     def new(
@@ -163,10 +167,14 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             sleep(delay)
-        task.join()
-        return queue.get_nowait()
+        try:
+            return queue.get_nowait()
+        finally:
+            while task.is_alive():
+                sleep(delay)
+            task.join()
 
     @staticmethod
     def _get_result(
-- 
2.43.0


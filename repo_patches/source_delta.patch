From d5756fe10c768d1777f00fc48f8c74ff8dfa56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 01/53] fix: record an object reference when writing a RegExp

V8 assigns every RegExp a reference id. Not recording one shifted the ids of
all following objects, so later references resolved to the wrong object.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..180867d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 58028a18595a813219ee8b230f36cd3bdc2561a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 02/53] fix: record an object reference when writing an Error
 without a cause

V8 assigns every Error a reference id, but one was only recorded when the
Error had a cause, so references following other Errors were off by one.
---
 src/v8serialize/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 180867d..c22d21d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -421,6 +421,8 @@ class WritableTagStream:
                     "cause without CircularErrorCause enabled",
                 ):
                     ctx.encode_object(cause)
+        else:
+            self.objects.record_reference(identity)
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-- 
2.43.0


From 4ea5cd6fe33b3d02c19e69683b42c87264de1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 03/53] fix: record object references when reading shared and
 transferred ArrayBuffers

The writer (and V8) assign these buffers a reference id, so not recording one
when reading made later references resolve to the wrong object.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From c2493df41b668865859f9fe464b807f852913913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 04/53] fix: assign host objects a reference id when writing
 and reading them

V8 numbers host objects like any other object. Not numbering them made every
reference following a host object (e.g. a Node.js Buffer) wrong, and
duplicated host objects occurring several times.
---
 src/v8serialize/_references.py | 13 ++++++++++++-
 src/v8serialize/decode.py      | 18 ++++++++++++++----
 src/v8serialize/encode.py      |  7 ++++++-
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 63caeb2..ac85b1e 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,7 +86,9 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
-            return self._object_by_serialized_id[serialized_id]
+            value = self._object_by_serialized_id[serialized_id]
+            # throws if not yet set
+            return value.get_value() if isinstance(value, ForwardReference) else value
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
                 "Serialized ID has not been recorded in the log",
@@ -99,6 +101,15 @@ class SerializedObjectLog:
         self._serialized_id_by_pyid[id(obj)] = serialized_id
         return serialized_id
 
+    def reserve_reference(self) -> ForwardReference[object]:
+        """Allocate the next serialized ID for an object that isn't available yet.
+
+        The object cannot be dereferenced until the returned reference is set.
+        """
+        forward_reference: ForwardReference[object] = ForwardReference()
+        self._object_by_serialized_id.append(forward_reference)
+        return forward_reference
+
     @contextmanager
     def record_acyclic_reference(
         self, obj: object, *, error_detail: str | None = None
diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..170759a 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -39,7 +39,11 @@ from v8serialize._pycompat.typing import (
     get_buffer,
     is_readable_binary,
 )
-from v8serialize._references import SerializedId, SerializedObjectLog
+from v8serialize._references import (
+    ForwardReferenceError,
+    SerializedId,
+    SerializedObjectLog,
+)
 from v8serialize._values import AnyJSError as AnyJSError
 from v8serialize._values import ArrayBufferConstructor as ArrayBufferConstructor
 from v8serialize._values import (
@@ -672,7 +676,7 @@ class ReadableTagStream:
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
-        except V8SerializeError as e:
+        except (V8SerializeError, ForwardReferenceError) as e:
             self.throw(
                 "ObjectReference contains serialized ID which has not been "
                 "deserialized",
@@ -822,9 +826,15 @@ class ReadableTagStream:
     ) -> T:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
+        # Reserve the host object's reference before reading its content, in case
+        # the deserializer reads other objects.
+        reference = self.objects.reserve_reference()
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        reference.set_value(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c22d21d..14cb7fc 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -688,8 +688,13 @@ class WritableTagStream:
         self.write_varint(flags)
 
     def write_host_object(
-        self, value: T, *, serializer: HostObjectSerializer[T]
+        self,
+        value: T,
+        *,
+        serializer: HostObjectSerializer[T],
+        identity: object | None = None,
     ) -> None:
+        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From 0baa81b69f9bed71730e37c8ac2304f13307d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 05/53] fix: read and write the string of a String object with
 its own tag

V8 writes a tagged string after the StringObject tag, and expects one when
reading. String objects from V8 could not be read, and V8 rejected ours.
---
 src/v8serialize/decode.py | 11 ++++++++++-
 src/v8serialize/encode.py |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 170759a..53d5977 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -353,6 +353,14 @@ class ReadableTagStream:
             self.throw("Utf8String is not valid UTF-8 data", cause=e)
         return value
 
+    def _read_tagged_string(self) -> str:
+        tag = self.read_tag(tag=JS_STRING_TAGS)
+        if tag is SerializationTag.kOneByteString:
+            return self.read_string_onebyte()
+        elif tag is SerializationTag.kTwoByteString:
+            return self.read_string_twobyte()
+        return self.read_string_utf8()
+
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
@@ -400,7 +408,8 @@ class ReadableTagStream:
                 self.read_bigint(tag=False), tag=SerializationTag.kBigIntObject
             )
         elif tag is SerializationTag.kStringObject:
-            result = JSPrimitiveObject(self.read_string_utf8(tag=False))
+            # The wrapped string has its own tag (since version 12 of the format)
+            result = JSPrimitiveObject(self._read_tagged_string())
         else:
             raise AssertionError(f"Unreachable: {tag}")
         return self.objects.record_reference(result), result
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 14cb7fc..090e669 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -366,7 +366,7 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value, tag=None)
+            self.write_string_utf8(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
-- 
2.43.0


From 313a81aec28ee3d807e58d94f419f1f3b7089ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 06/53] fix: don't deduplicate equal values with different
 JavaScript representations

Deduplication replaced values by any earlier equal value, so for example -0.0
was written as 0 after 0.0, (True,) as a reference to (1,), a fold=1 datetime
as its fold=0 equivalent, and a view as another with a different offset.
---
 src/v8serialize/encode.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 090e669..243c387 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -799,6 +799,35 @@ See Also
 """
 
 
+def _is_interchangeable(a: object, b: object) -> bool:
+    """
+    Whether two equal, hashable values are also the same value when serialized.
+
+    Python considers some values with different JavaScript representations to be
+    equal, e.g. 0.0 and -0.0, or 1 and True.
+    """
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, float):
+        return struct.pack("<d", a) == struct.pack("<d", b)
+    if isinstance(a, tuple):
+        return all(map(_is_interchangeable, a, cast(tuple[object, ...], b)))
+    if isinstance(a, frozenset):
+        a_values = {x: x for x in a}
+        return all(
+            _is_interchangeable(a_values[x], x) for x in cast(frozenset[object], b)
+        )
+    if isinstance(a, datetime):
+        return a.timestamp() == cast(datetime, b).timestamp()
+    if isinstance(a, JSPrimitiveObject):
+        return _is_interchangeable(a.value, cast(JSPrimitiveObject, b).value)
+    if isinstance(a, JSArrayBufferView):
+        return False  # equal views can be of different buffers & offsets
+    return True
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -849,7 +878,9 @@ class DefaultEncodeContext(EncodeContext):
     def deduplicate(self, value: T) -> T:
         if getattr(value, "__hash__", None) is not None:
             try:
-                return self._memoized(value)  # type: ignore[no-any-return]
+                seen: T = self._memoized(value)
+                if _is_interchangeable(seen, value):
+                    return seen
             except Exception:  # when an object nested in value is not hashable
                 pass
         return value
-- 
2.43.0


From 4268b056d1a600c3bd3e21d298ae2e142d70b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 07/53] fix: make ArrayBufferView flags match the backing
 buffer that was written

Views of bytearrays, and of resizable buffers when ResizableArrayBuffers is not
enabled, were flagged as resizable/length-tracking although their buffer was
written as a fixed-length ArrayBuffer, which V8 rejects.
---
 src/v8serialize/encode.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 243c387..c1ae2ea 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -679,11 +679,17 @@ class WritableTagStream:
         # 0 / None when flags.IsBufferResizable
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
+        # These flags must match the type of buffer that's written before the
+        # view. Only JSArrayBuffer is written as a resizable buffer.
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+        backing_buffer = getattr(buffer_view, "backing_buffer", None)
+        if SerializationFeature.ResizableArrayBuffers in self.features and not (
+            isinstance(backing_buffer, (bytes, bytearray, memoryview))
+        ):
+            if buffer_view.is_backing_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From 34d112f2d09f35f239db1eee52c2380fe951bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 08/53] fix: check that all of a resizable ArrayBuffer's data
 is available

The check ran before the max length was read, so truncated data was accepted
as a shorter buffer, leaving the stream positioned after its end.
---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 53d5977..322aa41 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -749,11 +749,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 939b0ffbf1433a3f441c84b182792c0ef9bb854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 09/53] fix: only accept primitive strings as the value of a
 String object

---
 src/v8serialize/decode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 322aa41..052e789 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -359,7 +359,9 @@ class ReadableTagStream:
             return self.read_string_onebyte()
         elif tag is SerializationTag.kTwoByteString:
             return self.read_string_twobyte()
-        return self.read_string_utf8()
+        elif tag is SerializationTag.kUtf8String:
+            return self.read_string_utf8()
+        self.throw(f"Expected a primitive string but found tag {tag.name}")
 
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
-- 
2.43.0


From d7d0cf86d30f350d3e86fbc0dea05023910fc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 10/53] fix: raise DecodeV8SerializeError for invalid RegExp,
 Error and view data

Invalid RegExp flag combinations, truncated error tags and views that don't
fit their buffer raised ValueError, IndexError or JSArrayBufferError.
---
 src/v8serialize/decode.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 052e789..8994612 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -85,6 +85,7 @@ from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId
 from v8serialize.jstypes.jsarray import JSArray
 from v8serialize.jstypes.jsbuffers import (
     JSArrayBuffer,
+    JSArrayBufferError,
     JSArrayBufferTransfer,
     JSDataView,
     JSSharedArrayBuffer,
@@ -423,8 +424,11 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        raw_flags = self.read_varint()
+        try:
+            result = JSRegExp(source, JSRegExpFlag(raw_flags))
+        except (ValueError, OverflowError) as e:
+            self.throw(f"RegExp flags are not valid: {raw_flags}", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
@@ -433,8 +437,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
-            f"(not a valid error tag)"
+            f"Expected an error tag but found {code} (not a valid error tag)"
         )
 
     @overload
@@ -821,14 +824,21 @@ class ReadableTagStream:
         if self.version >= 14:  # flags field was added in v14
             flags = ArrayBufferViewFlags(self.read_varint())
 
-        result = array_buffer_view(
-            buffer=backing_buffer,
-            format=ArrayBufferViewTag(raw_view_tag),
-            byte_offset=byte_offset,
-            byte_length=(
-                None if ArrayBufferViewFlags.IsLengthTracking in flags else byte_length
-            ),
-        )
+        try:
+            result = array_buffer_view(
+                buffer=backing_buffer,
+                format=ArrayBufferViewTag(raw_view_tag),
+                byte_offset=byte_offset,
+                byte_length=(
+                    None
+                    if ArrayBufferViewFlags.IsLengthTracking in flags
+                    else byte_length
+                ),
+            )
+        except JSArrayBufferError as e:
+            self.throw(
+                f"ArrayBufferView is not valid for its buffer: {e.message}", cause=e
+            )
         self.objects.record_reference(result)
         return result
 
-- 
2.43.0


From e70d4c294506063b0343a6a6650c82d0949bfbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 11/53] fix: convert dates exactly and report unrepresentable
 ones as documented

timestamp() * 1000 isn't always a whole number of milliseconds for datetimes
that are, and V8 truncates the fraction (e.g. losing 1ms). Dates far from 1970
gained or lost microseconds when read. Dates a datetime cannot represent
(including Invalid Date) raised bare ValueError, OverflowError or OSError.
---
 src/v8serialize/decode.py | 10 +++++++++-
 src/v8serialize/encode.py | 13 +++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 8994612..933fa89 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -536,7 +536,15 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            # Floats lack the precision for microseconds of all possible dates
+            seconds, ms = divmod(epoch_ms, 1000)
+            seconds, us = divmod(int(seconds) * 10**6 + round(ms * 1000), 10**6)
+            result = datetime.fromtimestamp(seconds, tz=tz).replace(microsecond=us)
+        except (ValueError, OverflowError, OSError) as e:
+            self.throw(
+                f"Date cannot be represented by a Python datetime: {epoch_ms}", cause=e
+            )
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c1ae2ea..144e20d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -8,7 +8,7 @@ from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
 from dataclasses import dataclass, field
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 from functools import lru_cache, partial
 from types import TracebackType
 from typing import (
@@ -82,6 +82,8 @@ if TYPE_CHECKING:
 T = TypeVar("T")
 T_con = TypeVar("T_con", contravariant=True)
 
+_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 
 @dataclass(init=False)
 class EncodeV8SerializeError(V8SerializeError, ValueError):
@@ -426,7 +428,14 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        epoch_ms = value.timestamp() * 1000
+        try:
+            aware_value = value.astimezone() if value.utcoffset() is None else value
+        except (ValueError, OverflowError, OSError) as e:
+            raise EncodeV8SerializeError(
+                f"datetime is out of range in the local timezone: {value!r}"
+            ) from e
+        # Not timestamp() * 1000, that's not always a whole number for whole ms
+        epoch_ms = (aware_value - _EPOCH) / timedelta(milliseconds=1)
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From 17c429d9a06f4c08be8745830995c77ab0a92641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 12/53] fix: report data and values nested too deeply with the
 documented errors

Deeply nested data (a few hundred bytes) made loads() raise RecursionError.
---
 src/v8serialize/decode.py | 5 ++++-
 src/v8serialize/encode.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 933fa89..bfcc11d 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1544,7 +1544,10 @@ class Decoder:
             decode_steps=self.decode_steps,
         )
         ctx.stream.read_header()
-        return ctx.decode_object()
+        try:
+            return ctx.decode_object()
+        except RecursionError as e:
+            ctx.stream.throw("Data is nested too deeply to deserialize", cause=e)
 
 
 @overload
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 144e20d..f16067b 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1259,7 +1259,12 @@ class Encoder:
             encode_steps=self.encode_steps,
         )
         ctx.stream.write_header()
-        ctx.encode_object(value)
+        try:
+            ctx.encode_object(value)
+        except RecursionError as e:
+            raise EncodeV8SerializeError(
+                "Value is nested too deeply to serialize"
+            ) from e
         return ctx.stream.data
 
 
-- 
2.43.0


From a0ae796423acc06e0e105a29f27893fedc00458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 13/53] fix: support strings with unpaired surrogates

JavaScript strings may contain unpaired surrogates. Reading them failed, and
writing them raised a bare UnicodeEncodeError.
---
 src/v8serialize/decode.py |  5 ++++-
 src/v8serialize/encode.py | 22 +++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index bfcc11d..669030a 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -336,7 +336,10 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kTwoByteString)
         length = self.read_varint()
         try:
-            value = codecs.decode(self.read_bytes(length), "utf-16-le")
+            # JavaScript strings can contain unpaired surrogates
+            value = codecs.decode(
+                self.read_bytes(length), "utf-16-le", errors="surrogatepass"
+            )
         except UnicodeDecodeError as e:
             self.pos -= length
             self.throw("TwoByteString is not valid UTF-16 data", cause=e)
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index f16067b..21edcea 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -284,7 +284,8 @@ class WritableTagStream:
             Literal[SerializationTag.kTwoByteString] | None
         ) = SerializationTag.kTwoByteString,
     ) -> None:
-        encoded = value.encode("utf-16-le")
+        # JavaScript strings can contain unpaired surrogates
+        encoded = value.encode("utf-16-le", errors="surrogatepass")
         tag_pos = self.pos
         self.write_tag(tag)
         self.write_varint(len(encoded))
@@ -312,6 +313,13 @@ class WritableTagStream:
         self.write_varint(len(encoded))
         self.data.extend(encoded)
 
+    def _write_string(self, value: str) -> None:
+        """Write a string as UTF-8, or as UTF-16 if it has unpaired surrogates."""
+        try:
+            self.write_string_utf8(value)
+        except UnicodeEncodeError:
+            self.write_string_twobyte(value)
+
     def write_bigint(
         self,
         value: int,
@@ -368,7 +376,7 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value)
+            self._write_string(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
@@ -390,8 +398,8 @@ class WritableTagStream:
     ) -> None:
         self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
-        # We can write any of the string formats here, but just UTF-8 seems fine
-        self.write_string_utf8(regexp.source)
+        # We can write any of the string formats here
+        self._write_string(regexp.source)
         self.write_varint(regexp.flags.canonical)
 
     def write_js_error(
@@ -405,11 +413,11 @@ class WritableTagStream:
         error_message = error.message
         if error_message is not None:
             self.write_varint(SerializationErrorTag.Message)
-            self.write_string_utf8(error_message)
+            self._write_string(error_message)
         stack = error.stack
         if stack is not None:
             self.write_varint(SerializationErrorTag.Stack)
-            self.write_string_utf8(stack)
+            self._write_string(stack)
         cause = error.cause
         if cause is not None:
             self.write_varint(SerializationErrorTag.Cause)
@@ -972,7 +980,7 @@ class TagWriter(EncodeStepObject):
     def serialize_str(
         self, value: str, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_string_utf8(value)
+        ctx.stream._write_string(value)
 
     @encode.register(float)
     def serialize_float(
-- 
2.43.0


From 438688393c9d2aef9558fab921d8085a8d5cc173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 14/53] fix: support jsset_type returning a builtin set, as
 documented

set |= <generator> raises TypeError.
---
 src/v8serialize/decode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 669030a..e05f877 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1303,9 +1303,9 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        # Not |= because builtin set does not support non-Set RHS values
+        for value in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(value)
         return set
 
     def deserialize_js_object(
-- 
2.43.0


From 384cb6bf23aaf81f9ba2d480c9a498d6e68ff32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 15/53] fix: allow setting elements of sparse arrays without
 sorted keys

Setting an element (or a hole) failed with AssertionError when one or no
elements remained after earlier changes invalidated the sorted keys.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..3918064 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -526,11 +526,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
 
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -546,9 +542,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
-- 
2.43.0


From 419aa52bd2b2075f5b3e2e5f5e7266345ac38688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 16/53] fix: keep holes and end positions when extending sparse
 arrays

Appended holes (and trailing holes of iterators) were dropped, shifting later
elements, and inserting at the end raised IndexError; dense arrays differ.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 3918064..abfac2f 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
@@ -573,7 +574,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # As with list, inserting at or after the end appends
+        i = len(self) if i >= len(self) else self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
@@ -591,13 +593,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From 00dfb32dddbddabdfd2da98561c567b662ae1f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 17/53] fix: raise KeyError for the index following the last of
 an elements view

len(array) was passed through to the array, so get() and in raised IndexError.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index abfac2f..875a813 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -656,7 +656,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From 4a6c0c1f3329522fa1bc0b0a2f6f252f9c78749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 18/53] fix: report the first V8 version of an Encoder with no
 features enabled

first_v8_version raised ValueError (max() of an empty sequence).
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 21edcea..c997ba9 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1246,7 +1246,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            f.first_v8_version
+            for f in (SerializationFeature.MaxCompatibility, *self.features)
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From 099ce3a6b2bfab80b23abae2440e3b46058c72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 19/53] fix: support JSObject keys with thousands of decimal
 digits

Python refuses to convert very long digit strings to int, so e.g. loads() raised
ValueError for objects with such keys.
---
 src/v8serialize/jstypes/_normalise_property_key.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..6c78551 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -15,9 +15,13 @@ def canonical_numeric_index_string(value: str) -> int | None:
     """
     # isdecimal includes non-ascii decimal numbers.
     if value.isdecimal() and value.isascii():
-        int_value = int(value)
         # numbers with unnecessary leading zeros are not canonical
-        return None if value[0] == "0" and value != "0" else int_value
+        if value[0] == "0" and value != "0":
+            return None
+        try:
+            return int(value)
+        except ValueError:  # has more digits than sys.get_int_max_str_digits()
+            return None
     return None
 
 
-- 
2.43.0


From 607ee5afeaa4a03c436d3647b67ad11795c21aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 20/53] fix: don't treat mismatched cycles as equal

---
 src/v8serialize/_recursive_eq.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..23b5bc5 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,7 +4,7 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+_RUNNING_EQ_KEYS: Final[dict[tuple[int, int], tuple[int, int]]] = dict()
 
 _T = TypeVar("_T")
 
@@ -49,23 +49,28 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         # If either side already has __eq__ running in the call stack, we must
         # stop recursing, otherwise we'll infinitely loop.
         if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
-            # different structure referencing this point.
-            return self_running and other_running
+            # If both sides are already being compared with each other, we might
+            # be equal (caller decides). If only one side was running, or they
+            # are being compared with something else, we can't be equal, as
+            # there's a different structure referencing this point.
+            return (
+                self_running
+                and other_running
+                and _RUNNING_EQ_KEYS[self_key] == other_key
+            )
 
         # Register these objects as running so that we won't descend into them
         # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
+        _RUNNING_EQ_KEYS[self_key] = other_key
+        _RUNNING_EQ_KEYS[other_key] = self_key
 
         # Allow the type to do its own equality check as normal, descending into
         # children if required.
         try:
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            del _RUNNING_EQ_KEYS[self_key]
+            del _RUNNING_EQ_KEYS[other_key]
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From ba34d7c18cf645992dc6cbd7ec6100f7fc2ad4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 21/53] fix: don't print keys that aren't valid keyword
 arguments as such

---
 src/v8serialize/jstypes/_repr.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..e995f07 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -1,11 +1,13 @@
 from __future__ import annotations
 
 import sys
+import unicodedata
 import warnings
 from _thread import get_ident
 from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
+from keyword import iskeyword
 from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
 
@@ -157,7 +159,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= obj.array.elements_used
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _can_be_kwarg(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -216,7 +218,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= len(obj.array)
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _can_be_kwarg(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -400,6 +402,16 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{repr_[:-1]}…{repr_[-1:]}"
 
 
+def _can_be_kwarg(key: object) -> bool:
+    return (
+        isinstance(key, str)
+        and key.isidentifier()
+        and not iskeyword(key)
+        # Python normalises identifiers in source code
+        and unicodedata.normalize("NFKC", key) == key
+    )
+
+
 def _contains_single_piece(pieces: list[str]) -> bool:
     if len(pieces) != 1:
         return False
-- 
2.43.0


From 1f30c031d9e4e64e6a56351f1c6a5723359ae718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 22/53] fix: include the length of arrays with trailing holes
 in their repr

---
 src/v8serialize/jstypes/_repr.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index e995f07..3626c6f 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -12,7 +12,7 @@ from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
 
 from v8serialize.constants import JSErrorName
-from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
+from v8serialize.jstypes.jsarrayproperties import JSHole, SparseArrayProperties
 from v8serialize.jstypes.jsbuffers import JSArrayBuffer
 
 if TYPE_CHECKING:
@@ -139,7 +139,13 @@ class JSRepr(RecursiveReprMixin, Repr):
         type_name: str = "JSObject",
         maxprops: int | None = None,
     ) -> str:
-        if len(obj) == 0:
+        # An array's length includes trailing holes, but an object has no length
+        has_trailing_hole = (
+            type_name == "JSArray"
+            and len(obj.array) > 0
+            and obj.array[len(obj.array) - 1] is JSHole
+        )
+        if len(obj) == 0 and not has_trailing_hole:
             return f"{type_name}()"
 
         if level <= 0:
@@ -157,6 +163,8 @@ class JSRepr(RecursiveReprMixin, Repr):
             if obj.array.elements_used > maxprops:
                 array_pieces.append(self.fillvalue)
             maxprops -= obj.array.elements_used
+        if has_trailing_hole:
+            array_pieces.append(f"{len(obj.array) - 1!r}: {JSHole!r}")
 
         all_properties_can_be_kwargs = obj.properties and all(
             _can_be_kwarg(k) for k in obj.properties
@@ -194,7 +202,7 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{type_name}({{{props_repr}}})"
 
     def repr_JSArray(self, obj: JSArray, level: int) -> str:
-        if len(obj) == 0:
+        if len(obj) == 0 and len(obj.array) == 0:
             return "JSArray()"
 
         if level <= 0:
-- 
2.43.0


From fa4fe07181f0a88cd4b0dec5381d60cce03b483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 23/53] fix: show the readonly value of buffer views in their
 repr

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..90f9e83 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -636,7 +636,7 @@ the itemsize when the view does not have an explicit byte_length"""
             f"{self.backing_buffer!r}",
             None if self.item_offset == 0 else f"item_offset={self.item_offset!r}",
             None if self.item_length is None else f"item_length={self.item_length!r}",
-            None if self.readonly is None else f"readonly={self.item_length!r}",
+            None if self.readonly is None else f"readonly={self.readonly!r}",
         ]
         args = ", ".join(a for a in arg_pieces if a)
         return f"{type(self).__name__}({args})"
-- 
2.43.0


From afdbbe181ec45fc34833b61a380721a1ca795aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 24/53] fix: show that full resizable buffers are resizable in
 their repr

---
 src/v8serialize/jstypes/_repr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 3626c6f..4fd00c4 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -332,7 +332,10 @@ class JSRepr(RecursiveReprMixin, Repr):
         obj_data_repr: str
         try:
             with memoryview(obj_data) as mv:
-                needs_max_byte_length = mv.nbytes != obj.max_byte_length
+                # Setting max_byte_length is what makes a buffer resizable
+                needs_max_byte_length = (
+                    obj.resizable or mv.nbytes != obj.max_byte_length
+                )
                 needs_readonly = mv.readonly
                 # bytearray() can be repr'd as bytes because the constructor
                 # copies bytes to a bytearray by default.
-- 
2.43.0


From 1018a6c8f5fef1ddf714bc6088407ee14badb523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 25/53] fix: ignore holes left by deleted properties when
 comparing JSObjects

---
 src/v8serialize/jstypes/jsarray.py  |  3 +++
 src/v8serialize/jstypes/jsobject.py | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarray.py b/src/v8serialize/jstypes/jsarray.py
index 27f7a96..6a6735d 100644
--- a/src/v8serialize/jstypes/jsarray.py
+++ b/src/v8serialize/jstypes/jsarray.py
@@ -183,5 +183,8 @@ JavaScript/Reference/Global_Objects/Array
             self.array.extend(properties)
         self.update(kwarg_properties)
 
+    def _array_eq(self, other: JSObject[object], /) -> bool:
+        return self.array == other.array
+
     def __repr__(self) -> str:
         return _repr.js_repr(self)
diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index fef44f8..09ceed2 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -245,7 +245,17 @@ JavaScript/Reference/Global_Objects/Array
             return NotImplemented
         if len(self) != len(other):
             return False
-        return (self.array, self._properties) == (other.array, other._properties)
+        return self._array_eq(other) and self._properties == other._properties
+
+    def _array_eq(self, other: JSObject[object], /) -> bool:
+        # Objects have no length, so holes at the end of the array (e.g. left by
+        # deleted properties) are not significant, unlike in JSArray.
+        array, other_array = self.array, other.array
+        other_length = len(other_array)
+        return array.elements_used == other_array.elements_used and all(
+            i < other_length and array[i] == other_array[i]
+            for i in array.element_indexes()
+        )
 
     if TYPE_CHECKING:
         # Our Mapping key type is str | int. MyPy doesn't allow calling methods
-- 
2.43.0


From b9af635a7f54ed2db511198ca2c3e8fd3ea6427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 26/53] fix: refuse to write views and buffers that would
 result in malformed data

---
 src/v8serialize/encode.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c997ba9..7200989 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -663,7 +663,9 @@ class WritableTagStream:
         self, buffer: AnySharedArrayBuffer, *, identity: object | None = None
     ) -> None:
         if buffer.buffer_id < 0:
-            raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
+            raise EncodeV8SerializeError(
+                f"buffer_id cannot be negative: {buffer.buffer_id=}"
+            )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
         self.write_varint(buffer.buffer_id)
@@ -672,7 +674,9 @@ class WritableTagStream:
         self, buffer: AnyArrayBufferTransfer, *, identity: object | None = None
     ) -> None:
         if buffer.transfer_id < 0:
-            raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
+            raise EncodeV8SerializeError(
+                f"transfer_id cannot be negative: {buffer.transfer_id=}"
+            )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
         self.write_varint(buffer.transfer_id)
@@ -1149,6 +1153,11 @@ class TagWriter(EncodeStepObject):
                     f"{SerializationFeature.Float16Array!r} is not enabled.",
                 )
                 raise e
+        if not isinstance(
+            value.backing_buffer, (BaseJSArrayBuffer, bytes, bytearray, memoryview)
+        ):
+            # Not written as an ArrayBuffer, which must precede the view
+            return next(value)
         ctx.encode_object(value.backing_buffer)
         ctx.stream.write_js_array_buffer_view(value)
 
-- 
2.43.0


From a37f64104da3af4e87ea385bf60c04114f986506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 27/53] fix: raise the documented error for bytes patterns that
 aren't UTF-8

---
 src/v8serialize/jstypes/jsregexp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index d83941f..491b120 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -69,7 +69,14 @@ JavaScript/Reference/Global_Objects/RegExp
         no equivalent JavaScript flag.
         """
         if isinstance(pattern.pattern, bytes):
-            source = pattern.pattern.decode()
+            try:
+                source = pattern.pattern.decode()
+            except UnicodeDecodeError as e:
+                if throw:
+                    raise JSRegExpV8SerializeError(
+                        f"Python bytes re.Pattern is not valid UTF-8: {e}"
+                    ) from e
+                return None
         else:
             source = pattern.pattern
         try:
-- 
2.43.0


From 6f07cdf2e800dfaa5a88d4503caf41598579913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 28/53] fix: write the range of views of inaccessible buffers

---
 src/v8serialize/encode.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 7200989..73a483a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -696,14 +696,22 @@ class WritableTagStream:
         self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferView)
         self.write_varint(buffer_view.view_tag.value)
-        self.write_uint32(buffer_view.byte_offset, tag=None)
+        byte_offset, byte_length = buffer_view.byte_offset, buffer_view.byte_length
+        backing_buffer = getattr(buffer_view, "backing_buffer", None)
+        if isinstance(buffer_view, JSArrayBufferView) and isinstance(
+            backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        ):
+            # Views report that they're empty when their buffer is inaccessible
+            itemsize = buffer_view.data_format.byte_length
+            byte_offset = buffer_view.item_offset * itemsize
+            byte_length = (buffer_view.item_length or 0) * itemsize
+        self.write_uint32(byte_offset, tag=None)
         # 0 / None when flags.IsBufferResizable
-        self.write_uint32(buffer_view.byte_length or 0, tag=None)
+        self.write_uint32(byte_length or 0, tag=None)
 
         # These flags must match the type of buffer that's written before the
         # view. Only JSArrayBuffer is written as a resizable buffer.
         flags = ArrayBufferViewFlags(0)
-        backing_buffer = getattr(buffer_view, "backing_buffer", None)
         if SerializationFeature.ResizableArrayBuffers in self.features and not (
             isinstance(backing_buffer, (bytes, bytearray, memoryview))
         ):
-- 
2.43.0


From 3917f1dc5d26809f92ba7be91d12f94797a5295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 29/53] fix: read memoryviews and arrays with elements other
 than bytes as bytes

---
 src/v8serialize/_pycompat/typing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/_pycompat/typing.py b/src/v8serialize/_pycompat/typing.py
index 2b6126c..2fc9f9a 100644
--- a/src/v8serialize/_pycompat/typing.py
+++ b/src/v8serialize/_pycompat/typing.py
@@ -57,7 +57,11 @@ Can also be any [`BufferSequence`](`v8serialize.BufferSequence`).
 
 def is_readable_binary(buffer: Buffer) -> TypeGuard[ReadableBinary]:
     """Return True if a binary value can be read without wrapping in a `memoryview`."""
-    return isinstance(buffer, (bytes, bytearray, memoryview, array, Sequence))
+    if isinstance(buffer, memoryview):
+        return buffer.format == "B" and buffer.ndim == 1
+    if isinstance(buffer, array):
+        return buffer.typecode == "B"
+    return isinstance(buffer, (bytes, bytearray, Sequence))
 
 
 def get_buffer(
-- 
2.43.0


From eb539a136108bf37ca02fdfa30ed8cc7789643ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 30/53] fix: measure buffer data in bytes when it has larger
 items

---
 src/v8serialize/jstypes/jsbuffers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 90f9e83..cd68c26 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import functools
 import struct
 from abc import ABC, abstractmethod
-from collections.abc import Sized
 from contextlib import AbstractContextManager, contextmanager
 from dataclasses import dataclass, field
 from enum import Enum
@@ -161,8 +160,9 @@ Reference/Global_Objects/ArrayBuffer
             byte_length = byte_length or 0
             data = b"\x00" * byte_length if readonly else bytearray(byte_length)
 
-        assert isinstance(data, Sized)
-        max_byte_length = len(data) if max_byte_length is None else max_byte_length
+        with memoryview(data) as view:  # len(data) may not be in bytes
+            byte_length = view.nbytes
+        max_byte_length = byte_length if max_byte_length is None else max_byte_length
 
         if resizable:
             if not isinstance(data, bytearray):
@@ -177,10 +177,10 @@ Reference/Global_Objects/ArrayBuffer
                 isinstance(data, memoryview) and data.readonly
             )
 
-        if len(data) > max_byte_length:
+        if byte_length > max_byte_length:
             raise ByteLengthJSArrayBufferError(
                 "max_byte_length cannot be less than initial byte_length",
-                byte_length=len(data),
+                byte_length=byte_length,
                 max_byte_length=max_byte_length,
             )
 
-- 
2.43.0


From 8f17187ee73941e28ceee168cb5a5dfc2f15ddd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 31/53] fix: don't write constants where only object keys are
 allowed

---
 src/v8serialize/encode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 73a483a..2d8c610 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -240,6 +240,9 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
+        if self.allowed_tags is not None:
+            self.write_tag(constant)  # constraints don't stack
+            return
         with self.constrain_tags(JS_CONSTANT_TAGS):
             self.write_tag(constant)
 
-- 
2.43.0


From 7b811c38164fced490eeba97cfd119cd58a838e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 32/53] fix: ignore padding between a buffer and its view, as
 V8 does

---
 src/v8serialize/decode.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index e05f877..80e0f56 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -188,15 +188,20 @@ class ReadableTagStream:
         """
         Get the current position as a SerializationTag without advancing position.
 
+        Padding tags are ignored, as with `read_tag()`.
+
         Returns
         -------
         :
-            The SerializationTag if the current byte corresponds to one,
-            otherwise None.
+            The SerializationTag if the current (non-padding) byte corresponds
+            to one, otherwise None.
         """
-        if self.eof:
+        pos = self.pos
+        while pos < len(self.data) and self.data[pos] == SerializationTag.kPadding:
+            pos += 1
+        if pos >= len(self.data):
             return None
-        value = self.data[self.pos]
+        value = self.data[pos]
         if value in SerializationTag:
             return SerializationTag(value)
         return None
-- 
2.43.0


From 343f85588ac7a6035652b66a925cbc497651a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 33/53] fix: refuse buffer and shared object ids that can't be
 read back

---
 src/v8serialize/encode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 2d8c610..a40ab90 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -665,9 +665,9 @@ class WritableTagStream:
     def _write_js_array_buffer_shared(
         self, buffer: AnySharedArrayBuffer, *, identity: object | None = None
     ) -> None:
-        if buffer.buffer_id < 0:
+        if buffer.buffer_id not in UINT32_RANGE:
             raise EncodeV8SerializeError(
-                f"buffer_id cannot be negative: {buffer.buffer_id=}"
+                f"buffer_id must be in {UINT32_RANGE}: {buffer.buffer_id=}"
             )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
@@ -676,9 +676,9 @@ class WritableTagStream:
     def _write_js_array_buffer_transfer(
         self, buffer: AnyArrayBufferTransfer, *, identity: object | None = None
     ) -> None:
-        if buffer.transfer_id < 0:
+        if buffer.transfer_id not in UINT32_RANGE:
             raise EncodeV8SerializeError(
-                f"transfer_id cannot be negative: {buffer.transfer_id=}"
+                f"transfer_id must be in {UINT32_RANGE}: {buffer.transfer_id=}"
             )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
@@ -742,6 +742,10 @@ class WritableTagStream:
     def write_v8_shared_object_reference(
         self, value: V8SharedObjectReference, *, identity: object | None = None
     ) -> None:
+        if value.shared_value_id not in UINT32_RANGE:
+            raise EncodeV8SerializeError(
+                f"shared_value_id must be in {UINT32_RANGE}: {value.shared_value_id=}"
+            )
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kSharedObject)
         self.write_uint32(value.shared_value_id, tag=None)
-- 
2.43.0


From e19e901042542de88c6e4331f4743a3f9cd2d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 34/53] fix: raise the documented error for numbers and lengths
 out of range

---
 src/v8serialize/encode.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index a40ab90..0f8344f 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -227,7 +227,7 @@ class WritableTagStream:
 
     def write_varint(self, n: int) -> None:
         if n < 0:
-            raise ValueError(f"varint must be non-negative: {n}")
+            raise EncodeV8SerializeError(f"varint must be non-negative: {n}")
         while True:
             uint7 = n & 0b1111111
             n >>= 7
@@ -257,8 +257,14 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kDouble] | None = SerializationTag.kDouble,
     ) -> None:
+        try:
+            encoded = struct.pack("<d", value)
+        except OverflowError as e:
+            raise EncodeV8SerializeError(
+                "Python int is too large to represent as a double"
+            ) from e
         self.write_tag(tag)
-        self.data.extend(struct.pack("<d", value))
+        self.data.extend(encoded)
 
     def write_string_onebyte(
         self,
@@ -272,7 +278,7 @@ class WritableTagStream:
         try:
             encoded = value.encode("latin1")
         except UnicodeEncodeError as e:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 "Attempted to encode non-latin1 string in OneByte representation"
             ) from e
         self.write_tag(tag)
@@ -331,7 +337,7 @@ class WritableTagStream:
     ) -> None:
         byte_length = (value.bit_length() + 8) // 8  # round up
         if byte_length.bit_length() > 30:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as JavaScript BigInt: "
                 f"30 bits are available to represent the byte length, but this "
                 f"int needs {byte_length.bit_length()}"
@@ -349,7 +355,7 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
         if value not in INT32_RANGE:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Int32: value must be "
                 f"in {INT32_RANGE}"
             )
@@ -363,7 +369,7 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
         if value not in UINT32_RANGE:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Uint32: value must be "
                 f"in {UINT32_RANGE}"
             )
@@ -576,7 +582,7 @@ class WritableTagStream:
         identity: object | None = None,
     ) -> None:
         if not (0 <= length <= MAX_ARRAY_LENGTH):
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"length must be >= 0 and <= ${MAX_ARRAY_LENGTH_REPR}: {length=}"
             )
         self.objects.record_reference(items if identity is None else identity)
@@ -652,7 +658,7 @@ class WritableTagStream:
         assert buffer.resizable
         with memoryview(buffer.data) as buffer_data:
             if buffer.max_byte_length < len(buffer_data):
-                raise ValueError(
+                raise EncodeV8SerializeError(
                     f"max_byte_length must be >= len(data): "
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
-- 
2.43.0


From d9d1421b7418ebb10cd37a39beb5c9a58e7ea8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 35/53] fix: don't allow wrapper objects as object keys, V8
 can't read them

---
 src/v8serialize/constants.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index d6a12cd..a834dbf 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -672,11 +672,9 @@ ObjectKeyTag = Literal[
     SerializationTag.kInt32,
     SerializationTag.kDouble,
     SerializationTag.kUint32,
-    SerializationTag.kNumberObject,
     SerializationTag.kOneByteString,
     SerializationTag.kTwoByteString,
     SerializationTag.kUtf8String,
-    SerializationTag.kStringObject,
 ]
 
 JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
@@ -686,11 +684,9 @@ JS_OBJECT_KEY_TAGS: Final = TagConstraint[ObjectKeyTag](
             SerializationTag.kInt32,
             SerializationTag.kDouble,
             SerializationTag.kUint32,
-            SerializationTag.kNumberObject,
             SerializationTag.kOneByteString,
             SerializationTag.kTwoByteString,
             SerializationTag.kUtf8String,
-            SerializationTag.kStringObject,
         }
     ),
 )
-- 
2.43.0


From bdf0a65f70e31941d816c8cdd12f88ca784c7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 36/53] fix: report ints too large for a double as documented

---
 src/v8serialize/encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 0f8344f..8479075 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -259,7 +259,7 @@ class WritableTagStream:
     ) -> None:
         try:
             encoded = struct.pack("<d", value)
-        except OverflowError as e:
+        except struct.error as e:
             raise EncodeV8SerializeError(
                 "Python int is too large to represent as a double"
             ) from e
-- 
2.43.0


From 1ac32772737f5541098682c1f1fb4aa3f2638d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 37/53] fix: only write the UnicodeSets RegExp flag when its
 feature is enabled

---
 src/v8serialize/encode.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 8479075..30d478a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -51,6 +51,7 @@ from v8serialize.constants import (
     ArrayBufferViewTag,
     ConstantTags,
     JSErrorName,
+    JSRegExpFlag,
     SerializationErrorTag,
     SerializationFeature,
     SerializationTag,
@@ -405,6 +406,15 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        if (
+            JSRegExpFlag.UnicodeSets in regexp.flags
+            and SerializationFeature.RegExpUnicodeSets not in self.features
+        ):
+            raise FeatureNotEnabledEncodeV8SerializeError(
+                "Cannot write a RegExp with the UnicodeSets flag when the "
+                "RegExpUnicodeSets SerializationFeature is not enabled.",
+                feature_required=SerializationFeature.RegExpUnicodeSets,
+            )
         self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here
-- 
2.43.0


From fd86c94f571da378200ac2c737949fc97e16780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 38/53] fix: allow integers too large for a float as JSMap keys
 and JSSet members

---
 src/v8serialize/jstypes/_equality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..2e4ade9 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if isinstance(value, float) and isnan(value):  # (ints can be too large)
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From 0cb96aa79bd17682d35639f75035b51b12974ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 39/53] fix: don't clear the bytes that a refused DataView
 write was for

---
 src/v8serialize/jstypes/jsbuffers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index cd68c26..88acd6f 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -937,7 +937,9 @@ data in bulk.
                 byte_length=struct.calcsize(struct_format),
                 buffer_byte_length=len(self.buffer),
             )
-        struct.pack_into(struct_format, buffer, byte_offset, *values)
+        # (pack_into() would clear the destination if it fails to pack the values)
+        data = struct.pack(struct_format, *values)
+        buffer[byte_offset : byte_offset + len(data)] = data
 
     def get_bigint64(self, byte_offset: int, little_endian: bool = False) -> int:
         return self.read("<q" if little_endian else ">q", byte_offset)[0]  # type: ignore[no-any-return]
-- 
2.43.0


From e945d82bfeedbe4e755c1162728c1d2c8c93a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 40/53] fix: report every failure to compile a RegExp as a
 Python pattern as JSRegExpV8SerializeError

---
 src/v8serialize/jstypes/jsregexp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index 491b120..30a01ad 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -108,7 +108,14 @@ JavaScript/Reference/Global_Objects/RegExp
         # so some patterns still don't work.
         try:
             return compile(self.source, self.flags.as_python_flags())
-        except (JSRegExpV8SerializeError, re.error) as e:
+        except (
+            JSRegExpV8SerializeError,
+            re.error,
+            # compile() raises these for some patterns, e.g. (?a) with re.UNICODE
+            ValueError,
+            OverflowError,
+            RecursionError,
+        ) as e:
             if throw:
                 raise JSRegExpV8SerializeError(
                     f"JSRegExp is not a valid Python re.Pattern: {e}"
-- 
2.43.0


From 028f9ea43fbc6039e16006576b20633ca9d3d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 41/53] fix: write views of shared and transferred buffers,
 which have no data, as ordinary views instead of empty Node.js host objects

---
 src/v8serialize/extensions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/extensions.py b/src/v8serialize/extensions.py
index ded420b..34bb8f3 100644
--- a/src/v8serialize/extensions.py
+++ b/src/v8serialize/extensions.py
@@ -14,7 +14,9 @@ from v8serialize.constants import ArrayBufferViewTag
 from v8serialize.jstypes.jsbuffers import (
     ArrayBufferViewStructFormat,
     JSArrayBuffer,
+    JSArrayBufferTransfer,
     JSDataView,
+    JSSharedArrayBuffer,
     JSTypedArray,
 )
 
@@ -140,8 +142,13 @@ def serialize_js_array_buffer_views_as_nodejs_host_object(
     `NodeJsArrayBufferViewHostObjectHandler` must be used to read Node.JS's
     custom encoding).
     """
-    if isinstance(value, (JSDataView, JSTypedArray)) and NodeBufferFormat.supports(
-        value.view_tag
+    if (
+        isinstance(value, (JSDataView, JSTypedArray))
+        and NodeBufferFormat.supports(value.view_tag)
+        # The format contains the view's data, which isn't available for these
+        and not isinstance(
+            value.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        )
     ):
         ctx.stream.write_host_object(
             value, serializer=_node_js_array_buffer_view_host_object_handler
-- 
2.43.0


From 71f1097e8c694fb579a053a716fddce560950677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 42/53] fix: keep the microseconds of UTC offsets when reading
 dates

---
 src/v8serialize/decode.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 80e0f56..8658562 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -8,7 +8,7 @@ import struct
 import sys
 from collections.abc import Iterable, Mapping, MutableMapping, MutableSet, Sequence
 from dataclasses import dataclass, field
-from datetime import datetime, tzinfo
+from datetime import datetime, timezone, tzinfo
 from functools import partial
 from types import MappingProxyType
 from typing import (
@@ -548,7 +548,12 @@ class ReadableTagStream:
             # Floats lack the precision for microseconds of all possible dates
             seconds, ms = divmod(epoch_ms, 1000)
             seconds, us = divmod(int(seconds) * 10**6 + round(ms * 1000), 10**6)
-            result = datetime.fromtimestamp(seconds, tz=tz).replace(microsecond=us)
+            if tz is None:
+                result = datetime.fromtimestamp(seconds).replace(microsecond=us)
+            else:
+                # UTC offsets can include microseconds
+                utc = datetime.fromtimestamp(seconds, tz=timezone.utc)
+                result = utc.replace(microsecond=us).astimezone(tz)
         except (ValueError, OverflowError, OSError) as e:
             self.throw(
                 f"Date cannot be represented by a Python datetime: {epoch_ms}", cause=e
-- 
2.43.0


From 6aa02997257255ce34b2591ecfbc89d02f936ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 43/53] fix: report lengths, counts and flags of more than 32
 bits as invalid data

---
 src/v8serialize/decode.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 8658562..d5b68e0 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -308,7 +308,7 @@ class ReadableTagStream:
         @return the header's version number.
         """
         self.read_tag(SerializationTag.kVersion)
-        version = self.read_varint()
+        version = self.read_uint32()
         # v13 was first released in 2017.
         if version > kLatestVersion or version < 13:
             self.throw(f"Unsupported version {version}")
@@ -327,7 +327,7 @@ class ReadableTagStream:
         """Decode a OneByteString, which is latin1-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kOneByteString)
-        length = self.read_varint()
+        length = self.read_uint32()
         self.ensure_capacity(length)
         # Decoding latin1 can't fail/throw — just 1 byte/char.
         # We use codecs.decode because not all ReadableBinary types have a
@@ -339,7 +339,7 @@ class ReadableTagStream:
         """Decode a TwoByteString, which is UTF-16-encoded text."""
         if tag:
             self.read_tag(SerializationTag.kTwoByteString)
-        length = self.read_varint()
+        length = self.read_uint32()
         try:
             # JavaScript strings can contain unpaired surrogates
             value = codecs.decode(
@@ -354,7 +354,7 @@ class ReadableTagStream:
         """Decode a Utf8String, which is UTF8-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kUtf8String)
-        length = self.read_varint()
+        length = self.read_uint32()
         try:
             value = codecs.decode(self.read_bytes(length), "utf-8")
         except UnicodeDecodeError as e:
@@ -375,7 +375,7 @@ class ReadableTagStream:
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
-        bitfield = self.read_varint()
+        bitfield = self.read_uint32()
         is_negative = bitfield & 1
         byte_count = (bitfield >> 1) & 0b111111111111111111111111111111
         value = int.from_bytes(self.read_bytes(byte_count), byteorder="little")
@@ -432,7 +432,7 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        raw_flags = self.read_varint()
+        raw_flags = self.read_uint32()
         try:
             result = JSRegExp(source, JSRegExpFlag(raw_flags))
         except (ValueError, OverflowError) as e:
@@ -441,7 +441,7 @@ class ReadableTagStream:
 
     def read_error_tag(self) -> SerializationErrorTag:
         self.ensure_capacity(1)
-        code = self.read_varint()
+        code = self.read_uint32()
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
@@ -571,7 +571,7 @@ class ReadableTagStream:
         while (next_tag := self.read_tag()) != SerializationTag.kEndJSMap:
             yield ctx.decode_object(tag=next_tag), ctx.decode_object()
             actual_count += 2
-        expected_count = self.read_varint()
+        expected_count = self.read_uint32()
 
         if expected_count != actual_count:
             self.throw(
@@ -592,7 +592,7 @@ class ReadableTagStream:
             yield ctx.decode_object(tag=next_tag)
             actual_count += 1
 
-        expected_count = self.read_varint()
+        expected_count = self.read_uint32()
         if expected_count != actual_count:
             self.throw(
                 f"Expected count does not match actual count after reading "
@@ -639,7 +639,7 @@ class ReadableTagStream:
                     f"{JS_OBJECT_KEY_TAGS}"
                 )
 
-        expected_count = self.read_varint()
+        expected_count = self.read_uint32()
         if expected_count != actual_count:
             self.throw(
                 f"Expected properties count does not match actual count after reading "
@@ -656,7 +656,7 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kBeginDenseJSArray)
         self.objects.record_reference(identity)
         current_array_el_count = 0
-        expected_array_el_count = self.read_varint()
+        expected_array_el_count = self.read_uint32()
 
         for i in range(expected_array_el_count):
             yield i, ctx.decode_object()
@@ -667,7 +667,7 @@ class ReadableTagStream:
             end_tag=SerializationTag.kEndDenseJSArray,
             enclosing_name="DenseJSArray",
         )
-        final_array_el_count = self.read_varint()
+        final_array_el_count = self.read_uint32()
 
         if expected_array_el_count != final_array_el_count:
             self.throw(
@@ -683,7 +683,7 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kBeginSparseJSArray)
         self.objects.record_reference(identity)
-        expected_array_length = self.read_varint()
+        expected_array_length = self.read_uint32()
 
         def read_items() -> Generator[tuple[int | float | str, object], None, int]:
             actual_properties_count = yield from self._read_js_object_properties(
@@ -691,7 +691,7 @@ class ReadableTagStream:
                 end_tag=SerializationTag.kEndSparseJSArray,
                 enclosing_name="SparseJSArray",
             )
-            final_array_length = self.read_varint()
+            final_array_length = self.read_uint32()
             if expected_array_length != final_array_length:
                 self.throw(
                     "Expected array length does not match the final length "
@@ -707,7 +707,7 @@ class ReadableTagStream:
     ) -> tuple[SerializedId, object]:
         if tag:
             self.read_tag(SerializationTag.kObjectReference)
-        serialized_id = SerializedId(self.read_varint())
+        serialized_id = SerializedId(self.read_uint32())
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
@@ -831,7 +831,7 @@ class ReadableTagStream:
     ) -> ViewT:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferView)
-        raw_view_tag = self.read_varint()
+        raw_view_tag = self.read_uint32()
         if raw_view_tag not in ArrayBufferViewTag:
             self.throw(
                 f"ArrayBufferView view type {hex(raw_view_tag)} is not a known type"
@@ -843,7 +843,7 @@ class ReadableTagStream:
         byte_length = self.read_uint32()
         flags = ArrayBufferViewFlags(0)
         if self.version >= 14:  # flags field was added in v14
-            flags = ArrayBufferViewFlags(self.read_varint())
+            flags = ArrayBufferViewFlags(self.read_uint32())
 
         try:
             result = array_buffer_view(
-- 
2.43.0


From 3753a7b002373863d673c2a10e684ca3cfde2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 44/53] fix: give views that are equal the same hash

Views of different types are equal if their items are, but hash() hashed the
bytes (with other formats than bytes it failed), so dicts and sets could hold
two equal views, and not find one by the other.
---
 src/v8serialize/jstypes/jsbuffers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 88acd6f..14cef6f 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -625,7 +625,14 @@ the itemsize when the view does not have an explicit byte_length"""
         try:
             with self.get_buffer_as_memoryview(readonly=True) as data:
                 # data may not be hashable, depending on backing buffer
-                return hash(data)
+                hash(data)
+            # Views of different types are equal if their items are, so it's the
+            # items' hash that matters, not their bytes'. (NaN's isn't stable.)
+            with self.get_buffer(readonly=True) as buffer:
+                items: Any = buffer
+                if isinstance(buffer, DataViewBuffer):
+                    items = buffer.buffer
+                return hash(tuple(x if x == x else None for x in items))
         except NotImplementedError as e:
             raise TypeError(
                 f"cannot hash {type(self).__name__} with inaccessible buffer"
-- 
2.43.0


From 234fe48923ffdeb46024b46af20ef494b7173ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 45/53] fix: don't record objects that are refused as written

A step that writes a string in place of a refused key left the key in the
log, so later references pointed to the wrong objects.
---
 src/v8serialize/encode.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 30d478a..23d80f5 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -380,10 +380,10 @@ class WritableTagStream:
     def write_js_primitive_object(
         self, obj: JSPrimitiveObject, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(obj if identity is None else identity)
         tag = obj.tag
         value = obj.value
         self.write_tag(tag)
+        self.objects.record_reference(obj if identity is None else identity)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
             self._write_string(value)
@@ -415,8 +415,8 @@ class WritableTagStream:
                 "RegExpUnicodeSets SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.RegExpUnicodeSets,
             )
-        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
+        self.objects.record_reference(regexp if identity is None else identity)
         # We can write any of the string formats here
         self._write_string(regexp.source)
         self.write_varint(regexp.flags.canonical)
@@ -463,8 +463,8 @@ class WritableTagStream:
             ) from e
         # Not timestamp() * 1000, that's not always a whole number for whole ms
         epoch_ms = (aware_value - _EPOCH) / timedelta(milliseconds=1)
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_double(epoch_ms, tag=None)
 
     def write_jsmap(
@@ -474,8 +474,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSMap)
+        self.objects.record_reference(items if identity is None else identity)
         count = 0
         for key, value in items:
             ctx.encode_object(key)
@@ -491,8 +491,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(values if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSSet)
+        self.objects.record_reference(values if identity is None else identity)
         count = 0
         for value in values:
             ctx.encode_object(value)
@@ -507,8 +507,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSObject)
+        self.objects.record_reference(items if identity is None else identity)
         self._write_js_object_properties(items, ctx)
 
     def _write_js_object_properties(
@@ -562,8 +562,8 @@ class WritableTagStream:
                     "array and properties are provided"
                 )
             identity = array
-        self.objects.record_reference(identity)
         self.write_tag(SerializationTag.kBeginDenseJSArray)
+        self.objects.record_reference(identity)
         array_length = len(array)
         self.write_varint(array_length)
         array_el_count = 0
@@ -595,8 +595,8 @@ class WritableTagStream:
             raise EncodeV8SerializeError(
                 f"length must be >= 0 and <= ${MAX_ARRAY_LENGTH_REPR}: {length=}"
             )
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginSparseJSArray)
+        self.objects.record_reference(items if identity is None else identity)
         self.write_varint(length)
         self._write_js_object_properties(
             items, ctx, end_tag=SerializationTag.kEndSparseJSArray
@@ -656,8 +656,8 @@ class WritableTagStream:
             not buffer.resizable
             or SerializationFeature.ResizableArrayBuffers not in self.features
         )
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         with memoryview(buffer.data) as buffer_data:
             self.write_uint32(len(buffer_data), tag=None)
             self.data.extend(buffer_data)
@@ -672,8 +672,8 @@ class WritableTagStream:
                     f"max_byte_length must be >= len(data): "
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
-            self.objects.record_reference(buffer if identity is None else identity)
             self.write_tag(SerializationTag.kResizableArrayBuffer)
+            self.objects.record_reference(buffer if identity is None else identity)
             self.write_uint32(len(buffer_data), tag=None)
             self.write_uint32(buffer.max_byte_length, tag=None)
             self.data.extend(buffer_data)
@@ -685,8 +685,8 @@ class WritableTagStream:
             raise EncodeV8SerializeError(
                 f"buffer_id must be in {UINT32_RANGE}: {buffer.buffer_id=}"
             )
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_varint(buffer.buffer_id)
 
     def _write_js_array_buffer_transfer(
@@ -696,8 +696,8 @@ class WritableTagStream:
             raise EncodeV8SerializeError(
                 f"transfer_id must be in {UINT32_RANGE}: {buffer.transfer_id=}"
             )
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_varint(buffer.transfer_id)
 
     def write_js_array_buffer_view(
@@ -712,8 +712,8 @@ class WritableTagStream:
                 "SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.Float16Array,
             )
-        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferView)
+        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_varint(buffer_view.view_tag.value)
         byte_offset, byte_length = buffer_view.byte_offset, buffer_view.byte_length
         backing_buffer = getattr(buffer_view, "backing_buffer", None)
@@ -748,8 +748,8 @@ class WritableTagStream:
         serializer: HostObjectSerializer[T],
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kHostObject)
+        self.objects.record_reference(value if identity is None else identity)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
         else:
@@ -762,8 +762,8 @@ class WritableTagStream:
             raise EncodeV8SerializeError(
                 f"shared_value_id must be in {UINT32_RANGE}: {value.shared_value_id=}"
             )
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kSharedObject)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_uint32(value.shared_value_id, tag=None)
 
 
-- 
2.43.0


From e4ae21210a1e61005830c387924617bf3019459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:05 +0000
Subject: [PATCH 46/53] fix: growing a sparse array's length took time
 proportional to its items

Deserializing an object with ascending integer properties took quadratic time
(40,000 sparse keys took a minute), because SparseArrayProperties.resize() copied
every retained item for each key set.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 875a813..2b8afef 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -450,6 +450,12 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
     def resize(self, length: int) -> None:
         if length < 0 or length > MAX_ARRAY_LENGTH:
             raise ValueError(f"length must be >= 0 and < {MAX_ARRAY_LENGTH_REPR}")
+        if length > self._max_index:
+            # No items are removed. Avoid O(n) work here, as objects grow one index
+            # at a time when integer properties are set in ascending order.
+            self._max_index = length - 1
+            return
+
         items = self._items
         sorted_keys = self._get_sorted_keys()
 
@@ -458,7 +464,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         sorted_keys_after = sorted_keys[:first_removed]
 
         proportion_retained = (
-            1 if len(sorted_keys) == 0 else first_removed / len(sorted_keys) <= 0.5
+            1 if len(sorted_keys) == 0 else first_removed / len(sorted_keys)
         )
         if proportion_retained <= 0.5:
             # copy just the retained elements as there are less kept than removed
-- 
2.43.0


From d478f189ec49e2567019293e287c088477cef45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:59 +0000
Subject: [PATCH 47/53] fix: JSSets with the same NaN were not equal

JSSet equality is documented to work like comparing lists of the members, which
consider an object equal to itself.
---
 src/v8serialize/jstypes/jsset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 611e3ae..46ad294 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -147,7 +147,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
                 return False
             # Two JSSets are equal if they contain equal members in the same order
             return all(
-                x == y
+                x is y or x == y  # same as list elements
                 for x, y in zip(self.__members.values(), other.__members.values())
             )
         if isinstance(other, AbstractSet):
@@ -160,7 +160,9 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             except Exception:
                 # We have an unhashable member. Fall back to comparing the other
                 # items in order, in the same way as if it were a JSSet
-                return all(x == y for x, y in zip(self.__members.values(), other))
+                return all(
+                    x is y or x == y for x, y in zip(self.__members.values(), other)
+                )
             return self_as_set == other
         return NotImplemented
 
-- 
2.43.0


From 10f05b64e44cb391e950c96b22b0d6708bcae9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:23 +0000
Subject: [PATCH 48/53] fix: array buffers over data with items that aren't
 bytes were not equal

---
 src/v8serialize/jstypes/jsbuffers.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 14cef6f..e6bb962 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -189,6 +189,24 @@ Reference/Global_Objects/ArrayBuffer
         object.__setattr__(self, "max_byte_length", max_byte_length)
         object.__setattr__(self, "resizable", resizable)
 
+    def __eq__(self, other: object) -> bool:
+        if self is other:
+            return True
+        if other.__class__ is not self.__class__:
+            return NotImplemented
+        other = cast("JSArrayBuffer[BufferT]", other)
+        if (self.max_byte_length, self.resizable) != (
+            other.max_byte_length,
+            other.resizable,
+        ):
+            return False
+        try:
+            # Compare bytes — the items of our data may not be bytes
+            with get_buffer(self._data) as a, get_buffer(other._data) as b:
+                return a == b
+        except (ValueError, BufferError):  # a buffer is closed or not contiguous
+            return self._data == other._data
+
     def resize(self, byte_length: int) -> None:
         """Resize the buffer, within the `max_byte_length` limit."""
         if not self.resizable:
-- 
2.43.0


From 52d238b14c8b6179d5fba63fa0c7860e5133d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:12 +0000
Subject: [PATCH 49/53] fix: property keys of str subclasses raised
 AssertionError

---
 src/v8serialize/jstypes/_normalise_property_key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index 6c78551..f4d6eb8 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -59,7 +59,7 @@ def normalise_property_key(key: str | int | float) -> str | int:
     if isinstance(key, str):
         int_value = canonical_numeric_index_string(key)
         if int_value is None:
-            return key
+            return str.__str__(key)  # a plain str, also from subclasses like Enums
         key = int_value
 
     if isinstance(key, int) or key.is_integer():
-- 
2.43.0


From 6318334104af0da618938eb124214316d363e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:12 +0000
Subject: [PATCH 50/53] fix: serializing int subclasses took time proportional
 to their value

---
 src/v8serialize/encode.py                    | 1 +
 src/v8serialize/jstypes/jsprimitiveobject.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 23d80f5..deafef2 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -972,6 +972,7 @@ class TagWriter(EncodeStepObject):
     def serialize_int(
         self, value: int, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
+        value = int(value)  # testing if a range contains an int subclass is slow
         if value in UINT32_RANGE:
             ctx.stream.write_uint32(value)
         elif value in INT32_RANGE:
diff --git a/src/v8serialize/jstypes/jsprimitiveobject.py b/src/v8serialize/jstypes/jsprimitiveobject.py
index 17ef3d2..cdb6f5b 100644
--- a/src/v8serialize/jstypes/jsprimitiveobject.py
+++ b/src/v8serialize/jstypes/jsprimitiveobject.py
@@ -70,7 +70,8 @@ class JSPrimitiveObject(Generic[T], metaclass=ABCMeta):
         elif isinstance(value, float):
             expected_tag = SerializationTag.kNumberObject
         elif isinstance(value, int):
-            if value in FLOAT64_SAFE_INT_RANGE:
+            # Testing if a range contains an int subclass is slow
+            if int(value) in FLOAT64_SAFE_INT_RANGE:
                 expected_tag = SerializationTag.kNumberObject
                 expected_tag2 = SerializationTag.kBigIntObject
             else:
-- 
2.43.0


From 943588c204400814b1479eeac5a344e69100ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:31 +0000
Subject: [PATCH 51/53] fix: float Enums used as property keys were not their
 number

---
 src/v8serialize/jstypes/_normalise_property_key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f4d6eb8..d73d676 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -68,4 +68,6 @@ def normalise_property_key(key: str | int | float) -> str | int:
         # Format out-of-range integer floats without decimal point, as JS does
         # not use them for integer numbers.
         key = int(key)
+    else:
+        key = float(key)  # a plain float, also from subclasses like Enums
     return str(key)
-- 
2.43.0


From 3c79caf300a6ba15bf85d2df6318dbfae37270f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 52/53] fix: SyntaxErrors serialized with their location in
 place of their message

---
 src/v8serialize/jstypes/jserror.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index d995b29..8b42f3e 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from abc import ABC
 from dataclasses import dataclass, field
+from itertools import dropwhile
 from traceback import TracebackException
 from typing import TYPE_CHECKING, Final
 
@@ -16,6 +17,8 @@ from v8serialize.jstypes._v8traceback import (
 )
 
 if TYPE_CHECKING:
+    from collections.abc import Iterator
+
     from typing_extensions import Self
 
 
@@ -123,7 +126,11 @@ def _get_message(tbe: TracebackException) -> str | None:
     # error name via the name property, because it has a fixed set of values.
     # The message property is not displayed by V8 runtimes I've tried, they just
     # show the stack string.
-    return next((ln.rstrip() for ln in tbe.format_exception_only()), None)
+    lines: Iterator[str] = tbe.format_exception_only()
+    if hasattr(tbe, "msg"):
+        # SyntaxErrors start with indented lines that show the error's location
+        lines = dropwhile(lambda ln: ln.startswith("  "), lines)
+    return next((ln.rstrip() for ln in lines), None)
 
 
 @recursive_eq
-- 
2.43.0


From bb56b95c4ac451dfbb438ab5cdd69d56ae71944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:09 +0000
Subject: [PATCH 53/53] fix: JSMap couldn't be created with keyword arguments
 named init or self

---
 src/v8serialize/jstypes/jsmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 8348460..aeb4754 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -178,6 +178,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __init__(  # type: ignore[misc]  # mypy doesn't like all the overloads
         self,
         init: SupportsKeysAndGetItem[KT, VT] | Iterable[tuple[KT, VT]] | None = None,
+        /,
         **kwargs: VT,
     ) -> None:
         self.__dict = {}
-- 
2.43.0

